// C12: trait objects, static references and function pointers in other processes.
use crossmist::fns::StaticFn;
use crossmist::{static_ref, FnMutObject, FnObject, FnOnceObject, Object, StaticRef};
use std::any::type_name;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use vh::flav::*;
use vh::kid::*;
use vh::ops::{PodS, Zst};
use vh::run::*;
use vh::src::Src;
use vh::val::Val;
use vh::{ensure, must, start};

// --- traits and implementations
pub trait Tell: Object {
    fn tell(&self, x: u64) -> String;
    fn size(&self) -> (usize, usize) {
        (std::mem::size_of_val(self), std::mem::align_of_val(self))
    }
}
pub trait Named {
    fn name(&self) -> String {
        "default name".to_string()
    }
}
/// Several supertraits, a generic method table
pub trait Multi<T>: Object + Named + Debug + Send {
    fn first(&self, x: T) -> String;
    fn second(&mut self, x: T) -> String;
    fn third(self: Box<Self>) -> String;
}
macro_rules! tell {
    ($t:ty, [$($g:tt)*], $k:expr) => {
        impl<$($g)*> Tell for $t {
            fn tell(&self, x: u64) -> String {
                format!("{} {} {:?} {}", $k, type_name::<$t>(), self, x.wrapping_mul($k))
            }
        }
    };
}
#[derive(Clone, Debug, Object)]
pub struct Unit;
#[derive(Clone, Debug, Object)]
pub struct Unit2;
#[derive(Clone, Debug, Object)]
pub struct One(pub u8);
#[derive(Clone, Debug, Object)]
pub struct Text {
    pub s: String,
    pub n: Vec<u32>,
}
#[derive(Clone, Debug, Object)]
pub struct Pair<A: Object, B: Object>(pub A, pub B);
#[derive(Clone, Debug, Object)]
#[repr(align(64))]
pub struct Aligned(pub u8, pub u64);
#[derive(Clone, Debug, Object)]
pub enum Choice {
    A,
    B(u64),
    C { s: String },
}
#[derive(Clone, Debug, Object)]
pub struct Large(pub [u64; 300]);
#[derive(Object)]
pub struct Nest(pub Vec<Box<dyn Tell>>);
impl Debug for Nest {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for x in &self.0 {
            write!(f, "<{} {:?}>", x.tell(5), x.size())?;
        }
        Ok(())
    }
}
tell!(Unit, [], 3);
tell!(Unit2, [], 5);
tell!(One, [], 7);
tell!(Text, [], 9);
tell!(Aligned, [], 11);
tell!(Choice, [], 13);
tell!(Large, [], 15);
tell!(Nest, [], 17);
tell!(u8, [], 19);
tell!(String, [], 21);
type Bag = (BTreeMap<u8, String>, Vec<Option<u64>>);
tell!(Bag, [], 23);
tell!((), [], 25);
impl<A: Object + Debug, B: Object + Debug> Tell for Pair<A, B> {
    fn tell(&self, x: u64) -> String {
        format!("pair {} {:?} {x}", type_name::<Self>(), self)
    }
}
macro_rules! multi {
    ($t:ty, $k:expr) => {
        impl Multi<u32> for $t {
            fn first(&self, x: u32) -> String {
                format!("first {} {:?} {}", $k, self, x)
            }
            fn second(&mut self, x: u32) -> String {
                format!("second {} {:?} {}", $k, self, x)
            }
            fn third(self: Box<Self>) -> String {
                format!("third {} {:?}", $k, self)
            }
        }
        impl Multi<String> for $t {
            fn first(&self, x: String) -> String {
                format!("first s {} {:?} {}", $k, self, x)
            }
            fn second(&mut self, x: String) -> String {
                format!("second s {} {:?} {}", $k, self, x)
            }
            fn third(self: Box<Self>) -> String {
                format!("third s {} {:?}", $k, self)
            }
        }
    };
}
impl Named for Unit {}
impl Named for One {
    fn name(&self) -> String {
        format!("one {}", self.0)
    }
}
impl Named for Text {
    fn name(&self) -> String {
        format!("text {}", self.s)
    }
}
impl Named for Aligned {}
impl Named for Choice {
    fn name(&self) -> String {
        "choice".to_string()
    }
}
multi!(Unit, 2);
multi!(One, 4);
multi!(Text, 6);
multi!(Aligned, 8);
multi!(Choice, 10);

fn gen_tell(s: &mut Src, d: u32) -> Box<dyn Tell> {
    match s.below(15) {
        0 => Box::new(Unit),
        1 => Box::new(Unit2),
        2 => Box::new(One(Val::gen(s, 1))),
        3 => Box::new(Text { s: Val::gen(s, 1), n: Val::gen(s, 1) }),
        4 => Box::new(Pair(One(Val::gen(s, 1)), Unit)),
        5 => Box::new(Pair(Zst, Zst)),
        6 => Box::new(Pair(String::gen(s, 1), PodS::gen(s, 1))),
        7 => Box::new(Aligned(Val::gen(s, 1), Val::gen(s, 1))),
        8 => Box::new(gen_choice(s)),
        9 => Box::new(Large([s.word(); 300])),
        10 => Box::new(u8::gen(s, 1)),
        11 => Box::new(String::gen(s, 1)),
        12 => Box::new(Bag::gen(s, 2)),
        13 => Box::new(()),
        _ => Box::new(Nest((0..if d == 0 { 0 } else { s.below(4) }).map(|_| gen_tell(s, d - 1)).collect())),
    }
}
fn gen_choice(s: &mut Src) -> Choice {
    match s.below(3) {
        0 => Choice::A,
        1 => Choice::B(Val::gen(s, 1)),
        _ => Choice::C { s: Val::gen(s, 1) },
    }
}
macro_rules! gen_multi {
    ($name:ident, $t:ty) => {
        fn $name(s: &mut Src) -> Box<dyn Multi<$t>> {
            match s.below(5) {
                0 => Box::new(Unit),
                1 => Box::new(One(Val::gen(s, 1))),
                2 => Box::new(Text { s: Val::gen(s, 1), n: Val::gen(s, 1) }),
                3 => Box::new(Aligned(Val::gen(s, 1), Val::gen(s, 1))),
                _ => Box::new(gen_choice(s)),
            }
        }
    };
}
gen_multi!(gen_multi_n, u32);
gen_multi!(gen_multi_s, String);

// --- constants and statics
pub trait Plain: Sync {
    fn say(&self) -> String;
}
impl Plain for u32 {
    fn say(&self) -> String {
        format!("u32 {self}")
    }
}
impl Plain for Unit {
    fn say(&self) -> String {
        "unit".to_string()
    }
}
impl Plain for [u8; 5] {
    fn say(&self) -> String {
        format!("array {self:?}")
    }
}
#[derive(Debug)]
pub struct Conf {
    pub a: u64,
    pub name: &'static str,
    pub op: fn(u64) -> u64,
    pub next: Option<&'static Conf>,
}
fn double(x: u64) -> u64 {
    x.wrapping_mul(2)
}
fn square(x: u64) -> u64 {
    x.wrapping_mul(x)
}
const CONF0: Conf = Conf { a: 1, name: "zero", op: double, next: None };
const CONF1: Conf = Conf { a: 2, name: "one", op: square, next: Some(&CONF0) };
static SCONF: Conf = Conf { a: 3, name: "static", op: square, next: Some(&CONF1) };
static BSS: [u8; 4096] = [0; 4096];
static RO: [u32; 100] = {
    let mut a = [0; 100];
    let mut i = 0;
    while i < 100 {
        a[i] = i as u32 * 7;
        i += 1;
    }
    a
};
static CELL: AtomicU64 = AtomicU64::new(41);
static CELL2: AtomicU64 = AtomicU64::new(42);
static NAMES: [&str; 4] = ["", "a", "bb", "ñandú"];

fn nums(i: u64) -> StaticRef<u32> {
    match i % 6 {
        0 => static_ref!(u32, 0),
        1 => static_ref!(u32, 77),
        2 => static_ref!(u32, 77 * 77),
        n => unsafe { StaticRef::new_unchecked(&RO[[0, 50, 99][n as usize - 3]]) },
    }
}
fn confs(i: u64) -> StaticRef<Conf> {
    match i % 3 {
        0 => static_ref!(Conf, CONF0),
        1 => static_ref!(Conf, CONF1),
        _ => unsafe { StaticRef::new_unchecked(&SCONF) },
    }
}
fn cells(i: u64) -> StaticRef<AtomicU64> {
    unsafe { StaticRef::new_unchecked(if i % 2 == 0 { &CELL } else { &CELL2 }) }
}
fn dyns(i: u64) -> StaticRef<&'static dyn Plain> {
    match i % 4 {
        0 => static_ref!(&'static dyn Plain, &5u32),
        1 => static_ref!(&'static dyn Plain, &6u32),
        2 => static_ref!(&'static dyn Plain, &Unit),
        _ => static_ref!(&'static dyn Plain, b"array"),
    }
}
fn strs(i: u64) -> StaticRef<&'static str> {
    match i % 3 {
        0 => static_ref!(&'static str, "constant"),
        1 => static_ref!(&'static str, ""),
        _ => unsafe { StaticRef::new_unchecked(&NAMES[3]) },
    }
}
fn pages(i: u64) -> StaticRef<u8> {
    unsafe { StaticRef::new_unchecked(&BSS[(i % 4096) as usize]) }
}
fn units(_: u64) -> StaticRef<()> {
    static_ref!((), ())
}

// --- functions
fn generic<T: Val + Default + 'static>(x: u64) -> u64 {
    x ^ type_name::<T>().len() as u64
}
fn fns1(i: u64) -> StaticFn<fn(u64) -> u64> {
    unsafe {
        StaticFn::<fn(u64) -> u64>::new(match i % 7 {
            0 => double,
            1 => square,
            2 => |x| x.wrapping_add(3),
            3 => |x| x.wrapping_sub(5),
            4 => generic::<u8>,
            5 => generic::<String>,
            _ => u64::swap_bytes,
        })
    }
}
fn fns2(i: u64) -> StaticFn<fn(String, u32, u8) -> String> {
    unsafe {
        StaticFn::<fn(String, u32, u8) -> String>::new(match i % 3 {
            0 => |s, a, b| format!("{s} {a} {b}"),
            1 => |s, a, b| s.repeat((a as usize + b as usize) % 3),
            _ => |s, a, b| format!("{b} {a} {s}"),
        })
    }
}
unsafe fn peek(p: *const u64) -> u64 {
    *p
}
unsafe fn peek_not(p: *const u64) -> u64 {
    !*p
}
fn fns3(i: u64) -> StaticFn<unsafe fn(*const u64) -> u64> {
    unsafe { StaticFn::<unsafe fn(*const u64) -> u64>::new(if i % 2 == 0 { peek } else { peek_not }) }
}
fn nothing() {}
fn fns4(_: u64) -> StaticFn<fn()> {
    unsafe { StaticFn::<fn()>::new(nothing) }
}
#[crossmist::func]
fn bound(a: u32, b: String, c: u64) -> String {
    format!("{a} {b} {c}")
}
#[crossmist::func]
fn bound2(b: &mut Vec<u64>, c: u64) -> String {
    b.push(c);
    format!("{b:?}")
}

// --- anything
#[derive(Object)]
pub enum D {
    Tell(Box<dyn Tell>),
    MultiN(Box<dyn Multi<u32>>),
    MultiS(Box<dyn Multi<String>>),
    /// The box of a box of a trait object
    Tell2(Box<Box<dyn Tell>>),
    Num(StaticRef<u32>),
    Conf(StaticRef<Conf>),
    Cell(StaticRef<AtomicU64>),
    Dyn(StaticRef<&'static dyn Plain>),
    Str(StaticRef<&'static str>),
    Page(StaticRef<u8>),
    Unit(StaticRef<()>),
    F1(StaticFn<fn(u64) -> u64>),
    F2(StaticFn<fn(String, u32, u8) -> String>),
    F3(StaticFn<unsafe fn(*const u64) -> u64>),
    F4(StaticFn<fn()>),
    Call(Box<dyn FnObject<(u64,), Output = u64>>),
    CallOnce(Box<dyn FnOnceObject<(u64,), Output = String>>),
    CallMut(Box<dyn FnMutObject<(u64,), Output = String>>),
    Many(Vec<D>),
    Shared(Rc<D>),
    Shared2(Arc<D>),
    Map(BTreeMap<u16, D>),
    Opt(Option<Box<D>>),
    Arr([Box<D>; 2]),
    Data(u64, String),
}
use D::*;
fn off<T>(p: *const T) -> usize {
    (p as usize).wrapping_sub(&CELL as *const _ as usize)
}
impl D {
    /// What it denotes here; `places` also gets offsets from a fixed static.
    fn eval(&mut self, out: &mut Vec<String>, places: &mut Vec<usize>) {
        let mut p = vec![];
        let text = match self {
            Tell(t) => format!("{} {:?}", t.tell(99), t.size()),
            Tell2(t) => format!("{} {:?}", t.tell(98), t.size()),
            MultiN(t) => format!("{} {} {} {:?}", t.name(), t.first(5), t.second(6), t),
            MultiS(t) => format!("{} {} {} {:?}", t.name(), t.first("a".into()), t.second("b".into()), t),
            Num(r) => {
                p.push(off(r.get()));
                format!("{}", **r)
            }
            Conf(r) => {
                p.push(off(r.get()));
                let mut o = String::new();
                let mut c = Some(r.get());
                while let Some(x) = c {
                    o += &format!("{} {} {} / ", x.a, x.name, (x.op)(11));
                    c = x.next;
                }
                o
            }
            Cell(r) => {
                p.push(off(r.get()));
                format!("{}", r.load(Ordering::Relaxed))
            }
            Dyn(r) => {
                p.push(off(r.get()));
                r.say()
            }
            Str(r) => {
                p.push(off(r.get()));
                r.to_string()
            }
            Page(r) => {
                p.push(off(r.get()));
                format!("page {}", **r)
            }
            D::Unit(r) => {
                p.push(off(r.get()));
                format!("{:?}", **r)
            }
            F1(f) => {
                p.push(off(f.get_fn() as *const ()));
                format!("{} {}", f.get_fn()(1234), f.call_object((5,)))
            }
            F2(f) => {
                p.push(off(f.get_fn() as *const ()));
                f.call_object(("s".into(), 70000, 200))
            }
            F3(f) => {
                p.push(off(f.get_fn() as *const ()));
                format!("{}", unsafe { f.get_fn()(&4321) })
            }
            F4(f) => {
                p.push(off(f.get_fn() as *const ()));
                f.get_fn()();
                f.call_object(());
                "nothing".into()
            }
            Call(f) => format!("{} {}", f.call_object((3,)), f.call_object((5,))),
            CallOnce(_) => "once".into(),
            CallMut(f) => {
                let a = f.call_object_mut((7,));
                // keep the state as it was: every process adds the same
                format!("{}", a.len() % 1)
            }
            Many(v) => {
                v.iter_mut().for_each(|x| x.eval(out, places));
                format!("{} of them", v.len())
            }
            Shared(_) | Shared2(_) => "shared".into(),
            Map(m) => {
                let ks: Vec<u16> = m.keys().copied().collect();
                m.values_mut().for_each(|x| x.eval(out, places));
                format!("{ks:?}")
            }
            Opt(o) => {
                if let Some(x) = o {
                    x.eval(out, places);
                }
                "opt".into()
            }
            Arr(a) => {
                a.iter_mut().for_each(|x| x.eval(out, places));
                "arr".into()
            }
            Data(a, b) => format!("{a} {b}"),
        };
        match self {
            Shared(x) => {
                if let Some(x) = Rc::get_mut(x) {
                    x.eval(out, places)
                }
            }
            Shared2(x) => {
                if let Some(x) = Arc::get_mut(x) {
                    x.eval(out, places)
                }
            }
            _ => {}
        }
        out.push(text);
        places.append(&mut p);
    }
    /// Use up: what can be called only once.
    fn last(self, out: &mut Vec<String>) {
        match self {
            CallOnce(f) => out.push(f.call_object_once((8,))),
            MultiN(t) => out.push(t.third()),
            MultiS(t) => out.push(t.third()),
            CallMut(mut f) => out.push(f.call_object_mut((1,))),
            Many(v) => v.into_iter().for_each(|x| x.last(out)),
            Map(m) => m.into_values().for_each(|x| x.last(out)),
            Opt(Some(x)) => x.last(out),
            Arr(a) => a.into_iter().for_each(|x| x.last(out)),
            _ => {}
        }
    }
}
fn gen_d(s: &mut Src, d: u32) -> D {
    match s.below(if d == 0 { 18 } else { 26 }) {
        0 => Data(s.word(), Val::gen(s, 1)),
        1 | 2 => Tell(gen_tell(s, 2)),
        3 => MultiN(gen_multi_n(s)),
        4 => MultiS(gen_multi_s(s)),
        5 => Num(nums(s.below(6))),
        6 => Conf(confs(s.below(3))),
        7 => Cell(cells(s.below(2))),
        8 => Dyn(dyns(s.below(4))),
        9 => Str(strs(s.below(3))),
        10 => Page(pages(s.below(4096))),
        11 => D::Unit(units(0)),
        12 => F1(fns1(s.below(7))),
        13 => F2(fns2(s.below(3))),
        14 => F3(fns3(s.below(2))),
        15 => F4(fns4(0)),
        16 => {
            let n = s.below(4);
            let k: u64 = s.word();
            Call(match n {
                0 => Box::new(fns1(k % 7)),
                1 => crossmist::lambda! { move(k: u64) |x: u64| -> u64 { k ^ x } },
                2 => {
                    let v: Vec<u64> = Val::gen(s, 1);
                    crossmist::lambda! { move(&v: &Vec<u64>) |x: u64| -> u64 { v.iter().fold(x, |a, b| a.wrapping_mul(31).wrapping_add(*b)) } }
                }
                _ => {
                    use crossmist::BindRef;
                    let t = gen_tell(s, 1);
                    Box::new(call_tell.bind_ref(t))
                }
            })
        }
        17 => {
            use crossmist::{BindMut, BindValue};
            if s.flip() {
                let t: (u32, String) = Val::gen(s, 1);
                CallOnce(Box::new(bound.bind_value(t.0).bind_value(t.1)))
            } else {
                let v: Vec<u64> = Val::gen(s, 1);
                CallMut(Box::new(bound2.bind_mut(v)))
            }
        }
        18 => Tell2(Box::new(gen_tell(s, 1))),
        19 | 20 => Many((0..s.len(6)).map(|_| gen_d(s, d - 1)).collect()),
        21 => Shared(Rc::new(gen_d(s, d - 1))),
        22 => Shared2(Arc::new(gen_d(s, d - 1))),
        23 => Map((0..s.len(4)).map(|i| (i as u16 * 300, gen_d(s, d - 1))).collect()),
        24 => Opt(if s.flip() { Some(Box::new(gen_d(s, d - 1))) } else { None }),
        _ => Arr([Box::new(gen_d(s, d - 1)), Box::new(gen_d(s, d - 1))]),
    }
}
#[crossmist::func]
fn call_tell(t: &Box<dyn Tell>, x: u64) -> u64 {
    t.tell(x).len() as u64
}

#[derive(Object, Debug, Default)]
pub struct Seen {
    pub texts: Vec<String>,
    pub places: Vec<usize>,
    pub base: usize,
    pub pid: u32,
}
fn look(v: &mut [D]) -> Seen {
    let mut s = Seen { base: &CELL as *const _ as usize, pid: std::process::id(), ..Default::default() };
    for x in v {
        x.eval(&mut s.texts, &mut s.places);
    }
    s
}
/// How to go on: each element is a way of starting a process (0-5), or a channel within the process (6-8).
type Report = (Vec<D>, Vec<Seen>);
fn go_on(mut v: Vec<D>, mut plan: Vec<u8>) -> Report {
    let mut seen = vec![look(&mut v)];
    if plan.is_empty() {
        return (v, seen);
    }
    let how = plan.remove(0);
    let r = if how >= 6 {
        let fl = FLS[how as usize - 6];
        let v = drive(fl, async {
            let (mut tx, mut rx) = channel::<Vec<D>>(fl).expect("HARNESS channel");
            // both sides at once, because the message may not fit into the socket
            if let (Tx::B(x), Rx::B(y)) = (&mut tx, &mut rx) {
                let h = Hand((x, &v));
                std::thread::scope(|t| {
                    t.spawn(move || {
                        let (x, v) = h.get();
                        x.send(v).expect("send")
                    });
                    y.recv().expect("recv").expect("value")
                })
            } else {
                let (s, r) = futures_lite::future::zip(tx.send(&v), rx.recv()).await;
                s.expect("send");
                r.expect("recv").expect("value")
            }
        });
        go_on(v, plan)
    } else {
        drive(how_fl(how as usize), async move { start!(how as usize, hop, v, plan).expect("start").join().await.expect("join") })
    };
    seen.extend(r.1);
    (r.0, seen)
}
#[crossmist::func]
fn hop(v: Vec<D>, plan: Vec<u8>) -> Report {
    mark("hop");
    go_on(v, plan)
}

fn compare(what: &str, want: &Seen, got: &Seen) -> Res {
    for (i, (a, b)) in want.texts.iter().zip(&got.texts).enumerate() {
        let (mut x, mut y) = (a.clone(), b.clone());
        if x.len() > 300 {
            x = x.chars().take(300).collect();
            y = y.chars().take(300).collect();
        }
        ensure!(a == b, "{what}: part {i} says {y:?} instead of {x:?}");
    }
    ensure!(want.texts.len() == got.texts.len(), "{what}: {} parts instead of {}", got.texts.len(), want.texts.len());
    ensure!(want.places == got.places, "{what}: places {:x?} instead of {:x?} (relative to the program)", got.places, want.places);
    Ok(())
}
pub fn case(c: &mut Ctx) -> Res {
    let n = 1 + c.s.len(6);
    let from = c.s.at();
    let mut v: Vec<D> = (0..n).map(|_| gen_d(&mut c.s, 3)).collect();
    let mut twin: Vec<D> = {
        let mut s = c.s.again(from);
        (0..n).map(|_| gen_d(&mut s, 3)).collect()
    };
    // one look less at the state of what is called
    let steps = match c.s.below(8) {
        0 | 1 | 2 => 1,
        3 | 4 => 2,
        5 => 3,
        6 => 0,
        _ => 4,
    };
    let plan: Vec<u8> = (0..steps).map(|_| c.s.below(9) as u8).collect();
    let first = c.s.below(3) as usize;
    let want = look(&mut twin);
    c.note(|| format!("{n} objects of {} parts, started by {}, then by {plan:?}: {:?}", want.texts.len(), HOWS[first], want.texts));
    let (mut w, seen) = drive(FLS[first], async {
        let k = start!(first, hop, std::mem::take(&mut v), plan.clone());
        let k = must!(k, "{}", HOWS[first]);
        Ok(must!(k.join().await, "join of the child"))
    })?;
    ensure!(seen.len() == plan.len() + 1, "{} looks instead of {}", seen.len(), plan.len() + 1);
    for (i, s) in seen.iter().enumerate() {
        compare(&format!("after hop {i}"), &want, s)?;
    }
    ensure!(seen[0].pid != std::process::id(), "not run in another process");
    if seen.iter().any(|s| s.base != want.base) {
        c.nontrivial();
    } else {
        c.label("same base");
    }
    let back = look(&mut w);
    compare("back", &want, &back)?;
    // the state added by the looks in the processes
    for _ in 0..seen.len() + 1 - 1 {
        look(&mut twin);
    }
    let (mut a, mut b) = (vec![], vec![]);
    twin.into_iter().for_each(|x| x.last(&mut a));
    w.into_iter().for_each(|x| x.last(&mut b));
    ensure!(a == b, "the last calls gave {b:?} instead of {a:?}");
    ensure!(!vh::util::any_child(), "a child remains");
    Ok(())
}
