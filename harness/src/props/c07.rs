// C07: functions of many signatures started in child processes in every way, compared with a direct call.
use crossmist::{BindValue, FnMutObject, FnObject, Object};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use vh::flav::*;
use vh::hand::*;
use vh::kid::*;
use vh::msg::Blob;
use vh::ops::{PodS, Zst};
use vh::run::*;
use vh::util::*;
use vh::val::*;
use vh::{ensure, must, start, violated};

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
/// A child which was started: its process, and what is left to be checked.
pub struct Pending {
    pid: Option<i32>,
    check: Fut<Res>,
}
/// What is going to be started.
pub struct Prepared {
    name: &'static str,
    /// Marks which the child (and its children) must leave, each once
    marks: usize,
    /// The body is able to end its process instead of returning, and the check copes with that
    may_end: bool,
    go: Box<dyn FnOnce(usize) -> Fut<Res<Pending>>>,
}
fn pending<T: Object + 'static>(name: &'static str, kid: Kid<T>, check: impl FnOnce(T) -> Res + 'static) -> Pending {
    Pending {
        pid: kid.id(),
        check: Box::pin(async move {
            let r = kid.join().await;
            let end = END.lock().unwrap().filter(|e| e.0 == name).map(|e| e.1);
            match end {
                None => check(must!(r, "joining {name}")),
                // Leaving with status 0 is what a function without result does
                Some("exit0") if std::any::TypeId::of::<T>() == std::any::TypeId::of::<()>() => Ok(()),
                Some(end) => {
                    ensure!(r.is_err(), "{name} gave a result although its process ended by {end} at the start of the body");
                    Ok(())
                }
            }
        }),
    }
}
/// The function whose processes end at the start of the body in this case, and how
static END: std::sync::Mutex<Option<(&'static str, &'static str)>> = std::sync::Mutex::new(None);
fn same<T: Val>(name: &'static str, expect: T) -> impl FnOnce(T) -> Res {
    move |v| {
        ensure!(expect.same(&v), "{name}: a direct call gives {expect:?}, the child gave {v:?}");
        Ok(())
    }
}

macro_rules! entry {
    ($name:ident, $d:expr, |$c:ident| $before:block, ($($a:ident: $t:ty),*), $r:ty, $direct:expr) => {
        pub fn entry($c: &mut Ctx) -> Prepared {
            #[allow(unused_variables)]
            let (d, at) = ($d, $c.s.at());
            $before
            $(let $a = <$t as Val>::gen(&mut $c.s, d);)*
            $c.note(|| format!(concat!(stringify!($name), "({})"), Vec::<String>::from([$(format!("{:?}", $a)),*]).join(", ")));
            #[allow(unused_mut, unused_variables)]
            let mut again = $c.s.again(at);
            let expect: $r = {
                $(let $a = <$t as Val>::gen(&mut again, d);)*
                $direct
            };
            Prepared {
                name: stringify!($name),
                marks: 1,
                may_end: true,
                go: Box::new(move |how| Box::pin(async move {
                    let kid: Kid<$r> = must!(start!(how, remote, $($a),*), "{} of {}", HOWS[how], stringify!($name));
                    Ok(pending(stringify!($name), kid, same(stringify!($name), expect)))
                })),
            }
        }
    };
}
macro_rules! func {
    ($name:ident($($a:ident: $t:ty),*) -> $r:ty $body:block) => { func!{ $name[3]($($a: $t),*) -> $r $body } };
    ($name:ident[$d:expr]($($a:ident: $t:ty),*) -> $r:ty $body:block) => {
        pub mod $name {
            use super::*;
            pub fn plain($($a: $t),*) -> $r $body
            #[crossmist::func]
            pub fn remote($($a: $t),*) -> $r {
                mark(stringify!($name));
                plain($($a),*)
            }
            entry!($name, $d, |c| {}, ($($a: $t),*), $r, plain($($a),*));
        }
    };
    (tokio $name:ident($($a:ident: $t:ty),*) -> $r:ty $body:block) => {
        pub mod $name {
            use super::*;
            pub async fn plain($($a: $t),*) -> $r $body
            #[crossmist::func(tokio(flavor = "current_thread"))]
            pub async fn remote($($a: $t),*) -> $r {
                mark(stringify!($name));
                plain($($a),*).await
            }
            entry!($name, 3, |c| {}, ($($a: $t),*), $r, drive(Fl::T, plain($($a),*)));
        }
    };
    (smol $name:ident($($a:ident: $t:ty),*) -> $r:ty $body:block) => {
        pub mod $name {
            use super::*;
            pub async fn plain($($a: $t),*) -> $r $body
            #[crossmist::func(smol)]
            pub async fn remote($($a: $t),*) -> $r {
                mark(stringify!($name));
                plain($($a),*).await
            }
            entry!($name, 3, |c| {}, ($($a: $t),*), $r, drive(Fl::S, plain($($a),*)));
        }
    };
}

// Arities, with arguments of one type and of different types
func! { nothing() -> () {} }
func! { constant() -> u64 { 0x1234_5678_9abc_def0 } }
func! { text() -> String { "constant text".repeat(3) } }
func! { one(a: V) -> V { a } }
func! { swap(a: V, b: V) -> (V, V) { (b, a) } }
func! { minus(a: i64, b: i64) -> i64 { a.wrapping_mul(3).wrapping_sub(b) } }
func! { three(a: V, b: V, c: V) -> Vec<V> { vec![a, b, c] } }
func! { cat(a: String, b: String, c: String) -> String { format!("{a}|{b}|{c}") } }
func! { seven(a: u8, b: String, c: i64, d: Vec<u16>, e: bool, f: Option<char>, g: V) -> (u8, String, i64, Vec<u16>, bool, Option<char>, V) { (a, b, c, d, e, f, g) } }
func! { ten(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32, i: u32, j: u32) -> Vec<u32> { vec![a, b, c, d, e, f, g, h, i, j] } }
func! { fourteen[1](a: u8, b: String, c: i64, d: K, e: f64, f: Option<u32>, g: (), h: char, i: K, j: u8, k: String, l: i64, m: bool, n: V)
    -> Big<(u8, String, i64, K, f64, Option<u32>, (), char, K, u8, String, i64, bool, V)> { Big((a, b, c, d, e, f, g, h, i, j, k, l, m, n)) } }
func! { twenty[0](a: u64, b: u64, c: u64, d: u64, e: String, f: u64, g: u64, h: u64, i: u64, j: u64, k: u8, l: u64, m: u64, n: u64, o: u64, p: u64, q: u64, r: K, s: u64, t: u64)
    -> Big<(u64, u64, u64, u64, String, u64, u64, u64, u64, u64, u8, u64, u64, u64, u64, u64, u64, K, u64, u64)> {
    Big((a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t))
} }
// Results of particular types
func! { unit_after(a: u64) -> () { std::hint::black_box(a); } }
func! { maybe_unit(a: bool) -> Option<()> { a.then_some(()) } }
func! { empty_array(a: u8) -> [u64; 0] { std::hint::black_box(a); [] } }
func! { zst(a: PodS) -> Zst { std::hint::black_box(a); Zst } }
func! { res(a: bool, v: V, e: String) -> Result<V, String> { if a { Ok(v) } else { Err(e) } } }
func! { res_unit(a: bool, e: String) -> Result<(), String> { if a { Ok(()) } else { Err(e) } } }
func! { opt_box(a: u64) -> Option<Box<u64>> { a.checked_sub(1 << 60).map(Box::new) } }
func! { ph(a: u16) -> std::marker::PhantomData<String> { std::hint::black_box(a); std::marker::PhantomData } }
func! { maps(a: HashMap<String, K>, b: BTreeMap<i8, V>) -> (usize, HashMap<String, K>, BTreeMap<i8, V>) { (a.len() + b.len(), a, b) } }
func! { paths(a: PathBuf, b: std::ffi::OsString, c: std::ffi::CString) -> (std::ffi::CString, PathBuf, std::ffi::OsString) { (c, a, b) } }
func! { nested(a: Vec<Option<Result<String, Box<[u32]>>>>) -> Vec<Option<Result<String, Box<[u32]>>>> { a.into_iter().rev().collect() } }
func! { blob(a: Blob<100000>, i: u16) -> (u8, Blob<65536>) { let mut b = [0; 65536]; b.copy_from_slice(&a.0[17..65536 + 17]); (a.0[i as usize], Blob(b)) } }
func! { small_blobs(a: Blob<1>, b: Blob<16376>, c: Blob<7>) -> (Blob<7>, Blob<1>, Blob<16376>) { (c, a, b) } }
func! { shared(a: Rc<K>, n: u8) -> (bool, usize) { let v = vec![a; n as usize]; (v.iter().all(|x| Rc::ptr_eq(x, &v[0])), v.len()) } }
func! { arcs(a: Arc<V>) -> Vec<Arc<V>> { vec![a.clone(), a] } }
// Generic functions
pub mod generic_id {
    use super::*;
    pub fn plain<T: Object + 'static>(a: T) -> (u8, T) {
        (std::mem::size_of::<T>() as u8, a)
    }
    #[crossmist::func]
    pub fn remote<T: Object + 'static>(a: T) -> (u8, T) {
        mark("generic_id");
        plain(a)
    }
    pub mod of_v {
        use super::*;
        entry!(generic_id, 3, |c| {}, (a: V), (u8, V), plain(a));
    }
    pub mod of_u16 {
        use super::*;
        entry!(generic_id, 3, |c| {}, (a: u16), (u8, u16), plain(a));
    }
    pub mod of_unit {
        use super::*;
        entry!(generic_id, 3, |c| {}, (a: ()), (u8, ()), plain(a));
    }
}
/// The result of a generic function is the unit type or not, depending on the type argument.
pub mod generic_ret {
    use super::*;
    pub fn plain<T: Object + 'static>(a: T) -> T {
        a
    }
    #[crossmist::func]
    pub fn remote<T: Object + 'static>(a: T) -> T {
        mark("generic_ret");
        plain(a)
    }
    pub mod of_unit {
        use super::*;
        entry!(generic_ret, 3, |c| {}, (a: ()), (), plain(a));
    }
    pub mod of_zst {
        use super::*;
        entry!(generic_ret, 3, |c| {}, (a: Zst), Zst, plain(a));
    }
    pub mod of_string {
        use super::*;
        entry!(generic_ret, 3, |c| {}, (a: String), String, plain(a));
    }
    pub mod of_nested {
        use super::*;
        entry!(generic_ret, 3, |c| {}, (a: Vec<Option<()>>), Vec<Option<()>>, plain(a));
    }
}
pub mod generic_swap {
    use super::*;
    pub fn plain<T: Object + 'static, U: Object + Default + 'static, W: std::ops::Add<Output = W> + Object + 'static>(a: T, b: U, x: W, y: W) -> (W, U, T, U) {
        (x + y, b, a, U::default())
    }
    #[crossmist::func]
    pub fn remote<T: Object + 'static, U: Object + Default + 'static, W: std::ops::Add<Output = W> + Object + 'static>(a: T, b: U, x: W, y: W) -> (W, U, T, U) {
        mark("generic_swap");
        plain(a, b, x, y)
    }
    pub mod first {
        use super::*;
        entry!(generic_swap, 3, |c| {}, (a: V, b: String, x: f64, y: f64), (f64, String, V, String), plain(a, b, x, y));
    }
    pub mod second {
        use super::*;
        entry!(generic_swap, 3, |c| {}, (a: u8, b: Vec<u64>, x: f32, y: f32), (f32, Vec<u64>, u8, Vec<u64>), plain(a, b, x, y));
    }
}
pub mod generic_async {
    use super::*;
    pub async fn plain<T: Object + 'static, U: Object + 'static>(a: T, b: U) -> (U, T) {
        ::tokio::task::yield_now().await;
        (b, a)
    }
    #[crossmist::func(tokio(flavor = "current_thread"))]
    pub async fn remote<T: Object + 'static, U: Object + 'static>(a: T, b: U) -> (U, T) {
        mark("generic_async");
        plain(a, b).await
    }
    pub mod first {
        use super::*;
        entry!(generic_async, 3, |c| {}, (a: V, b: u8), (u8, V), drive(Fl::T, plain(a, b)));
    }
    pub mod second {
        use super::*;
        entry!(generic_async, 3, |c| {}, (a: (), b: String), (String, ()), drive(Fl::T, plain(a, b)));
    }
}
pub mod generic_smol {
    use super::*;
    pub async fn plain<T: Object + 'static>(a: T) -> T {
        futures_lite::future::yield_now().await;
        a
    }
    #[crossmist::func(smol)]
    pub async fn remote<T: Object + 'static>(a: T) -> T {
        mark("generic_smol");
        plain(a).await
    }
    pub mod first {
        use super::*;
        entry!(generic_smol, 3, |c| {}, (a: V), V, drive(Fl::S, plain(a)));
    }
    pub mod second {
        use super::*;
        entry!(generic_smol, 3, |c| {}, (a: ()), (), drive(Fl::S, plain(a)));
    }
}
// Async functions
func! { tokio t_unit() -> () { ::tokio::time::sleep(std::time::Duration::from_micros(300)).await; } }
func! { tokio t_three(a: V, b: String, c: u64) -> (u64, V, String) { ::tokio::task::yield_now().await; (c, a, b) } }
func! { tokio t_tasks(a: Vec<u64>) -> Vec<u64> {
    let hs: Vec<_> = a.into_iter().map(|x| ::tokio::spawn(async move { ::tokio::task::yield_now().await; x.wrapping_mul(7) })).collect();
    let mut out = vec![];
    for h in hs { out.push(h.await.unwrap()); }
    out
} }
func! { tokio t_chan(a: Vec<u16>) -> u64 {
    let (mut tx, mut rx) = crossmist::tokio::channel::<u16>().unwrap();
    let n = a.len();
    let h = ::tokio::spawn(async move { for x in a { tx.send(&x).await.unwrap(); } });
    let mut s = n as u64;
    while let Some(x) = rx.recv().await.unwrap() { s = s.wrapping_mul(31) + x as u64; }
    h.await.unwrap();
    s
} }
func! { smol s_unit() -> () { async_io::Timer::after(std::time::Duration::from_micros(300)).await; } }
func! { smol s_three(a: V, b: String, c: u64) -> (u64, V, String) { futures_lite::future::yield_now().await; (c, a, b) } }
func! { smol s_chan(a: Vec<u16>) -> u64 {
    let (mut tx, mut rx) = crossmist::smol::channel::<u16>().unwrap();
    let n = a.len();
    let send = async move { for x in a { tx.send(&x).await.unwrap(); } };
    let recv = async move {
        let mut s = n as u64;
        while let Some(x) = rx.recv().await.unwrap() { s = s.wrapping_mul(31) + x as u64; }
        s
    };
    futures_lite::future::zip(send, recv).await.1
} }
// Functions in unusual places
pub mod deep {
    use super::*;
    pub fn inner_entry(c: &mut Ctx) -> Prepared {
        mod inside {
            use super::*;
            pub fn plain(a: u16, b: String) -> String {
                format!("{b}{a}")
            }
            #[crossmist::func]
            pub(crate) fn remote(a: u16, b: String) -> String {
                mark("inner_entry");
                plain(a, b)
            }
            entry!(inner_entry, 3, |c| {}, (a: u16, b: String), String, plain(a, b));
        }
        inside::entry(c)
    }
    /// Two functions of the same name in different scopes
    pub fn twin_a(c: &mut Ctx) -> Prepared {
        fn plain(a: u64) -> u64 {
            a ^ 1
        }
        #[crossmist::func]
        fn remote(a: u64) -> u64 {
            mark("twin_a");
            a ^ 1
        }
        entry!(twin_a, 3, |c| {}, (a: u64), u64, plain(a));
        entry(c)
    }
    pub fn twin_b(c: &mut Ctx) -> Prepared {
        fn plain(a: u64) -> u64 {
            a ^ 2
        }
        #[crossmist::func]
        fn remote(a: u64) -> u64 {
            mark("twin_b");
            a ^ 2
        }
        entry!(twin_b, 3, |c| {}, (a: u64), u64, plain(a));
        entry(c)
    }
}

// Arguments and results with handles
#[crossmist::func]
fn handles(n: u64, m: HM, t: String) -> (Vec<String>, u64, HM, String) {
    mark("handles");
    (m.describe(), n, m, t)
}
#[crossmist::func(tokio(flavor = "current_thread"))]
async fn handles_tokio(n: u64, m: HM, t: String) -> (Vec<String>, u64, HM, String) {
    mark("handles");
    ::tokio::task::yield_now().await;
    (m.describe(), n, m, t)
}
#[crossmist::func(smol)]
async fn handles_smol(n: u64, m: HM, t: String) -> (Vec<String>, u64, HM, String) {
    mark("handles");
    futures_lite::future::yield_now().await;
    (m.describe(), n, m, t)
}
fn entry_handles(c: &mut Ctx, which: usize) -> Prepared {
    let mut m = Maker { no_tokio: which != 1, ..Maker::default() };
    let max = if c.s.chance(1, 3) { 560 } else { 40 };
    let v = gen_hm(c, &mut m, max, 40_000);
    m.settle();
    let (n, t) = (c.s.word(), String::gen(&mut c.s, 1));
    let desc = v.describe();
    let count = v.fds().len();
    c.note(|| format!("handles({which}): {count} handles: {:?}", desc.iter().take(8).collect::<Vec<_>>()));
    c.label("handles in arguments and result");
    Prepared {
        name: "handles",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let t2 = t.clone();
                let r = match which {
                    0 => start!(how, handles, n, v, t2),
                    1 => start!(how, handles_tokio, n, v, t2),
                    _ => start!(how, handles_smol, n, v, t2),
                };
                let kid = must!(r, "{} of handles({which}) with {count} handles", HOWS[how]);
                Ok(pending("handles", kid, move |(d, n2, v, t2)| {
                    let _keep = m;
                    if let Some(x) = diff(&desc, &d) {
                        violated!("the child saw a wrong value or handle: {x}");
                    }
                    v.check(&desc, &[])?;
                    ensure!(n == n2 && t == t2, "the other arguments differ: {n} {n2} {t:?} {t2:?}");
                    Ok(())
                }))
            })
        }),
    }
}
// Endpoints
#[crossmist::func]
fn make_channel(k: u8, seed: u64) -> (u8, crossmist::Receiver<(u8, u64)>) {
    mark("make_channel");
    let (mut tx, rx) = crossmist::channel().unwrap();
    for i in 0..k {
        tx.send(&(i, seed ^ i as u64)).unwrap();
    }
    (k, rx)
}
fn entry_make_channel(c: &mut Ctx) -> Prepared {
    let (k, seed) = (c.s.below(20) as u8, c.s.word());
    c.note(|| format!("make_channel({k})"));
    Prepared {
        name: "make_channel",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let kid = must!(start!(how, make_channel, k, seed), "{} of make_channel", HOWS[how]);
                Ok(pending("make_channel", kid, move |(k2, mut rx)| {
                    ensure!(k == k2, "wrong result {k2}, not {k}");
                    for i in 0..k {
                        let m = must!(rx.recv(), "receiving from the channel which the child returned");
                        ensure!(m == Some((i, seed ^ i as u64)), "message {i} is {m:?}");
                    }
                    let m = must!(rx.recv(), "receiving from the channel which the child returned");
                    ensure!(m.is_none(), "{m:?} instead of the end of the channel");
                    Ok(())
                }))
            })
        }),
    }
}
#[crossmist::func]
fn serve(mut d: crossmist::Duplex<(u32, u64), Vec<u64>>, factor: u64) -> u32 {
    mark("serve");
    let mut n = 0;
    while let Some(v) = d.recv().unwrap() {
        n += 1;
        d.send(&(n, v.iter().fold(factor, |a, x| a.wrapping_mul(31).wrapping_add(*x)))).unwrap();
    }
    n
}
fn entry_serve(c: &mut Ctx) -> Prepared {
    let k = c.s.urange(0, 6);
    let qs: Vec<Vec<u64>> = (0..k).map(|_| Vec::gen(&mut c.s, 2)).collect();
    let factor = c.s.word();
    c.note(|| format!("serve: {k} requests"));
    Prepared {
        name: "serve",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let (mut mine, theirs) = must!(crossmist::duplex::<Vec<u64>, (u32, u64)>(), "duplex");
                // `run` does not return until the child does, so talk to it from a thread
                let talk = std::thread::spawn(move || -> Res {
                    for (i, q) in qs.iter().enumerate() {
                        let a = must!(mine.request(q), "request {i}");
                        let e = (i as u32 + 1, q.iter().fold(factor, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
                        ensure!(a == e, "request {i} gave {a:?}, not {e:?}");
                    }
                    Ok(())
                });
                let kid = must!(start!(how, serve, theirs, factor), "{} of serve", HOWS[how]);
                Ok(pending("serve", kid, move |n| {
                    talk.join().unwrap()?;
                    ensure!(n as usize == k, "the child answered {n} requests of {k}");
                    Ok(())
                }))
            })
        }),
    }
}
// Callables as arguments and results
#[crossmist::func]
fn combine(a: u64, b: u32, c: u64) -> u64 {
    a.wrapping_mul(1_000_003).wrapping_add(b as u64).wrapping_mul(1_000_003).wrapping_add(c)
}
#[crossmist::func]
fn apply(f: Box<dyn FnObject<(u32, u64), Output = u64>>, b: u32, mut g: Box<dyn FnMutObject<(u64,), Output = u64>>, cs: Vec<u64>) -> (Vec<u64>, Box<dyn FnMutObject<(u64,), Output = u64>>) {
    mark("apply");
    let r = cs.iter().map(|c| f.call_object((b, *c)) ^ g.call_object_mut((*c,))).collect();
    (r, g)
}
fn entry_apply(c: &mut Ctx) -> Prepared {
    let (a, b, st) = (c.s.word(), c.s.word() as u32, c.s.word());
    let cs = Vec::<u64>::gen(&mut c.s, 2);
    c.note(|| format!("apply: {} calls", cs.len()));
    Prepared {
        name: "apply",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let g: Box<dyn FnMutObject<(u64,), Output = u64>> = crossmist::lambda! { move(&mut st: &mut u64) |x: u64| -> u64 { *st = st.wrapping_mul(3).wrapping_add(x); *st } };
                let kid = must!(start!(how, apply, Box::new(combine.bind_value(a)), b, g, cs.clone()), "{} of apply", HOWS[how]);
                Ok(pending("apply", kid, move |(r, mut g)| {
                    let mut s = st;
                    let mut step = |x: u64| {
                        s = s.wrapping_mul(3).wrapping_add(x);
                        s
                    };
                    let f = |c: u64| a.wrapping_mul(1_000_003).wrapping_add(b as u64).wrapping_mul(1_000_003).wrapping_add(c);
                    let e: Vec<u64> = cs.iter().map(|c| f(*c) ^ step(*c)).collect();
                    ensure!(r == e, "calls of the callables gave {r:?}, not {e:?}");
                    for x in [1, 2, 3] {
                        let (p, q) = (g.call_object_mut((x,)), step(x));
                        ensure!(p == q, "the callable which came back gives {p}, not {q}");
                    }
                    Ok(())
                }))
            })
        }),
    }
}
// Children of children
fn tree_value(n: u8, x: u64) -> u64 {
    if n == 0 {
        return x.wrapping_mul(0x9e37_79b9);
    }
    tree_value(n - 1, x ^ 1).wrapping_mul(3).wrapping_sub(tree_value(n - 1, x.rotate_left(9)))
}
#[crossmist::func]
fn tree(n: u8, x: u64) -> u64 {
    mark("tree");
    if n == 0 {
        return x.wrapping_mul(0x9e37_79b9);
    }
    match x % 3 {
        0 => {
            let (a, b) = (tree.spawn(n - 1, x ^ 1).unwrap(), tree.spawn(n - 1, x.rotate_left(9)).unwrap());
            let b = b.join().unwrap();
            a.join().unwrap().wrapping_mul(3).wrapping_sub(b)
        }
        1 => drive(Fl::T, async {
            let (a, b) = (tree.spawn_tokio(n - 1, x ^ 1).await.unwrap(), tree.run_tokio(n - 1, x.rotate_left(9)).await.unwrap());
            a.join().await.unwrap().wrapping_mul(3).wrapping_sub(b)
        }),
        _ => drive(Fl::S, async {
            let (a, b) = (tree.spawn_smol(n - 1, x ^ 1).await.unwrap(), tree.run_smol(n - 1, x.rotate_left(9)).await.unwrap());
            a.join().await.unwrap().wrapping_mul(3).wrapping_sub(b)
        }),
    }
}
fn entry_tree(c: &mut Ctx) -> Prepared {
    let (n, x) = (c.s.below(3) as u8, c.s.word());
    c.note(|| format!("tree({n}, {x})"));
    Prepared {
        name: "tree",
        marks: (1 << (n + 1)) - 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let kid = must!(start!(how, tree, n, x), "{} of tree", HOWS[how]);
                Ok(pending("tree", kid, same("tree", tree_value(n, x))))
            })
        }),
    }
}
// Large values
#[crossmist::func]
fn large(v: Vec<u8>, n: u32, w: String) -> (u64, Vec<u8>, String) {
    mark("large");
    (v.iter().fold(7, |a, x| a * 31 % 1_000_003 + *x as u64), vh::src::fill(n as u64, n as usize), w)
}
fn entry_large(c: &mut Ctx) -> Prepared {
    let max = if c.s.chance(1, 4) { 6_000_000 } else { 400_000 };
    let k = vh::msg::wire_size(&mut c.s, max);
    let v = c.s.bytes(k);
    let n = vh::msg::wire_size(&mut c.s, max) as u32;
    let w = gen_string(&mut c.s, 20);
    c.note(|| format!("large: {} bytes there, {n} bytes back", v.len()));
    Prepared {
        name: "large",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let h = v.iter().fold(7, |a, x| a * 31 % 1_000_003 + *x as u64);
                let kid = must!(start!(how, large, v, n, w.clone()), "{} of large", HOWS[how]);
                Ok(pending("large", kid, move |(h2, b, w2)| {
                    ensure!(h == h2, "the child received other bytes");
                    ensure!(b == vh::src::fill(n as u64, n as usize), "the result differs ({} bytes of {n})", b.len());
                    ensure!(w == w2, "{w2:?} instead of {w:?}");
                    Ok(())
                }))
            })
        }),
    }
}
// Objects shared between arguments
#[crossmist::func]
fn sharing(a: Rc<V>, b: Vec<Rc<V>>, c: Arc<u64>, d: (u8, Arc<u64>)) -> (Vec<bool>, bool, usize, usize, Rc<V>, Vec<Rc<V>>) {
    mark("sharing");
    (b.iter().map(|x| Rc::ptr_eq(x, &a)).collect(), Arc::ptr_eq(&c, &d.1), Rc::strong_count(&a), Arc::strong_count(&c), a, b)
}
fn entry_sharing(c: &mut Ctx) -> Prepared {
    let at = c.s.at();
    let a = Rc::new(V::gen(&mut c.s, 2));
    let expect = V::gen(&mut c.s.again(at), 2);
    let pattern: Vec<bool> = (0..c.s.below(4)).map(|_| c.s.flip()).collect();
    let b: Vec<Rc<V>> = pattern.iter().map(|p| if *p { a.clone() } else { Rc::new(V::Unit) }).collect();
    let both = c.s.flip();
    let (x, t) = (Arc::new(c.s.word()), c.s.below(256) as u8);
    let y = if both { x.clone() } else { Arc::new(5) };
    c.note(|| format!("sharing: {pattern:?} {both}"));
    Prepared {
        name: "sharing",
        marks: 1,
        may_end: false,
        go: Box::new(move |how| {
            Box::pin(async move {
                let kid = must!(start!(how, sharing, a, b, x, (t, y)), "{} of sharing", HOWS[how]);
                Ok(pending("sharing", kid, move |(p, q, n, k, a, b)| {
                    let count = 1 + pattern.iter().filter(|x| **x).count();
                    ensure!(p == pattern && q == both, "sharing of the arguments differs: {p:?} {q} instead of {pattern:?} {both}");
                    ensure!(n == count && k == 1 + both as usize, "reference counts are {n} and {k}, not {count} and {}", 1 + both as usize);
                    ensure!(a.same(&Rc::new(expect)), "the shared value differs: {a:?}");
                    let back: Vec<bool> = b.iter().map(|x| Rc::ptr_eq(x, &a)).collect();
                    ensure!(back == pattern, "sharing of the result differs: {back:?} instead of {pattern:?}");
                    ensure!(Rc::strong_count(&a) == count, "the reference count in the result is {}, not {count}", Rc::strong_count(&a));
                    Ok(())
                }))
            })
        }),
    }
}

type Entry = fn(&mut Ctx) -> Prepared;
const CATALOGUE: &[Entry] = &[
    nothing::entry, constant::entry, text::entry, one::entry, swap::entry, minus::entry, three::entry, cat::entry, seven::entry, ten::entry,
    fourteen::entry, twenty::entry, unit_after::entry, maybe_unit::entry, empty_array::entry, zst::entry, res::entry, res_unit::entry,
    opt_box::entry, ph::entry, maps::entry, paths::entry, nested::entry, blob::entry, small_blobs::entry, shared::entry, arcs::entry,
    generic_id::of_v::entry, generic_id::of_u16::entry, generic_id::of_unit::entry, generic_ret::of_unit::entry, generic_ret::of_zst::entry,
    generic_ret::of_string::entry, generic_ret::of_nested::entry, generic_swap::first::entry, generic_swap::second::entry,
    generic_async::first::entry, generic_async::second::entry, generic_smol::first::entry, generic_smol::second::entry,
    t_unit::entry, t_three::entry, t_tasks::entry, t_chan::entry, s_unit::entry, s_three::entry, s_chan::entry,
    deep::inner_entry, deep::twin_a, deep::twin_b,
    entry_make_channel, entry_serve, entry_apply, entry_tree, entry_large, entry_sharing,
    |c| entry_handles(c, 0), |c| entry_handles(c, 1), |c| entry_handles(c, 2), |c| entry_handles(c, 0),
];

pub fn case(c: &mut Ctx) -> Res {
    let base = open_fds();
    journal_reset();
    set_end(None);
    *END.lock().unwrap() = None;
    let rt = tokio_rt();
    let r = {
        let _g = rt.enter();
        inner(c)
    };
    drop(rt);
    r?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
fn inner(c: &mut Ctx) -> Res {
    let k = c.s.urange(1, 4);
    let threads = c.s.chance(1, 4) && k > 1;
    let mut work = Vec::new();
    for _ in 0..k {
        let e = CATALOGUE[c.s.idx(CATALOGUE.len())];
        let how = c.s.idx(6);
        let p = e(c);
        c.note(|| format!("  {} of {}", HOWS[how], p.name));
        c.label(HOWS[how]);
        work.push((p, how));
    }
    c.nontrivial();
    // In a part of the cases, one function does not return: the body was executed all the same, once
    let able: Vec<&'static str> = work.iter().filter(|w| w.0.may_end).map(|w| w.0.name).collect();
    if !able.is_empty() && c.s.chance(1, 4) {
        let (name, end) = (*c.s.pick(&able), *c.s.pick(&ENDS));
        c.note(|| format!("processes of {name} end by {end}"));
        c.label("a body which does not return");
        set_end(Some((name, end)));
        *END.lock().unwrap() = Some((name, end));
    }
    let mut marks: BTreeMap<&str, usize> = BTreeMap::new();
    for (p, _) in &work {
        *marks.entry(p.name).or_insert(0) += p.marks;
    }
    let order = c.s.perm(k);
    let fls: Vec<Fl> = work.iter().map(|w| how_fl(w.1)).collect();
    let mut pids = Vec::new();
    if threads {
        c.label("started by several threads");
        let rs = std::thread::scope(|s| {
            let hs: Vec<_> = work
                .into_iter()
                .zip(fls)
                .map(|((p, how), fl)| {
                    let h = Hand(p);
                    s.spawn(move || {
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                            let p = h.get();
                            let name = p.name;
                            drive_ctx(fl, async move {
                                let x = (p.go)(how).await?;
                                x.check.await?;
                                Ok::<_, Fail>((x.pid, name))
                            })
                        }))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        for r in rs {
            match r {
                Ok(r) => pids.push(r?),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    } else {
        // The tokio runtime serves everything; without tokio functions there is none
        let fl = if fls.contains(&Fl::T) { Fl::T } else if fls.contains(&Fl::S) { Fl::S } else { Fl::B };
        let got = drive_ctx(fl, async move {
            let mut started: Vec<Option<Pending>> = Vec::new();
            let mut names = Vec::new();
            for (p, how) in work {
                names.push(p.name);
                started.push(Some((p.go)(how).await?));
            }
            let out: Vec<_> = started.iter().zip(names).map(|(p, n)| (p.as_ref().unwrap().pid, n)).collect();
            for i in order {
                started[i].take().unwrap().check.await?;
            }
            Ok::<_, Fail>(out)
        })?;
        pids = got;
    }
    // Exactly once, each in a process of its own
    let lines = journal_lines();
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    let me = std::process::id() as i32;
    let mut procs = Vec::new();
    for (pid, what) in &lines {
        ensure!(*pid != me, "{what} was executed in the calling process");
        ensure!(!procs.contains(pid), "one process executed two functions: {lines:?}");
        procs.push(*pid);
        *seen.entry(what.as_str()).or_insert(0) += 1;
    }
    ensure!(seen == marks, "executed bodies: {seen:?}, expected {marks:?}");
    for (pid, name) in &pids {
        if let Some(pid) = pid {
            ensure!(lines.iter().any(|(p, w)| p == pid && w == name), "process {pid} did not execute {name}: {lines:?}");
        }
    }
    Ok(())
}
