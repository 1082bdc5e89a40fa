// C11: callable objects against the plain functions.
use crossmist::fns::StaticFn;
use crossmist::{BindMut, BindRef, BindValue, Deserializer, FnMutObject, FnObject, FnOnceObject, Object, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::num::NonZeroU16;
use std::rc::Rc;
use vh::ops::*;
use vh::run::*;
use vh::src::{mix, Src};
use vh::val::Val;
use vh::{ensure, must, violated};

thread_local! {
    /// After how many more steps the function should panic.
    static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
fn tick() {
    FUSE.with(|f| match f.get() {
        0 => {}
        1 => {
            f.set(0);
            std::panic::resume_unwind(Box::new("the fuse"));
        }
        n => f.set(n - 1),
    });
}
/// The result, or None if the fuse went off.
fn fused<T>(fuse: u32, f: impl FnOnce() -> T) -> Option<T> {
    FUSE.with(|x| x.set(fuse));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    FUSE.with(|x| x.set(0));
    match r {
        Ok(x) => Some(x),
        Err(e) if matches!(e.downcast_ref::<&str>(), Some(&"the fuse")) => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn mixin(h: &mut u64, pos: u64, v: &impl Debug) {
    tick();
    for b in format!("{v:?}").bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    *h = mix(*h ^ pos << 50);
}
trait Evolve {
    fn evolve(&mut self, x: u64);
}
impl Evolve for u64 {
    fn evolve(&mut self, x: u64) {
        *self = self.rotate_left(3) ^ x;
    }
}
impl Evolve for Box<u64> {
    fn evolve(&mut self, x: u64) {
        (**self).evolve(x);
    }
}
impl Evolve for u8 {
    fn evolve(&mut self, x: u64) {
        *self = self.wrapping_mul(3) ^ x as u8;
    }
}
impl Evolve for (u8, u32) {
    fn evolve(&mut self, x: u64) {
        self.0.evolve(x >> 9);
        self.1 ^= x as u32;
    }
}
impl Evolve for String {
    fn evolve(&mut self, x: u64) {
        if x % 5 == 0 {
            self.clear();
        }
        self.push((b'a' + (x % 26) as u8) as char);
    }
}
impl Evolve for Vec<u32> {
    fn evolve(&mut self, x: u64) {
        if x % 4 == 0 {
            self.pop();
        } else {
            self.push(x as u32);
        }
    }
}
impl Evolve for Vec<String> {
    fn evolve(&mut self, x: u64) {
        if x % 4 == 0 {
            self.pop();
        } else {
            self.push(format!("{x:x}"));
        }
    }
}
impl Evolve for Option<String> {
    fn evolve(&mut self, x: u64) {
        match self {
            None => *self = Some(x.to_string()),
            Some(s) if x % 2 == 0 => s.evolve(x),
            _ => *self = None,
        }
    }
}
impl Evolve for BTreeMap<u8, String> {
    fn evolve(&mut self, x: u64) {
        self.entry(x as u8 % 8).or_default().evolve(x >> 3);
    }
}

/// An independent copy made by serialization.
fn rt<T: Object>(x: &T, how: u64) -> Result<T, Fail> {
    let mut s = Serializer::new();
    if how == 1 {
        s.serialize_temporary(x as *const T as usize); // a neighbour
    }
    s.serialize(x);
    let fds: Vec<_> = s.drain_handles().into_iter().map(|h| std::os::fd::AsRawFd::as_raw_fd(&h)).collect();
    ensure!(fds.is_empty(), "handles out of nothing: {fds:?}");
    let mut d = Deserializer::new(s.into_vec(), vec![]);
    if how == 1 {
        let n: usize = must!(unsafe { d.deserialize() }, "deserialize the neighbour");
        ensure!(n == x as *const T as usize, "the neighbour changed");
    }
    Ok(must!(unsafe { d.deserialize() }, "deserialize a callable"))
}
/// Maybe replace it with its copy.
fn again<T: Object>(c: &mut Ctx, x: T) -> Result<T, Fail> {
    match c.s.below(4) {
        0 | 1 => Ok(x),
        2 => rt(&x, 0),
        _ => {
            let v = rt(&Box::new(x), 1)?;
            Ok(*v)
        }
    }
}

struct Spec<GC, GA, MK, MD> {
    genc: GC,
    gena: GA,
    make: MK,
    model: MD,
}
macro_rules! driver {
    ($name:ident, $tr:ident, [$($dynt:ident: $dtr:ident),*], [$($lvl:tt)*]) => {
        fn $name<C: Clone + Debug2, A: Clone + crossmist::Tuple + 'static, T: $tr<A, Output = u64> + 'static>(
            c: &mut Ctx,
            mut sp: Spec<impl Fn(&mut Src) -> C, impl Fn(&mut Src) -> A, impl FnMut(&mut Ctx, &C) -> Result<T, Fail>, impl Fn(&mut C, A) -> u64>,
        ) -> Res {
            enum M<T, A> {
                Own(T),
                Boxed(Box<T>),
                Boxed2(Box<Box<T>>),
                $($dynt(Box<dyn $dtr<A, Output = u64>>),)*
            }
            c.nontrivial();
            let mut live: Vec<(M<T, A>, C)> = vec![];
            let steps = 3 + c.s.len(24);
            for step in 0..steps {
                if live.is_empty() || (live.len() < 6 && c.s.below(6) == 0) {
                    let caps = (sp.genc)(&mut c.s);
                    let obj = (sp.make)(c, &caps)?;
                    c.note(|| format!("{step}: new #{}", live.len()));
                    live.push((M::Own(obj), caps));
                    continue;
                }
                let i = c.s.idx(live.len());
                match c.s.below(12) {
                    0 | 1 | 2 | 3 | 4 => {
                        // call, keeping the object
                        let a = (sp.gena)(&mut c.s);
                        let (m, caps) = &mut live[i];
                        let how = c.s.below(3);
                        let fuse = if c.s.below(6) == 0 { 1 + c.s.below(7) as u32 } else { 0 };
                        let b = a.clone();
                        let got = match fused(fuse, || driver!(@call m, b, how, $($lvl)*)) {
                            Some(None) => continue,
                            Some(x) => x,
                            None => None,
                        };
                        let want = fused(fuse, || (sp.model)(caps, a));
                        c.note(|| format!("{step}: call #{i} by {how}: {got:x?}"));
                        if want.is_none() {
                            c.label("a call panicked");
                        }
                        ensure!(got == want, "a call of #{i} (by {how}) gave {got:x?} instead of {want:x?} (None if it panicked, as it is told to)");
                    }
                    5 => {
                        // call, consuming the object
                        let a = (sp.gena)(&mut c.s);
                        let (m, mut caps) = live.swap_remove(i);
                        let how = c.s.below(4);
                        let fuse = if c.s.below(8) == 0 { 1 + c.s.below(7) as u32 } else { 0 };
                        let b = a.clone();
                        let got = fused(fuse, || match (m, how) {
                            (M::Own(f), 0) => f.call_object_once(b),
                            (M::Own(f), _) => Box::new(f).call_object_box(b),
                            (M::Boxed(f), 0) => (*f).call_object_once(b),
                            (M::Boxed(f), 1) => f.call_object_box(b),
                            (M::Boxed(f), _) => call_once(f, b),
                            (M::Boxed2(f), 0) => call_once(f, b),
                            (M::Boxed2(f), 1) => f.call_object_box(b),
                            (M::Boxed2(f), _) => call_once(*f, b),
                            $((M::$dynt(f), 0) => f.call_object_box(b),
                            (M::$dynt(f), 1) => f.call_object_once(b),
                            (M::$dynt(f), _) => call_once(f, b),)*
                        });
                        let want = fused(fuse, || (sp.model)(&mut caps, a));
                        c.note(|| format!("{step}: last call #{i} by {how}: {got:x?}"));
                        ensure!(got == want, "the last call of #{i} (by {how}) gave {got:x?} instead of {want:x?}");
                    }
                    6 | 7 | 8 => {
                        // a copy through serialization; keep both or one
                        let how = c.s.below(2);
                        let copy = match &live[i].0 {
                            M::Own(f) => M::Own(rt(f, how)?),
                            M::Boxed(f) => M::Boxed(rt(f, how)?),
                            M::Boxed2(f) => M::Boxed2(rt(f, how)?),
                            $(M::$dynt(f) => M::$dynt(rt(f, how)?),)*
                        };
                        let caps = unsafe_copy(&live[i].1);
                        let keep = c.s.flip();
                        c.note(|| format!("{step}: copy #{i}{}", if keep { "" } else { ", dropping the original" }));
                        if !keep {
                            live.swap_remove(i);
                        }
                        live.push((copy, caps));
                    }
                    9 => {
                        // all the plain ones at once, in a vector
                        let mut v = vec![];
                        let mut ks = vec![];
                        let mut rest = vec![];
                        for (m, k) in live.drain(..) {
                            match m {
                                M::Own(f) => {
                                    v.push(f);
                                    ks.push(k);
                                }
                                m => rest.push((m, k)),
                            }
                        }
                        c.note(|| format!("{step}: copy {} at once", v.len()));
                        let w = rt(&v, 0)?;
                        ensure!(w.len() == v.len(), "lost a callable");
                        for (f, k) in w.into_iter().zip(ks) {
                            rest.push((M::Own(f), k));
                        }
                        live = rest;
                    }
                    _ => {
                        // another form
                        let (m, k) = live.swap_remove(i);
                        let how = c.s.below(5);
                        let m = match m {
                            M::Own(f) => driver!(@forms M, how, Box::new(f), $($dynt)*),
                            M::Boxed(f) => if how == 0 { M::Boxed2(Box::new(f)) } else { driver!(@forms M, how, f, $($dynt)*) },
                            M::Boxed2(f) => M::Own(**f),
                            m => m,
                        };
                        c.note(|| format!("{step}: #{i} takes form {how}"));
                        live.push((m, k));
                    }
                }
            }
            Ok(())
        }
    };
    (@forms $m:ident, $how:ident, $b:expr, $a1:ident) => { match $how { 0 | 1 => $m::Boxed($b), _ => $m::$a1($b) } };
    (@forms $m:ident, $how:ident, $b:expr, $a1:ident $a2:ident) => { match $how { 0 | 1 => $m::Boxed($b), 2 | 3 => $m::$a2($b), _ => $m::$a1($b) } };
    (@forms $m:ident, $how:ident, $b:expr, $a1:ident $a2:ident $a3:ident) => { match $how { 0 | 1 => $m::Boxed($b), 2 => $m::$a1($b), 3 => $m::$a2($b), _ => $m::$a3($b) } };
    (@call $m:ident, $a:expr, $how:ident, fn) => {
        match ($m, $how) {
            (M::Own(f), 0) => Some(f.call_object($a)),
            (M::Own(f), 1) => Some(f.call_object_mut($a)),
            (M::Own(f), _) => Some(call_ref(f, $a)),
            (M::Boxed(f), 0) => Some(f.call_object($a)),
            (M::Boxed(f), 1) => Some(f.call_object_mut($a)),
            (M::Boxed(f), _) => Some(call_ref(&**f, $a)),
            (M::Boxed2(f), _) => Some((**f).call_object($a)),
            (M::F(f), 0) => Some((**f).call_object($a)),
            (M::F(f), 1) => Some((**f).call_object_mut($a)),
            (M::F(f), _) => Some(call_ref_dyn(&**f, $a)),
            (M::X(f), _) => Some(f.call_object_mut($a)),
            (M::O(_), _) => None,
        }
    };
    (@call $m:ident, $a:expr, $how:ident, mut) => {
        match ($m, $how) {
            (M::Own(f), 0) => Some(f.call_object_mut($a)),
            (M::Own(f), _) => Some(call_mut(f, $a)),
            (M::Boxed(f), 0) => Some(f.call_object_mut($a)),
            (M::Boxed(f), _) => Some(call_mut(&mut **f, $a)),
            (M::Boxed2(f), _) => Some((**f).call_object_mut($a)),
            (M::X(f), _) => Some(f.call_object_mut($a)),
            (M::O(_), _) => None,
        }
    };
    (@call $m:ident, $a:expr, $how:ident, once) => {{
        let _ = ($m, $a, $how);
        None::<u64>
    }};
}
/// Captured values share nothing with the object (Rc is compared by contents)
trait Debug2 {}
impl<T> Debug2 for T {}
fn unsafe_copy<C: Clone>(c: &C) -> C {
    c.clone()
}
fn call_once<A: crossmist::Tuple, F: FnOnceObject<A, Output = u64>>(f: F, a: A) -> u64 {
    f.call_object_once(a)
}
fn call_mut<A: crossmist::Tuple, F: FnMutObject<A, Output = u64> + ?Sized>(f: &mut F, a: A) -> u64 {
    f.call_object_mut(a)
}
fn call_ref<A: crossmist::Tuple, F: FnObject<A, Output = u64> + ?Sized>(f: &F, a: A) -> u64 {
    f.call_object(a)
}
fn call_ref_dyn<A: crossmist::Tuple>(f: &dyn FnObject<A, Output = u64>, a: A) -> u64 {
    call_ref(f, a)
}
driver!(drive_fn, FnObject, [O: FnOnceObject, X: FnMutObject, F: FnObject], [fn]);
driver!(drive_mut, FnMutObject, [O: FnOnceObject, X: FnMutObject], [mut]);
driver!(drive_once, FnOnceObject, [O: FnOnceObject], [once]);

fn check(c: &mut Ctx, got: u64, want: u64) -> Res {
    c.note(|| format!("call: {got:x}"));
    ensure!(got == want, "a call gave {got:x} instead of {want:x}");
    Ok(())
}

pub fn run(cases: &[fn(&mut Ctx) -> Res], c: &mut Ctx) -> Res {
    let i = c.s.idx(cases.len());
    c.label(format!("callable {i}"));
    cases[i](c)
}
