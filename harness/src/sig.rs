//! What the generated programs of C19 share.

use crate::flav::*;
use crate::run::*;
use crate::src::{mix, Src};
use crate::util::*;
use crate::{ensure, must};
use crossmist::{Deserializer, FnOnceObject, Object, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::OnceLock;

pub fn mixin(h: &mut u64, pos: u64, v: &impl Debug) {
    for b in format!("{v:?}").bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    *h = mix(*h ^ pos << 50);
}
/// State which is changed by calls.
pub trait Evolve {
    fn evolve(&mut self, x: u64);
}
impl Evolve for u64 {
    fn evolve(&mut self, x: u64) {
        *self = self.rotate_left(3) ^ x;
    }
}
impl Evolve for u8 {
    fn evolve(&mut self, x: u64) {
        *self = self.wrapping_mul(3) ^ x as u8;
    }
}
impl Evolve for (u8, u32) {
    fn evolve(&mut self, x: u64) {
        self.0.evolve(x >> 9);
        self.1 ^= x as u32;
    }
}
impl Evolve for String {
    fn evolve(&mut self, x: u64) {
        if x % 5 == 0 {
            self.clear();
        }
        self.push((b'a' + (x % 26) as u8) as char);
    }
}
impl Evolve for Box<u64> {
    fn evolve(&mut self, x: u64) {
        (**self).evolve(x);
    }
}
impl Evolve for Vec<String> {
    fn evolve(&mut self, x: u64) {
        if x % 4 == 0 {
            self.pop();
        } else {
            self.push(format!("{x:x}"));
        }
    }
}
impl Evolve for Vec<u32> {
    fn evolve(&mut self, x: u64) {
        if x % 4 == 0 {
            self.pop();
        } else {
            self.push(x as u32);
        }
    }
}
impl Evolve for Option<String> {
    fn evolve(&mut self, x: u64) {
        match self {
            None => *self = Some(x.to_string()),
            Some(s) if x % 2 == 0 => s.evolve(x),
            _ => *self = None,
        }
    }
}
impl Evolve for BTreeMap<u8, String> {
    fn evolve(&mut self, x: u64) {
        self.entry(x as u8 % 8).or_default().evolve(x >> 3);
    }
}

/// Lets a function without a result tell that it was called.
#[derive(crossmist::Object)]
pub struct Report(crossmist::Sender<u64>);
impl Report {
    pub fn put(mut self, h: u64) {
        self.0.send(&h).expect("sending a report");
    }
    pub fn new() -> (Report, crossmist::Receiver<u64>) {
        let (a, b) = crossmist::channel().expect("HARNESS channel");
        (Report(a), b)
    }
}
impl Debug for Report {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Report")
    }
}
pub fn reports(mut rx: crossmist::Receiver<u64>) -> Vec<u64> {
    let mut v = vec![];
    while let Ok(Some(x)) = rx.recv() {
        v.push(x);
    }
    v
}

/// Maybe replace it with its copy by serialization.
pub fn again<T: Object>(c: &mut Ctx, x: T) -> Result<T, Fail> {
    let how = c.s.below(3);
    if how == 0 {
        return Ok(x);
    }
    let b = Box::new(x);
    let mut s = Serializer::new();
    if how == 1 {
        s.serialize(&*b);
    } else {
        s.serialize_temporary(7u8);
        s.serialize(&b);
    }
    let handles: Vec<crossmist::handles::OwnedHandle> = s
        .drain_handles()
        .into_iter()
        .map(|h| borrow(std::os::fd::AsRawFd::as_raw_fd(&h)).try_clone_to_owned().expect("HARNESS dup").into())
        .collect();
    let mut d = Deserializer::new(s.into_vec(), handles);
    if how == 1 {
        Ok(must!(unsafe { d.deserialize() }, "deserializing a callable"))
    } else {
        let n: u8 = must!(unsafe { d.deserialize() }, "neighbour");
        ensure!(n == 7, "the neighbour of a callable changed");
        Ok(*must!(unsafe { d.deserialize::<Box<T>>() }, "deserializing a callable"))
    }
}

/// Calls its argument in another process.
#[crossmist::func]
pub fn gate<A: Object + crossmist::Tuple + 'static, R: Object + 'static>(f: Box<dyn FnOnceObject<A, Output = R>>, a: A) -> R {
    f.call_object_box(a)
}
/// Lets a future of a flavour run, for functions which return one.
pub fn wait<T>(fl: Fl, f: impl std::future::Future<Output = T>) -> T {
    drive(fl, f)
}

pub struct Case {
    pub name: &'static str,
    pub f: fn(&mut Ctx) -> Res,
}
static TABLE: OnceLock<&'static [Case]> = OnceLock::new();
/// To be called before `crossmist::init`.
pub fn set_table(t: &'static [Case]) {
    let _ = TABLE.set(t);
}
pub fn case(c: &mut Ctx) -> Res {
    let table = TABLE.get().expect("HARNESS table");
    let before = open_fds();
    ensure!(crate::derived::live() == 0, "HARNESS {} objects at the beginning", crate::derived::live());
    let k = c.s.idx(table.len());
    c.note(|| table[k].name.to_string());
    c.nontrivial();
    (table[k].f)(c)?;
    ensure!(crate::derived::live() == 0, "after the case {} counted objects are left", crate::derived::live());
    if let Some(d) = fd_settled(&before) {
        crate::violated!("descriptors after the case: {d}");
    }
    Ok(())
}
pub fn replayed(c: &Ctx, at: usize) -> Src {
    c.s.again(at)
}
