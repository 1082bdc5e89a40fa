//! What the generated programs of C18 share: values of generated types, mixed in one serializer, sent as messages,
//! and sent to processes, where an equal value is generated again for comparison.

use crate::flav::*;
use crate::ops::Ops;
use crate::run::*;
use crate::src::Src;
use crate::util::*;
use crate::val::Val;
use crate::{ensure, must};
use crossmist::handles::OwnedHandle;
use crossmist::{Deserializer, NonTrivialObject, Serializer};
use std::any::Any;
use std::fmt::Debug;
use std::io::{Read, Seek, Write};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::OnceLock;

/// An object whose instances are counted: each must be made by the constructor or deserialization.
pub struct Counted(pub u32);
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(SeqCst)
}
impl Counted {
    fn new(n: u32) -> Self {
        LIVE.fetch_add(1, SeqCst);
        Counted(n)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
impl Debug for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Counted({})", self.0)
    }
}
unsafe impl NonTrivialObject for Counted {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        Ok(Counted::new(d.deserialize()?))
    }
}
impl Val for Counted {
    fn gen(s: &mut Src, _: u32) -> Self {
        Counted::new(s.below(1000) as u32)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
/// A file with contents.
#[derive(crossmist::Object)]
pub struct Filed(OwnedHandle);
impl Filed {
    fn text(&self) -> String {
        let fd: std::os::fd::OwnedFd = borrow(std::os::fd::AsRawFd::as_raw_fd(&self.0)).try_clone_to_owned().expect("HARNESS dup");
        let mut f = std::fs::File::from(fd);
        let mut t = String::new();
        if f.rewind().and_then(|_| f.read_to_string(&mut t)).is_err() {
            t = "not a file".to_string();
        }
        t
    }
}
impl Debug for Filed {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Filed({:?})", self.text())
    }
}
impl Val for Filed {
    fn gen(s: &mut Src, _: u32) -> Self {
        let mut f = memfd();
        write!(f, "file {}", s.below(1000)).expect("HARNESS write");
        let fd: std::os::fd::OwnedFd = f.into();
        Filed(fd.into())
    }
    fn same(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
/// A trait for bounds of generic parameters, with an implementation for everything which is generated.
pub trait Tr<A = u8> {
    type Assoc;
    const C: usize = 1;
}
impl<T, A> Tr<A> for T {
    type Assoc = A;
}

static TABLE: OnceLock<&'static [Ops]> = OnceLock::new();
/// To be called before `crossmist::init`.
pub fn set_table(t: &'static [Ops]) {
    let _ = TABLE.set(t);
}
fn table() -> &'static [Ops] {
    TABLE.get().expect("HARNESS table")
}

/// Values of types chosen at run time.
pub struct Dyn(Vec<(usize, Box<dyn Any>)>);
unsafe impl NonTrivialObject for Dyn {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize_temporary(self.0.len());
        for (t, v) in &self.0 {
            s.serialize(t);
            (table()[*t].ser)(&**v, s, 0);
            s.serialize_temporary(SENTINEL);
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let n: usize = d.deserialize()?;
        let mut v = Vec::new();
        for _ in 0..n {
            let t: usize = d.deserialize()?;
            v.push((t, (table().get(t).expect("wrong position while deserializing").de)(d, 0)?));
            let s: u64 = d.deserialize()?;
            assert!(s == SENTINEL, "after a value of type {} the reader is at a wrong position", table()[t].name);
        }
        Ok(Dyn(v))
    }
}
const SENTINEL: u64 = 0x5ea1ed_c0ffee_18;
fn gen(s: &mut Src) -> Dyn {
    let n = 1 + s.len(8);
    Dyn((0..n)
        .map(|_| {
            let t = s.idx(table().len());
            let d = s.range(0, 4) as u32;
            (t, (table()[t].gen)(s, d))
        })
        .collect())
}
impl Dyn {
    fn show(&self) -> String {
        self.0.iter().map(|(t, v)| format!("{} = {}", table()[*t].name, (table()[*t].show)(&**v))).collect::<Vec<_>>().join(" | ")
    }
    fn differs(&self, o: &Dyn) -> Option<String> {
        if self.0.len() != o.0.len() {
            return Some(format!("{} values became {}", self.0.len(), o.0.len()));
        }
        for ((t, a), (u, b)) in self.0.iter().zip(&o.0) {
            let op = &table()[*t];
            if t != u {
                return Some(format!("a value of type {} became one of type {}", op.name, table()[*u].name));
            }
            if !(op.same)(&**a, &**b) {
                return Some(format!("{}: {} became {}", op.name, (op.show)(&**a), (op.show)(&**b)));
            }
        }
        None
    }
}
#[crossmist::func]
fn there(tape: Vec<u64>, x: Dyn) -> (Option<String>, Dyn) {
    let want = gen(&mut Src::replay(tape));
    (want.differs(&x), x)
}

pub fn case(c: &mut Ctx) -> Res {
    let before = open_fds();
    ensure!(LIVE.load(SeqCst) == 0, "HARNESS {} objects at the beginning", LIVE.load(SeqCst));
    inner(c)?;
    ensure!(LIVE.load(SeqCst) == 0, "after the case {} counted objects are left", LIVE.load(SeqCst));
    if let Some(d) = fd_settled(&before) {
        crate::violated!("descriptors after the case: {d}");
    }
    Ok(())
}
fn inner(c: &mut Ctx) -> Res {
    let mode = match c.s.below(64) {
        0..=31 => 0,
        32..=62 => 1,
        _ => 2,
    };
    let at = c.s.at();
    let x = gen(&mut c.s);
    let to = c.s.at();
    c.note(|| x.show());
    for (t, _) in &x.0 {
        let n = table()[*t].name;
        c.label(format!("type {}", n.rsplit("::").next().unwrap_or(n).split('<').next().unwrap_or(n)));
    }
    if x.0.len() > 1 {
        c.nontrivial();
    }
    match mode {
        0 => {
            c.label("serializer");
            let hows: Vec<(u64, u64)> = x.0.iter().map(|_| (c.s.below(4), c.s.below(4))).collect();
            let mut s = Serializer::new();
            for ((t, v), how) in x.0.iter().zip(&hows) {
                (table()[*t].ser)(&**v, &mut s, how.0);
                s.serialize_temporary(SENTINEL);
            }
            let handles = s.drain_handles();
            let handles: Vec<OwnedHandle> =
                handles.iter().map(|h| borrow(std::os::fd::AsRawFd::as_raw_fd(h)).try_clone_to_owned().expect("HARNESS dup").into()).collect();
            let mut d = Deserializer::new(s.into_vec(), handles);
            let mut copies = Vec::new();
            for ((t, v), how) in x.0.iter().zip(&hows) {
                let op = &table()[*t];
                let got = must!(unsafe { (op.de)(&mut d, how.1) }, "deserializing {}", op.name);
                ensure!((op.same)(&**v, &*got), "{}: {} became {}", op.name, (op.show)(&**v), (op.show)(&*got));
                let s: u64 = must!(unsafe { d.deserialize() }, "sentinel");
                ensure!(s == SENTINEL, "after a value of type {} the reader is at a wrong position", op.name);
                copies.push((*t, got));
            }
            drop(d);
            // The copy is independent of the original
            if c.s.flip() {
                let copies = Dyn(copies);
                drop(x);
                let again = gen(&mut Src::replay(c.s.tape[at..to].to_vec()));
                if let Some(d) = again.differs(&copies) {
                    crate::violated!("after the original was dropped, {d}");
                }
            }
        }
        1 => {
            c.label("message");
            let fl = real(*c.s.pick(&FLS));
            let got = drive(fl, async {
                let (mut tx, mut rx) = channel::<Dyn>(fl).expect("HARNESS channel");
                if let (Tx::B(p), Rx::B(q)) = (&mut tx, &mut rx) {
                    let h = Hand((p, &x));
                    return std::thread::scope(|t| {
                        t.spawn(move || {
                            let (p, x) = h.get();
                            p.send(x).expect("send")
                        });
                        q.recv()
                    });
                }
                let (s, r) = futures_lite::future::zip(tx.send(&x), rx.recv()).await;
                s?;
                r
            });
            let got = must!(got, "transfer");
            ensure!(got.is_some(), "no message");
            if let Some(d) = x.differs(&got.unwrap()) {
                crate::violated!("in a message, {d}");
            }
        }
        _ => {
            c.label("process");
            let fl = c.s.idx(3);
            let tape = c.s.tape[at..to].to_vec();
            let (d, back) = drive(FLS[fl], async {
                let k = must!(crate::start!(fl, there, tape, x), "spawning");
                Ok(must!(k.join().await, "join"))
            })?;
            if let Some(d) = d {
                crate::violated!("in the child process, {d}");
            }
            let again = gen(&mut Src::replay(c.s.tape[at..to].to_vec()));
            if let Some(d) = again.differs(&back) {
                crate::violated!("after coming back from the child process, {d}");
            }
        }
    }
    Ok(())
}
