//! Objects which contain handles.

use crate::run::*;
use crate::src::Src;
use crate::util::*;
use crossmist::Object;
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
use std::fs::File;
use std::os::fd::{AsRawFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::rc::Rc;
use std::sync::Arc;

/// One handle, of any supported kind.
#[derive(Object)]
pub enum H {
    File(File),
    Owned(OwnedFd),
    Unix(UnixStream),
    Tx(crossmist::Sender<u64>),
    Rx(crossmist::Receiver<String>),
    Dx(crossmist::Duplex<u64, String>),
    TFile(::tokio::fs::File),
    TUnix(::tokio::net::UnixStream),
    TTx(crossmist::tokio::Sender<u64>),
    TRx(crossmist::tokio::Receiver<String>),
    TDx(crossmist::tokio::Duplex<u64, String>),
    AFile(async_fs::File),
    AUnix(async_io::Async<UnixStream>),
    STx(crossmist::smol::Sender<u64>),
    SRx(crossmist::smol::Receiver<String>),
    SDx(crossmist::smol::Duplex<u64, String>),
}
pub const KINDS: usize = 16;
impl H {
    pub fn kind(&self) -> usize {
        match self {
            H::File(_) => 0,
            H::Owned(_) => 1,
            H::Unix(_) => 2,
            H::Tx(_) => 3,
            H::Rx(_) => 4,
            H::Dx(_) => 5,
            H::TFile(_) => 6,
            H::TUnix(_) => 7,
            H::TTx(_) => 8,
            H::TRx(_) => 9,
            H::TDx(_) => 10,
            H::AFile(_) => 11,
            H::AUnix(_) => 12,
            H::STx(_) => 13,
            H::SRx(_) => 14,
            H::SDx(_) => 15,
        }
    }
    pub fn raw(&self) -> RawFd {
        match self {
            H::File(x) => x.as_raw_fd(),
            H::Owned(x) => x.as_raw_fd(),
            H::Unix(x) => x.as_raw_fd(),
            H::Tx(x) => x.as_raw_fd(),
            H::Rx(x) => x.as_raw_fd(),
            H::Dx(x) => x.as_raw_fd(),
            H::TFile(x) => x.as_raw_fd(),
            H::TUnix(x) => x.as_raw_fd(),
            H::TTx(x) => x.as_raw_fd(),
            H::TRx(x) => x.as_raw_fd(),
            H::TDx(x) => x.as_raw_fd(),
            H::AFile(x) => x.as_raw_fd(),
            H::AUnix(x) => x.as_raw_fd(),
            H::STx(x) => x.as_raw_fd(),
            H::SRx(x) => x.as_raw_fd(),
            H::SDx(x) => x.as_raw_fd(),
        }
    }
}
impl AsRawFd for H {
    fn as_raw_fd(&self) -> RawFd {
        self.raw()
    }
}

pub trait HasHandle: Object {
    fn walk<'a>(&'a self, f: &mut dyn FnMut(Leaf<'a>));
}
#[derive(Object)]
pub struct DynA {
    pub a: u32,
    pub h: H,
    pub s: String,
}
#[derive(Object)]
pub struct DynB(pub Vec<H>);
impl HasHandle for DynA {
    fn walk<'a>(&'a self, f: &mut dyn FnMut(Leaf<'a>)) {
        f(Leaf::Text(format!("A{} {}", self.a, self.s)));
        f(Leaf::H(&self.h));
    }
}
impl HasHandle for DynB {
    fn walk<'a>(&'a self, f: &mut dyn FnMut(Leaf<'a>)) {
        f(Leaf::Text(format!("B{}", self.0.len())));
        self.0.iter().for_each(|h| f(Leaf::H(h)));
    }
}

/// A value with handles at any position.
#[derive(Object)]
pub enum HV {
    N(u64),
    Text(String),
    Bytes(Vec<u8>),
    H(H),
    Vec(Vec<HV>),
    Files(Vec<File>),
    Opt(Option<Box<HV>>),
    Res(Result<H, String>),
    Tup(Box<(HV, u8, HV)>),
    Arr([Option<H>; 3]),
    Sl(Box<[H]>),
    Deq(VecDeque<H>),
    List(LinkedList<HV>),
    Map(BTreeMap<u16, HV>),
    HMap(HashMap<String, H>),
    Rc(Rc<HV>),
    RcF(Rc<File>),
    ArcF(Arc<OwnedFd>),
    Dyn(Box<dyn HasHandle>),
    St { a: H, n: u16, b: Option<H>, t: (String, H) },
    Rep(Vec<(u8, H)>),
}
pub enum Leaf<'a> {
    Text(String),
    H(&'a H),
    Fd(RawFd),
    Rc(*const ()),
}
impl HV {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(Leaf<'a>)) {
        macro_rules! t { ($($a:tt)*) => { f(Leaf::Text(format!($($a)*))) }; }
        match self {
            HV::N(n) => t!("n{n}"),
            HV::Text(s) => t!("text {s}"),
            HV::Bytes(b) => t!("bytes {} {:x}", b.len(), b.iter().fold(7u64, |a, x| a.wrapping_mul(0x100000001b3) ^ *x as u64)),
            HV::H(h) => f(Leaf::H(h)),
            HV::Vec(v) => {
                t!("vec {}", v.len());
                v.iter().for_each(|x| x.walk(f));
            }
            HV::Files(v) => {
                t!("files {}", v.len());
                v.iter().for_each(|x| f(Leaf::Fd(x.as_raw_fd())));
            }
            HV::Opt(o) => {
                t!("opt {}", o.is_some());
                o.iter().for_each(|x| x.walk(f));
            }
            HV::Res(Ok(h)) => {
                t!("ok");
                f(Leaf::H(h));
            }
            HV::Res(Err(e)) => t!("err {e}"),
            HV::Tup(b) => {
                t!("tup {}", b.1);
                b.0.walk(f);
                b.2.walk(f);
            }
            HV::Arr(a) => {
                for x in a {
                    t!("arr {}", x.is_some());
                    x.iter().for_each(|h| f(Leaf::H(h)));
                }
            }
            HV::Sl(v) => {
                t!("sl {}", v.len());
                v.iter().for_each(|h| f(Leaf::H(h)));
            }
            HV::Deq(v) => {
                t!("deq {}", v.len());
                v.iter().for_each(|h| f(Leaf::H(h)));
            }
            HV::List(v) => {
                t!("list {}", v.len());
                v.iter().for_each(|x| x.walk(f));
            }
            HV::Map(m) => {
                t!("map {}", m.len());
                for (k, x) in m {
                    t!("key {k}");
                    x.walk(f);
                }
            }
            HV::HMap(m) => {
                t!("hmap {}", m.len());
                let mut ks: Vec<_> = m.keys().collect();
                ks.sort();
                for k in ks {
                    t!("key {k}");
                    f(Leaf::H(&m[k]));
                }
            }
            HV::Rc(r) => {
                t!("rc");
                f(Leaf::Rc(Rc::as_ptr(r) as *const ()));
                r.walk(f);
            }
            HV::RcF(r) => {
                t!("rcf");
                f(Leaf::Rc(Rc::as_ptr(r) as *const ()));
                f(Leaf::Fd(r.as_raw_fd()));
            }
            HV::ArcF(r) => {
                t!("arcf");
                f(Leaf::Rc(Arc::as_ptr(r) as *const ()));
                f(Leaf::Fd(r.as_raw_fd()));
            }
            HV::Dyn(d) => {
                t!("dyn");
                d.walk(f);
            }
            HV::St { a, n, b, t } => {
                t!("st {n} {} {}", b.is_some(), t.0);
                f(Leaf::H(a));
                b.iter().for_each(|h| f(Leaf::H(h)));
                f(Leaf::H(&t.1));
            }
            HV::Rep(v) => {
                t!("rep {}", v.len());
                for (k, h) in v {
                    t!("key {k}");
                    f(Leaf::H(h));
                }
            }
        }
    }
    /// Everything observable about the value: structure, and which open file each handle denotes.
    pub fn describe(&self) -> Vec<String> {
        let mut rcs: Vec<*const ()> = Vec::new();
        let mut out = Vec::new();
        self.walk(&mut |l| {
            out.push(match l {
                Leaf::Text(t) => t,
                Leaf::H(h) => format!("handle of kind {} {}", h.kind(), ident(h.raw())),
                Leaf::Fd(fd) => format!("file {}", ident(fd)),
                Leaf::Rc(p) => {
                    let i = rcs.iter().position(|x| *x == p).unwrap_or_else(|| {
                        rcs.push(p);
                        rcs.len() - 1
                    });
                    format!("shared #{i}")
                }
            })
        });
        out
    }
    /// Descriptors, each once (a shared object holds one descriptor however many pointers there are).
    pub fn fds(&self) -> Vec<RawFd> {
        let mut out = Vec::new();
        self.walk(&mut |l| match l {
            Leaf::H(h) => out.push(h.raw()),
            Leaf::Fd(fd) => out.push(fd),
            _ => {}
        });
        out.sort();
        out.dedup();
        out
    }
}
fn ident(fd: RawFd) -> String {
    let fl = unsafe { libc::fcntl(fd, libc::F_GETFL) };
    match file_id(fd) {
        Some(i) => format!("{}:{} flags {:x}", i.dev, i.ino, fl),
        None => "closed".into(),
    }
}
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Some(format!("at leaf {i}: {:?} was sent, {:?} arrived", a.get(i), b.get(i)))
}
/// A received value denotes what was sent, by handles which are open, close-on-exec, and not the sender's.
pub fn check_copy(orig: &[String], copy: &HV, not: &[RawFd]) -> Res {
    if let Some(d) = diff(orig, &copy.describe()) {
        return Err(Fail::V(format!("wrong value or handle: {d}")));
    }
    let fds = copy.fds();
    for fd in &fds {
        if not.contains(fd) {
            return Err(Fail::V(format!("received handle {fd} is one of the sender's descriptors")));
        }
        if !is_cloexec(*fd) {
            return Err(Fail::V(format!("received handle {fd} is not close-on-exec")));
        }
    }
    Ok(())
}

/// Makes handles. Keeps the other ends of sockets, so that they are usable.
#[derive(Default)]
pub struct Maker {
    pub partners: Vec<(UnixStream, usize)>,
    pub rcf: Vec<Rc<File>>,
    pub arcf: Vec<Arc<OwnedFd>>,
    pub rcv: Vec<Rc<HV>>,
    pub last: Vec<File>,
    pub made: usize,
    /// Only plain files (cheap, and does not need a runtime)
    pub files_only: bool,
    /// Nothing which needs a tokio runtime to be deserialized
    pub no_tokio: bool,
}
fn io<T>(r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| panic!("HARNESS cannot create a handle: {e}"))
}
impl Maker {
    fn file(&mut self, s: &mut Src) -> File {
        self.made += 1;
        if s.below(6) == 5 && !self.last.is_empty() {
            // Another descriptor of the same open file
            let i = s.idx(self.last.len());
            return io(self.last[i].try_clone());
        }
        let f = memfd();
        if self.last.len() < 4 {
            self.last.push(io(f.try_clone()));
        }
        f
    }
    fn sock(&mut self) -> UnixStream {
        self.made += 1;
        let (a, b) = io(UnixStream::pair());
        self.partners.push((b, 0));
        a
    }
    fn raw_endpoint(&mut self) -> RawFd {
        use std::os::fd::IntoRawFd;
        self.made += 1;
        let (a, b) = io(crossmist::duplex::<u64, String>());
        self.partners.push((unsafe { <UnixStream as std::os::fd::FromRawFd>::from_raw_fd(b.into_raw_fd()) }, 1));
        a.into_raw_fd()
    }
    pub fn h(&mut self, s: &mut Src) -> H {
        use std::os::fd::FromRawFd;
        let k = if self.files_only { s.below(2) } else { s.below(KINDS as u64) };
        let btx = |m: &mut Self| unsafe { crossmist::Sender::<u64>::from_raw_fd(m.raw_endpoint()) };
        let brx = |m: &mut Self| unsafe { crossmist::Receiver::<String>::from_raw_fd(m.raw_endpoint()) };
        let bdx = |m: &mut Self| unsafe { crossmist::Duplex::<u64, String>::from_raw_fd(m.raw_endpoint()) };
        let k = if self.no_tokio && (7..=10).contains(&k) { k - 5 } else { k };
        match k {
            0 => H::File(self.file(s)),
            1 => {
                if !self.files_only && s.flip() {
                    H::Owned(self.sock().into())
                } else {
                    H::Owned(self.file(s).into())
                }
            }
            2 => H::Unix(self.sock()),
            3 => H::Tx(btx(self)),
            4 => H::Rx(brx(self)),
            5 => H::Dx(bdx(self)),
            6 => H::TFile(self.file(s).into()),
            7 => {
                let x = self.sock();
                io(x.set_nonblocking(true));
                H::TUnix(io(::tokio::net::UnixStream::from_std(x)))
            }
            8 => H::TTx(io(btx(self).try_into())),
            9 => H::TRx(io(brx(self).try_into())),
            10 => H::TDx(io(bdx(self).try_into())),
            11 => H::AFile(self.file(s).into()),
            12 => H::AUnix(io(async_io::Async::new(self.sock()))),
            13 => H::STx(io(btx(self).try_into())),
            14 => H::SRx(io(brx(self).try_into())),
            _ => H::SDx(io(bdx(self).try_into())),
        }
    }
    /// A value with about `n` handles.
    pub fn hv(&mut self, s: &mut Src, n: usize, d: u32) -> HV {
        if n == 0 {
            return match s.below(6) {
                0 => HV::N(s.word()),
                1 => HV::Text("t".repeat(s.idx(40))),
                2 => HV::Opt(None),
                3 => HV::Res(Err("e".into())),
                4 => HV::Vec(vec![]),
                _ => {
                    let n = s.len(3000);
                    HV::Bytes(s.bytes(n))
                }
            };
        }
        if n == 1 && (d == 0 || s.flip()) {
            return match s.below(6) {
                0 | 1 => HV::H(self.h(s)),
                2 => {
                    if s.flip() && !self.rcf.is_empty() {
                        return HV::RcF(self.rcf[s.idx(self.rcf.len())].clone());
                    }
                    let r = Rc::new(self.file(s));
                    self.rcf.push(r.clone());
                    HV::RcF(r)
                }
                3 => {
                    if s.flip() && !self.arcf.is_empty() {
                        return HV::ArcF(self.arcf[s.idx(self.arcf.len())].clone());
                    }
                    let r = Arc::new(OwnedFd::from(self.file(s)));
                    self.arcf.push(r.clone());
                    HV::ArcF(r)
                }
                4 => HV::Res(Ok(self.h(s))),
                _ => HV::Dyn(Box::new(DynA { a: s.below(100) as u32, h: self.h(s), s: "x".repeat(s.idx(5)) })),
            };
        }
        if d == 0 || (n > 8 && s.below(3) == 0) {
            return match s.below(6) {
                0 => HV::Files((0..n).map(|_| self.file(s)).collect()),
                1 => HV::Sl((0..n).map(|_| self.h(s)).collect()),
                2 => HV::Deq((0..n).map(|_| self.h(s)).collect()),
                3 => HV::Dyn(Box::new(DynB((0..n).map(|_| self.h(s)).collect()))),
                4 => HV::HMap((0..n).map(|i| (format!("k{i}"), self.h(s))).collect()),
                _ => HV::Rep((0..n).map(|_| (s.below(256) as u8, self.h(s))).collect()),
            };
        }
        match s.below(9) {
            0 | 1 => {
                let k = s.urange(1, 4);
                HV::Vec(split(s, n, k).into_iter().map(|m| self.hv(s, m, d - 1)).collect())
            }
            2 => {
                let p = split(s, n, 2);
                HV::Tup(Box::new((self.hv(s, p[0], d - 1), s.below(256) as u8, self.hv(s, p[1], d - 1))))
            }
            3 => HV::Opt(Some(Box::new(self.hv(s, n, d - 1)))),
            4 => {
                let k = s.urange(1, 4);
                HV::List(split(s, n, k).into_iter().map(|m| self.hv(s, m, d - 1)).collect())
            }
            5 => {
                let k = s.urange(1, 4);
                HV::Map(split(s, n, k).into_iter().enumerate().map(|(i, m)| (7 * i as u16, self.hv(s, m, d - 1))).collect())
            }
            6 => {
                if n <= 3 {
                    let mut a = [None, None, None];
                    for x in a.iter_mut().take(n) {
                        *x = Some(self.h(s));
                    }
                    let r = s.idx(3);
                    a.rotate_left(r);
                    HV::Arr(a)
                } else {
                    let st = HV::St { a: self.h(s), n: s.below(65536) as u16, b: Some(self.h(s)), t: ("t".repeat(s.idx(4)), self.h(s)) };
                    HV::Vec(vec![self.hv(s, n - 3, d - 1), st])
                }
            }
            _ => {
                if s.flip() && !self.rcv.is_empty() {
                    return HV::Rc(self.rcv[s.idx(self.rcv.len())].clone());
                }
                let r = Rc::new(self.hv(s, n, d - 1));
                self.rcv.push(r.clone());
                HV::Rc(r)
            }
        }
    }
    /// Forget the extra references to what was made (but not the other ends).
    pub fn settle(&mut self) {
        self.rcf.clear();
        self.arcf.clear();
        self.rcv.clear();
        self.last.clear();
    }
}
fn split(s: &mut Src, n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![0; k];
    let mut left = n;
    for x in v.iter_mut().take(k - 1) {
        *x = s.urange(0, left);
        left -= *x;
    }
    v[k - 1] = left;
    v
}
/// The number of handles of a message, biased to the boundaries of packets.
pub fn handle_count(s: &mut Src, max: usize) -> usize {
    let n = match s.below(10) {
        0 => 0,
        1..=4 => s.urange(1, 6),
        5 | 6 => s.urange(1, 40),
        7 => s.urange(250, 256),
        8 => s.urange(504, 508),
        _ => s.urange(0, 800),
    };
    n.min(max)
}
/// Use a pair of copies of one open file: the offset is shared.
pub fn same_description(a: RawFd, b: RawFd) -> bool {
    unsafe {
        let old = libc::lseek(a, 0, libc::SEEK_CUR);
        if old < 0 {
            return true; // not a file
        }
        libc::lseek(a, 123, libc::SEEK_SET);
        let r = libc::lseek(b, 0, libc::SEEK_CUR) == 123;
        libc::lseek(a, old, libc::SEEK_SET);
        r
    }
}
/// Exercise handles of a received value: bytes written to them reach the other end, by identity of the socket.
pub fn exercise(copy: &HV, orig: &[RawFd], limit: usize) -> Res {
    let mut err = None;
    let mut left = limit;
    let by_id: BTreeMap<_, _> = orig.iter().map(|fd| (file_id(*fd), *fd)).collect();
    copy.walk(&mut |l| {
        let fd = match l {
            Leaf::H(h) => h.raw(),
            Leaf::Fd(fd) => fd,
            _ => return,
        };
        if left == 0 || err.is_some() {
            return;
        }
        left -= 1;
        match by_id.get(&file_id(fd)) {
            Some(o) => {
                if !same_description(*o, fd) {
                    err = Some(format!("{fd} and {o} do not share the file offset"));
                }
            }
            None => err = Some(format!("{fd} is not one of the files that were sent")),
        }
    });
    match err {
        Some(e) => Err(Fail::V(e)),
        None => Ok(()),
    }
}

/// A message with handles.
#[derive(Object)]
pub struct HM {
    pub pad: Vec<u8>,
    pub v: HV,
    pub n: u64,
    pub w: Option<HV>,
    pub pad2: Vec<u8>,
}
pub fn gen_hm(c: &mut Ctx, m: &mut Maker, max: usize, data: usize) -> HM {
    let n = handle_count(&mut c.s, max);
    let two = n > 1 && c.s.flip();
    let first = if two { c.s.urange(0, n) } else { n };
    let n1 = crate::msg::wire_size(&mut c.s, data);
    let pad = c.s.bytes(n1);
    let v = m.hv(&mut c.s, first, 4);
    let w = if two { Some(m.hv(&mut c.s, n - first, 4)) } else { None };
    let n2 = if c.s.flip() { 0 } else { crate::msg::wire_size(&mut c.s, data) };
    let pad2 = c.s.bytes(n2);
    HM { pad, v, n: c.s.word(), w, pad2 }
}
impl HM {
    pub fn describe(&self) -> Vec<String> {
        let b = |v: &Vec<u8>| format!("pad {} {:x}", v.len(), v.iter().fold(7u64, |a, x| a.wrapping_mul(0x100000001b3) ^ *x as u64));
        let mut o = vec![b(&self.pad), self.n.to_string(), b(&self.pad2)];
        o.extend(self.v.describe());
        o.push("second".into());
        if let Some(w) = &self.w {
            o.extend(w.describe());
        }
        o
    }
    pub fn fds(&self) -> Vec<i32> {
        let mut v = self.v.fds();
        if let Some(w) = &self.w {
            v.extend(w.fds());
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn check(&self, orig: &[String], not: &[i32]) -> Res {
        if let Some(d) = diff(orig, &self.describe()) {
            crate::violated!("wrong value or handle: {d}");
        }
        for fd in self.fds() {
            crate::ensure!(!not.contains(&fd), "received handle {fd} is not a new descriptor");
            crate::ensure!(is_cloexec(fd), "received handle {fd} is not close-on-exec");
        }
        Ok(())
    }
}

