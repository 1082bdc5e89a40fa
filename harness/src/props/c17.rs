// C17: deserialization which fails at any position of an object.
use crossmist::{Deserializer, NonTrivialObject, Object, Serializer};
use std::collections::*;
use std::fs::File;
use std::io::{Error, ErrorKind, Result as Io};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vh::flav::*;
use vh::run::*;
use vh::src::Src;
use vh::util::*;
use vh::{ensure, must, violated};

static SERIAL: AtomicU64 = AtomicU64::new(1);
static LIVE: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
static TWICE: Mutex<Vec<u64>> = Mutex::new(Vec::new());

/// Counts its instances.
pub struct Tok {
    serial: u64,
    n: u32,
}
impl Tok {
    fn new(n: u32) -> Tok {
        let serial = SERIAL.fetch_add(1, Ordering::Relaxed);
        LIVE.lock().unwrap().insert(serial);
        Tok { serial, n }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !LIVE.lock().unwrap().remove(&self.serial) {
            TWICE.lock().unwrap().push(self.serial);
        }
    }
}
unsafe impl NonTrivialObject for Tok {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.n);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Io<Self> {
        Ok(Tok::new(d.deserialize()?))
    }
}
/// Fails to be deserialized, unless it is 0.
pub struct Bomb(u8);
const ERRNOS: [i32; 8] = [libc::EMFILE, libc::EAGAIN, libc::EINTR, libc::EPIPE, libc::ECONNRESET, libc::ENOMEM, libc::EPERM, libc::ENOENT];
const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::Interrupted,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::OutOfMemory,
    ErrorKind::TimedOut,
    ErrorKind::NotFound,
];
fn bomb_error(k: u8) -> Error {
    let k = k as usize - 1;
    if k < 8 {
        Error::from_raw_os_error(ERRNOS[k])
    } else if k < 18 {
        Error::new(KINDS[k - 8], format!("bomb {k}"))
    } else {
        KINDS[k - 18].into()
    }
}
const BOMBS: u64 = 28;
unsafe impl NonTrivialObject for Bomb {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Io<Self> {
        match d.deserialize()? {
            0 => Ok(Bomb(0)),
            k => Err(bomb_error(k)),
        }
    }
}
/// A handle which can not be registered with the reactor.
pub struct Unregistered(File);
unsafe impl NonTrivialObject for Unregistered {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Io<Self> {
        let f: async_io::Async<File> = d.deserialize()?;
        Ok(Unregistered(f.into_inner()?))
    }
}
#[derive(Object)]
pub enum Leaf {
    N(u64),
    Tok(Tok),
    Bomb(Bomb),
    File(File),
    Unregistered(Unregistered),
    Text(String, Tok),
}
/// A key of maps.
#[derive(Object)]
pub struct K(u32, Leaf);
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
pub trait Tr: Object {
    fn walk(&self, f: &mut dyn FnMut(&Leaf));
}
#[derive(Object)]
pub struct D1(Leaf, FV, Leaf);
#[derive(Object)]
pub struct D2 {
    v: Vec<Leaf>,
    t: Tok,
}
impl Tr for D1 {
    fn walk(&self, f: &mut dyn FnMut(&Leaf)) {
        f(&self.0);
        self.1.walk(f);
        f(&self.2);
    }
}
impl Tr for D2 {
    fn walk(&self, f: &mut dyn FnMut(&Leaf)) {
        self.v.iter().for_each(f);
        let _ = &self.t;
    }
}
#[derive(Object)]
pub struct G<T: Object, U: Object> {
    t: T,
    tok: Tok,
    u: Option<U>,
}
#[derive(Object)]
pub enum FV {
    L(Leaf),
    Vec(Vec<FV>),
    Leaves(Vec<Leaf>),
    Arr2(Vec<[Leaf; 2]>),
    Arr5(Box<[Leaf; 5]>),
    ArrN(Box<[[FV; 1]; 3]>),
    Sl(Box<[FV]>),
    Deq(VecDeque<FV>),
    List(LinkedList<Leaf>),
    Map(BTreeMap<K, FV>),
    HMap(HashMap<K, Leaf>),
    Set(BTreeSet<K>),
    HSet(HashSet<K>),
    Heap(BinaryHeap<K>),
    Opt(Option<Box<FV>>),
    Res(Result<Box<FV>, Leaf>),
    T1(Box<(FV,)>),
    T3(Box<(Leaf, FV, Leaf)>),
    T7(Box<(Leaf, Tok, Leaf, String, Leaf, Tok, Leaf)>),
    T20(Box<(Leaf, u8, Leaf, Tok, Leaf, u64, Leaf, Tok, Leaf, String, Leaf, Tok, Leaf, u8, Leaf, Tok, Leaf, u8, Tok, Leaf)>),
    Rc(Rc<FV>),
    Arc(Arc<Leaf>),
    Dyn(Box<dyn Tr>),
    St { a: Leaf, b: Box<FV>, c: Tok, d: Vec<Leaf> },
    Gen(Box<G<Leaf, FV>>),
    GenV(G<Vec<Leaf>, [Leaf; 2]>),
}
impl FV {
    fn walk(&self, f: &mut dyn FnMut(&Leaf)) {
        match self {
            FV::L(l) => f(l),
            FV::Vec(v) => v.iter().for_each(|x| x.walk(f)),
            FV::Leaves(v) => v.iter().for_each(f),
            FV::Arr2(v) => v.iter().flatten().for_each(f),
            FV::Arr5(v) => v.iter().for_each(f),
            FV::ArrN(v) => v.iter().flatten().for_each(|x| x.walk(f)),
            FV::Sl(v) => v.iter().for_each(|x| x.walk(f)),
            FV::Deq(v) => v.iter().for_each(|x| x.walk(f)),
            FV::List(v) => v.iter().for_each(f),
            FV::Map(m) => m.iter().for_each(|(k, v)| {
                f(&k.1);
                v.walk(f)
            }),
            FV::HMap(m) => {
                let mut ks: Vec<_> = m.iter().collect();
                ks.sort_by_key(|x| x.0 .0);
                ks.iter().for_each(|(k, v)| {
                    f(&k.1);
                    f(v)
                })
            }
            FV::Set(m) => m.iter().for_each(|k| f(&k.1)),
            FV::HSet(m) => {
                let mut ks: Vec<_> = m.iter().collect();
                ks.sort();
                ks.iter().for_each(|k| f(&k.1))
            }
            FV::Heap(m) => {
                let mut ks: Vec<_> = m.iter().collect();
                ks.sort();
                ks.iter().for_each(|k| f(&k.1))
            }
            FV::Opt(o) => o.iter().for_each(|x| x.walk(f)),
            FV::Res(Ok(o)) => o.walk(f),
            FV::Res(Err(o)) => f(o),
            FV::T1(t) => t.0.walk(f),
            FV::T3(t) => {
                f(&t.0);
                t.1.walk(f);
                f(&t.2);
            }
            FV::T7(t) => [&t.0, &t.2, &t.4, &t.6].into_iter().for_each(f),
            FV::T20(t) => [&t.0, &t.2, &t.4, &t.6, &t.8, &t.10, &t.12, &t.14, &t.16, &t.19].into_iter().for_each(f),
            FV::Rc(r) => r.walk(f),
            FV::Arc(r) => f(r),
            FV::Dyn(d) => d.walk(f),
            FV::St { a, b, c: _, d } => {
                f(a);
                b.walk(f);
                d.iter().for_each(f);
            }
            FV::Gen(g) => {
                f(&g.t);
                g.u.iter().for_each(|u| u.walk(f));
            }
            FV::GenV(g) => {
                g.t.iter().for_each(&mut *f);
                g.u.iter().flatten().for_each(f);
            }
        }
    }
    fn describe(&self) -> Vec<String> {
        let mut v = Vec::new();
        self.walk(&mut |l| v.push(leaf_text(l)));
        v
    }
    /// The errors which can happen.
    fn errors(&self) -> Vec<Error> {
        let mut v = Vec::new();
        self.walk(&mut |l| match l {
            Leaf::Bomb(Bomb(k)) if *k != 0 => v.push(bomb_error(*k)),
            Leaf::Unregistered(_) => v.push(Error::from_raw_os_error(libc::EPERM)),
            _ => {}
        });
        v
    }
}
fn leaf_text(l: &Leaf) -> String {
    use std::os::fd::AsRawFd;
    match l {
        Leaf::N(n) => format!("n{n}"),
        Leaf::Tok(t) => format!("tok {}", t.n),
        Leaf::Bomb(b) => format!("bomb {}", b.0),
        Leaf::File(f) => format!("file {:?}", file_id(f.as_raw_fd())),
        Leaf::Unregistered(f) => format!("unregistered {:?}", file_id(f.0.as_raw_fd())),
        Leaf::Text(t, k) => format!("text {t} {}", k.n),
    }
}
struct Gen {
    next: u32,
    /// Leaves until the next failing one
    fuse: Vec<usize>,
    leaves: usize,
    rcs: Vec<Rc<FV>>,
    arcs: Vec<Arc<Leaf>>,
}
impl Gen {
    fn tok(&mut self) -> Tok {
        self.next += 1;
        Tok::new(self.next)
    }
    fn leaf(&mut self, s: &mut Src) -> Leaf {
        let i = self.leaves;
        self.leaves += 1;
        if self.fuse.contains(&i) {
            return if s.below(8) == 7 { Leaf::Unregistered(Unregistered(memfd())) } else { Leaf::Bomb(Bomb(1 + s.below(BOMBS) as u8)) };
        }
        match s.below(8) {
            0 => Leaf::N(s.word()),
            1..=3 => Leaf::Tok(self.tok()),
            4 | 5 => Leaf::File(memfd()),
            6 => Leaf::Bomb(Bomb(0)),
            _ => Leaf::Text("t".repeat(s.idx(20)), self.tok()),
        }
    }
    fn leaves(&mut self, s: &mut Src) -> Vec<Leaf> {
        (0..s.idx(6)).map(|_| self.leaf(s)).collect()
    }
    fn k(&mut self, s: &mut Src) -> K {
        self.next += 1;
        K(self.next, self.leaf(s))
    }
    fn fv(&mut self, s: &mut Src, d: u32) -> FV {
        if d == 0 {
            return match s.below(4) {
                0 => FV::L(self.leaf(s)),
                1 => FV::Leaves(self.leaves(s)),
                2 => FV::Arr5(Box::new(std::array::from_fn(|_| self.leaf(s)))),
                _ => FV::Set((0..s.idx(5)).map(|_| self.k(s)).collect()),
            };
        }
        let d = d - 1;
        match s.below(26) {
            0 => FV::L(self.leaf(s)),
            1 => FV::Vec((0..s.idx(5)).map(|_| self.fv(s, d)).collect()),
            2 => FV::Leaves(self.leaves(s)),
            3 => FV::Arr2((0..s.idx(5)).map(|_| std::array::from_fn(|_| self.leaf(s))).collect()),
            4 => FV::Arr5(Box::new(std::array::from_fn(|_| self.leaf(s)))),
            5 => FV::ArrN(Box::new(std::array::from_fn(|_| [self.fv(s, d)]))),
            6 => FV::Sl((0..s.idx(5)).map(|_| self.fv(s, d)).collect()),
            7 => FV::Deq((0..s.idx(5)).map(|_| self.fv(s, d)).collect()),
            8 => FV::List(self.leaves(s).into_iter().collect()),
            9 => FV::Map((0..s.idx(5)).map(|_| (self.k(s), self.fv(s, d))).collect()),
            10 => FV::HMap((0..s.idx(5)).map(|_| (self.k(s), self.leaf(s))).collect()),
            11 => FV::Set((0..s.idx(5)).map(|_| self.k(s)).collect()),
            12 => FV::HSet((0..s.idx(5)).map(|_| self.k(s)).collect()),
            13 => FV::Heap((0..s.idx(5)).map(|_| self.k(s)).collect()),
            14 => FV::Opt(if s.flip() { Some(Box::new(self.fv(s, d))) } else { None }),
            15 => FV::Res(if s.flip() { Ok(Box::new(self.fv(s, d))) } else { Err(self.leaf(s)) }),
            16 => FV::T1(Box::new((self.fv(s, d),))),
            17 => FV::T3(Box::new((self.leaf(s), self.fv(s, d), self.leaf(s)))),
            18 => FV::T7(Box::new((self.leaf(s), self.tok(), self.leaf(s), "s".into(), self.leaf(s), self.tok(), self.leaf(s)))),
            19 => FV::T20(Box::new((
                self.leaf(s), 1, self.leaf(s), self.tok(), self.leaf(s), 2, self.leaf(s), self.tok(), self.leaf(s), "s".into(), self.leaf(s), self.tok(), self.leaf(s), 3,
                self.leaf(s), self.tok(), self.leaf(s), 4, self.tok(), self.leaf(s),
            ))),
            20 => {
                if s.flip() && !self.rcs.is_empty() {
                    return FV::Rc(self.rcs[s.idx(self.rcs.len())].clone());
                }
                let r = Rc::new(self.fv(s, d));
                self.rcs.push(r.clone());
                FV::Rc(r)
            }
            21 => {
                if s.flip() && !self.arcs.is_empty() {
                    return FV::Arc(self.arcs[s.idx(self.arcs.len())].clone());
                }
                let r = Arc::new(self.leaf(s));
                self.arcs.push(r.clone());
                FV::Arc(r)
            }
            22 => {
                if s.flip() {
                    FV::Dyn(Box::new(D1(self.leaf(s), self.fv(s, d), self.leaf(s))))
                } else {
                    FV::Dyn(Box::new(D2 { v: self.leaves(s), t: self.tok() }))
                }
            }
            23 => FV::St { a: self.leaf(s), b: Box::new(self.fv(s, d)), c: self.tok(), d: self.leaves(s) },
            24 => FV::Gen(Box::new(G { t: self.leaf(s), tok: self.tok(), u: if s.flip() { Some(self.fv(s, d)) } else { None } })),
            _ => FV::GenV(G { t: self.leaves(s), tok: self.tok(), u: if s.flip() { Some([self.leaf(s), self.leaf(s)]) } else { None } }),
        }
    }
}
fn values(c: &mut Ctx, n: usize, failing: &[bool]) -> Vec<FV> {
    let mut out = Vec::new();
    let mut g = Gen { next: 0, fuse: vec![], leaves: 0, rcs: vec![], arcs: vec![] };
    for f in failing.iter().take(n) {
        g.leaves = 0;
        g.fuse.clear();
        if *f {
            g.fuse.push(c.s.idx(12));
            if c.s.chance(1, 4) {
                g.fuse.push(c.s.idx(30));
            }
        }
        // A failing object is not shared by messages which do not fail
        g.rcs.retain(|r| r.errors().is_empty());
        g.arcs.retain(|r| !matches!(&**r, Leaf::Bomb(Bomb(k)) if *k != 0) && !matches!(&**r, Leaf::Unregistered(_)));
        let d = c.s.range(1, 4) as u32;
        out.push(g.fv(&mut c.s, d));
    }
    out
}
fn no_double() -> Res {
    let t = std::mem::take(&mut *TWICE.lock().unwrap());
    ensure!(t.is_empty(), "{} objects were dropped which did not exist (or no longer)", t.len());
    Ok(())
}
fn live() -> usize {
    LIVE.lock().unwrap().len()
}
/// The error is one of those which happen in the message.
fn expected(e: &Error, among: &[Error], what: &str, channel: bool) -> Res {
    let same = |x: &Error| e.raw_os_error() == x.raw_os_error() && e.kind() == x.kind() && e.to_string() == x.to_string();
    // A channel reports WouldBlock as another error, as it would mean that no message has come yet
    let blocking = channel && among.iter().any(|x| x.kind() == ErrorKind::WouldBlock) && e.kind() == ErrorKind::Other;
    ensure!(among.iter().any(same) || blocking, "{what}: failed with {e:?} instead of one of {among:?}");
    Ok(())
}

pub fn case_inproc(c: &mut Ctx) -> Res {
    let base = open_fds();
    LIVE.lock().unwrap().clear();
    TWICE.lock().unwrap().clear();
    let r = (|| -> Res {
        let n = c.s.urange(1, 4);
        let bad = c.s.idx(n);
        let failing: Vec<bool> = (0..n).map(|i| i == bad).collect();
        let vals = values(c, n, &failing);
        c.note(|| format!("{n} values, number {bad} may fail: {:?}", vals[bad].describe()));
        let descs: Vec<_> = vals.iter().map(|v| v.describe()).collect();
        let mut s = Serializer::new();
        vals.iter().for_each(|v| s.serialize(v));
        let handles: Vec<_> = s.drain_handles().iter().map(|h| h.try_clone_to_owned().expect("HARNESS dup")).collect();
        let data = s.into_vec();
        let errors: Vec<Vec<Error>> = vals.iter().map(|v| v.errors()).collect();
        if !errors[bad].is_empty() {
            c.nontrivial();
            c.label("fails");
        }
        let own = live();
        let originals = open_fds();
        let nh = handles.len();
        let mut kept = Vec::new();
        let mut d = Deserializer::new(data, handles);
        for i in 0..n {
            match unsafe { d.deserialize::<FV>() } {
                Ok(v) => {
                    ensure!(errors[i].is_empty(), "value {i} was deserialized though a part of it fails");
                    ensure!(v.describe() == descs[i], "value {i} changed: {:?} became {:?}", descs[i], v.describe());
                    kept.push(v);
                }
                Err(e) => {
                    ensure!(!errors[i].is_empty(), "value {i} failed: {e:?}");
                    expected(&e, &errors[i], "deserialize", false)?;
                    break;
                }
            }
            no_double()?;
        }
        if c.s.flip() {
            drop(d);
            kept.clear();
        } else {
            kept.clear();
            drop(d);
        }
        no_double()?;
        ensure!(live() == own, "{} objects of the failed deserialization still exist", live() as i64 - own as i64);
        let now = open_fds();
        ensure!(now.len() + nh == originals.len(), "of {nh} handles, {} were not closed (or others were)", now.len() as i64 + nh as i64 - originals.len() as i64);
        drop(vals);
        no_double()?;
        ensure!(live() == 0, "the originals are not dropped");
        Ok(())
    })();
    r?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}

pub fn case_chan(c: &mut Ctx) -> Res {
    let base = open_fds();
    LIVE.lock().unwrap().clear();
    TWICE.lock().unwrap().clear();
    let fl = [FLS[c.s.idx(3)], FLS[c.s.idx(3)]];
    let n = c.s.urange(1, 6);
    let mut failing = Vec::new();
    for _ in 0..n {
        failing.push(c.s.flip());
    }
    let vals = values(c, n, &failing);
    // A request fails or not like a recv
    let mode = c.s.idx(3);
    let keep = c.s.flip();
    let pad: Vec<usize> = (0..n).map(|_| if c.s.chance(1, 5) { c.s.idx(40_000) } else { 0 }).collect();
    c.note(|| format!("{n} messages, {} {fl:?}: {:?}", ["channel", "duplex", "requests"][mode], vals.iter().map(|v| v.errors().iter().map(|e| e.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let descs: Vec<_> = vals.iter().map(|v| v.describe()).collect();
    let errors: Vec<Vec<Error>> = vals.iter().map(|v| v.errors()).collect();
    if errors.iter().any(|e| !e.is_empty()) {
        c.nontrivial();
        c.label("fails");
    }
    let msgs: Vec<(Vec<u8>, FV)> = vals.into_iter().zip(&pad).map(|(v, p)| (vec![7; *p], v)).collect();
    let own = live();
    let originals = open_fds();
    let sh = Hand((&msgs, &descs, &errors));
    let sh = &sh;
    type M = (Vec<u8>, FV);
    enum E2 {
        T(crossmist::Sender<M>),
        D(crossmist::Duplex<M, u8>),
    }
    enum E1 {
        R(crossmist::Receiver<M>),
        D(crossmist::Duplex<u8, M>),
    }
    let (a, b) = if mode == 0 {
        let (a, b) = must!(crossmist::channel::<M>(), "channel");
        (E2::T(a), E1::R(b))
    } else {
        let (a, b) = must!(crossmist::duplex::<M, u8>(), "duplex");
        (E2::D(a), E1::D(b))
    };
    let out = std::thread::scope(|scope| -> Res {
        // To compare descriptors, the sender stays until the end
        let (finish, finished) = std::sync::mpsc::channel::<()>();
        let (ready, wait_ready) = std::sync::mpsc::channel::<()>();
        let h = {
            let a = Hand((a, finished, ready));
            scope.spawn(move || {
                let f = move || -> Res {
                    let (a, finished, ready) = a.get();
                    match a {
                        E2::T(a) => drive_ctx(fl[0], async {
                            let mut tx = must!(Tx::from_blocking(a, fl[0]), "conversion");
                            drop(ready);
                            for m in sh.0 .0.iter() {
                                must!(tx.send(m).await, "send");
                            }
                            let _ = finished.recv();
                            Ok(())
                        }),
                        E2::D(a) => drive_ctx(fl[0], async {
                            let mut dx = must!(Dx::from_blocking(a, fl[0]), "conversion");
                            drop(ready);
                            for (i, m) in sh.0 .0.iter().enumerate() {
                                if mode == 2 {
                                    match dx.recv().await {
                                        Ok(Some(q)) => ensure!(q as usize == i, "wrong request"),
                                        o => violated!("receiving a request: {o:?}"),
                                    }
                                }
                                must!(dx.send(m).await, "send");
                            }
                            let _ = finished.recv();
                            Ok(())
                        }),
                    }
                };
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
            })
        };
        let recv = drive_ctx(fl[1], async {
            let mut rx = match b {
                E1::R(b) => vh::script::End::<u8, M>::Rx(must!(Rx::from_blocking(b, fl[1]), "conversion")),
                E1::D(b) => vh::script::End::Dx(must!(Dx::from_blocking(b, fl[1]), "conversion")),
            };
            let mut kept = Vec::new();
            let mut alive = own;
            let _ = wait_ready.recv();
            for i in 0..n {
                let before = open_fds();
                let r = match &mut rx {
                    vh::script::End::Rx(x) => x.recv().await,
                    vh::script::End::Dx(x) if mode == 1 => x.recv().await,
                    vh::script::End::Dx(x) => x.request(&(i as u8)).await.map(Some),
                    _ => unreachable!(),
                };
                match r {
                    Ok(None) => violated!("end of the channel instead of message {i}"),
                    Ok(Some((p, v))) => {
                        ensure!(sh.0 .2[i].is_empty(), "message {i} was received though a part of it fails");
                        ensure!(v.describe() == sh.0 .1[i] && p.len() == pad[i], "message {i} changed: {:?} became {:?}", sh.0 .1[i], v.describe());
                        if keep {
                            kept.push(v);
                            alive = live();
                        }
                    }
                    Err(e) => {
                        ensure!(!sh.0 .2[i].is_empty(), "receiving message {i} failed: {e:?}");
                        expected(&e, &sh.0 .2[i], "recv", true)?;
                        ensure!(live() == alive, "message {i} failed, but {} objects of it still exist", live() as i64 - alive as i64);
                        if let Some(d) = fd_settled(&before) {
                            violated!("message {i} failed; descriptors after it: {d}");
                        }
                    }
                }
                no_double()?;
            }
            drop(kept);
            no_double()?;
            ensure!(live() == own, "{} received objects still exist", live() as i64 - own as i64);
            drop(finish);
            match &mut rx {
                vh::script::End::Rx(x) => ensure!(matches!(x.recv().await, Ok(None)), "no end after the messages"),
                vh::script::End::Dx(x) => ensure!(matches!(x.recv().await, Ok(None)), "no end after the messages"),
                _ => {}
            }
            Ok(())
        });
        match h.join().unwrap() {
            Ok(s) => recv.and(s),
            Err(p) => std::panic::resume_unwind(p),
        }
    });
    out?;
    c.label(format!("{fl:?}"));
    if let Some(d) = fd_settled(&originals) {
        violated!("descriptors differ after the transfer: {d}");
    }
    drop(msgs);
    no_double()?;
    ensure!(live() == 0, "the originals are not dropped");
    if let Some(d) = fd_settled(&base) {
        return Err(Fail::H(format!("descriptors differ after cleaning up: {d}")));
    }
    Ok(())
}
