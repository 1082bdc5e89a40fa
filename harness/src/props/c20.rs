// C20: endpoints of channels move among processes in all ways; a model knows the contents of each queue and the holder of each endpoint.
use crossmist::{Delayed, Object};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::os::fd::{AsRawFd, RawFd};
use vh::flav::*;
use vh::kid::*;
use vh::run::*;
use vh::src::{fill, mix};
use vh::util::*;
use vh::{ensure, must, start, violated};

#[derive(Object)]
pub enum End {
    BT(crossmist::Sender<M>),
    BR(crossmist::Receiver<M>),
    BD(crossmist::Duplex<M, M>),
    TT(crossmist::tokio::Sender<M>),
    TR(crossmist::tokio::Receiver<M>),
    TD(crossmist::tokio::Duplex<M, M>),
    ST(crossmist::smol::Sender<M>),
    SR(crossmist::smol::Receiver<M>),
    SD(crossmist::smol::Duplex<M, M>),
}
type Ends = Vec<(u32, End)>;
#[derive(Object)]
pub struct M {
    id: u64,
    pad: Vec<u8>,
    ends: Ends,
    mark: u16,
}
impl End {
    fn fl(&self) -> Fl {
        match self {
            End::BT(_) | End::BR(_) | End::BD(_) => Fl::B,
            End::TT(_) | End::TR(_) | End::TD(_) => Fl::T,
            _ => Fl::S,
        }
    }
    fn raw(&self) -> RawFd {
        match self {
            End::BT(x) => x.as_raw_fd(),
            End::BR(x) => x.as_raw_fd(),
            End::BD(x) => x.as_raw_fd(),
            End::TT(x) => x.as_raw_fd(),
            End::TR(x) => x.as_raw_fd(),
            End::TD(x) => x.as_raw_fd(),
            End::ST(x) => x.as_raw_fd(),
            End::SR(x) => x.as_raw_fd(),
            End::SD(x) => x.as_raw_fd(),
        }
    }
    async fn send(&mut self, m: &M) -> std::io::Result<()> {
        match self {
            End::BT(x) => x.send(m),
            End::BD(x) => x.send(m),
            End::TT(x) => x.send(m).await,
            End::TD(x) => x.send(m).await,
            End::ST(x) => x.send(m).await,
            End::SD(x) => x.send(m).await,
            _ => panic!("HARNESS send"),
        }
    }
    async fn recv(&mut self) -> std::io::Result<Option<M>> {
        match self {
            End::BR(x) => x.recv(),
            End::BD(x) => x.recv(),
            End::TR(x) => x.recv().await,
            End::TD(x) => x.recv().await,
            End::SR(x) => x.recv().await,
            End::SD(x) => x.recv().await,
            _ => panic!("HARNESS recv"),
        }
    }
    async fn request(&mut self, m: &M) -> std::io::Result<M> {
        match self {
            End::BD(x) => x.request(m),
            End::TD(x) => x.request(m).await,
            End::SD(x) => x.request(m).await,
            _ => panic!("HARNESS request"),
        }
    }
    fn convert(self, fl: Fl) -> std::io::Result<End> {
        Ok(match (self, fl) {
            (End::BT(x), Fl::T) => End::TT(x.try_into()?),
            (End::BR(x), Fl::T) => End::TR(x.try_into()?),
            (End::BD(x), Fl::T) => End::TD(x.try_into()?),
            (End::BT(x), Fl::S) => End::ST(x.try_into()?),
            (End::BR(x), Fl::S) => End::SR(x.try_into()?),
            (End::BD(x), Fl::S) => End::SD(x.try_into()?),
            (x, _) => x,
        })
    }
    /// Keep one direction of a duplex
    fn half(self, tx: bool) -> End {
        match (self, tx) {
            (End::BD(x), true) => End::BT(x.into_sender()),
            (End::BD(x), false) => End::BR(x.into_receiver()),
            (End::TD(x), true) => End::TT(x.into_sender()),
            (End::TD(x), false) => End::TR(x.into_receiver()),
            (End::SD(x), true) => End::ST(x.into_sender()),
            (End::SD(x), false) => End::SR(x.into_receiver()),
            (x, _) => x,
        }
    }
}
#[derive(Object)]
pub enum Cmd {
    Create { fl: u8, duplex: bool, a: u32, b: u32 },
    Send { e: u32, id: u64, len: usize, ends: Vec<u32> },
    Recv { e: u32 },
    Request { e: u32, id: u64, len: usize, ends: Vec<u32> },
    Readable { e: u32 },
    Drop { ends: Vec<u32> },
    Give { ends: Vec<u32> },
    Take(Ends),
    Convert { e: u32, fl: u8 },
    Half { e: u32, tx: bool },
    Spawn { kid: u32, how: u8, ctl: crossmist::Duplex<Reply, Cmd>, ends: Vec<u32>, late: Vec<u32> },
    Join { kid: u32 },
    Census,
    Nop,
    Exit { keep: Vec<u32> },
}
#[derive(Object)]
pub enum Reply {
    Hello(i32),
    Done,
    Failed(String),
    /// Number, are the contents right, endpoints
    Got(u64, bool, Vec<u32>),
    None,
    Readable(bool),
    Ends(Ends),
    /// Endpoints in the result, or none if joining failed
    Joined(Option<Vec<u32>>),
    /// Sockets beyond the ones for control
    Census(i64, Vec<String>),
}
fn message(id: u64, len: usize, ends: Ends) -> M {
    M { id, pad: fill(mix(id), len), ends, mark: id as u16 }
}
fn sound(m: &M) -> bool {
    m.mark == m.id as u16 && m.pad == fill(mix(m.id), m.pad.len())
}
fn sockets() -> Vec<String> {
    open_fds().keys().map(|fd| describe_fd(*fd)).filter(|s| s.starts_with("socket:")).collect()
}
struct Actor {
    rt: ::tokio::runtime::Runtime,
    ends: BTreeMap<u32, End>,
    kids: BTreeMap<u32, (usize, Kid<Ends>)>,
    base: i64,
}
impl Actor {
    fn go<F: Future>(rt: &::tokio::runtime::Runtime, fl: Fl, f: F) -> F::Output {
        let _g = rt.enter();
        match fl {
            Fl::B => futures_lite::future::block_on(f),
            Fl::T => rt.block_on(f),
            Fl::S => async_io::block_on(f),
            Fl::C => vh::own::block_on(f),
        }
    }
    fn take(&mut self, ids: &[u32]) -> Ends {
        ids.iter().map(|i| (*i, self.ends.remove(i).expect("HARNESS endpoint"))).collect()
    }
    fn put(&mut self, ends: Ends) -> Vec<u32> {
        let ids = ends.iter().map(|x| x.0).collect();
        self.ends.extend(ends);
        ids
    }
    fn exec(&mut self, c: Cmd) -> Reply {
        let e = match self.try_exec(c) {
            Ok(r) => return r,
            Err(e) => e,
        };
        Reply::Failed(format!("{:?} {e}", e.kind()))
    }
    fn try_exec(&mut self, c: Cmd) -> std::io::Result<Reply> {
        Ok(match c {
            Cmd::Create { fl, duplex, a, b } => {
                let _g = self.rt.enter();
                let (x, y) = match (fl, duplex) {
                    (0, false) => { let (x, y) = crossmist::channel()?; (End::BT(x), End::BR(y)) }
                    (0, true) => { let (x, y) = crossmist::duplex()?; (End::BD(x), End::BD(y)) }
                    (1, false) => { let (x, y) = crossmist::tokio::channel()?; (End::TT(x), End::TR(y)) }
                    (1, true) => { let (x, y) = crossmist::tokio::duplex()?; (End::TD(x), End::TD(y)) }
                    (_, false) => { let (x, y) = crossmist::smol::channel()?; (End::ST(x), End::SR(y)) }
                    (_, true) => { let (x, y) = crossmist::smol::duplex()?; (End::SD(x), End::SD(y)) }
                };
                self.ends.insert(a, x);
                self.ends.insert(b, y);
                Reply::Done
            }
            Cmd::Send { e, id, len, ends } => {
                let m = message(id, len, self.take(&ends));
                let x = self.ends.get_mut(&e).expect("HARNESS endpoint");
                match Self::go(&self.rt, x.fl(), x.send(&m)) {
                    Ok(()) => Reply::Done,
                    Err(err) => {
                        self.put(m.ends);
                        return Err(err);
                    }
                }
            }
            Cmd::Recv { e } => {
                let x = self.ends.get_mut(&e).expect("HARNESS endpoint");
                match Self::go(&self.rt, x.fl(), x.recv())? {
                    None => Reply::None,
                    Some(m) => {
                        let ok = sound(&m);
                        Reply::Got(m.id, ok, self.put(m.ends))
                    }
                }
            }
            Cmd::Request { e, id, len, ends } => {
                let m = message(id, len, self.take(&ends));
                let x = self.ends.get_mut(&e).expect("HARNESS endpoint");
                // The endpoints must be gone from here when they are used there
                let r = Self::go(&self.rt, x.fl(), x.request(&m))?;
                drop(m);
                let ok = sound(&r);
                Reply::Got(r.id, ok, self.put(r.ends))
            }
            Cmd::Readable { e } => Reply::Readable(readable_now(self.ends[&e].raw())),
            Cmd::Drop { ends } => {
                let v = self.take(&ends);
                let _g = self.rt.enter();
                drop(v);
                Reply::Done
            }
            Cmd::Give { ends } => Reply::Ends(self.take(&ends)),
            Cmd::Take(ends) => {
                self.put(ends);
                Reply::Done
            }
            Cmd::Convert { e, fl } => {
                let _g = self.rt.enter();
                let x = self.ends.remove(&e).expect("HARNESS endpoint").convert(FLS[fl as usize])?;
                self.ends.insert(e, x);
                Reply::Done
            }
            Cmd::Half { e, tx } => {
                let x = self.ends.remove(&e).expect("HARNESS endpoint").half(tx);
                self.ends.insert(e, x);
                Reply::Done
            }
            Cmd::Spawn { kid, how, ctl, ends, late } => {
                let (a, b) = (self.take(&ends), Delayed::new(self.take(&late)));
                let how = how as usize;
                let k = Self::go(&self.rt, how_fl(how), async { start!(how, actor, ctl, a, b) })?;
                self.kids.insert(kid, (how, k));
                Reply::Done
            }
            Cmd::Join { kid } => {
                let (how, k) = self.kids.remove(&kid).expect("HARNESS kid");
                match Self::go(&self.rt, how_fl(how), k.join()) {
                    Ok(v) => Reply::Joined(Some(self.put(v))),
                    Err(_) => Reply::Joined(None),
                }
            }
            Cmd::Census => {
                let v = sockets();
                Reply::Census(v.len() as i64 - self.base, v)
            }
            Cmd::Nop => Reply::Done,
            Cmd::Exit { .. } => panic!("HARNESS exit"),
        })
    }
}
#[crossmist::func]
fn actor(ctl: crossmist::Duplex<Reply, Cmd>, ends: Ends, late: Delayed<Ends>) -> Ends {
    let mut ctl = ctl;
    let rt = tokio_rt();
    warm_smol();
    let mut a = Actor { rt, ends: BTreeMap::new(), kids: BTreeMap::new(), base: 0 };
    a.put(ends);
    let late = {
        let _g = a.rt.enter();
        late.deserialize().unwrap()
    };
    a.put(late);
    a.base = sockets().len() as i64 - a.ends.len() as i64;
    ctl.send(&Reply::Hello(std::process::id() as i32)).unwrap();
    loop {
        let c = {
            let _g = a.rt.enter();
            ctl.recv().unwrap()
        };
        match c {
            // The controller has ended
            None => std::process::exit(9),
            Some(Cmd::Exit { keep }) => {
                let v = a.take(&keep);
                let _g = a.rt.enter();
                a.ends.clear();
                std::mem::forget(a.kids);
                return v;
            }
            Some(c) => {
                let r = a.exec(c);
                ctl.send(&r).unwrap();
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Loc {
    Held(usize),
    /// In the queue of an endpoint
    Flight(usize),
    /// In the result of an actor which has ended
    Result(usize),
    Dropped,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Tx,
    Rx,
    Dx,
}
struct Ep {
    kind: Kind,
    peer: usize,
    loc: Loc,
    fl: Fl,
    /// The other direction is not used any more (the endpoint was a duplex)
    half: bool,
    moves: usize,
}
struct Ms {
    id: u64,
    len: usize,
    ends: Vec<usize>,
}
struct Who {
    parent: Option<usize>,
    alive: bool,
    /// It has ended well, but was not joined yet
    result: Option<bool>,
    ctl: Option<crossmist::Duplex<Cmd, Reply>>,
    pidfd: RawFd,
}
struct World {
    me: Actor,
    eps: Vec<Ep>,
    q: Vec<VecDeque<Ms>>,
    who: Vec<Who>,
    ids: u64,
}
impl World {
    fn held(&self, a: usize) -> Vec<usize> {
        (0..self.eps.len()).filter(|e| self.eps[*e].loc == Loc::Held(a)).collect()
    }
    fn alive(&self) -> Vec<usize> {
        (0..self.who.len()).filter(|a| self.who[*a].alive).collect()
    }
    fn ask(&mut self, a: usize, c: Cmd) -> Res {
        match &mut self.who[a].ctl {
            None => Ok(()),
            Some(x) => {
                must!(x.send(&c), "commanding actor {a}");
                Ok(())
            }
        }
    }
    fn answer(&mut self, a: usize) -> Res<Reply> {
        let _g = self.me.rt.enter();
        match self.who[a].ctl.as_mut().unwrap().recv() {
            Ok(Some(r)) => Ok(r),
            x => violated!("actor {a} failed: {:?}", x.map(|_| ())),
        }
    }
    fn run(&mut self, a: usize, c: Cmd) -> Res<Reply> {
        if a == 0 {
            return Ok(self.me.exec(c));
        }
        self.ask(a, c)?;
        self.answer(a)
    }
    fn done(&mut self, a: usize, c: Cmd, what: &str) -> Res {
        match self.run(a, c)? {
            Reply::Done => Ok(()),
            Reply::Failed(e) => violated!("{what} failed: {e}"),
            _ => violated!("{what}: a wrong answer"),
        }
    }
    fn gone(&mut self, e: usize) {
        self.eps[e].loc = Loc::Dropped;
        let q = std::mem::take(&mut self.q[e]);
        for m in q {
            for x in m.ends {
                self.gone(x);
            }
        }
    }
    fn queued(&self, e: usize) -> usize {
        self.q[e].iter().map(|m| 2 * m.len + 3000 + 1500 * m.ends.len()).sum()
    }
    /// Ends of the actors' processes are awaited here, so that everything they had is closed
    fn wait_gone(&mut self, a: usize) {
        let fd = self.who[a].pidfd;
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        while unsafe { libc::poll(&mut p, 1, -1) } <= 0 {}
        unsafe { libc::close(fd) };
        self.who[a].pidfd = -1;
        self.who[a].ctl = None;
        self.who[a].alive = false;
    }
    /// Results which nobody can join any more
    fn orphaned(&mut self, a: usize) {
        for k in 0..self.who.len() {
            if self.who[k].parent == Some(a) {
                self.who[k].parent = None;
                self.who[k].result = None;
                for e in 0..self.eps.len() {
                    if self.eps[e].loc == Loc::Result(k) {
                        self.gone(e);
                    }
                }
            }
        }
    }
    fn got(&mut self, a: usize, e: usize, r: Reply) -> Res {
        match r {
            Reply::Got(id, ok, ends) => {
                let Some(m) = self.q[e].pop_front() else { violated!("message {id} arrived at endpoint {e} where none was expected") };
                ensure!(m.id == id, "message {id} arrived at endpoint {e} instead of {}", m.id);
                ensure!(ok, "message {id} arrived changed");
                ensure!(ends.iter().map(|x| *x as usize).eq(m.ends.iter().copied()), "message {id} contains endpoints {ends:?} instead of {:?}", m.ends);
                for x in m.ends {
                    self.eps[x].loc = Loc::Held(a);
                }
                Ok(())
            }
            Reply::None => violated!("endpoint {e} reports the end, {} messages are queued and the other end is {:?}", self.q[e].len(), self.eps[self.eps[e].peer].loc),
            Reply::Failed(x) => violated!("recv at endpoint {e} failed: {x}"),
            _ => violated!("recv: a wrong answer"),
        }
    }
    /// What must be received now, or the end, or nothing yet
    fn recv(&mut self, a: usize, e: usize) -> Res<bool> {
        let p = self.eps[e].peer;
        if !self.q[e].is_empty() {
            let r = self.run(a, Cmd::Recv { e: e as u32 })?;
            self.got(a, e, r)?;
            return Ok(true);
        }
        // A half cannot tell the other side that it will not be used
        let over = self.eps[p].loc == Loc::Dropped;
        match self.run(a, Cmd::Readable { e: e as u32 })? {
            Reply::Readable(r) => ensure!(r == over, "endpoint {e} of actor {a} {} although the other end is {:?}", if r { "has something to be received" } else { "does not notice the end" }, self.eps[p].loc),
            _ => violated!("a wrong answer"),
        }
        if over {
            match self.run(a, Cmd::Recv { e: e as u32 })? {
                Reply::None => {}
                Reply::Got(id, ..) => violated!("message {id} after the end of endpoint {e}"),
                Reply::Failed(x) => violated!("recv at endpoint {e} failed instead of reporting the end: {x}"),
                _ => violated!("a wrong answer"),
            }
        }
        Ok(over)
    }
    fn u(v: &[usize]) -> Vec<u32> {
        v.iter().map(|x| *x as u32).collect()
    }
}
fn subset(c: &mut Ctx, v: &[usize], max: usize) -> Vec<usize> {
    let mut out = Vec::new();
    for x in v {
        if out.len() < max && c.s.below(3) == 0 {
            out.push(*x);
        }
    }
    out
}
fn length(c: &mut Ctx) -> usize {
    match c.s.below(4) {
        0 => 0,
        1 => c.s.idx(100),
        2 => c.s.idx(8000),
        _ => 16_000 + c.s.idx(800),
    }
}
fn step(c: &mut Ctx, w: &mut World) -> Res {
    let alive = w.alive();
    let a = *c.s.pick(&alive);
    let held = w.held(a);
    let op = c.s.weighted(&[3, 12, 10, 4, 2, 3, 5, 2, 1, 2, 1, 1, 1, 2, 1, 1]);
    let live = w.eps.iter().filter(|e| e.loc != Loc::Dropped).count();
    let op = if live < 8 && w.eps.len() < 60 && c.s.flip() {
        0
    } else if w.alive().len() < 3 && c.s.below(3) == 0 {
        9
    } else {
        op
    };
    match op {
        0 => {
            // Create
            if w.eps.len() >= 60 {
                return Ok(());
            }
            let fl = c.s.idx(3);
            let duplex = c.s.flip();
            let (x, y) = (w.eps.len(), w.eps.len() + 1);
            c.note(|| format!("actor {a} creates {x} and {y}, {} of {:?}", if duplex { "a duplex" } else { "a channel" }, FLS[fl]));
            w.done(a, Cmd::Create { fl: fl as u8, duplex, a: x as u32, b: y as u32 }, "creating a channel")?;
            for (k, p) in [(if duplex { Kind::Dx } else { Kind::Tx }, y), (if duplex { Kind::Dx } else { Kind::Rx }, x)] {
                w.eps.push(Ep { kind: k, peer: p, loc: Loc::Held(a), fl: FLS[fl], half: false, moves: 0 });
                w.q.push(VecDeque::new());
            }
        }
        1 | 5 => {
            // Send; with a waiting sender if the message is large
            let can: Vec<usize> = held.iter().copied().filter(|e| w.eps[*e].kind != Kind::Rx).collect();
            if can.is_empty() {
                return Ok(());
            }
            let e = *c.s.pick(&can);
            let p = w.eps[e].peer;
            let over = w.eps[p].loc == Loc::Dropped;
            let others: Vec<usize> = held.iter().copied().filter(|x| *x != e && *x != p).collect();
            let ends = if matches!(w.eps[p].loc, Loc::Held(_)) { subset(c, &others, 6) } else { vec![] };
            w.ids += 1;
            let id = w.ids;
            if op == 5 {
                let Loc::Held(b) = w.eps[p].loc else { return Ok(()) };
                if b == a || !w.q[p].is_empty() || w.eps[p].kind == Kind::Tx {
                    return Ok(());
                }
                let len = 20_000 + c.s.idx(500_000);
                c.note(|| format!("actor {a} sends message {id} of {len} bytes with {ends:?} over {e} to {p} of actor {b}"));
                c.label("large message");
                let cmd = Cmd::Send { e: e as u32, id, len, ends: World::u(&ends) };
                w.q[p].push_back(Ms { id, len, ends: ends.clone() });
                for x in &ends {
                    w.eps[*x].moves += 1;
                }
                both(w, a, cmd, b, Cmd::Recv { e: p as u32 }, |w, ra, rb| {
                    if let Reply::Failed(x) = ra {
                        violated!("send over endpoint {e} failed: {x}");
                    }
                    w.got(b, p, rb)
                })?;
                return Ok(());
            }
            let len = length(c);
            if !over && w.queued(p) + 2 * len + 3000 + 1500 * ends.len() > 50_000 {
                return Ok(());
            }
            if !over && w.eps[p].kind == Kind::Tx {
                // It will never be received, which is fine, but it takes space
                return Ok(());
            }
            c.note(|| format!("actor {a} sends message {id} of {len} bytes with {ends:?} over {e}, the other end is {:?}", w.eps[p].loc));
            let r = w.run(a, Cmd::Send { e: e as u32, id, len, ends: World::u(&ends) })?;
            match r {
                Reply::Done => {
                    ensure!(!over, "sending over endpoint {e} succeeded, but the other end does not exist");
                    for x in &ends {
                        w.eps[*x].loc = Loc::Flight(p);
                        w.eps[*x].moves += 1;
                    }
                    if !ends.is_empty() {
                        c.label("endpoints in a message");
                    }
                    if matches!(w.eps[p].loc, Loc::Flight(_) | Loc::Result(_)) {
                        c.label("sent to an endpoint which is under way");
                    }
                    w.q[p].push_back(Ms { id, len, ends });
                }
                Reply::Failed(x) => ensure!(over, "sending over endpoint {e} failed: {x}; the other end is {:?}", w.eps[p].loc),
                _ => violated!("send: a wrong answer"),
            }
        }
        2 => {
            let can: Vec<usize> = held.iter().copied().filter(|e| w.eps[*e].kind != Kind::Tx).collect();
            if can.is_empty() {
                return Ok(());
            }
            let e = *c.s.pick(&can);
            c.note(|| format!("actor {a} receives from {e}, {} are queued, the other end is {:?}", w.q[e].len(), w.eps[w.eps[e].peer].loc));
            if w.recv(a, e)? && w.q[e].is_empty() && w.eps[w.eps[e].peer].loc == Loc::Dropped {
                c.label("end");
            }
        }
        3 => {
            // Request, answered by another actor
            let can: Vec<usize> = held.iter().copied().filter(|e| w.eps[*e].kind == Kind::Dx && w.q[*e].is_empty() && w.eps[w.eps[*e].peer].kind == Kind::Dx && w.q[w.eps[*e].peer].is_empty()).collect();
            if can.is_empty() {
                return Ok(());
            }
            let e = *c.s.pick(&can);
            let p = w.eps[e].peer;
            let Loc::Held(b) = w.eps[p].loc else { return Ok(()) };
            if a == b || a == 0 {
                return Ok(()); // (needs two processes besides this one, or this one answers)
            }
            let others: Vec<usize> = held.iter().copied().filter(|x| *x != e).collect();
            let ends = subset(c, &others, 3);
            let their: Vec<usize> = w.held(b).into_iter().filter(|x| *x != p).collect();
            let back = subset(c, &their, 3);
            w.ids += 2;
            let (id, id2) = (w.ids - 1, w.ids);
            let (len, len2) = (length(c), length(c));
            c.note(|| format!("actor {a} requests {id} of {len} bytes with {ends:?} over {e}, actor {b} answers {id2} of {len2} bytes with {back:?} over {p}"));
            c.label("request");
            w.q[p].push_back(Ms { id, len, ends: ends.clone() });
            w.ask(a, Cmd::Request { e: e as u32, id, len, ends: World::u(&ends) })?;
            let r = w.run(b, Cmd::Recv { e: p as u32 })?;
            w.got(b, p, r)?;
            match w.run(b, Cmd::Send { e: p as u32, id: id2, len: len2, ends: World::u(&back) })? {
                Reply::Done => {}
                Reply::Failed(x) => violated!("answering over endpoint {p} failed: {x}"),
                _ => violated!("a wrong answer"),
            }
            w.q[e].push_back(Ms { id: id2, len: len2, ends: back.clone() });
            for x in ends.iter().chain(&back) {
                w.eps[*x].moves += 1;
            }
            let r = w.answer(a)?;
            w.got(a, e, r)?;
        }
        4 => {
            let v = subset(c, &held, 3);
            if v.is_empty() {
                return Ok(());
            }
            c.note(|| format!("actor {a} drops {v:?}"));
            w.done(a, Cmd::Drop { ends: World::u(&v) }, "dropping")?;
            for e in v {
                w.gone(e);
            }
        }
        6 => {
            // Move over the control channels
            let b = *c.s.pick(&alive);
            let v = subset(c, &held, 8);
            if b == a || v.is_empty() {
                return Ok(());
            }
            c.note(|| format!("actor {a} gives {v:?} to actor {b}"));
            c.label("endpoints given");
            let Reply::Ends(ends) = w.run(a, Cmd::Give { ends: World::u(&v) })? else { violated!("giving failed") };
            // It still has the answer with the endpoints until it returns from sending it
            w.done(a, Cmd::Nop, "nothing")?;
            w.done(b, Cmd::Take(ends), "taking endpoints")?;
            for e in v {
                w.eps[e].loc = Loc::Held(b);
                w.eps[e].moves += 1;
            }
        }
        7 => {
            let can: Vec<usize> = held.iter().copied().filter(|e| w.eps[*e].fl == Fl::B).collect();
            if can.is_empty() {
                return Ok(());
            }
            let e = *c.s.pick(&can);
            let fl = 1 + c.s.idx(2);
            c.note(|| format!("actor {a} makes {e} {:?}", FLS[fl]));
            w.done(a, Cmd::Convert { e: e as u32, fl: fl as u8 }, "conversion")?;
            w.eps[e].fl = FLS[fl];
        }
        8 => {
            let can: Vec<usize> = held.iter().copied().filter(|e| w.eps[*e].kind == Kind::Dx && w.q[*e].is_empty()).collect();
            if can.is_empty() {
                return Ok(());
            }
            let e = *c.s.pick(&can);
            let tx = c.s.flip();
            let p = w.eps[e].peer;
            // (what was sent to it before is not in the way)
            if tx && !w.q[e].is_empty() {
                return Ok(());
            }
            c.note(|| format!("actor {a} makes {e} a {}", if tx { "sender" } else { "receiver" }));
            w.done(a, Cmd::Half { e: e as u32, tx }, "into one direction")?;
            w.eps[e].kind = if tx { Kind::Tx } else { Kind::Rx };
            w.eps[e].half = true;
            w.eps[p].half = true;
        }
        9 | 10 => {
            // A new actor
            if w.alive().len() >= 6 || w.who.len() >= 12 {
                return Ok(());
            }
            let k = w.who.len();
            let how = c.s.idx(3);
            let v = subset(c, &held, 8);
            // Endpoints of tokio need a runtime to arrive in
            let (mut now, mut late) = (Vec::new(), Vec::new());
            for e in &v {
                if w.eps[*e].fl == Fl::T || c.s.below(4) == 0 {
                    late.push(*e);
                } else {
                    now.push(*e);
                }
            }
            c.note(|| format!("actor {a} starts actor {k} by {} with {now:?} and later {late:?}", HOWS[how]));
            if !v.is_empty() {
                c.label("endpoints in arguments");
            }
            let (mine, theirs) = must!(crossmist::duplex::<Cmd, Reply>(), "duplex");
            w.done(a, Cmd::Spawn { kid: k as u32, how: how as u8, ctl: theirs, ends: World::u(&now), late: World::u(&late) }, "spawn")?;
            w.who.push(Who { parent: Some(a), alive: true, result: None, ctl: Some(mine), pidfd: -1 });
            match w.answer(k)? {
                Reply::Hello(pid) => {
                    let fd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) } as RawFd;
                    if fd < 0 {
                        return Err(Fail::H("pidfd_open".into()));
                    }
                    w.who[k].pidfd = fd;
                }
                _ => violated!("a wrong answer"),
            }
            for e in v {
                w.eps[e].loc = Loc::Held(k);
                w.eps[e].moves += 1;
            }
        }
        11 => {
            // Killed
            if a == 0 {
                return Ok(());
            }
            c.note(|| format!("actor {a} is killed, with {held:?}"));
            c.label("killed");
            unsafe { libc::syscall(libc::SYS_pidfd_send_signal, w.who[a].pidfd, libc::SIGKILL, 0, 0) };
            w.wait_gone(a);
            w.who[a].result = Some(false);
            for e in held {
                w.gone(e);
            }
            w.orphaned(a);
        }
        12 => {
            // Ends
            if a == 0 {
                return Ok(());
            }
            let keep = subset(c, &held, 8);
            end(c, w, a, keep)?;
        }
        13 | 15 => {
            // Join
            let can: Vec<usize> = (0..w.who.len()).filter(|k| w.who[*k].result.is_some() && w.who[*k].parent.is_some()).collect();
            if can.is_empty() {
                return Ok(());
            }
            let k = *c.s.pick(&can);
            join(c, w, k)?;
        }
        _ => {
            // Does it hold what it should?
            if a == 0 {
                return Ok(());
            }
            let kids = (0..w.who.len()).filter(|k| w.who[*k].parent == Some(a) && (w.who[*k].alive || w.who[*k].result.is_some())).count();
            match w.run(a, Cmd::Census)? {
                Reply::Census(n, v) => ensure!(n == (held.len() + kids) as i64, "actor {a} has {n} sockets, {} endpoints and {kids} children: {v:?}", held.len()),
                _ => violated!("a wrong answer"),
            }
        }
    }
    Ok(())
}
/// Two commands at the same time
fn both(w: &mut World, a: usize, ca: Cmd, b: usize, cb: Cmd, f: impl FnOnce(&mut World, Reply, Reply) -> Res) -> Res {
    let (ra, rb);
    if a == 0 {
        w.ask(b, cb)?;
        ra = w.me.exec(ca);
        rb = w.answer(b)?;
    } else {
        w.ask(a, ca)?;
        rb = w.run(b, cb)?;
        ra = w.answer(a)?;
    }
    f(w, ra, rb)
}
fn end(c: &mut Ctx, w: &mut World, a: usize, keep: Vec<usize>) -> Res {
    let held = w.held(a);
    c.note(|| format!("actor {a} ends and returns {keep:?} of {held:?}"));
    if !keep.is_empty() {
        c.label("endpoints in a result");
    }
    w.ask(a, Cmd::Exit { keep: World::u(&keep) })?;
    w.wait_gone(a);
    let to = w.who[a].parent;
    for e in held {
        if keep.contains(&e) && to.is_some() {
            w.eps[e].loc = Loc::Result(a);
            w.eps[e].moves += 1;
        } else {
            w.gone(e);
        }
    }
    w.orphaned(a);
    if to.is_some() {
        w.who[a].result = Some(true);
    }
    Ok(())
}
fn join(c: &mut Ctx, w: &mut World, k: usize) -> Res {
    let a = w.who[k].parent.unwrap();
    let ok = w.who[k].result.take().unwrap();
    w.who[k].parent = None;
    c.note(|| format!("actor {a} joins actor {k}"));
    match w.run(a, Cmd::Join { kid: k as u32 })? {
        Reply::Joined(Some(v)) => {
            ensure!(ok, "joining actor {k}, which was killed, succeeded");
            let mut want: Vec<usize> = (0..w.eps.len()).filter(|e| w.eps[*e].loc == Loc::Result(k)).collect();
            let mut v: Vec<usize> = v.into_iter().map(|x| x as usize).collect();
            v.sort();
            want.sort();
            ensure!(v == want, "actor {k} returned {v:?} instead of {want:?}");
            for e in v {
                w.eps[e].loc = Loc::Held(a);
            }
        }
        Reply::Joined(None) => ensure!(!ok, "joining actor {k} failed"),
        _ => violated!("a wrong answer"),
    }
    Ok(())
}
/// Everything which is still there works or ends as it must.
fn finish(c: &mut Ctx, w: &mut World) -> Res {
    // Everybody is joined, receives everything, and drops in a generated order
    for k in 0..w.who.len() {
        if w.who[k].result.is_some() && w.who[k].parent.is_some() && c.s.flip() {
            join(c, w, k)?;
        }
    }
    loop {
        let mut any = false;
        for e in 0..w.eps.len() {
            if let Loc::Held(a) = w.eps[e].loc {
                if w.eps[e].kind != Kind::Tx && !w.q[e].is_empty() {
                    w.recv(a, e)?;
                    any = true;
                }
            }
        }
        if !any {
            break;
        }
    }
    let order = c.s.perm(w.eps.len());
    for e in order {
        if let Loc::Held(a) = w.eps[e].loc {
            if w.eps[e].kind != Kind::Tx {
                w.recv(a, e)?;
            }
            w.done(a, Cmd::Drop { ends: vec![e as u32] }, "dropping")?;
            w.gone(e);
            let p = w.eps[e].peer;
            if let (Loc::Held(b), true) = (w.eps[p].loc, w.eps[p].kind != Kind::Tx) {
                while !w.q[p].is_empty() {
                    w.recv(b, p)?;
                }
                w.recv(b, p)?;
            }
        }
    }
    for a in c.s.perm(w.who.len()) {
        if a > 0 && w.who[a].alive {
            end(c, w, a, vec![])?;
        }
    }
    for k in 0..w.who.len() {
        if w.who[k].result.is_some() && w.who[k].parent.is_some() {
            join(c, w, k)?;
        }
    }
    Ok(())
}
pub fn case(c: &mut Ctx) -> Res {
    let before = open_fds();
    let n = c.s.urange(5, 90);
    let mut w = World {
        me: Actor { rt: tokio_rt(), ends: BTreeMap::new(), kids: BTreeMap::new(), base: 0 },
        eps: vec![],
        q: vec![],
        who: vec![Who { parent: None, alive: true, result: None, ctl: None, pidfd: -1 }],
        ids: 0,
    };
    let mut r = Ok(());
    for _ in 0..n {
        r = step(c, &mut w);
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = finish(c, &mut w);
    }
    let moved = w.eps.iter().filter(|e| e.moves > 0).count();
    if moved > 0 {
        c.nontrivial();
    }
    if w.eps.iter().any(|e| e.moves > 2) {
        c.label("an endpoint moved more than twice");
    }
    if w.who.len() > 3 {
        c.label("more than two children");
    }
    // Whatever is still running ends when its control channel does
    for x in &mut w.who {
        x.ctl = None;
        if x.pidfd >= 0 {
            unsafe {
                if r.is_err() {
                    libc::syscall(libc::SYS_pidfd_send_signal, x.pidfd, libc::SIGKILL, 0, 0);
                }
                libc::close(x.pidfd)
            };
        }
    }
    {
        let _g = w.me.rt.enter();
        w.me.ends.clear();
    }
    for (_, (how, k)) in std::mem::take(&mut w.me.kids) {
        let _ = Actor::go(&w.me.rt, how_fl(how), k.join());
    }
    drop(w);
    reap_orphans();
    r?;
    if let Some(d) = fd_settled(&before) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
fn reap_orphans() {
    loop {
        let r = unsafe { libc::waitpid(-1, std::ptr::null_mut(), 0) };
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return;
        }
    }
}
