//! Histories of operations on the two ends of a duplex (or a channel): generation together with the expected
//! result of each operation, and execution in any combination of flavours.
//!
//! The history is generated as one global sequence, such that the two sides, each performing its part of it
//! in order, cannot deadlock if the channel is correct: the earliest operation which is not finished can
//! always finish (a send either fits into the buffer space, or is followed by the receptions that make room
//! for it), and nothing needs an operation later in the sequence.

use crate::flav::*;
use crate::msg::*;
use crate::run::*;
use crate::{ensure, violated};
use std::io::ErrorKind;

#[derive(Clone, Debug)]
pub enum Op {
    Send(usize),
    /// Receive message i of the other side
    Recv(usize),
    RecvNone,
    SendErr,
    /// Send message i, get message j
    Request(usize, usize),
    /// Send message i, the other side closes without an answer
    RequestErr(usize),
    Pause(u64),
    Drop,
    ToSender,
    ToReceiver,
    Signal(usize),
    Wait(usize),
    /// Turn the blocking end into an asynchronous one
    Convert(Fl),
}

pub struct Script<A: Msg, B: Msg> {
    pub ops: [Vec<Op>; 2],
    pub a: Vec<A>, // sent by side 0
    pub b: Vec<B>, // sent by side 1
    pub signals: usize,
    pub sndbuf: [i32; 2],
    /// Only side 0 sends
    pub channel: bool,
    pub bytes: usize,
    pub big: usize,
    pub requests: usize,
    pub unread: usize,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub drops: bool,
    pub pauses: bool,
    pub max_events: usize,
    pub max_total: usize,
}

struct Gen<A: Msg, B: Msg> {
    sc: Script<A, B>,
    q: [Vec<(usize, usize)>; 2], // queued from side: (index, wire)
    budget: [usize; 2],
}
impl<A: Msg, B: Msg> Gen<A, B> {
    fn new_msg(&mut self, c: &mut Ctx, side: usize, max: usize) -> (usize, usize) {
        let max = if self.sc.bytes > max { 200 } else { max };
        let (i, w) = if side == 0 {
            let m = A::msg(&mut c.s, max);
            let w = m.wire();
            self.sc.a.push(m);
            (self.sc.a.len() - 1, w)
        } else {
            let m = B::msg(&mut c.s, max);
            let w = m.wire();
            self.sc.b.push(m);
            (self.sc.b.len() - 1, w)
        };
        self.sc.bytes += w;
        (i, w)
    }
    fn queued(&self, side: usize) -> usize {
        self.q[side].iter().map(|(_, w)| 2 * w + 1500 * (1 + w / CHUNK)).sum()
    }
    fn recv_one(&mut self, from: usize) {
        let (i, _) = self.q[from].remove(0);
        self.sc.ops[1 - from].push(Op::Recv(i));
    }
    fn drain(&mut self, from: usize) {
        while !self.q[from].is_empty() {
            self.recv_one(from);
        }
    }
    fn send(&mut self, c: &mut Ctx, side: usize, max: usize) {
        let (i, w) = self.new_msg(c, side, max);
        self.sc.ops[side].push(Op::Send(i));
        self.q[side].push((i, w));
        if self.queued(side) > self.budget[side] {
            self.sc.big += 1;
            self.drain(side);
        }
    }
    fn signal(&mut self, from: usize) {
        let k = self.sc.signals;
        self.sc.signals += 1;
        self.sc.ops[from].push(Op::Signal(k));
        self.sc.ops[1 - from].push(Op::Wait(k));
    }
}

pub fn gen<A: Msg, B: Msg>(c: &mut Ctx, o: Opts) -> Script<A, B> {
    let mut g = Gen::<A, B> {
        sc: Script { ops: [vec![], vec![]], a: vec![], b: vec![], signals: 0, sndbuf: [0; 2], channel: c.s.flip(), bytes: 0, big: 0, requests: 0, unread: 0 },
        q: [vec![], vec![]],
        // The kernel wakes up a sender which waits for space only when at most a quarter of it is used
        budget: [50_000; 2],
    };
    for side in 0..2 {
        match c.s.below(3) {
            0 => {}
            1 => {
                g.sc.sndbuf[side] = 20_000 + c.s.below(30_000) as i32; // doubled by the kernel
                g.budget[side] = 10_000;
            }
            _ => g.sc.sndbuf[side] = 100_000,
        }
    }
    let n = c.s.urange(1, o.max_events);
    for _ in 0..n {
        let side = if g.sc.channel { 0 } else { c.s.idx(2) };
        match c.s.below(10) {
            0..=3 => g.send(c, side, o.max_total / 2),
            4..=6 => {
                if !g.q[side].is_empty() {
                    g.recv_one(side)
                } else {
                    g.send(c, side, o.max_total / 2)
                }
            }
            7 => g.drain(side),
            8 => {
                if o.pauses {
                    let p = c.s.below(1500);
                    g.sc.ops[c.s.idx(2)].push(Op::Pause(p));
                }
            }
            _ => {
                if !g.sc.channel {
                    g.drain(0);
                    g.drain(1);
                    let (i, _) = g.new_msg(c, side, o.max_total / 2);
                    let (j, _) = g.new_msg(c, 1 - side, o.max_total / 2);
                    g.sc.ops[side].push(Op::Request(i, j));
                    g.sc.ops[1 - side].push(Op::Recv(i));
                    g.sc.ops[1 - side].push(Op::Send(j));
                    g.sc.requests += 1;
                }
            }
        }
    }
    // Splitting
    let mut one_way = None;
    if !g.sc.channel && c.s.chance(1, 3) {
        let tx = c.s.idx(2);
        if c.s.flip() {
            g.drain(1 - tx); // otherwise, what was sent to the future sender is never read
        }
        g.sc.ops[tx].push(Op::ToSender);
        if c.s.flip() {
            g.sc.ops[1 - tx].push(Op::ToReceiver);
        }
        for _ in 0..c.s.urange(0, 4) {
            g.send(c, tx, o.max_total / 2);
        }
        one_way = Some(tx);
    }
    if g.sc.channel {
        one_way = Some(0);
    }
    if o.drops && c.s.chance(3, 4) {
        // One side goes away, the other one notices
        let gone = c.s.idx(2);
        let stays = 1 - gone;
        if !g.q[stays].is_empty() {
            // ... but not before what it is not going to read has been sent
            g.signal(stays);
        }
        let can_send = one_way.map_or(true, |t| t == stays);
        let can_recv = one_way.map_or(true, |t| t == gone);
        if one_way.is_none() && c.s.chance(1, 4) {
            g.drain(gone);
            let (i, _) = g.new_msg(c, stays, 1000);
            g.sc.ops[stays].push(Op::RequestErr(i));
            if c.s.flip() {
                g.drain(stays);
                g.sc.ops[gone].push(Op::Recv(i));
            }
            g.sc.ops[gone].push(Op::Drop);
        } else {
            g.sc.unread = g.q[stays].len();
            g.sc.ops[gone].push(Op::Drop);
            // Receiving may be waiting already when the other side closes
            if !can_recv || c.s.flip() {
                g.signal(gone);
            }
            if can_recv {
                g.drain(gone);
                for _ in 0..c.s.urange(1, 3) {
                    g.sc.ops[stays].push(Op::RecvNone);
                }
            }
            if can_send {
                let (i, _) = g.new_msg(c, stays, 40_000);
                let _ = i;
                g.sc.ops[stays].push(Op::SendErr);
                if can_recv && c.s.flip() {
                    g.sc.ops[stays].push(Op::RecvNone);
                }
            }
        }
        g.sc.ops[stays].push(Op::Drop);
    } else {
        // Everything is received
        for from in 0..2 {
            if one_way.map_or(true, |t| t == from) {
                g.drain(from);
            }
        }
        // Neither side goes away before the other one has finished
        g.signal(0);
        g.signal(1);
    }
    g.sc
}

pub type Signals = Vec<(smol::channel::Sender<()>, smol::channel::Receiver<()>)>;
pub fn signals(n: usize) -> Signals {
    (0..n).map(|_| smol::channel::bounded(1)).collect()
}

pub enum End<S: crossmist::Object, R: crossmist::Object> {
    Dx(Dx<S, R>),
    Tx(Tx<S>),
    Rx(Rx<R>),
    Gone,
}
impl<S: crossmist::Object, R: crossmist::Object> End<S, R> {
    pub fn raw(&self) -> i32 {
        match self {
            End::Dx(x) => x.raw(),
            End::Tx(x) => x.raw(),
            End::Rx(x) => x.raw(),
            End::Gone => -1,
        }
    }
}

fn show<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 120 {
        let mut k = 120;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}

/// Perform the operations of one side.
pub async fn side<S: Msg, R: Msg>(name: &str, fl: Fl, mut end: End<S, R>, ops: &[Op], out: &[S], inc: &[R], sig: &Signals) -> Res {
    for (k, op) in ops.iter().enumerate() {
        let at = || format!("side {name} ({fl:?}), operation {k} {op:?}");
        match op {
            Op::Send(i) => {
                let r = match &mut end {
                    End::Dx(x) => x.send(&out[*i]).await,
                    End::Tx(x) => x.send(&out[*i]).await,
                    _ => return Err(Fail::H("send on a wrong end".into())),
                };
                if let Err(e) = r {
                    violated!("{}: send failed: {e:?}", at());
                }
            }
            Op::SendErr => {
                let m = out.last().unwrap();
                let r = match &mut end {
                    End::Dx(x) => x.send(m).await,
                    End::Tx(x) => x.send(m).await,
                    _ => return Err(Fail::H("send on a wrong end".into())),
                };
                ensure!(r.is_err(), "{}: send to a closed peer succeeded", at());
            }
            Op::Recv(_) | Op::RecvNone => {
                let r = match &mut end {
                    End::Dx(x) => x.recv().await,
                    End::Rx(x) => x.recv().await,
                    _ => return Err(Fail::H("recv on a wrong end".into())),
                };
                match (op, r) {
                    (_, Err(e)) => violated!("{}: recv failed: {e:?}", at()),
                    (Op::Recv(i), Ok(Some(v))) => ensure!(inc[*i].same(&v), "{}: received {} instead of {}", at(), show(&v), show(&inc[*i])),
                    (Op::Recv(i), Ok(None)) => violated!("{}: received None instead of {}", at(), show(&inc[*i])),
                    (_, Ok(Some(v))) => violated!("{}: received {} from a closed peer", at(), show(&v)),
                    (_, Ok(None)) => {}
                }
            }
            Op::Request(i, j) => {
                let End::Dx(x) = &mut end else { return Err(Fail::H("request on a wrong end".into())) };
                match x.request(&out[*i]).await {
                    Ok(v) => ensure!(inc[*j].same(&v), "{}: the answer is {} instead of {}", at(), show(&v), show(&inc[*j])),
                    Err(e) => violated!("{}: request failed: {e:?}", at()),
                }
            }
            Op::RequestErr(i) => {
                let End::Dx(x) = &mut end else { return Err(Fail::H("request on a wrong end".into())) };
                match x.request(&out[*i]).await {
                    Ok(v) => violated!("{}: got an answer {} from a peer that closed", at(), show(&v)),
                    Err(e) => ensure!(
                        matches!(e.kind(), ErrorKind::UnexpectedEof | ErrorKind::BrokenPipe | ErrorKind::ConnectionReset | ErrorKind::NotConnected),
                        "{}: unexpected error {e:?}",
                        at()
                    ),
                }
            }
            Op::Pause(us) => pause(fl, *us).await,
            Op::Drop => end = End::Gone,
            Op::ToSender => {
                let End::Dx(x) = end else { return Err(Fail::H("split of a wrong end".into())) };
                end = End::Tx(x.into_sender());
            }
            Op::ToReceiver => {
                let End::Dx(x) = end else { return Err(Fail::H("split of a wrong end".into())) };
                end = End::Rx(x.into_receiver());
            }
            Op::Convert(f) => {
                let r = match end {
                    End::Dx(Dx::B(x)) => Dx::from_blocking(x, *f).map(End::Dx),
                    End::Tx(Tx::B(x)) => Tx::from_blocking(x, *f).map(End::Tx),
                    End::Rx(Rx::B(x)) => Rx::from_blocking(x, *f).map(End::Rx),
                    other => Ok(other),
                };
                match r {
                    Ok(e) => end = e,
                    Err(e) => violated!("{}: conversion failed: {e:?}", at()),
                }
            }
            Op::Signal(k) => {
                let _ = sig[*k].0.try_send(());
            }
            Op::Wait(k) => {
                let _ = sig[*k].1.recv().await;
            }
        }
    }
    Ok(())
}
/// After a failure of one side, the other one must not wait for it forever.
pub fn release(sig: &Signals) {
    for s in sig {
        let _ = s.0.try_send(());
    }
}

type Pair<A, B> = (End2<A, B>, End2<B, A>);
fn pair<A: Msg, B: Msg>(sc: &Script<A, B>) -> Result<Pair<A, B>, Fail> {
    Ok(if sc.channel {
        let (t, r) = crate::must!(crossmist::channel::<A>(), "channel");
        if sc.sndbuf[0] > 0 {
            crate::util::set_sndbuf(&t, sc.sndbuf[0]);
        }
        (End2::Tx(t), End2::Rx(r))
    } else {
        let (x, y) = crate::must!(crossmist::duplex::<A, B>(), "duplex");
        if sc.sndbuf[0] > 0 {
            crate::util::set_sndbuf(&x, sc.sndbuf[0]);
        }
        if sc.sndbuf[1] > 0 {
            crate::util::set_sndbuf(&y, sc.sndbuf[1]);
        }
        (End2::Dx(x), End2::Dx(y))
    })
}
/// Both ends made in the flavour.
fn native_pair<A: Msg, B: Msg>(sc: &Script<A, B>, fl: Fl) -> Result<(End<A, B>, End<B, A>), Fail> {
    let (a, b) = if sc.channel {
        let (t, r) = crate::must!(channel::<A>(fl), "channel");
        (End::Tx(t), End::Rx(r))
    } else {
        let (x, y) = crate::must!(duplex::<A, B>(fl), "duplex");
        (End::Dx(x), End::Dx(y))
    };
    for (i, fd) in [a.raw(), b.raw()].into_iter().enumerate() {
        if sc.sndbuf[i] > 0 {
            crate::util::set_sndbuf(&fd, sc.sndbuf[i]);
        }
    }
    Ok((a, b))
}
/// The two sides as tasks, to be run on one executor. Call it in the context of the runtime.
pub fn tasks<A: Msg, B: Msg>(sc: Script<A, B>, fl: [Fl; 2], native: bool) -> Result<Vec<Task<'static, Res>>, Fail> {
    let sig = signals(sc.signals);
    let (e0, e1) = if native && fl[0] == fl[1] {
        native_pair(&sc, fl[0])?
    } else {
        let (e0, e1) = pair(&sc)?;
        (e0.convert(fl[0])?, e1.convert(fl[1])?)
    };
    let sh = std::rc::Rc::new((sc, sig));
    let sh1 = sh.clone();
    Ok(vec![
        Box::pin(async move {
            let r = side("0", fl[0], e0, &sh.0.ops[0], &sh.0.a, &sh.0.b, &sh.1).await;
            release(&sh.1);
            r
        }),
        Box::pin(async move {
            let r = side("1", fl[1], e1, &sh1.0.ops[1], &sh1.0.b, &sh1.0.a, &sh1.1).await;
            release(&sh1.1);
            r
        }),
    ])
}
/// Each side on a thread of its own. `late`: the end starts as a blocking one and is converted by an operation.
pub fn run_threads<A: Msg, B: Msg>(sc: Script<A, B>, fl: [Fl; 2], late: [bool; 2]) -> Res {
    let sig = signals(sc.signals);
    let start = [if late[0] { Fl::B } else { fl[0] }, if late[1] { Fl::B } else { fl[1] }];
    let (e0, e1) = pair(&sc)?;
    let sh = Hand((sc, sig));
    let sh = &sh;
    std::thread::scope(|scope| {
        let e0 = Hand(e0);
        let h = scope.spawn(move || {
            let e0 = e0.get();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                drive(fl[0], async { side("0", fl[0], e0.convert(start[0])?, &sh.0 .0.ops[0], &sh.0 .0.a, &sh.0 .0.b, &sh.0 .1).await })
            }));
            release(&sh.0 .1);
            r
        });
        let r1 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            drive(fl[1], async { side("1", fl[1], e1.convert(start[1])?, &sh.0 .0.ops[1], &sh.0 .0.b, &sh.0 .0.a, &sh.0 .1).await })
        }));
        release(&sh.0 .1);
        both(h.join().unwrap(), r1)
    })
}
type Caught = std::thread::Result<Res>;
pub fn both(r0: Caught, r1: Caught) -> Res {
    // A panic is the cause rather than the consequence
    let (r0, r1) = match (r0, r1) {
        (Err(p), _) | (_, Err(p)) => std::panic::resume_unwind(p),
        (Ok(a), Ok(b)) => (a, b),
    };
    match (r0, r1) {
        (Err(Fail::V(a)), Err(Fail::V(b))) => Err(Fail::V(format!("{a}; {b}"))),
        (Err(e), _) | (_, Err(e)) => Err(e),
        _ => Ok(()),
    }
}
/// A blocking end, not converted yet.
pub enum End2<S: Msg, R: Msg> {
    Dx(crossmist::Duplex<S, R>),
    Tx(crossmist::Sender<S>),
    Rx(crossmist::Receiver<R>),
}
impl<S: Msg, R: Msg> End2<S, R> {
    pub fn convert(self, fl: Fl) -> Result<End<S, R>, Fail> {
        let e = |e| Fail::V(format!("conversion to {fl:?} failed: {e:?}"));
        Ok(match self {
            End2::Dx(x) => End::Dx(Dx::from_blocking(x, fl).map_err(e)?),
            End2::Tx(x) => End::Tx(Tx::from_blocking(x, fl).map_err(e)?),
            End2::Rx(x) => End::Rx(Rx::from_blocking(x, fl).map_err(e)?),
        })
    }
}
