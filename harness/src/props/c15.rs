// C15: transfers which are abandoned, or fail, at any point. Steps of both sides are interleaved in one thread, and the
// bytes in the socket are observed before and after each step, so that it is known exactly which messages each operation
// has written and consumed.
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io::Result as Io;
use std::pin::Pin;
use vh::flav::*;
use vh::hand::*;
use vh::msg::*;
use vh::run::*;
use vh::script::End;
use vh::util::*;
use vh::{ensure, must, violated};

pub trait AMsg: crossmist::Object + 'static {
    fn gen(c: &mut Ctx, m: &mut Maker, id: u32) -> Self;
    fn id(&self) -> u32;
    fn desc(&self) -> Vec<String>;
    fn handles(&self) -> usize {
        0
    }
    const NAME: &'static str;
}
#[derive(crossmist::Object)]
pub struct AM(u32, Vec<u8>, Option<Box<AM>>);
fn sum(v: &[u8]) -> u64 {
    v.iter().fold(7u64, |a, x| (a ^ *x as u64).wrapping_mul(0x100000001b3))
}
impl AMsg for AM {
    fn gen(c: &mut Ctx, _: &mut Maker, id: u32) -> Self {
        let n = match c.s.below(6) {
            0 => c.s.idx(200),
            1 => wire_size(&mut c.s, 60_000),
            2 | 3 => c.s.urange(16_000, 100_000),
            _ => wire_size(&mut c.s, 400_000),
        };
        AM(id, c.s.bytes(n), if c.s.flip() { Some(Box::new(AM(1, vec![2], None))) } else { None })
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn desc(&self) -> Vec<String> {
        vec![format!("{} {} {:x} {}", self.0, self.1.len(), sum(&self.1), self.2.as_ref().map_or(0, |b| 1 + b.1.len()))]
    }
    const NAME: &'static str = "AM";
}
#[derive(crossmist::Object)]
pub struct AH(u32, HM);
impl AMsg for AH {
    fn gen(c: &mut Ctx, m: &mut Maker, id: u32) -> Self {
        AH(id, gen_hm(c, m, 600, 60_000))
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn desc(&self) -> Vec<String> {
        let mut v = self.1.describe();
        v.push(self.0.to_string());
        v
    }
    fn handles(&self) -> usize {
        self.1.fds().len()
    }
    const NAME: &'static str = "AH";
}
impl<const N: usize> AMsg for Blob<N> {
    fn gen(c: &mut Ctx, _: &mut Maker, id: u32) -> Self {
        let mut b = [0; N];
        b.copy_from_slice(&c.s.bytes(N));
        b[..4].copy_from_slice(&id.to_le_bytes());
        Blob(b)
    }
    fn id(&self) -> u32 {
        u32::from_le_bytes(self.0[..4].try_into().unwrap())
    }
    fn desc(&self) -> Vec<String> {
        vec![format!("{} {:x}", N, sum(&self.0))]
    }
    const NAME: &'static str = "Blob";
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fate {
    Sending,
    Sent,
    /// Abandoned by the sender, or its sending failed
    Abandoned,
}
struct Rec {
    fate: Fate,
    received: bool,
    /// Its reception was abandoned, or failed, after a part of it had been consumed
    lost: bool,
    desc: Vec<String>,
    handles: usize,
    written: usize,
    consumed: usize,
}
#[derive(Default)]
struct Lane {
    msgs: BTreeMap<u32, Rec>,
    stream: VecDeque<(u32, usize)>,
    /// What the reception in progress has consumed a part of
    touched: Vec<u32>,
    last_received: Option<u32>,
}
impl Lane {
    /// A message which certainly arrives next or after some abandoned ones is there.
    fn complete(&self) -> Option<u32> {
        self.stream.iter().map(|x| x.0).find(|i| {
            let r = &self.msgs[i];
            r.fate == Fate::Sent && !r.received && !r.lost && r.consumed == 0
        })
    }
    fn account(&mut self, writer: Option<u32>, before: usize, after: usize, reading: bool) -> Res {
        if after > before {
            let Some(id) = writer else { return Err(Fail::H(format!("{before} -> {after} bytes without a writer"))) };
            self.stream.push_back((id, after - before));
            self.msgs.get_mut(&id).unwrap().written += after - before;
        } else if after < before {
            if !reading {
                return Err(Fail::H(format!("{before} -> {after} bytes without a reader")));
            }
            let mut n = before - after;
            while n > 0 {
                let Some(front) = self.stream.front_mut() else { return Err(Fail::H("more was consumed than written".into())) };
                let k = n.min(front.1);
                front.1 -= k;
                n -= k;
                let id = front.0;
                if front.1 == 0 {
                    self.stream.pop_front();
                }
                self.msgs.get_mut(&id).unwrap().consumed += k;
                if self.touched.last() != Some(&id) {
                    self.touched.push(id);
                }
            }
        }
        Ok(())
    }
    /// A reception has returned a message.
    fn received(&mut self, id: u32, desc: Vec<String>) -> Res {
        let Some(r) = self.msgs.get_mut(&id) else { violated!("a message which was never sent was received: number {id}") };
        ensure!(!r.received, "message {id} was received twice");
        if let Some(d) = diff(&r.desc, &desc) {
            violated!("message {id} ({:?} by the sender) was received damaged: {d}", r.fate);
        }
        ensure!(self.last_received.map_or(true, |l| l < id), "message {id} was received after message {}", self.last_received.unwrap());
        ensure!(self.touched.last() == Some(&id), "message {id} was received by an operation which consumed parts of {:?}", self.touched);
        ensure!(r.consumed == r.written, "message {id}: {} of {} bytes were consumed when it was received", r.consumed, r.written);
        r.received = true;
        self.last_received = Some(id);
        self.touched.pop();
        self.finished(true)
    }
    /// A reception has ended: what it consumed and did not return is lost.
    fn finished(&mut self, ok: bool) -> Res {
        let t = std::mem::take(&mut self.touched);
        for (k, id) in t.iter().enumerate() {
            let r = self.msgs.get_mut(id).unwrap();
            let may = !ok && k + 1 == t.len();
            if r.fate == Fate::Sent && !r.received {
                // The rest of a message whose reception was abandoned is skipped by a later one
                ensure!(r.lost || may, "message {id} was sent and lost: an operation consumed it and returned {}", if ok { "a later one" } else { "later" });
            }
            if may {
                r.lost = true;
            }
        }
        Ok(())
    }
    fn end(&self, what: &str) -> Res {
        for (id, r) in &self.msgs {
            ensure!(r.fate != Fate::Sent || r.received || r.lost, "{what}: message {id} was sent successfully, and never received");
        }
        Ok(())
    }
}

enum Done<M> {
    Sent(Io<()>),
    Got(Io<Option<M>>),
    Answer(Io<M>),
}
struct Pending<M> {
    fut: Pin<Box<dyn Future<Output = Done<M>>>>,
    sends: Option<u32>,
    reads: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Send,
    Recv,
    Request,
}
struct World<M: AMsg> {
    ends: [Box<End<M, M>>; 2],
    fl: [Fl; 2],
    pend: [Option<Pending<M>>; 2],
    lanes: [Lane; 2], // lane i: from side i
    raw: [i32; 2],
    keep: Vec<Box<M>>,
    next: u32,
    injected: bool,
    abandoned: usize,
    failed: usize,
    partial: usize,
}
impl<M: AMsg> World<M> {
    fn queued(&self) -> [usize; 2] {
        [0, 1].map(|i| if self.raw[1 - i] >= 0 { queued_bytes(self.raw[1 - i]) } else { 0 })
    }
    fn start(&mut self, c: &mut Ctx, mk: &mut Maker, i: usize, k: Kind) {
        let end: *mut End<M, M> = &mut *self.ends[i];
        let mut sends = None;
        let mut msg: *const M = std::ptr::null();
        if k != Kind::Recv {
            let id = self.next;
            self.next += 1;
            let m = Box::new(M::gen(c, mk, id));
            self.lanes[i].msgs.insert(id, Rec { fate: Fate::Sending, received: false, lost: false, desc: m.desc(), handles: m.handles(), written: 0, consumed: 0 });
            msg = &*m;
            self.keep.push(m);
            sends = Some(id);
        }
        c.note(|| format!("side {i} ({:?}) starts {} {:?} {}", self.fl[i], match k { Kind::Send => "send", Kind::Recv => "recv", Kind::Request => "request" }, sends, sends.map_or(String::new(), |s| self.lanes[i].msgs[&s].desc[0].clone())));
        // Operations are dropped before ends and messages
        let (end, msg) = unsafe { (&mut *end, msg) };
        let fut: Pin<Box<dyn Future<Output = Done<M>>>> = Box::pin(async move {
            let msg = unsafe { msg.as_ref() };
            match (end, k) {
                (End::Dx(x), Kind::Send) => Done::Sent(x.send(msg.unwrap()).await),
                (End::Tx(x), Kind::Send) => Done::Sent(x.send(msg.unwrap()).await),
                (End::Dx(x), Kind::Recv) => Done::Got(x.recv().await),
                (End::Rx(x), Kind::Recv) => Done::Got(x.recv().await),
                (End::Dx(x), Kind::Request) => Done::Answer(x.request(msg.unwrap()).await),
                _ => panic!("HARNESS wrong end"),
            }
        });
        self.pend[i] = Some(Pending { fut, sends, reads: k != Kind::Send });
    }
    /// Poll the operation of a side once. Some(true): it succeeded.
    async fn poll(&mut self, c: &mut Ctx, i: usize, closed: bool) -> Res<Option<bool>> {
        let Some(mut p) = self.pend[i].take() else { return Ok(None) };
        let before = self.queued();
        let r = poll_once(&mut p.fut).await;
        let after = self.queued();
        self.lanes[i].account(p.sends, before[i], after[i], false)?;
        self.lanes[1 - i].account(None, before[1 - i], after[1 - i], p.reads)?;
        let Some(r) = r else {
            self.pend[i] = Some(p);
            return Ok(None);
        };
        drop(p.fut);
        let (sent, got) = match r {
            Done::Sent(r) => (Some(r), None),
            Done::Got(r) => (None, Some(r)),
            Done::Answer(Ok(m)) => (Some(Ok(())), Some(Ok(Some(m)))),
            Done::Answer(Err(e)) => {
                // The sending or the reception failed
                if self.lanes[1 - i].touched.is_empty() {
                    (Some(Err(e)), None)
                } else {
                    (Some(Ok(())), Some(Err(e)))
                }
            }
        };
        let mut good = true;
        if let Some(r) = sent {
            let id = p.sends.unwrap();
            c.note(|| format!("side {i}: sending {id}: {r:?}"));
            match r {
                Ok(()) => self.lanes[i].msgs.get_mut(&id).unwrap().fate = Fate::Sent,
                Err(e) => {
                    ensure!(self.injected || closed, "sending message {id} failed: {e:?}");
                    let m = self.lanes[i].msgs.get_mut(&id).unwrap();
                    m.fate = Fate::Abandoned;
                    self.failed += 1;
                    if m.written > 0 {
                        self.partial += 1;
                    }
                    good = false;
                    // Nothing was received by a request which could not be sent
                    self.lanes[1 - i].finished(false)?;
                }
            }
        }
        if let Some(r) = got {
            let lane = &mut self.lanes[1 - i];
            c.note(|| format!("side {i}: received {:?}", r.as_ref().map(|m| m.as_ref().map(|m| m.id()))));
            match r {
                Ok(Some(m)) => lane.received(m.id(), m.desc())?,
                Ok(None) => {
                    ensure!(closed, "recv reported the end of a channel which is open");
                    lane.finished(true)?;
                    good = false;
                }
                Err(e) => {
                    let cut = lane.touched.iter().any(|t| lane.msgs[t].fate == Fate::Abandoned || lane.msgs[t].lost);
                    let starved = self.injected && lane.touched.last().map_or(false, |t| lane.msgs[t].handles > 0);
                    ensure!(cut || starved, "recv failed without a cause: {e:?}; it consumed {:?}", lane.touched);
                    if !starved {
                        // Only a message which can not be completed may cause an error
                        if let Some(t) = lane.touched.last() {
                            let m = &lane.msgs[t];
                            ensure!(m.fate != Fate::Sent || m.lost, "recv failed and lost message {t}: {e:?}");
                        }
                    }
                    lane.finished(false)?;
                    self.failed += 1;
                    good = false;
                }
            }
        }
        Ok(Some(good))
    }
    fn abandon(&mut self, c: &mut Ctx, i: usize) -> Res {
        let Some(p) = self.pend[i].take() else { return Ok(()) };
        drop(p.fut);
        self.abandoned += 1;
        c.note(|| format!("side {i} abandons it"));
        if let Some(id) = p.sends {
            let m = self.lanes[i].msgs.get_mut(&id).unwrap();
            m.fate = Fate::Abandoned;
            if m.written > 0 {
                self.partial += 1;
            }
        }
        if p.reads {
            if !self.lanes[1 - i].touched.is_empty() {
                self.partial += 1;
            }
            self.lanes[1 - i].finished(false)?;
        }
        Ok(())
    }
}

pub fn stepped<M: AMsg>(c: &mut Ctx) -> Res {
    let base = open_fds();
    let rt = tokio_rt();
    let r = {
        let _g = rt.enter();
        let fl = [FLS[c.s.weighted(&[1, 3, 3])], FLS[c.s.weighted(&[1, 3, 3])]];
        let channel = c.s.flip();
        let ends = if channel {
            let (a, b) = must!(crossmist::channel::<M>(), "channel");
            [End::Tx(must!(Tx::from_blocking(a, fl[0]), "conversion")), End::Rx(must!(Rx::from_blocking(b, fl[1]), "conversion"))]
        } else {
            let (a, b) = must!(crossmist::duplex::<M, M>(), "duplex");
            [End::Dx(must!(Dx::from_blocking(a, fl[0]), "conversion")), End::Dx(must!(Dx::from_blocking(b, fl[1]), "conversion"))]
        };
        let raw = [ends[0].raw(), ends[1].raw()];
        let ends = ends.map(Box::new);
        let mut w = World { ends, fl, pend: [None, None], lanes: Default::default(), raw, keep: vec![], next: 1, injected: false, abandoned: 0, failed: 0, partial: 0 };
        let mut mk = Maker { files_only: c.s.flip(), ..Default::default() };
        c.note(|| format!("{} of {}, {fl:?}", if channel { "channel" } else { "duplex" }, M::NAME));
        let normal = set_nofile(unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            l.rlim_cur
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if fl.contains(&Fl::T) {
                rt.block_on(steps(c, &mut w, &mut mk, channel, normal))
            } else {
                async_io::block_on(steps(c, &mut w, &mut mk, channel, normal))
            }
        }));
        set_nofile(normal);
        // Operations go before their ends
        w.pend = [None, None];
        let r = match r {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        };
        if w.partial > 0 {
            c.nontrivial();
            c.label("cut off in the middle");
        }
        if w.abandoned > 0 {
            c.label("abandoned");
        }
        if w.failed > 0 {
            c.label("failed");
        }
        c.label(format!("{} {fl:?}", M::NAME));
        r
    };
    drop(rt);
    r?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
async fn settle(fl: [Fl; 2]) {
    if fl.contains(&Fl::T) {
        breathe(Fl::T).await;
    }
    if fl.contains(&Fl::S) {
        // The reactor is another thread
        std::thread::sleep(std::time::Duration::from_micros(20));
        breathe(Fl::S).await;
    }
}
async fn steps<M: AMsg>(c: &mut Ctx, w: &mut World<M>, mk: &mut Maker, channel: bool, normal: u64) -> Res {
    let fl = w.fl;
    let small = c.s.flip();
    if small {
        for i in 0..2 {
            set_sndbuf(&borrow(w.raw[i]), 20_000 + c.s.below(60_000) as i32);
        }
    }
    let n = c.s.urange(2, 40);
    let mut tiny = [false; 2];
    for _ in 0..n {
        let i = c.s.idx(2);
        let k = c.s.weighted(&[6, 8, 6, 4, 2, 2]);
        if w.pend[i].is_none() {
            let mut kind = match c.s.below(8) {
                0..=3 => Kind::Send,
                4..=6 => Kind::Recv,
                _ => Kind::Request,
            };
            if channel {
                kind = if i == 0 { Kind::Send } else { Kind::Recv };
            }
            if fl[i] == Fl::B {
                // It must be able to finish at once
                if kind == Kind::Request {
                    kind = Kind::Recv;
                }
                if kind == Kind::Recv && w.lanes[1 - i].complete().is_none() {
                    continue;
                }
                if kind == Kind::Send && (small || w.queued()[i] > 10_000 || tiny[i] || M::NAME == "AM" || M::NAME == "AH") {
                    continue;
                }
            }
            w.start(c, mk, i, kind);
            if fl[i] == Fl::B {
                w.poll(c, i, false).await?;
                continue;
            }
        }
        match k {
            0 => {
                settle(fl).await;
                w.poll(c, i, false).await?;
            }
            1 | 2 => {
                // Alternate
                let m = c.s.urange(1, 30);
                for _ in 0..m {
                    for j in [i, 1 - i] {
                        w.poll(c, j, false).await?;
                    }
                    settle(fl).await;
                    if w.pend[i].is_none() {
                        break;
                    }
                }
            }
            3 => {
                for _ in 0..c.s.idx(4) {
                    settle(fl).await;
                    w.poll(c, i, false).await?;
                }
                w.abandon(c, i)?
            }
            4 => {
                // Transport errors: messages which are too big for the buffer
                w.injected = true;
                tiny[i] = !tiny[i];
                set_sndbuf(&borrow(w.raw[i]), if tiny[i] { 1 } else { 100_000 });
                c.note(|| format!("buffer of side {i} is made {}", if tiny[i] { "tiny" } else { "normal" }));
                w.poll(c, i, false).await?;
            }
            _ => {
                // Transport errors: not enough descriptors
                if fl[i] == Fl::B || w.pend[i].as_ref().map_or(true, |p| !p.reads) {
                    continue;
                }
                w.injected = true;
                let l = nofile_for(c.s.idx(4));
                set_nofile(l);
                let r = w.poll(c, i, false).await;
                set_nofile(normal);
                r?;
            }
        }
        // Sources of handles need descriptors
        mk.settle();
    }
    // Finish or abandon everything
    for i in 0..2 {
        if tiny[i] {
            set_sndbuf(&borrow(w.raw[i]), 100_000);
        }
        if c.s.flip() {
            for _ in 0..40 {
                if w.pend[i].is_none() {
                    break;
                }
                w.poll(c, i, false).await?;
                w.poll(c, 1 - i, false).await?;
                settle(fl).await;
            }
        }
    }
    for i in 0..2 {
        w.abandon(c, i)?;
    }
    // A last message passes in any case
    let more = c.s.flip();
    for i in 0..2 {
        if (channel && i == 0) || (channel && i == 1 && !more) {
            continue;
        }
        // Receive whatever is complete
        while w.lanes[1 - i].complete().is_some() {
            w.start(c, mk, i, Kind::Recv);
            let mut spins = 0;
            while w.poll(c, i, false).await?.is_none() {
                settle(fl).await;
                spins += 1;
                if spins > 20_000 {
                    violated!("recv does not finish though a message is complete");
                }
            }
        }
    }
    let gone = if channel { 0 } else { c.s.idx(2) };
    w.raw[gone] = -1;
    *w.ends[gone] = End::Gone;
    w.lanes[1 - gone].end("at the end")?;
    c.note(|| format!("side {gone} is dropped"));
    let mut ends = 0;
    let mut errors = 0;
    while ends < 2 {
        let before = w.queued()[gone];
        let i = 1 - gone;
        w.start(c, mk, i, Kind::Recv);
        let mut spins = 0;
        let r = loop {
            // The model does not see the socket of the other direction any more
            let cut = !w.lanes[gone].stream.is_empty();
            match w.poll(c, i, true).await? {
                Some(r) => break (r, cut),
                None => {
                    settle(fl).await;
                    spins += 1;
                    if spins > 20_000 {
                        violated!("recv does not finish though the channel is closed");
                    }
                }
            }
        };
        if !r.0 {
            // An end, or the error about a cut off message, of which there may be one
            if before > 0 && errors == 0 && w.lanes[gone].stream.is_empty() {
                errors += 1;
            } else {
                ends += 1;
            }
        }
    }
    w.lanes[gone].end("at the end")?;
    Ok(())
}

/// With a thread per side; operations of the asynchronous side are abandoned.
pub fn threaded<M: AMsg>(c: &mut Ctx) -> Res {
    let base = open_fds();
    let ex = ASYNC[c.s.idx(2)];
    let sender_abandons = c.s.flip();
    let other = FLS[c.s.idx(3)];
    let n = c.s.urange(1, 10);
    let mut mk = Maker { files_only: true, ..Default::default() };
    let msgs: Vec<M> = (0..n).map(|i| M::gen(c, &mut mk, i as u32 + 1)).collect();
    mk.settle();
    // After how many polls
    let cut: Vec<Option<usize>> = (0..n).map(|_| if c.s.flip() { Some(c.s.idx(12)) } else { None }).collect();
    let sndbuf = if c.s.flip() { 20_000 + c.s.below(60_000) as i32 } else { 0 };
    let pauses: Vec<u64> = (0..n).map(|_| if c.s.chance(1, 3) { c.s.below(400) } else { 0 }).collect();
    c.note(|| format!("{}, {} abandons after polls {cut:?}, {ex:?}, other side {other:?}, sizes {:?}", M::NAME, if sender_abandons { "sender" } else { "receiver" }, msgs.iter().map(|m| m.desc()[0].clone()).collect::<Vec<_>>()));
    let sources = open_fds();
    let r: Res<usize> = (|| {
        let (tx, rx) = must!(crossmist::channel::<M>(), "channel");
        if sndbuf > 0 {
            set_sndbuf(&tx, sndbuf);
        }
        let descs: Vec<_> = msgs.iter().map(|m| m.desc()).collect();
        let sh = Hand((&msgs, &cut, &pauses));
        let sh = &sh;
        // true: sent
        let send = |tx: crossmist::Sender<M>, fl: Fl, abandons: bool| -> Res<Vec<bool>> {
            drive_ctx(fl, async {
                let (msgs, cut, pauses) = sh.0;
                let mut tx = must!(Tx::from_blocking(tx, fl), "conversion");
                let mut ok = Vec::new();
                for (i, m) in msgs.iter().enumerate() {
                    if pauses[i] > 0 {
                        pause(fl, pauses[i]).await;
                    }
                    let mut f: Pin<Box<dyn Future<Output = Io<()>>>> = Box::pin(tx.send(m));
                    let mut polls = 0;
                    ok.push(loop {
                        if abandons && cut[i] == Some(polls) {
                            break false;
                        }
                        if abandons && cut[i].is_some() {
                            if let Some(r) = poll_once(&mut f).await {
                                must!(r, "sending message {}", i + 1);
                                break true;
                            }
                            polls += 1;
                            settle([fl, fl]).await;
                        } else {
                            must!(f.as_mut().await, "sending message {}", i + 1);
                            break true;
                        }
                    });
                }
                Ok(ok)
            })
        };
        // Received numbers, and the number of abandoned calls before each
        let recv = |rx: crossmist::Receiver<M>, fl: Fl, abandons: bool| -> Res<(Vec<(u32, usize)>, usize, usize)> {
            drive_ctx(fl, async {
                let mut rx = must!(Rx::from_blocking(rx, fl), "conversion");
                let mut got = Vec::new();
                let mut count = 0;
                let mut errors = 0;
                let mut calls = 0;
                loop {
                    let mut f: Pin<Box<dyn Future<Output = Io<Option<M>>>>> = Box::pin(rx.recv());
                    let limit = if abandons { sh.0 .1.get(calls).copied().flatten() } else { None };
                    calls += 1;
                    let mut polls = 0;
                    let r = loop {
                        if limit == Some(polls) {
                            break None;
                        }
                        if limit.is_some() {
                            if let Some(r) = poll_once(&mut f).await {
                                break Some(r);
                            }
                            polls += 1;
                            settle([fl, fl]).await;
                        } else {
                            break Some(f.as_mut().await);
                        }
                    };
                    match r {
                        None => count += 1,
                        Some(Ok(Some(m))) => {
                            let id = m.id();
                            ensure!(id >= 1 && id as usize <= descs.len(), "a message which was never sent was received: number {id}");
                            if let Some(d) = diff(&descs[id as usize - 1], &m.desc()) {
                                violated!("message {id} was received damaged: {d}");
                            }
                            got.push((id, count));
                        }
                        Some(Ok(None)) => return Ok((got, count, errors)),
                        Some(Err(_)) => {
                            errors += 1;
                            ensure!(errors < 1000, "recv fails again and again");
                        }
                    }
                }
            })
        };
        let (sent, (got, count, errors)) = std::thread::scope(|scope| -> Res<_> {
            let a = Hand((tx, &send));
            let h = scope.spawn(move || {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let (tx, send) = a.get();
                    if sender_abandons { send(tx, ex, true) } else { send(tx, other, false) }
                }))
            });
            let r = if sender_abandons { recv(rx, other, false) } else { recv(rx, ex, true) };
            match h.join().unwrap() {
                Ok(s) => {
                    let r = r?;
                    Ok((s?, r))
                }
                Err(p) => std::panic::resume_unwind(p),
            }
        })?;
        let ids: Vec<u32> = got.iter().map(|x| x.0).collect();
        ensure!(ids.windows(2).all(|w| w[0] < w[1]), "received out of order or twice: {ids:?}");
        if sender_abandons {
            for (i, ok) in sent.iter().enumerate() {
                ensure!(!ok || ids.contains(&(i as u32 + 1)), "message {} was sent successfully and not received", i + 1);
            }
            let last_cut = sent.last() == Some(&false);
            ensure!(errors <= last_cut as usize, "recv failed {errors} times");
        } else {
            ensure!(errors == 0, "recv failed {errors} times though only receptions were abandoned");
            // At most one message is lost per abandoned call, and in its place
            let mut prev = (0u32, 0usize);
            for g in got.iter().copied().chain([(n as u32 + 1, count)]) {
                let lost = (g.0 - prev.0 - 1) as usize;
                ensure!(lost <= g.1 - prev.1, "{lost} messages before {} were lost by {} abandoned calls", g.0, g.1 - prev.1);
                prev = g;
            }
        }
        Ok(if sender_abandons { sent.iter().filter(|x| !**x).count() } else { count })
    })();
    let k = r?;
    if k > 0 {
        c.nontrivial();
    }
    c.label(if sender_abandons { "sender thread abandons" } else { "receiver thread abandons" });
    if let Some(d) = fd_settled(&sources) {
        violated!("descriptors differ after the case: {d}");
    }
    drop(msgs);
    drop(mk);
    if let Some(d) = fd_settled(&base) {
        return Err(Fail::H(format!("descriptors differ after cleaning up: {d}")));
    }
    Ok(())
}

pub fn case(c: &mut Ctx) -> Res {
    match c.s.below(16) {
        0..=4 => stepped::<AM>(c),
        5..=7 => stepped::<AH>(c),
        8 => stepped::<Blob<8>>(c),
        9 => stepped::<Blob<16383>>(c),
        10 => stepped::<Blob<16384>>(c),
        11 | 12 => stepped::<Blob<100000>>(c),
        13 => threaded::<AM>(c),
        14 => threaded::<AH>(c),
        _ => threaded::<Blob<50000>>(c),
    }
}
