// C05, in one process: messages with any number of handles, in any position, over all flavours.
use std::os::fd::AsRawFd;
use vh::flav::*;
use vh::hand::*;
use vh::run::*;
use vh::util::*;
use vh::kid::*;
use vh::{ensure, must, start, violated};

/// Some of the standard streams closed, so that handles get their numbers.
struct Low(Vec<(i32, i32)>);
impl Low {
    fn new(mask: u64) -> Low {
        Low((0..3)
            .filter(|i| mask >> i & 1 == 1)
            .map(|i| {
                let at = unsafe { libc::fcntl(i, libc::F_DUPFD_CLOEXEC, 1000) };
                assert!(at >= 0, "HARNESS fcntl");
                unsafe { libc::close(i) };
                (i, at)
            })
            .collect())
    }
}
impl Drop for Low {
    fn drop(&mut self) {
        for (i, at) in &self.0 {
            unsafe {
                libc::dup2(*at, *i);
                libc::close(*at);
            }
        }
    }
}

pub fn case(c: &mut Ctx) -> Res {
    let mask = if c.s.chance(1, 6) { 1 + c.s.below(7) } else { 0 };
    let child = c.s.chance(1, if mask != 0 { 4 } else { 40 });
    if mask == 0 {
        return with_streams(c, child);
    }
    c.note(|| format!("standard streams {:?} are closed", (0..3).filter(|i| mask >> i & 1 == 1).collect::<Vec<_>>()));
    c.label("handles with the numbers of standard streams");
    // (nothing may be printed meanwhile)
    let v = std::mem::replace(&mut c.verbose, false);
    let r = {
        let _low = Low::new(mask);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_streams(c, child)))
    };
    c.verbose = v;
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}
fn with_streams(c: &mut Ctx, child: bool) -> Res {
    let fl = [FLS[c.s.idx(3)], FLS[c.s.idx(3)]];
    let k = c.s.urange(1, 4);
    let base = open_fds();
    let rt = tokio_rt();
    let r = {
        let _g = rt.enter();
        if child { through(c, &rt) } else { inner(c, &rt, fl, k) }
    };
    drop(rt);
    r?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
#[crossmist::func(tokio(flavor = "current_thread"))]
async fn visit(desc: Vec<String>, m: HM, again: bool) -> (Result<(), String>, Option<HM>) {
    let r = match m.check(&desc, &[]) {
        Ok(()) => Ok(()),
        Err(Fail::V(m)) | Err(Fail::H(m)) => Err(m),
    };
    (r, again.then_some(m))
}
/// Handles in an argument of a function in a child, which looks at them, and in its result.
fn through(c: &mut Ctx, rt: &::tokio::runtime::Runtime) -> Res {
    let mut m = Maker::default();
    let max = if c.s.chance(1, 4) { 500 } else { 20 };
    let x = gen_hm(c, &mut m, max, 30_000);
    m.settle();
    let (how, again) = (c.s.idx(3), c.s.chance(3, 4));
    let desc = x.describe();
    let mine = x.fds();
    c.note(|| format!("{} handles to a child by {}{}: {:?}", mine.len(), HOWS[how], if again { " and back" } else { "" }, desc.iter().take(8).collect::<Vec<_>>()));
    if !mine.is_empty() {
        c.nontrivial();
    }
    c.label("handles to a child");
    let mut others = open_fds();
    for fd in &mine {
        others.remove(fd);
    }
    let d2 = desc.clone();
    let work = async {
        let kid = must!(start!(how, visit, d2, x, again), "{} with {} handles", HOWS[how], mine.len());
        Ok(must!(kid.join().await, "joining"))
    };
    let (r, back) = match how_fl(how) {
        Fl::T => rt.block_on(work),
        Fl::S => async_io::block_on(work),
        Fl::B => futures_lite::future::block_on(work),
        Fl::C => vh::own::block_on(work),
    }?;
    if let Err(m) = r {
        violated!("in the child: {m}");
    }
    ensure!(back.is_some() == again, "a wrong result");
    let kept = match &back {
        Some(x) => {
            x.check(&desc, &[])?;
            x.fds()
        }
        None => vec![],
    };
    let mut want = others.clone();
    let now = open_fds();
    for fd in &kept {
        match now.get(fd) {
            Some(i) => want.insert(*fd, i.clone()),
            None => violated!("received handle {fd} is not open"),
        };
    }
    if let Some(d) = fd_settled(&want) {
        violated!("with {} handles in the result, descriptors are not as expected: {d}", kept.len());
    }
    drop(back);
    if let Some(d) = fd_settled(&others) {
        violated!("descriptors differ after the result was dropped: {d}");
    }
    Ok(())
}
fn inner(c: &mut Ctx, rt: &::tokio::runtime::Runtime, fl: [Fl; 2], k: usize) -> Res {
    let mut m = Maker::default();
    let mut msgs = Vec::new();
    let mut total = 0;
    for _ in 0..k {
        let x = gen_hm(c, &mut m, 900 - total.min(900), 60_000);
        total += x.fds().len();
        msgs.push(x);
    }
    m.settle();
    let descs: Vec<_> = msgs.iter().map(|x| x.describe()).collect();
    let counts: Vec<_> = msgs.iter().map(|x| x.fds().len()).collect();
    let drop_now: Vec<bool> = (0..k).map(|_| c.s.flip()).collect();
    let order = c.s.perm(k);
    let as_duplex = c.s.flip();
    c.note(|| format!("{fl:?} {}: {:?} handles, data {:?}; first leaves: {:?}", if as_duplex { "duplex" } else { "channel" }, counts,
        msgs.iter().map(|x| x.pad.len() + x.pad2.len()).collect::<Vec<_>>(), descs[0].iter().take(8).collect::<Vec<_>>()));
    if total > 0 {
        c.nontrivial();
    }
    c.label(format!("{fl:?}"));
    c.label(match counts.iter().max().unwrap() { 0 => "no handles", 1..=253 => "handles fit into one packet", _ => "handles in several packets" });
    let sources = open_fds();
    let not: Vec<i32> = sources.keys().copied().collect();
    enum E1 {
        D(crossmist::Duplex<HM, u8>, crossmist::Duplex<u8, HM>),
        C(crossmist::Sender<HM>, crossmist::Receiver<HM>),
    }
    let e = if as_duplex {
        let (a, b) = must!(crossmist::duplex(), "duplex");
        E1::D(a, b)
    } else {
        let (a, b) = must!(crossmist::channel(), "channel");
        E1::C(a, b)
    };
    use vh::script::{End, End2};
    enum S2 {
        D(crossmist::Duplex<HM, u8>),
        C(crossmist::Sender<HM>),
    }
    let _: Option<End2<u64, u64>> = None;
    let (tx, rx): (S2, _) = match e {
        E1::D(a, b) => (S2::D(a), Ok(b)),
        E1::C(a, b) => (S2::C(a), Err(b)),
    };
    let copies = std::thread::scope(|scope| -> Result<Vec<Option<HM>>, Fail> {
        let sh = Hand((tx, &msgs));
        let h = scope.spawn(move || {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let (tx, msgs) = sh.get();
                drive(fl[0], async {
                    let mut tx: End<HM, u8> = match tx {
                        S2::D(x) => End::Dx(must!(Dx::from_blocking(x, fl[0]), "conversion")),
                        S2::C(x) => End::Tx(must!(Tx::from_blocking(x, fl[0]), "conversion")),
                    };
                    for m in msgs.iter() {
                        must!(match &mut tx { End::Dx(x) => x.send(m).await, End::Tx(x) => x.send(m).await, _ => unreachable!() }, "send");
                    }
                    Ok(())
                })
            }))
        });
        let receive = async {
            let mut rx: End<u8, HM> = match rx {
                Ok(x) => End::Dx(must!(Dx::from_blocking(x, fl[1]), "conversion")),
                Err(x) => End::Rx(must!(Rx::from_blocking(x, fl[1]), "conversion")),
            };
            let mut out = Vec::new();
            for i in 0..k {
                match must!(match &mut rx { End::Dx(x) => x.recv().await, End::Rx(x) => x.recv().await, _ => unreachable!() }, "receiving message {i} with {} handles", counts[i]) {
                    None => violated!("end of the channel instead of message {i}"),
                    Some(v) => {
                        v.check(&descs[i], &not)?;
                        out.push(if drop_now[i] { None } else { Some(v) });
                    }
                }
            }
            Ok(out)
        };
        let out = match fl[1] {
            Fl::T => rt.block_on(receive),
            Fl::S => async_io::block_on(receive),
            Fl::B => futures_lite::future::block_on(receive),
            Fl::C => vh::own::block_on(receive),
        };
        match h.join().unwrap() {
            Err(p) => std::panic::resume_unwind(p),
            Ok(s) => {
                let out = out?;
                s?;
                Ok(out)
            }
        }
    })?;
    // Exactly the copies are open in addition
    let kept: Vec<i32> = copies.iter().flatten().flat_map(|x| x.fds()).collect();
    let now = open_fds();
    for fd in now.keys() {
        ensure!(sources.contains_key(fd) || kept.contains(fd), "descriptor {fd} -> {} is neither the sender's nor a part of a received value", describe_fd(*fd));
    }
    ensure!(now.len() == sources.len() + kept.len(), "{} descriptors are open, expected {} + {}", now.len(), sources.len(), kept.len());
    let orig_fds: Vec<i32> = msgs.iter().flat_map(|x| x.fds()).collect();
    for x in copies.iter().flatten() {
        exercise(&x.v, &orig_fds, 20)?;
    }
    let mut copies = copies;
    for i in order {
        copies[i] = None;
    }
    if let Some(d) = fd_settled(&sources) {
        violated!("descriptors of the sender differ after the received values were dropped: {d}");
    }
    // The sender's own handles still work
    for (m, d) in msgs.iter().zip(&descs) {
        if let Some(d) = diff(d, &m.describe()) {
            violated!("the sent value changed: {d}");
        }
    }
    for (p, kind) in &m.partners {
        // Nobody has closed the other end
        ensure!(!readable_now(p.as_raw_fd()), "the other end of a socket {} of kind {kind} sees data or the end", p.as_raw_fd());
    }
    drop(msgs);
    Ok(())
}
