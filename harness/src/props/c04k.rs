// C04: the process which holds the sending end dies, at a chosen packet, at a chosen moment, or by itself.
use crossmist::Object;
use std::fs::File;
use std::io::ErrorKind;
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::fault::{self, Act};
use vh::flav::*;
use vh::kid::*;
use vh::run::*;
use vh::src::{fill, mix};
use vh::util::*;
use vh::{ensure, must, start, violated};

/// Message number `i`: everything follows from the seed.
#[derive(Object)]
pub struct KM {
    i: u64,
    pad: Vec<u8>,
    files: Vec<File>,
    end: u32,
}
fn sizes(seed: u64, i: u64, max: u64) -> (usize, usize) {
    let r = mix(seed ^ mix(i + 1));
    let n = match r % 5 {
        0 => 0,
        1 => (r >> 8) % 100,
        2 => 16383 * ((r >> 8) % 5) + (r >> 16) % 40,
        _ => (r >> 8) % max,
    };
    let f = match (r >> 40) % 5 {
        0 => (r >> 48) % 4,
        1 if n < 20000 => (r >> 48) % 600,
        _ => 0,
    };
    (n.min(max) as usize, f as usize)
}
fn make(seed: u64, i: u64, max: u64) -> KM {
    let (n, f) = sizes(seed, i, max);
    let files = (0..f)
        .map(|k| {
            let m = if k < 5 { memfd() } else { File::open("/dev/null").unwrap() };
            if k < 5 {
                m.write_all_at(&(seed ^ i << 8 ^ k as u64).to_ne_bytes(), 0).expect("HARNESS memfd");
            }
            m
        })
        .collect();
    KM { i, pad: fill(mix(seed + i), n), files, end: i as u32 ^ 0x55 }
}
fn check(m: &KM, seed: u64, i: u64, max: u64) -> Res {
    ensure!(m.i == i, "message {} arrived instead of message {i}", m.i);
    let (n, f) = sizes(seed, i, max);
    ensure!(m.pad == fill(mix(seed + i), n) && m.end == i as u32 ^ 0x55 && m.files.len() == f, "message {i} arrived changed");
    for (k, x) in m.files.iter().enumerate().take(5) {
        let mut b = [0; 8];
        ensure!(x.read_exact_at(&mut b, 0).is_ok() && u64::from_ne_bytes(b) == seed ^ i << 8 ^ k as u64, "handle {k} of message {i} is wrong");
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq, Object)]
pub enum Fate {
    /// Sends so many messages and returns
    Return,
    Exit(i32),
    Abort,
    Panic,
    /// Drops the end and stays
    DropStay,
    /// Another thread ends the process after so many microseconds
    Timer(u32),
    /// Waits to be killed
    Stay,
}
#[derive(Clone, Debug, Object)]
pub struct Job {
    seed: u64,
    count: u64,
    max: u64,
    fl: u8,
    fate: Fate,
    requests: u64,
}
#[derive(Object)]
pub enum EndOf {
    Tx(crossmist::Sender<KM>),
    Dx(crossmist::Duplex<KM, u64>),
}
fn put(ack: &File, at: u64, v: u64) {
    ack.write_all_at(&v.to_ne_bytes(), at).expect("HARNESS ack");
}
fn get(ack: &File, at: u64) -> u64 {
    let mut b = [0; 8];
    ack.read_exact_at(&mut b, at).expect("HARNESS ack");
    u64::from_ne_bytes(b)
}
#[crossmist::func]
fn sender(job: Job, end: EndOf, ack: File, hold: crossmist::Receiver<()>) {
    let mut hold = hold;
    let fl = FLS[job.fl as usize];
    if let Fate::Timer(us) = job.fate {
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_micros(us as u64));
            unsafe { libc::_exit(0) }
        });
    }
    let r: Res = drive(fl, async {
        enum E {
            T(Tx<KM>),
            D(Dx<KM, u64>),
        }
        let mut e = match end {
            EndOf::Tx(x) => E::T(must!(Tx::from_blocking(x, fl), "conversion")),
            EndOf::Dx(x) => E::D(must!(Dx::from_blocking(x, fl), "conversion")),
        };
        put(&ack, 8, 1 + match &e { E::T(x) => x.raw(), E::D(x) => x.raw() } as u64);
        if let E::D(x) = &mut e {
            for _ in 0..job.requests {
                must!(x.recv().await, "receiving a request");
            }
        }
        for i in 0..job.count {
            let m = make(job.seed, i, job.max);
            match &mut e {
                E::T(x) => must!(x.send(&m).await, "sending"),
                E::D(x) => must!(x.send(&m).await, "sending"),
            }
            put(&ack, 0, i + 1);
        }
        if job.fate != Fate::DropStay {
            std::mem::forget(e);
        }
        Ok(())
    });
    if let Err(e) = r {
        eprintln!("the child failed: {e:?}");
        put(&ack, 16, 1);
    }
    match job.fate {
        Fate::Return => {}
        Fate::Exit(n) => std::process::exit(n),
        Fate::Abort => std::process::abort(),
        Fate::Panic => panic!("fate"),
        Fate::DropStay => {
            let _ = hold.recv();
        }
        Fate::Timer(_) | Fate::Stay => loop {
            unsafe { libc::pause() };
        },
    }
}

pub fn case(c: &mut Ctx) -> Res {
    let fate = match c.s.below(10) {
        0 => Fate::Return,
        1 => *c.s.pick(&[Fate::Exit(0), Fate::Exit(1), Fate::Abort, Fate::Panic]),
        2 => Fate::DropStay,
        3 => Fate::Timer(c.s.below(30_000) as u32),
        _ => Fate::Stay,
    };
    let big = c.s.flip();
    let max = if big { 300_000 } else { 60_000 };
    let duplex = c.s.flip();
    let job = Job { seed: c.s.word(), count: c.s.urange(1, 8) as u64, max, fl: c.s.idx(3) as u8, fate, requests: if duplex && c.s.flip() { c.s.below(3) } else { 0 } };
    // Killed before so many packets of the channel have been sent, or after so many microseconds
    let packet = if fate == Fate::Stay && c.s.below(4) != 0 { Some(c.s.urange(1, 40) as u64) } else { None };
    let delay = c.s.below(20_000);
    let how = c.s.idx(3);
    let rfl = FLS[c.s.idx(3)];
    let unread = if duplex { c.s.below(3) } else { 0 };
    // A request is pending when the process dies (of its answers, the first is a message)
    let late = c.s.flip();
    let extra = c.s.urange(1, 3);
    c.note(|| format!("{} of {job:?}, {}, receiver {rfl:?}{}, {unread} unread, {}", if duplex { "duplex" } else { "channel" },
        match packet { Some(n) => format!("killed before packet {n}"), None if fate == Fate::Stay => format!("killed after {delay} us"), None => "not killed".into() },
        if late { " after the death" } else { "" }, HOWS[how]));
    c.nontrivial();
    c.label(format!("{fate:?}").split('(').next().unwrap().to_string());
    if packet.is_some() {
        c.label("killed at a packet");
    }
    let before = open_fds();
    let r = (|| -> Res {
        let ack = memfd();
        for at in [0, 8, 16, 24] {
            put(&ack, at, 0);
        }
        enum P {
            R(crossmist::Receiver<KM>),
            D(crossmist::Duplex<u64, KM>),
        }
        let (end, local) = if duplex {
            let (a, b) = must!(crossmist::duplex::<KM, u64>(), "duplex");
            (EndOf::Dx(a), P::D(b))
        } else {
            let (a, b) = must!(crossmist::channel::<KM>(), "channel");
            (EndOf::Tx(a), P::R(b))
        };
        let (hold_tx, hold) = must!(crossmist::channel::<()>(), "channel");
        // Packets of the current message which were sent before the process was killed
        let cut: Arc<Mutex<Option<(u64, u64)>>> = Arc::new(Mutex::new(None));
        if let Some(n) = packet {
            let (cut, ack) = (cut.clone(), must!(ack.try_clone(), "dup"));
            let (mut seen, mut last, mut inm) = (0, 0, 0);
            fault::handler(move |x| {
                if x.main || get(&ack, 8) != x.args[0] + 1 {
                    return Act::Continue;
                }
                let a = get(&ack, 0);
                if a != last {
                    (last, inm) = (a, 0);
                }
                seen += 1;
                inm += 1;
                if seen == n {
                    *cut.lock().unwrap() = Some((a, inm - 1));
                    return Act::Kill;
                }
                Act::Continue
            });
        }
        let ack2 = must!(ack.try_clone(), "dup");
        let j = job.clone();
        let res = drive(how_fl(how), async {
            let kid = must!(start!(how, sender, j, end, ack2, hold), "spawn");
            let pid = kid.id().unwrap();
            let killer = kid.killer().unwrap();
            let dies = fate != Fate::DropStay;
            let kill_now = std::sync::atomic::AtomicBool::new(false);
            let got = std::thread::scope(|scope| {
                if fate == Fate::Stay && packet.is_none() {
                    let killer = &killer;
                    scope.spawn(move || {
                        std::thread::sleep(Duration::from_micros(delay));
                        let _ = killer.kill();
                    });
                } else if packet.is_some() {
                    // It is killed by the system call, or else when it has sent everything
                    let (killer, ack, kill_now, count) = (&killer, &ack, &kill_now, job.count);
                    scope.spawn(move || loop {
                        if get(ack, 0) == count || get(ack, 16) != 0 || !matches!(proc_state(pid), Some(x) if x != 'Z') || kill_now.load(std::sync::atomic::Ordering::SeqCst) {
                            let _ = killer.kill();
                            break;
                        }
                        std::thread::sleep(Duration::from_micros(200));
                    });
                }
                let body = Hand(|| drive(rfl, async {
                    let (mut r, mut d) = match local {
                        P::R(x) => (Some(must!(Rx::from_blocking(x, rfl), "conversion")), None),
                        P::D(x) => (None, Some(must!(Dx::from_blocking(x, rfl), "conversion"))),
                    };
                    let mut n = 0;
                    let mut failed: Option<String> = None;
                    if let Some(d) = &mut d {
                        for i in 0..unread {
                            if let Err(e) = d.send(&i).await {
                                ensure!(e.kind() != ErrorKind::WouldBlock, "send failed: {e:?}");
                            }
                        }
                    }
                    // Requests are answered by the messages in their order, one for each
                    let mut fails = 0;
                    if late && dies && packet.is_none() {
                        // Whatever fits into the buffer has been sent by then; the rest is never sent
                        if fate == Fate::Stay || matches!(fate, Fate::Timer(_)) {
                            wait_ended(pid);
                        }
                    }
                    let mut asked = unread;
                    loop {
                        let r = match (&mut r, &mut d) {
                            (Some(x), _) => x.recv().await,
                            (_, Some(x)) => {
                                if asked < job.requests {
                                    asked += 1;
                                    // `requests` requests are received before the first message is sent, so the
                                    // last of them can be made as a request proper
                                    if asked == job.requests && n == 0 && fails == 0 {
                                        match x.request(&asked).await {
                                            Ok(v) => Ok(Some(v)),
                                            Err(e) if e.kind() == ErrorKind::UnexpectedEof => Ok(None),
                                            // The request was not sent; whatever had been sent before is still there
                                            Err(e) if e.kind() == ErrorKind::BrokenPipe || e.kind() == ErrorKind::ConnectionReset => continue,
                                            Err(e) => Err(e),
                                        }
                                    } else {
                                        if let Err(e) = x.send(&asked).await {
                                            ensure!(e.kind() != ErrorKind::WouldBlock, "send failed: {e:?}");
                                        }
                                        continue;
                                    }
                                } else {
                                    x.recv().await
                                }
                            }
                            _ => unreachable!(),
                        };
                        match r {
                            Ok(Some(m)) => {
                                ensure!(fails == 0, "a message after an error");
                                check(&m, job.seed, n, job.max)?;
                                n += 1;
                            }
                            Ok(None) => break,
                            Err(e) => {
                                fails += 1;
                                ensure!(fails == 1, "a second error: {e:?} after {failed:?}");
                                ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "recv failed with {e:?}");
                                failed = Some(format!("{e:?}"));
                            }
                        }
                    }
                    if !dies {
                        ensure!(matches!(proc_state(pid), Some(x) if x != 'Z'), "HARNESS the child must be alive");
                    }
                    for _ in 0..extra {
                        match (&mut r, &mut d) {
                            (Some(x), _) => ensure!(matches!(x.recv().await, Ok(None)), "recv after the end did not report the end"),
                            (_, Some(x)) => {
                                ensure!(matches!(x.recv().await, Ok(None)), "recv after the end did not report the end");
                                ensure!(x.send(&1).await.is_err(), "sending to a side that does not exist succeeded");
                                match x.request(&1).await {
                                    Ok(_) => violated!("an answer after the end"),
                                    Err(e) => ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "the request failed with {e:?}"),
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                    Ok((n, failed))
                }));
                // (not on this thread, which may belong to another runtime)
                let r: Result<(u64, Option<String>), Fail> = match scope.spawn(move || (body.get())()).join() {
                    Ok(r) => r,
                    Err(p) => Err(Fail::V(format!("panic: {}", p.downcast_ref::<String>().cloned().unwrap_or_default()))),
                };
                kill_now.store(true, std::sync::atomic::Ordering::SeqCst);
                r
            });
            drop(hold_tx);
            let _ = killer.kill();
            let _ = kid.join().await;
            got
        });
        fault::clear();
        let (n, failed) = res?;
        let acked = get(&ack, 0);
        ensure!(get(&ack, 16) == 0 || fate != Fate::Return, "the child failed to send");
        ensure!(n == acked || n == acked + 1, "{n} messages were received, {acked} were sent");
        if matches!(fate, Fate::Return | Fate::Exit(_) | Fate::Abort | Fate::Panic | Fate::DropStay) {
            ensure!(n == job.count && failed.is_none(), "{n} of {} completed messages arrived, then {failed:?}", job.count);
        }
        if failed.is_some() {
            c.label("cut off");
        }
        if let (Some((a, k)), 0) = (*cut.lock().unwrap(), job.fl) {
            ensure!(n == a, "{n} messages arrived, {a} were completed before the death");
            ensure!(failed.is_some() == (k > 0), "the last message was {} packets long when the process died, and recv gave {failed:?}", k);
            c.label(if k > 0 { "died between packets" } else { "died between messages" });
        }
        Ok(())
    })();
    fault::clear();
    r?;
    if let Some(d) = fd_settled(&before) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
