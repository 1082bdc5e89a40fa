// C16: not enough descriptors for the handles of a message.
use std::io::Read;
use std::os::unix::net::UnixStream;
use vh::flav::*;
use vh::hand::*;
use vh::run::*;
use vh::util::*;
use vh::{ensure, must, violated};

pub fn case(c: &mut Ctx) -> Res {
    let fl = FLS[c.s.idx(3)];
    let base = open_fds();
    let rt = tokio_rt();
    let old = set_nofile(unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur
    });
    let r = {
        let _g = rt.enter();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(c, &rt, fl, old)))
    };
    set_nofile(old);
    drop(rt);
    match r {
        Ok(r) => r?,
        Err(p) => std::panic::resume_unwind(p),
    }
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
fn inner(c: &mut Ctx, rt: &::tokio::runtime::Runtime, fl: Fl, normal: u64) -> Res {
    let k = c.s.urange(1, 5);
    let mut m = Maker {
        files_only: c.s.flip(),
        ..Default::default()
    };
    let mut msgs = Vec::new();
    let mut total = 0;
    for _ in 0..k {
        let x = gen_hm(c, &mut m, 900 - total.min(900), 40_000);
        total += x.fds().len();
        msgs.push(x);
    }
    m.settle();
    let descs: Vec<_> = msgs.iter().map(|x| x.describe()).collect();
    let counts: Vec<_> = msgs.iter().map(|x| x.fds().len()).collect();
    // The number of free descriptors while receiving each message
    let free: Vec<Option<usize>> = counts
        .iter()
        .map(|n| match c.s.below(6) {
            0 => None,
            1 => Some(*n),
            2 => Some(n.saturating_sub(1)),
            3 => Some(0),
            4 => Some(n + c.s.idx(3)),
            _ => Some(c.s.urange(0, *n)),
        })
        .collect();
    let keep = c.s.flip();
    c.note(|| {
        format!(
            "receiver {fl:?}, handles {counts:?}, free descriptors {free:?}, data {:?}",
            msgs.iter().map(|x| x.pad.len() + x.pad2.len()).collect::<Vec<_>>()
        )
    });
    if counts.iter().zip(&free).any(|(n, f)| f.map_or(false, |f| f < *n)) {
        c.nontrivial();
    }
    let (tx, rx) = must!(crossmist::channel::<HM>(), "channel");
    let (mut done, wait_done) = must!(UnixStream::pair(), "pair");
    // The sender is another process: the number of handles in flight is limited by the limit of the sender's process
    let Some(child) = Forked::fork() else {
        Forked::finish(|| {
            drop(rx);
            drop(wait_done);
            let mut tx = tx;
            for m in &msgs {
                if let Err(e) = tx.send(m) {
                    if e.raw_os_error() != Some(libc::EPIPE) {
                        eprintln!("send failed: {e:?}");
                        return 7;
                    }
                    return 8;
                }
            }
            // Closing it earlier would change the number of free descriptors
            let _ = done.read(&mut [0]);
            0
        })
    };
    drop(tx);
    let sources = open_fds();
    let not: Vec<i32> = sources.keys().copied().collect();
    let receive = async {
        let mut rx = must!(Rx::from_blocking(rx, fl), "conversion");
        let mut kept = Vec::new();
        let mut failed = 0;
        let mut split = false;
        let mut r = Ok(());
        for i in 0..k {
            let before = open_fds();
            // The handles of a larger message are spread over several packets, so after a failure the rest of it
            // could cause another one
            let f = free[i].filter(|_| !split);
            if let Some(f) = f {
                let l = nofile_for(f);
                set_nofile(l);
            }
            let got = rx.recv().await;
            set_nofile(normal);
            split = false;
            r = (|| -> Res {
                match got {
                    Ok(None) => violated!("end of the channel instead of message {i}"),
                    Ok(Some(v)) => {
                        let d = v.describe();
                        if let Some(x) = diff(&descs[i], &d) {
                            violated!("message {i} of {k}, {} handles, {f:?} free descriptors: {x}", counts[i]);
                        }
                        v.check(&descs[i], &not)?;
                        ensure!(f.map_or(true, |f| f >= counts[i]), "recv returned message {i} though there were not enough descriptors");
                        kept.push(v);
                    }
                    Err(e) => {
                        ensure!(
                            f.map_or(false, |f| f < counts[i]),
                            "receiving message {i} with {} handles failed though {f:?} descriptors were free: {e:?}",
                            counts[i]
                        );
                        failed += 1;
                        split = counts[i] > 253;
                        let (mut now, mut before) = (open_fds(), before);
                        for m in [&mut now, &mut before] {
                            m.retain(|fd, _| !sources.contains_key(fd));
                        }
                        if let Some(d) = fd_diff(&before, &now) {
                            violated!("message {i} with {} handles, {f:?} free descriptors: after the error: {d}", counts[i]);
                        }
                    }
                }
                Ok(())
            })();
            if r.is_err() {
                break;
            }
            if !keep {
                kept.clear();
            }
        }
        drop(wait_done);
        r?;
        match rx.recv().await {
            Ok(None) => Ok(failed),
            o => violated!("after all messages: {:?} instead of the end", o.map(|x| x.is_some())),
        }
    };
    let out = match fl {
        Fl::T => rt.block_on(receive),
        Fl::S => async_io::block_on(receive),
        Fl::B => futures_lite::future::block_on(receive),
        Fl::C => vh::own::block_on(receive),
    };
    let st = child.wait();
    let outcome = out?;
    ensure!(st == 0, "the sender failed: status {st:#x}");
    c.label(if outcome == 0 { "no failure" } else { "failed and continued" });
    c.label(format!("{fl:?}"));
    Ok(())
}
