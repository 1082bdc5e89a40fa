// C03: streams and scripts over blocking channels, with a thread at each side.
use vh::flav::*;
use vh::msg::*;
use vh::ops::*;
use vh::run::*;
use vh::script;
use vh::val::V;
use vh::{ensure, must, violated};

fn stream<T: Msg>(c: &mut Ctx) -> Res {
    let count = match c.s.below(6) {
        0 => 1,
        1..=3 => c.s.urange(1, 12),
        4 => c.s.urange(1, 60),
        _ => c.s.urange(1, 700),
    };
    let huge = c.s.chance(1, 60);
    let cap = if huge { 40_000_000 } else { 3_000_000 };
    let mut total = 0;
    let mut msgs = Vec::new();
    for k in 0..count {
        let max = if huge && k == 0 { cap } else if total > cap { 300 } else if count > 60 { 20_000 } else { 1_500_000 };
        let m = if huge && k == 0 { huge_msg::<T>(c) } else { T::msg(&mut c.s, max) };
        total += m.wire();
        msgs.push(m);
    }
    let sndbuf = match c.s.below(4) {
        0 | 1 => 0,
        2 => 17_000 + c.s.below(20_000) as i32,
        _ => 400_000,
    };
    // Who waits, and when
    let mut slow = [vec![0u64; count + 1], vec![0u64; count + 1]];
    for _ in 0..c.s.urange(0, 4) {
        let (who, at) = (c.s.idx(2), c.s.idx(count));
        slow[who][at] = c.s.below(2000);
    }
    let receiver_first = c.s.flip();
    let (tx, rx) = must!(crossmist::channel::<T>(), "channel");
    if sndbuf > 0 {
        vh::util::set_sndbuf(&tx, sndbuf);
    }
    c.note(|| format!("{} x {count} over a channel, wire sizes {:?}, {total} bytes, SO_SNDBUF {sndbuf}, slow {:?}", T::NAME,
        msgs.iter().take(12).map(|m| m.wire()).collect::<Vec<_>>(), slow.iter().map(|v| v.iter().filter(|x| **x > 0).count()).collect::<Vec<_>>()));
    let sh = Hand((&msgs, &slow));
    let sh = &sh;
    let nap = |us: u64| {
        if us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(us))
        }
    };
    let r = std::thread::scope(|scope| {
        let tx = Hand(tx);
        let sender = move || -> Res {
            let mut tx = tx.get();
            for (i, m) in sh.0 .0.iter().enumerate() {
                nap(sh.0 .1[0][i]);
                if let Err(e) = tx.send(m) {
                    violated!("sending message {i} of {count} failed: {e:?}");
                }
            }
            Ok(())
        };
        let mut rx = rx;
        let mut receiver = || -> Res {
            for (i, m) in sh.0 .0.iter().enumerate() {
                nap(sh.0 .1[1][i]);
                match rx.recv() {
                    Ok(Some(v)) => ensure!(m.same(&v), "message {i} of {count} ({} bytes) arrived changed", m.wire()),
                    Ok(None) => violated!("end of the channel instead of message {i} of {count}"),
                    Err(e) => violated!("receiving message {i} of {count} ({} bytes) failed: {e:?}", m.wire()),
                }
            }
            match rx.recv() {
                Ok(None) => Ok(()),
                Ok(Some(_)) => violated!("an extra message after the {count} sent ones"),
                Err(e) => violated!("recv failed after all messages and the end: {e:?}"),
            }
        };
        if receiver_first {
            let h = scope.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                std::thread::yield_now();
                sender()
            })));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| receiver()));
            drop(rx);
            script::both(h.join().unwrap(), r)
        } else {
            let h = scope.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(sender)));
            std::thread::yield_now();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| receiver()));
            drop(rx);
            script::both(h.join().unwrap(), r)
        }
    });
    if count >= 2 || total > CHUNK {
        c.nontrivial();
    }
    c.label(if total > 200_000 { "more than the socket buffer" } else { "fits into the socket buffer" });
    r
}
fn huge_msg<T: Msg>(c: &mut Ctx) -> T {
    // Most types ignore the limit; sequences get megabytes
    let any: Box<dyn std::any::Any> = {
        let n = 1_000_000 + c.s.idx(30_000_000);
        Box::new(c.s.bytes(n))
    };
    match any.downcast::<T>() {
        Ok(v) => *v,
        Err(_) => T::msg(&mut c.s, 1_500_000),
    }
}

/// More messages than any counter which the code might have.
fn endless(c: &mut Ctx) -> Res {
    let n = match c.s.below(3) {
        0 => c.s.urange(1000, 33_000),
        _ => c.s.urange(65_537, 80_000) as usize,
    };
    let seed = c.s.word();
    let how = c.s.below(3);
    c.note(|| format!("{n} messages, way {how}"));
    c.label("many messages");
    c.nontrivial();
    let value = move |i: usize| (i as u32, "x".repeat(vh::src::mix(seed.wrapping_add(i as u64)) as usize % 5));
    let (mut a, mut b) = must!(crossmist::duplex::<(u32, String), (u32, String)>(), "duplex");
    // Each side sends; the other one answers every message (0), every hundredth (1), or none (2)
    let every = [1, 100, usize::MAX][how as usize];
    let r = std::thread::scope(|scope| {
        let h = scope.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Res {
            for i in 0..n {
                let got = must!(b.recv(), "receiving message {i} of {n}");
                ensure!(got == Some(value(i)), "message {i} of {n} arrived as {got:?}");
                if i % every == every - 1 {
                    must!(b.send(&value(i)), "answering message {i} of {n}");
                }
            }
            let got = must!(b.recv(), "receiving the end");
            ensure!(got.is_none(), "an extra message");
            Ok(())
        })));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Res {
            for i in 0..n {
                if i % every == every - 1 {
                    let got = must!(a.request(&value(i)), "asking, message {i} of {n}");
                    ensure!(got == value(i), "the answer to message {i} of {n} is {got:?}");
                } else {
                    must!(a.send(&value(i)), "sending message {i} of {n}");
                }
            }
            Ok(())
        }));
        script::both(h.join().unwrap(), r)
    });
    r
}

fn scripted<A: Msg, B: Msg>(c: &mut Ctx) -> Res {
    let sc = script::gen::<A, B>(c, script::Opts { drops: false, pauses: true, max_events: 30, max_total: 1_000_000 });
    c.note(|| format!("{} of {} and {}: {:?} / {:?}, SO_SNDBUF {:?}", if sc.channel { "channel" } else { "duplex" }, A::NAME, B::NAME, sc.ops[0], sc.ops[1], sc.sndbuf));
    if sc.ops[0].len() + sc.ops[1].len() > 6 {
        c.nontrivial();
    }
    if sc.requests > 0 {
        c.label("requests");
    }
    if sc.big > 0 {
        c.label("sends that have to wait");
    }
    c.label(if sc.channel { "channel script" } else { "duplex script" });
    script::run_threads(sc, [Fl::B, Fl::B], [false; 2])
}

pub fn case(c: &mut Ctx) -> Res {
    if c.s.below(600) == 599 {
        return endless(c);
    }
    match c.s.below(30) {
        0..=3 => stream::<Vec<u8>>(c),
        4 => stream::<(u64, String)>(c),
        5 => stream::<Vec<(u64, u8)>>(c),
        6 => stream::<V>(c),
        7 => stream::<()>(c),
        8 => stream::<u64>(c),
        9 => stream::<PodE>(c),
        10 => stream::<Option<Box<[Vec<u8>]>>>(c),
        11 => stream::<Blob<16381>>(c),
        12 => stream::<Blob<16382>>(c),
        13 => stream::<Blob<16383>>(c),
        14 => stream::<Blob<16384>>(c),
        15 => stream::<Blob<16385>>(c),
        16 => stream::<Blob<32766>>(c),
        17 => stream::<Blob<32767>>(c),
        18 => stream::<Blob<49149>>(c),
        19 => stream::<Blob<60000>>(c),
        20 => match c.s.below(4) {
            0 => stream::<Zst>(c),
            1 => stream::<[u8; 0]>(c),
            2 => stream::<Option<u64>>(c),
            _ => stream::<(u8, u32)>(c),
        },
        21 | 22 => scripted::<Vec<u8>, Vec<u8>>(c),
        23 => scripted::<Vec<u8>, u64>(c),
        24 => scripted::<(u64, String), Blob<16384>>(c),
        25 => scripted::<V, Vec<u8>>(c),
        26 => scripted::<Blob<32766>, Option<Box<[Vec<u8>]>>>(c),
        27 => scripted::<(), Vec<u8>>(c),
        28 => scripted::<u64, PodS>(c),
        _ => scripted::<Vec<(u64, u8)>, Zst>(c),
    }
}
