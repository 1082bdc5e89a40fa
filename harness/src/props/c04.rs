// C04, in one process: ends which are dropped at any moment, with unread data, and messages cut off in the middle.
use std::io::ErrorKind;
use vh::flav::*;
use vh::msg::*;
use vh::ops::*;
use vh::run::*;
use vh::script::{self, Opts};
use vh::util::*;
use vh::val::{V, Val};
use vh::{ensure, must, violated};

fn scripted<A: Msg, B: Msg>(c: &mut Ctx) -> Res {
    let sc = script::gen::<A, B>(c, Opts { drops: true, pauses: true, max_events: 16, max_total: 300_000 });
    let f = [FLS[c.s.weighted(&[3, 1, 1])], FLS[c.s.weighted(&[3, 1, 1])]];
    c.note(|| format!("{f:?}, {} of {} and {}: {:?} / {:?}, SO_SNDBUF {:?}", if sc.channel { "channel" } else { "duplex" }, A::NAME, B::NAME, sc.ops[0], sc.ops[1], sc.sndbuf));
    c.label("history with a dropped end");
    if sc.unread > 0 {
        c.label("dropped with unread data");
    }
    c.nontrivial();
    script::run_threads(sc, f, [false; 2])
}

/// The last message is cut off in the middle.
fn cut<T: Msg>(c: &mut Ctx) -> Res {
    let done: Vec<T> = (0..c.s.idx(5)).map(|_| T::msg(&mut c.s, 60_000)).collect();
    let n = 250_000 + c.s.idx(2_000_000);
    let last = c.s.bytes(n);
    let ex = ASYNC[c.s.idx(2)];
    let rfl = FLS[c.s.idx(3)];
    let polls = c.s.idx(4);
    let concurrent = c.s.flip();
    let as_duplex = c.s.flip();
    let unread = if as_duplex { c.s.idx(3) } else { 0 };
    let request = as_duplex && unread == 0 && done.is_empty() && c.s.flip();
    let extra = c.s.urange(1, 3);
    // Requests made when the other side is gone, before and between the messages it has left
    let asks: Vec<usize> = if as_duplex && !concurrent && !request { (0..=done.len()).map(|_| if c.s.below(3) == 0 { c.s.urange(1, 2) } else { 0 }).collect() } else { vec![0; done.len() + 1] };
    if asks.iter().any(|x| *x > 0) {
        c.label("request to a closed end with messages queued");
    }
    let sndbuf = if c.s.flip() { 0 } else { 20_000 + c.s.below(100_000) as i32 };
    c.note(|| format!("{} completed messages {} then one of {n} bytes polled {polls} times and dropped; sender {ex:?}, receiver {rfl:?}{}{}, {unread} unread messages in the other direction, request {request}",
        done.len(), T::NAME, if concurrent { " concurrently" } else { " afterwards" }, if as_duplex { ", duplex" } else { "" }));
    c.nontrivial();
    c.label("cut off message");
    type M<T> = Result<T, Vec<u8>>;
    let done: Vec<M<T>> = done.into_iter().map(Ok).collect();
    let last: M<T> = Err(last);
    let fds = open_fds();
    let outcome = std::cell::Cell::new(0);
    let r = (|| -> Res {
        enum Tr<T: Msg> {
            D(crossmist::Duplex<M<T>, u8>),
            T(crossmist::Sender<M<T>>),
        }
        enum Rc<T: Msg> {
            D(crossmist::Duplex<u8, M<T>>),
            R(crossmist::Receiver<M<T>>),
        }
        let (tx, mut rx) = if as_duplex {
            let (a, b) = must!(crossmist::duplex::<M<T>, u8>(), "duplex");
            (Tr::D(a), Rc::D(b))
        } else {
            let (a, b) = must!(crossmist::channel::<M<T>>(), "channel");
            (Tr::T(a), Rc::R(b))
        };
        let (sfd, rfd) = (
            match &tx { Tr::D(x) => std::os::fd::AsRawFd::as_raw_fd(x), Tr::T(x) => std::os::fd::AsRawFd::as_raw_fd(x) },
            match &rx { Rc::D(x) => std::os::fd::AsRawFd::as_raw_fd(x), Rc::R(x) => std::os::fd::AsRawFd::as_raw_fd(x) },
        );
        if sndbuf > 0 {
            set_sndbuf(&sfd, sndbuf);
        }
        if let Rc::D(x) = &mut rx {
            for i in 0..unread {
                must!(x.send(&(i as u8)), "send");
            }
        }
        let sh = Hand((&done, &last));
        let sh = &sh;
        // Returns: was the last message sent completely, and was a part of it certainly written
        let sender = |tx: Tr<T>| -> Result<(bool, Option<bool>), Fail> {
            drive(ex, async {
                let mut tx = match tx {
                    Tr::D(x) => script::End::<M<T>, u8>::Dx(must!(Dx::from_blocking(x, ex), "conversion")),
                    Tr::T(x) => script::End::Tx(must!(Tx::from_blocking(x, ex), "conversion")),
                };
                if request {
                    // The request arrives before the answer is cut off
                    if let script::End::Dx(x) = &mut tx {
                        must!(x.recv().await, "receiving the request");
                    }
                }
                for m in sh.0 .0.iter() {
                    let r = match &mut tx {
                        script::End::Dx(x) => x.send(m).await,
                        script::End::Tx(x) => x.send(m).await,
                        _ => unreachable!(),
                    };
                    must!(r, "sending a message");
                }
                let before = queued_bytes(rfd);
                let mut ready = false;
                {
                    let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = std::io::Result<()>>>> = match &mut tx {
                        script::End::Dx(x) => Box::pin(x.send(sh.0 .1)),
                        script::End::Tx(x) => Box::pin(x.send(sh.0 .1)),
                        _ => unreachable!(),
                    };
                    for _ in 0..polls {
                        if let Some(r) = poll_once(&mut f).await {
                            must!(r, "sending the last message");
                            ready = true;
                            break;
                        }
                        breathe(ex).await;
                    }
                }
                let written = if concurrent { None } else { Some(queued_bytes(rfd) > before) };
                drop(tx);
                Ok((ready, written))
            })
        };
        let receiver = |rx: Rc<T>, fate: Option<(bool, Option<bool>)>| -> Res {
            drive(rfl, async {
                let mut rx = match rx {
                    Rc::D(x) => script::End::<u8, M<T>>::Dx(must!(Dx::from_blocking(x, rfl), "conversion")),
                    Rc::R(x) => script::End::Rx(must!(Rx::from_blocking(x, rfl), "conversion")),
                };
                if request {
                    if let script::End::Dx(x) = &mut rx {
                        match x.request(&9).await {
                            Ok(v) => ensure!(v.same(sh.0 .1), "the request got a wrong answer"),
                            Err(e) => ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "the request failed with {e:?}"),
                        }
                        for _ in 0..extra {
                            match x.recv().await {
                                Ok(None) => {}
                                o => violated!("after the failed request: {:?}", o.map(|x| x.is_some())),
                            }
                        }
                        return Ok(());
                    }
                }
                macro_rules! recv { () => { match &mut rx { script::End::Dx(x) => x.recv().await, script::End::Rx(x) => x.recv().await, _ => unreachable!() } }; }
                macro_rules! ask {
                    ($i:expr) => {
                        if let script::End::Dx(x) = &mut rx {
                            for _ in 0..asks[$i] {
                                match x.request(&2).await {
                                    Ok(_) => violated!("a request to a closed end returned a message which is not a response to it"),
                                    Err(e) => ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "the request failed with {e:?}"),
                                }
                            }
                        }
                    };
                }
                for (i, m) in sh.0 .0.iter().enumerate() {
                    ask!(i);
                    match recv!() {
                        Ok(Some(v)) => ensure!(m.same(&v), "completed message {i} arrived changed"),
                        Ok(None) => violated!("end of the channel instead of completed message {i}"),
                        Err(e) => violated!("error instead of completed message {i}: {e:?}"),
                    }
                }
                ask!(sh.0 .0.len());
                let (mut got, mut err) = (false, false);
                match recv!() {
                    Ok(Some(v)) => {
                        got = true;
                        ensure!(v.same(sh.0 .1), "the last message arrived changed");
                    }
                    Ok(None) => {}
                    Err(_) => err = true,
                }
                if let Some((ready, written)) = fate {
                    ensure!(got == ready, "the last message was {}sent completely but {}received", if ready { "" } else { "not " }, if got { "" } else { "not " });
                    if let (false, Some(w)) = (ready, written) {
                        ensure!(err == w, "the message was {}cut off in the middle but recv {}", if w { "" } else { "not " }, if err { "failed" } else { "reported the end" });
                    }
                }
                for k in 0..extra {
                    match recv!() {
                        Ok(None) => {}
                        Ok(Some(_)) => violated!("a message after the end"),
                        Err(e) => violated!("call {k} after the end: {e:?} instead of Ok(None)"),
                    }
                }
                if let script::End::Dx(x) = &mut rx {
                    ensure!(x.send(&1).await.is_err(), "send to a closed end succeeded");
                    for _ in 0..extra {
                        match x.recv().await {
                            Ok(None) => {}
                            o => violated!("recv after a failed send: {:?}", o.map(|x| x.is_some())),
                        }
                    }
                }
                Ok(())
            })
        };
        if concurrent || request {
            std::thread::scope(|scope| {
                let (tx, sender) = (Hand(tx), Hand(sender));
                let h = scope.spawn(move || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sender.get())(tx.get())))
                });
                let r = receiver(rx, None);
                match h.join().unwrap() {
                    Ok(s) => s.and(r),
                    Err(p) => std::panic::resume_unwind(p),
                }
            })
        } else {
            // Completed messages must fit into the buffer, so they are sent while somebody reads only if they do not
            let total: usize = sh.0 .0.iter().map(|m| m.as_ref().map_or(0, |m| m.wire()) + 2000).sum();
            if total > if sndbuf > 0 { sndbuf as usize } else { 60_000 } {
                return Ok(());
            }
            let fate = sender(tx)?;
            outcome.set(match fate { (true, _) => 1, (_, Some(true)) => 2, _ => 3 });
            receiver(rx, Some(fate))
        }
    })();
    c.label(["concurrent", "sent completely after all", "certainly cut off", "not begun"][outcome.get()]);
    r?;
    if let Some(d) = fd_settled(&fds) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}

pub fn case(c: &mut Ctx) -> Res {
    match c.s.below(12) {
        0 => scripted::<Vec<u8>, Vec<u8>>(c),
        1 => scripted::<(u64, String), Blob<16384>>(c),
        2 => scripted::<V, Vec<u8>>(c),
        3 => scripted::<(), Vec<(u64, u8)>>(c),
        4 => scripted::<Blob<32766>, PodS>(c),
        5 => scripted::<u64, u64>(c),
        6 => scripted::<Blob<16383>, Blob<49149>>(c),
        7 | 8 => cut::<Vec<u8>>(c),
        9 => cut::<u64>(c),
        10 => cut::<V>(c),
        _ => cut::<Blob<16384>>(c),
    }
}
