// C14: the cases of other properties, and children which echo, while system calls are interrupted: by injected EINTR in
// this process and in its children, by signals with handlers, and by stopping and continuing children.
use crossmist::Object;
use std::fs::File;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vh::fault::{self, Act};
use vh::flav::*;
use vh::kid::*;
use vh::run::*;
use vh::src::{fill, mix};
use vh::util::*;
use vh::{ensure, must, start, violated};

pub const CALLS: [i64; 8] =
    [libc::SYS_sendmsg, libc::SYS_recvmsg, libc::SYS_sendto, libc::SYS_recvfrom, libc::SYS_wait4, libc::SYS_waitid, libc::SYS_poll, libc::SYS_ppoll];

static CAUGHT: AtomicU64 = AtomicU64::new(0);
extern "C" fn on_signal(_: i32) {
    CAUGHT.fetch_add(1, Ordering::SeqCst);
}
/// Handlers without SA_RESTART
pub fn handlers() {
    for sig in [libc::SIGUSR1, libc::SIGCHLD] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as extern "C" fn(i32) as usize;
            assert!(libc::sigaction(sig, &a, std::ptr::null_mut()) == 0, "HARNESS sigaction");
        }
    }
}
/// Signals all the threads of this process again and again, until dropped.
pub struct Storm(Arc<AtomicBool>, Option<std::thread::JoinHandle<()>>);
impl Storm {
    pub fn start(pause: u64) -> Storm {
        let stop = Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || unsafe {
            let pid = libc::getpid();
            let own = libc::syscall(libc::SYS_gettid) as i32;
            // The only descriptor it uses is opened before anyone looks
            let d = libc::opendir(c"/proc/self/task".as_ptr());
            assert!(!d.is_null(), "HARNESS opendir");
            tx.send(()).unwrap();
            while !s.load(Ordering::SeqCst) {
                libc::rewinddir(d);
                loop {
                    let e = libc::readdir(d);
                    if e.is_null() {
                        break;
                    }
                    let name = std::ffi::CStr::from_ptr((*e).d_name.as_ptr());
                    if let Ok(tid) = name.to_str().unwrap_or("").parse::<i32>() {
                        if tid != own {
                            libc::syscall(libc::SYS_tgkill, pid, tid, libc::SIGUSR1);
                        }
                    }
                }
                std::thread::sleep(Duration::from_micros(pause));
            }
            libc::closedir(d);
        });
        let _ = rx.recv();
        Storm(stop, Some(h))
    }
}
impl Drop for Storm {
    fn drop(&mut self) {
        self.0.store(true, Ordering::SeqCst);
        if let Some(h) = self.1.take() {
            let _ = h.join();
        }
    }
}
struct Clear;
impl Drop for Clear {
    fn drop(&mut self) {
        fault::clear();
    }
}
/// Which calls fail with EINTR: of 16 calls so many, in runs of up to so many
#[derive(Clone, Debug)]
struct Inject {
    seed: u64,
    share: u64,
    burst: u64,
    mask: u64,
    main: bool,
    kids: bool,
}
fn inject(i: &Inject, hits: &Arc<AtomicU64>) {
    let (i, hits) = (i.clone(), hits.clone());
    let (mut n, mut run) = (0u64, std::collections::HashMap::new());
    fault::handler(move |x| {
        if !(if x.main { i.main } else { i.kids }) {
            return Act::Continue;
        }
        // Calls which do not wait are not interrupted
        let waits = match x.nr {
            libc::SYS_wait4 => x.args[2] & libc::WNOHANG as u64 == 0,
            libc::SYS_waitid => x.args[3] & libc::WNOHANG as u64 == 0,
            libc::SYS_poll => x.args[2] as i32 != 0,
            _ => true,
        };
        let k = CALLS.iter().position(|c| *c == x.nr).unwrap_or(0);
        if !waits || i.mask >> k & 1 == 0 {
            return Act::Continue;
        }
        let left = run.entry((x.tid, x.nr)).or_insert(u64::MAX);
        if *left == u64::MAX {
            n += 1;
            let r = mix(i.seed ^ mix(n));
            *left = if r % 16 < i.share { 1 + (r >> 8) % i.burst } else { 0 };
        }
        if *left > 0 {
            *left -= 1;
            hits.fetch_add(1, Ordering::SeqCst);
            Act::Errno(libc::EINTR)
        } else {
            *left = u64::MAX;
            Act::Continue
        }
    });
}

#[derive(Object)]
pub struct EM {
    i: u64,
    pad: Vec<u8>,
    files: Vec<File>,
}
fn make(seed: u64, i: u64) -> EM {
    let r = mix(seed ^ mix(i + 7));
    let n = match r % 4 {
        0 => (r >> 8) % 100,
        1 => 16383 * ((r >> 8) % 8) + (r >> 16) % 40,
        _ => (r >> 8) % 400_000,
    };
    let f = match (r >> 40) % 4 {
        0 => (r >> 48) % 4,
        1 if n < 20000 => (r >> 48) % 600,
        _ => 0,
    };
    EM { i, pad: fill(mix(seed + i), n as usize), files: (0..f).map(|_| File::open("/dev/null").unwrap()).collect() }
}
fn same(a: &EM, b: &EM) -> Res {
    ensure!(a.i == b.i && a.pad == b.pad, "message {} ({} bytes) arrived as {} ({} bytes)", a.i, a.pad.len(), b.i, b.pad.len());
    ensure!(a.files.len() == b.files.len(), "message {} arrived with {} of {} handles", a.i, b.files.len(), a.files.len());
    let id = |f: &File| file_id(std::os::fd::AsRawFd::as_raw_fd(f));
    ensure!(a.files.iter().zip(&b.files).all(|(x, y)| id(x) == id(y)), "message {} arrived with wrong handles", a.i);
    Ok(())
}
#[crossmist::func]
fn echo(first: EM, dx: crossmist::Duplex<EM, EM>, n: u64, requests: u64, fl: u8, storm: u64) -> (u64, EM) {
    handlers();
    let _storm = if storm > 0 { Some(Storm::start(storm)) } else { None };
    let fl = FLS[fl as usize];
    let got: Res<u64> = drive(fl, async {
        let mut d = must!(Dx::from_blocking(dx, fl), "conversion");
        for i in 0..n {
            match must!(d.recv().await, "recv in the child") {
                Some(m) => {
                    ensure!(m.i == i, "message {} instead of {i}", m.i);
                    must!(d.send(&m).await, "send in the child")
                }
                None => violated!("the end instead of message {i}"),
            }
        }
        for i in 0..requests {
            let m = make(i, i);
            let r = must!(d.request(&m).await, "request in the child");
            same(&m, &r)?;
        }
        ensure!(must!(d.recv().await, "the last recv in the child").is_none(), "an extra message");
        Ok(n)
    });
    (got.unwrap(), first)
}
fn kids(c: &mut Ctx) -> Res {
    let how = c.s.idx(3);
    let (fl, kfl) = (c.s.idx(3), c.s.idx(3));
    let (n, requests) = (c.s.below(6), c.s.below(4));
    let seed = c.s.word();
    let storm = if c.s.flip() { c.s.range(20, 500) } else { 0 };
    let stops = if c.s.flip() { c.s.range(1, 60) } else { 0 };
    c.note(|| format!("echo by {}: {n} messages and {requests} requests, {:?} and {:?}, signals in the child every {storm} us, {stops} stops", HOWS[how], FLS[fl], FLS[kfl]));
    let before = open_fds();
    let r: Res = drive(how_fl(how), async {
        let (a, b) = must!(crossmist::duplex::<EM, EM>(), "duplex");
        let first = make(seed, 99);
        let orig = make(seed, 99);
        let k = must!(start!(how, echo, first, b, n, requests, kfl as u8, storm), "spawn");
        let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, k.id().unwrap(), 0) } as i32;
        if pfd < 0 {
            return Err(Fail::H("pidfd_open".into()));
        }
        let done = Arc::new(AtomicBool::new(false));
        let body = Hand(move || -> Res { drive(FLS[fl], async {
            let mut a = must!(Dx::from_blocking(a, FLS[fl]), "conversion");
            for i in 0..n {
                let m = make(seed, i);
                must!(a.send(&m).await, "send");
                match must!(a.recv().await, "recv") {
                    Some(r) => same(&m, &r)?,
                    None => violated!("the end instead of echo {i}"),
                }
            }
            for i in 0..requests {
                match must!(a.recv().await, "recv of a request") {
                    Some(m) => {
                        same(&make(i, i), &m)?;
                        must!(a.send(&m).await, "answer")
                    }
                    None => violated!("the end instead of request {i}"),
                }
            }
            Ok(())
        }) });
        let body = std::thread::spawn(move || (body.get())());
        let done2 = done.clone();
        let stopper = std::thread::spawn(move || {
            for i in 0..stops {
                if done2.load(Ordering::SeqCst) {
                    break;
                }
                let send = |sig: i32| unsafe { libc::syscall(libc::SYS_pidfd_send_signal, pfd, sig, 0, 0) };
                send(libc::SIGSTOP);
                std::thread::sleep(Duration::from_micros(mix(seed ^ i) % 400));
                send(libc::SIGCONT);
                std::thread::sleep(Duration::from_micros(mix(seed ^ i) >> 20 & 255));
            }
        });
        let res = k.join().await;
        done.store(true, Ordering::SeqCst);
        let out = body.join().unwrap_or_else(|_| Err(Fail::V(format!("panic: {}", last_panic()))));
        let _ = stopper.join();
        unsafe { libc::close(pfd) };
        out?;
        let (m, back) = must!(res, "join");
        ensure!(m == n, "the result is wrong");
        same(&orig, &back)
    });
    r?;
    if let Some(d) = fd_settled(&before) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
pub fn case(c: &mut Ctx) -> Res {
    let i = Inject {
        seed: c.s.word(),
        share: *c.s.pick(&[0, 1, 4, 8, 15]),
        burst: *c.s.pick(&[1, 1, 3, 40]),
        mask: if c.s.flip() { !0 } else { 1 << c.s.idx(CALLS.len()) | 1 << c.s.idx(CALLS.len()) },
        main: c.s.below(4) != 0,
        kids: c.s.below(4) != 0,
    };
    let storm = if i.share == 0 || c.s.below(3) == 0 { c.s.range(20, 600) } else { 0 };
    let which = c.s.below(16);
    c.note(|| format!("{i:?}, signals every {storm} us"));
    let hits = Arc::new(AtomicU64::new(0));
    let caught = CAUGHT.load(Ordering::SeqCst);
    let mut what = "";
    let labels = std::mem::take(&mut c.labels);
    let before = open_fds();
    let r = {
        let _storm = if storm > 0 { Some(Storm::start(storm)) } else { None };
        let _clear = Clear;
        inject(&i, &hits);
        match which {
            0..=3 => {
                what = "echo";
                kids(c)
            }
            4 | 5 => {
                what = "cases of C03";
                super::c03::case(c)
            }
            6 | 7 => {
                what = "cases of C05";
                super::c05::case(c)
            }
            8..=10 => {
                what = "cases of C06";
                super::c06::case(c)
            }
            11 | 12 => {
                what = "cases of C07";
                super::c07::case(c)
            }
            13 => {
                what = "cases of C08";
                super::c08::case(c)
            }
            14 => {
                what = "cases of C13";
                super::c13::case(c)
            }
            _ => {
                what = "cases of C17";
                super::c17::case_chan(c)
            }
        }
    };
    if r.is_ok() {
        if let Some(d) = fd_settled(&before) {
            violated!("descriptors differ after the case: {d}");
        }
    }
    c.labels = labels;
    c.label(what);
    let n = hits.load(Ordering::SeqCst);
    c.nontrivial = n > 0 || CAUGHT.load(Ordering::SeqCst) > caught;
    if n > 0 {
        c.label("system calls interrupted");
    }
    if storm > 0 {
        c.label("signals");
    }
    r
}
