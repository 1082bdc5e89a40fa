// C21: spawns in which a system call fails, descriptors run out, or the child dies early.
use crossmist::Object;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vh::fault::{self, Act};
use vh::flav::*;
use vh::hand::*;
use vh::kid::*;
use vh::run::*;
use vh::src::Src;
use vh::util::*;
use vh::{ensure, start, violated};

pub const CALLS: [i64; 10] = [
    libc::SYS_socketpair, libc::SYS_clone, libc::SYS_execve, libc::SYS_fcntl, libc::SYS_sendmsg, libc::SYS_recvmsg, libc::SYS_epoll_ctl, libc::SYS_ioctl, libc::SYS_openat,
    libc::SYS_poll,
];
fn call_name(nr: i64) -> &'static str {
    match nr {
        libc::SYS_socketpair => "socketpair",
        libc::SYS_clone => "clone",
        libc::SYS_execve => "execve",
        libc::SYS_fcntl => "fcntl",
        libc::SYS_sendmsg => "sendmsg",
        libc::SYS_recvmsg => "recvmsg",
        libc::SYS_epoll_ctl => "epoll_ctl",
        libc::SYS_ioctl => "ioctl",
        libc::SYS_openat => "openat",
        libc::SYS_poll => "poll",
        _ => "?",
    }
}
#[derive(Clone, Debug)]
enum Trouble {
    None,
    /// In this process: the n-th call
    Mine { nr: i64, n: u64, errno: i32 },
    /// In the process which is to become the child, before it executes the program
    Born { nr: i64, n: u64, act: Act },
    /// In the child, after that
    Kid { nr: Option<i64>, n: u64, act: Act },
    /// Only so many descriptors can be opened
    Limit(usize),
}
fn trouble(s: &mut Src, how: usize, handles: usize) -> Trouble {
    use libc::*;
    let a = how % 3 != 0;
    match s.below(10) {
        0 => Trouble::None,
        1..=4 => {
            let k = s.idx(if a { 6 } else { 4 });
            let (nr, errs): (i64, &[i32]) = match k {
                0 => (SYS_socketpair, &[EMFILE, ENFILE, ENOMEM, ENOBUFS]),
                1 => (SYS_clone, &[EAGAIN, ENOMEM, EPERM]),
                2 | 3 => (SYS_sendmsg, &[ENOBUFS, ENOMEM, EPIPE, ECONNRESET]),
                4 => (SYS_epoll_ctl, &[ENOMEM, ENOSPC]),
                _ => (SYS_ioctl, &[ENOMEM, EIO]),
            };
            Trouble::Mine { nr, n: if nr == SYS_sendmsg { s.below(4) } else { s.below(2) }, errno: *s.pick(errs) }
        }
        5 => match s.below(4) {
            0 => Trouble::Born { nr: SYS_fcntl, n: s.below(handles as u64 + 2), act: if s.flip() { Act::Kill } else { Act::Errno(EIO) } },
            _ => Trouble::Born { nr: SYS_execve, n: 0, act: if s.below(4) == 0 { Act::Kill } else { Act::Errno(*s.pick(&[ENOENT, EACCES, ENOMEM, E2BIG, ETXTBSY, EMFILE, EIO])) } },
        },
        6 => Trouble::Born { nr: SYS_execve, n: 0, act: Act::Errno(*s.pick(&[ENOENT, EACCES, ENOMEM, EAGAIN])) },
        7 => Trouble::Kid { nr: if s.flip() { None } else { Some(*s.pick(&[SYS_recvmsg, SYS_fcntl, SYS_openat, SYS_poll])) }, n: s.below(12), act: Act::Kill },
        8 => match s.below(3) {
            0 => Trouble::Kid { nr: Some(SYS_recvmsg), n: s.below(3), act: Act::Errno(*s.pick(&[ENOMEM, ECONNRESET, EIO])) },
            1 => Trouble::Kid { nr: Some(SYS_fcntl), n: s.below(4), act: Act::Errno(*s.pick(&[EIO, EMFILE])) },
            _ => Trouble::Kid { nr: Some(SYS_openat), n: s.below(4), act: Act::Errno(EMFILE) },
        },
        _ => Trouble::Limit(s.idx(9)),
    }
}
/// How often the trouble occurred
fn arm(t: &Trouble) -> Arc<AtomicU64> {
    let hits = Arc::new(AtomicU64::new(0));
    let (h, t) = (hits.clone(), t.clone());
    let born = Mutex::new(std::collections::HashMap::<i32, bool>::new());
    let mut count = 0u64;
    fault::handler(move |x| {
        // A process is known by its main thread. Before its first execve it is only being made.
        let mut born = born.lock().unwrap_or_else(|e| e.into_inner());
        let exec = x.nr == libc::SYS_execve;
        let early = !x.main && !*born.get(&x.tid).unwrap_or(&false);
        if exec && !x.main {
            born.insert(x.tid, true);
        }
        let (m, n, act) = match &t {
            Trouble::Mine { nr, n, errno } => {
                let right = match x.nr {
                    libc::SYS_epoll_ctl => x.args[1] as i32 == libc::EPOLL_CTL_ADD,
                    libc::SYS_ioctl => x.args[1] == libc::FIONBIO as u64,
                    _ => true,
                };
                (x.main && x.nr == *nr && right, *n, Act::Errno(*errno))
            }
            Trouble::Born { nr, n, act } => (early && x.nr == *nr, *n, *act),
            Trouble::Kid { nr, n, act } => (!x.main && !early && nr.map_or(true, |c| c == x.nr), *n, *act),
            _ => return Act::Continue,
        };
        if !m {
            return Act::Continue;
        }
        count += 1;
        if count == n + 1 {
            h.fetch_add(1, Ordering::SeqCst);
            return act;
        }
        Act::Continue
    });
    hits
}

#[derive(Object)]
pub struct Big {
    pad: Vec<u8>,
    hv: Option<HV>,
    n: u64,
}
fn digest(b: &Big) -> u64 {
    b.pad.iter().fold(b.n, |a, x| a.wrapping_mul(0x100000001b3) ^ *x as u64)
}
#[crossmist::func]
fn answer(a: Big, b: Option<Vec<H>>) -> (u64, Big) {
    let d = digest(&a) + b.map_or(0, |v| v.len() as u64);
    (d, a)
}
#[crossmist::func]
fn nothing(a: Big) {
    assert!(a.n > 0 || a.n == 0);
}

/// What the standard error output is meanwhile: 0 as it was, 1 a pipe which nobody reads, 2 a full device
struct Errors(i32);
impl Errors {
    fn new(kind: u8) -> Option<Errors> {
        unsafe {
            if kind == 0 {
                return None;
            }
            let saved = libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 500);
            assert!(saved >= 0, "HARNESS fcntl");
            let mut p = [-1i32; 2];
            match kind {
                1 => {
                    assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0, "HARNESS pipe");
                    libc::close(p[0]);
                }
                _ => {
                    p[1] = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
                    assert!(p[1] >= 0, "HARNESS /dev/full");
                }
            }
            assert!(libc::dup2(p[1], 2) == 2, "HARNESS dup2");
            libc::close(p[1]);
            Some(Errors(saved))
        }
    }
}
impl Drop for Errors {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 2);
            libc::close(self.0);
        }
    }
}
struct Attempt {
    errors: u8,
    how: usize,
    trouble: Trouble,
    handles: usize,
    more: usize,
    pad: usize,
    seed: u64,
    simple: bool,
    unit: bool,
    thread: bool,
}
fn attempt(a: &Attempt) -> Res<(bool, &'static str)> {
    let mut s = Src::gen(a.seed);
    let _errors = Errors::new(a.errors);
    let mut m = Maker::default();
    m.files_only = a.simple;
    m.no_tokio = true;
    let hv = if a.handles > 0 { Some(m.hv(&mut s, a.handles, 3)) } else { None };
    let more = if a.more > 0 { Some((0..a.more).map(|_| m.h(&mut s)).collect::<Vec<_>>()) } else { None };
    m.settle();
    let big = Big { pad: s.bytes(a.pad), hv, n: a.seed };
    let desc = big.hv.as_ref().map_or(vec![], |x| x.describe());
    let want = digest(&big) + a.more as u64;
    let out = drive(how_fl(a.how), async {
        let limit = match a.trouble {
            Trouble::Limit(k) => Some(set_nofile(nofile_for(k))),
            _ => None,
        };
        let hits = arm(&a.trouble);
        let spawned = if a.unit {
            start!(a.how, nothing, big).map(|k| (Some(k), None))
        } else {
            start!(a.how, answer, big, more).map(|k| (None, Some(k)))
        };
        if let Some(l) = limit {
            set_nofile(l);
        }
        if matches!(a.trouble, Trouble::Mine { .. }) {
            fault::clear();
        }
        let happened = |hits: &AtomicU64| limit.is_some() || hits.load(Ordering::SeqCst) > 0;
        let spawned_err = spawned.as_ref().err().map(|e| format!("{e:?}"));
        let mut ended = None;
        let res = match spawned {
            Err(_) => {
                // (the processes which were being made no longer exist)
                ended = Some(any_child());
                None
            }
            Ok((Some(k), _)) => Some(k.join().await.map(|()| true).map_err(|e| format!("{e:?}"))),
            Ok((_, Some(k))) => Some(match k.join().await {
                Ok((d, b)) => {
                    if d != want || b.hv.as_ref().map_or(vec![], |x| x.describe()) != desc || digest(&b) + a.more as u64 != want {
                        violated!("the result is wrong");
                    }
                    Ok(true)
                }
                Err(e) => Err(format!("{e:?}")),
            }),
            _ => unreachable!(),
        };
        fault::clear();
        let hit = happened(&hits);
        ensure!(ended != Some(true), "a process remains when spawn has failed");
        ensure!(!any_child(), "a process remains");
        let what = match (&spawned_err, &res) {
            (Some(_), _) => "spawn failed",
            (_, Some(Err(_))) => "join failed",
            _ => "worked",
        };
        if !hit {
            if let Some(e) = &spawned_err {
                violated!("spawn failed although nothing did: {e}");
            }
            if let Some(Err(e)) = &res {
                violated!("join failed although nothing did: {e}");
            }
        } else {
            // Results of run and its relatives come through join
            let failed = spawned_err.is_some() || (a.how >= 3 && matches!(res, Some(Err(_))));
            match &a.trouble {
                Trouble::Mine { .. } => ensure!(failed, "spawn succeeded although {:?} occurred; {res:?}", a.trouble),
                // The child may be gone only after its task is put into the buffer, so join reports it at the latest
                Trouble::Born { .. } => ensure!(what != "worked", "spawn and join succeeded although the child could not be started; {res:?}"),
                Trouble::Kid { act: Act::Kill, .. } => ensure!(what != "worked" || a.unit, "the result of a child that was killed"),
                _ => {}
            }
        }
        Ok((hit, what))
    });
    fault::clear();
    drop(m);
    out
}
pub fn case(c: &mut Ctx) -> Res {
    let n = c.s.urange(1, 4);
    let mut v = Vec::new();
    for i in 0..=n {
        let how = c.s.idx(6);
        let handles = if c.s.below(12) == 0 { c.s.urange(0, 400) } else { c.s.urange(0, 6) };
        v.push(Attempt {
            how,
            // The last one works
            trouble: if i == n { Trouble::None } else { trouble(&mut c.s, how, handles) },
            handles,
            more: c.s.urange(0, 3),
            pad: *c.s.pick(&[0, 10, 5000, 40_000, 300_000, 1_500_000]),
            seed: c.s.word(),
            simple: c.s.below(3) != 0,
            unit: c.s.below(4) == 0,
            thread: c.s.below(3) == 0,
            errors: if c.s.below(4) == 3 { 1 + c.s.below(2) as u8 } else { 0 },
        });
    }
    ensure!(!any_child(), "HARNESS there are processes");
    let before = open_fds();
    for a in &v {
        let t = match &a.trouble {
            Trouble::Mine { nr, n, errno } => format!("{} number {n} fails with {errno}", call_name(*nr)),
            Trouble::Born { nr, n, act } => format!("{} number {n} of the newborn: {act:?}", call_name(*nr)),
            Trouble::Kid { nr, n, act } => format!("{} number {n} of the child: {act:?}", nr.map_or("call", call_name)),
            t => format!("{t:?}"),
        };
        c.note(|| format!("{}{}{} with {}+{} {}handles and {} bytes{}: {t}", ["", "stderr is a broken pipe: ", "stderr is full: "][a.errors as usize], HOWS[a.how], if a.unit { " (unit)" } else { "" }, a.handles, a.more, if a.simple { "plain " } else { "" }, a.pad,
            if a.thread { " on another thread" } else { "" }));
        let (hit, what) = if a.thread {
            std::thread::scope(|s| s.spawn(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| attempt(a)))).join().unwrap())
                .unwrap_or_else(|_| Err(Fail::V(format!("panic: {}", last_panic()))))?
        } else {
            attempt(a)?
        };
        if let Some(d) = if a.how % 3 == 0 && a.simple && !a.thread { fd_diff(&before, &open_fds()) } else { fd_settled(&before) } {
            violated!("descriptors differ when {what}: {d}");
        }
        if hit {
            c.nontrivial();
            c.label(match &a.trouble {
                Trouble::Mine { nr, .. } => format!("{} fails", call_name(*nr)),
                Trouble::Born { nr, .. } => format!("{} of the newborn", call_name(*nr)),
                Trouble::Kid { .. } => "early end of the child".into(),
                t => format!("{t:?}").split('(').next().unwrap().into(),
            });
            c.label(what);
        }
    }
    Ok(())
}
