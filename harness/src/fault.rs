//! Interception of system calls of this process and its descendants (seccomp user notifications), for recording,
//! failing, delaying, or ending a process at a chosen system call.

use std::os::fd::RawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Notif {
    pub tid: i32,
    pub nr: i64,
    pub args: [u64; 6],
    /// Made by a thread of this process (and not by a child)
    pub main: bool,
    pub seq: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Continue,
    Errno(i32),
    /// Kill the calling process before the call
    Kill,
    /// Continue after so many microseconds
    Delay(u64),
}
type Handler = Box<dyn FnMut(&Notif) -> Act + Send>;
/// Called when a delay is over, just before the call is let through
type Late = fn(&Notif);
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
static LATE: Mutex<Option<Late>> = Mutex::new(None);
static FD: AtomicI32 = AtomicI32::new(-1);
static SEQ: AtomicU64 = AtomicU64::new(0);
pub static BROKEN: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Fprog {
    len: u16,
    filter: *const Filter,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct RawNotif {
    id: u64,
    pid: u32,
    flags: u32,
    nr: i32,
    arch: u32,
    ip: u64,
    args: [u64; 6],
}
#[repr(C)]
struct RawResp {
    id: u64,
    val: i64,
    error: i32,
    flags: u32,
}
const RECV: u64 = 0xc050_2100;
const SEND: u64 = 0xc018_2101;

/// Intercept the system calls in threads and processes started from now on by this thread (and in it).
/// The interception lasts until the end of the process.
pub fn install(calls: &[i64]) {
    let (tx, rx) = std::sync::mpsc::channel::<RawFd>();
    std::thread::spawn(move || serve(rx.recv().expect("HARNESS listener")));
    let mut prog = vec![Filter { code: 0x20, jt: 0, jf: 0, k: 0 }]; // load nr
    for (i, nr) in calls.iter().enumerate() {
        prog.push(Filter { code: 0x15, jt: (calls.len() - i) as u8, jf: 0, k: *nr as u32 });
    }
    prog.push(Filter { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 }); // allow
    prog.push(Filter { code: 0x06, jt: 0, jf: 0, k: 0x7fc0_0000 }); // notify
    let fp = Fprog { len: prog.len() as u16, filter: prog.as_ptr() };
    unsafe {
        assert!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0, "HARNESS no_new_privs");
        // SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER
        let fd = libc::syscall(libc::SYS_seccomp, 1, 8, &fp as *const Fprog);
        assert!(fd >= 0, "HARNESS seccomp: {}", std::io::Error::last_os_error());
        FD.store(fd as i32, Ordering::SeqCst);
        tx.send(fd as RawFd).expect("HARNESS listener");
    }
}
fn respond(id: u64, error: i32) {
    let r = RawResp { id, val: 0, error: -error, flags: if error == 0 { 1 } else { 0 } };
    // The caller may have been killed
    unsafe { libc::ioctl(FD.load(Ordering::SeqCst), SEND, &r as *const RawResp) };
}
fn serve(fd: RawFd) {
    loop {
        let mut n: RawNotif = unsafe { std::mem::zeroed() };
        if unsafe { libc::ioctl(fd, RECV, &mut n as *mut RawNotif) } != 0 {
            match std::io::Error::last_os_error().raw_os_error() {
                Some(libc::EINTR) | Some(libc::ENOENT) => continue,
                _ => return,
            }
        }
        let x = Notif {
            tid: n.pid as i32,
            nr: n.nr as i64,
            args: n.args,
            main: std::path::Path::new(&format!("/proc/self/task/{}", n.pid)).exists(),
            seq: SEQ.fetch_add(1, Ordering::SeqCst),
        };
        let act = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match HANDLER.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            None => Act::Continue,
            Some(h) => h(&x),
        }))
        .unwrap_or_else(|_| {
            BROKEN.store(1, Ordering::SeqCst);
            Act::Continue
        });
        match act {
            Act::Continue => respond(n.id, 0),
            Act::Errno(e) => respond(n.id, e),
            Act::Kill => {
                unsafe { libc::kill(x.tid, libc::SIGKILL) };
                respond(n.id, libc::EPERM);
            }
            Act::Delay(us) => {
                let late = *LATE.lock().unwrap_or_else(|e| e.into_inner());
                std::thread::spawn(move || {
                    std::thread::sleep(std::time::Duration::from_micros(us));
                    if let Some(f) = late {
                        f(&x);
                    }
                    respond(n.id, 0)
                });
            }
        }
    }
}
pub fn handler(h: impl FnMut(&Notif) -> Act + Send + 'static) {
    *HANDLER.lock().unwrap_or_else(|e| e.into_inner()) = Some(Box::new(h));
}
pub fn late(h: Late) {
    *LATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(h);
}
pub fn clear() {
    *HANDLER.lock().unwrap_or_else(|e| e.into_inner()) = None;
    *LATE.lock().unwrap_or_else(|e| e.into_inner()) = None;
    assert!(BROKEN.load(Ordering::SeqCst) == 0, "HARNESS a handler of system calls panicked");
}
/// The parent of a process and its state, from /proc.
pub fn ppid(pid: i32) -> Option<(i32, char)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let mut it = s.rsplit(')').next()?.split_whitespace();
    let st = it.next()?.chars().next()?;
    Some((it.next()?.parse().ok()?, st))
}
