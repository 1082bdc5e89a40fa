//! Helpers about processes and descriptors.

use std::collections::BTreeMap;
use std::os::fd::{AsRawFd, BorrowedFd, RawFd};

/// Identity of the open file behind a descriptor.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FileId {
    pub dev: u64,
    pub ino: u64,
}
pub fn file_id(fd: RawFd) -> Option<FileId> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat(fd, &mut st) } != 0 {
        return None;
    }
    Some(FileId { dev: st.st_dev as u64, ino: st.st_ino as u64 })
}
/// All open descriptors of this process (without the one used for listing).
pub fn open_fds() -> BTreeMap<RawFd, FileId> {
    let mut v = BTreeMap::new();
    let dir = unsafe { libc::opendir(c"/proc/self/fd".as_ptr()) };
    assert!(!dir.is_null(), "HARNESS opendir /proc/self/fd");
    let own = unsafe { libc::dirfd(dir) };
    loop {
        let e = unsafe { libc::readdir(dir) };
        if e.is_null() {
            break;
        }
        let name = unsafe { std::ffi::CStr::from_ptr((*e).d_name.as_ptr()) };
        if let Ok(fd) = name.to_str().unwrap_or("").parse::<RawFd>() {
            if fd != own {
                if let Some(id) = file_id(fd) {
                    v.insert(fd, id);
                }
            }
        }
    }
    unsafe { libc::closedir(dir) };
    v
}
pub fn describe_fd(fd: RawFd) -> String {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).map(|p| p.display().to_string()).unwrap_or_else(|e| e.to_string())
}
pub fn is_cloexec(fd: RawFd) -> bool {
    let f = unsafe { libc::fcntl(fd, libc::F_GETFD) };
    f >= 0 && f & libc::FD_CLOEXEC != 0
}
/// Is something (data or end of stream) immediately available for reading?
pub fn readable_now(fd: RawFd) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::poll(&mut p, 1, 0) > 0 }
}
pub fn set_sndbuf(fd: &impl AsRawFd, n: i32) {
    unsafe {
        libc::setsockopt(fd.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const i32 as *const _, 4);
    }
}
pub fn memfd() -> std::fs::File {
    use std::os::fd::FromRawFd;
    let fd = unsafe { libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "HARNESS memfd_create {}", std::io::Error::last_os_error());
    unsafe { std::fs::File::from_raw_fd(fd) }
}
/// State of a process, from /proc. None: it does not exist (or is not visible any more).
pub fn proc_state(pid: i32) -> Option<char> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    s.rsplit(')').next()?.trim().chars().next()
}
/// Is `pid` still a child of ours that can be waited for? (Does not reap it.)
pub fn is_waitable_child(pid: i32) -> bool {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::waitid(libc::P_PID, pid as u32, &mut info, libc::WEXITED | libc::WNOHANG | libc::WNOWAIT) };
    r == 0
}
/// Do we have any child at all?
pub fn any_child() -> bool {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WNOHANG | libc::WNOWAIT) };
    r == 0
}
/// Wait without reaping until the child has ended (is a zombie).
pub fn wait_ended(pid: i32) {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    loop {
        let r = unsafe { libc::waitid(libc::P_PID, pid as u32, &mut info, libc::WEXITED | libc::WNOWAIT) };
        if r == 0 || std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return;
        }
    }
}
pub fn borrow(fd: RawFd) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
/// Difference of two descriptor tables, for messages.
pub fn fd_diff(before: &BTreeMap<RawFd, FileId>, after: &BTreeMap<RawFd, FileId>) -> Option<String> {
    let mut out = Vec::new();
    for (fd, id) in after {
        match before.get(fd) {
            None => out.push(format!("new fd {fd} -> {}", describe_fd(*fd))),
            Some(i) if i != id => out.push(format!("fd {fd} changed, now {}", describe_fd(*fd))),
            _ => {}
        }
    }
    for fd in before.keys() {
        if !after.contains_key(fd) {
            out.push(format!("fd {fd} is gone"));
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join(", "))
    }
}
/// Bytes of data waiting to be received.
pub fn queued_bytes(fd: RawFd) -> usize {
    let mut n: libc::c_int = 0;
    let r = unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
    assert!(r == 0, "HARNESS FIONREAD {}", std::io::Error::last_os_error());
    n as usize
}
pub fn set_nofile(n: u64) -> u64 {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        assert!(libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0, "HARNESS getrlimit");
        let old = l.rlim_cur;
        l.rlim_cur = n;
        assert!(libc::setrlimit(libc::RLIMIT_NOFILE, &l) == 0, "HARNESS setrlimit {n}");
        old
    }
}
/// The value of RLIMIT_NOFILE with which exactly k descriptors can be opened.
pub fn nofile_for(k: usize) -> u64 {
    let used = open_fds();
    let mut free = 0;
    let mut n: RawFd = 0;
    loop {
        if !used.contains_key(&n) {
            if free == k {
                return n as u64;
            }
            free += 1;
        }
        n += 1;
    }
}

/// Like fd_diff with the current table, but lets helper threads finish releasing what they share.
pub fn fd_settled(before: &BTreeMap<RawFd, FileId>) -> Option<String> {
    for i in 0.. {
        let d = fd_diff(before, &open_fds())?;
        if i == 1500 {
            return Some(d);
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    unreachable!()
}
/// A forked process; Drop kills and reaps it.
pub struct Forked(pub i32);
impl Forked {
    /// None in the child, which must not depend on other threads, and must end with `finish`.
    pub fn fork() -> Option<Forked> {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "HARNESS fork {}", std::io::Error::last_os_error());
        if pid == 0 {
            None
        } else {
            Some(Forked(pid))
        }
    }
    pub fn finish(f: impl FnOnce() -> i32) -> ! {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(101);
        unsafe { libc::_exit(r) }
    }
    pub fn wait(mut self) -> i32 {
        self.reap()
    }
    fn reap(&mut self) -> i32 {
        let mut st = 0;
        if self.0 > 0 {
            while unsafe { libc::waitpid(self.0, &mut st, 0) } < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
            self.0 = 0;
        }
        st
    }
}
impl Drop for Forked {
    fn drop(&mut self) {
        if self.0 > 0 {
            unsafe { libc::kill(self.0, libc::SIGKILL) };
        }
        self.reap();
    }
}
