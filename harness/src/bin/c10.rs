use vh::run::*;
mod c10 {
    #![allow(dead_code)]
    include!("../props/c10.rs");
}
fn main() {
    c10::exec_modes();
    crossmist::init();
    // Orphans become children of this process, and are waited for
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
    // Whatever was inherited is none of the library's business
    for fd in vh::util::open_fds().into_keys().filter(|fd| *fd > 2) {
        unsafe { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC) };
    }
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C10", f: c10::case }]);
}
