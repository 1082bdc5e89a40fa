use vh::run::*;
mod c09 {
    #![allow(dead_code)]
    include!("../props/c09.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    vh::fault::install(&[libc::SYS_kill, libc::SYS_tkill, libc::SYS_tgkill, libc::SYS_rt_sigqueueinfo]);
    worker_main(&[Prop { name: "C09", f: c09::case }]);
}
