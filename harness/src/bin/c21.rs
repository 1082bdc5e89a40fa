use vh::run::*;
mod c21 {
    #![allow(dead_code)]
    include!("../props/c21.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    // Children that abort leave no core files
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }) };
    vh::fault::install(&c21::CALLS);
    worker_main(&[Prop { name: "C21", f: c21::case }]);
}
