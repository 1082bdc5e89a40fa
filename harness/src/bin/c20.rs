use vh::run::*;
mod c20 {
    #![allow(dead_code)]
    include!("../props/c20.rs");
}
fn main() {
    crossmist::init();
    // Orphans become children of this process, and are waited for
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C20", f: c20::case }]);
}
