use vh::run::*;
mod c04k {
    #![allow(dead_code)]
    include!("../props/c04k.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    vh::fault::install(&[libc::SYS_sendmsg]);
    worker_main(&[Prop { name: "C04", f: c04k::case }]);
}
