use vh::run::*;
mod c16 {
    #![allow(dead_code)]
    include!("../props/c16.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C16", f: c16::case }]);
}
