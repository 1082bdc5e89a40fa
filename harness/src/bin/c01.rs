use vh::run::*;
mod c01 {
    #![allow(dead_code)]
    include!("../props/c01.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C01", f: c01::case }]);
}
