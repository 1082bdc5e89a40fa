use vh::run::*;
mod c05 {
    #![allow(dead_code)]
    include!("../props/c05.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C05", f: c05::case }]);
}
