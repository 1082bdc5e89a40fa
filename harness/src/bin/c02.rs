use vh::run::*;
mod c02 {
    #![allow(dead_code)]
    include!("../props/c02.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C02", f: c02::case }]);
}
