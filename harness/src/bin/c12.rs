use vh::run::*;
mod c12 {
    #![allow(dead_code)]
    include!("../props/c12.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C12", f: c12::case }]);
}
