use vh::run::*;
mod c07 {
    #![allow(dead_code)]
    include!("../props/c07.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C07", f: c07::case }]);
}
