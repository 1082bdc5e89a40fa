use vh::run::*;
mod c15 {
    #![allow(dead_code)]
    include!("../props/c15.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C15", f: c15::case }]);
}
