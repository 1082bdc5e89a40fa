use vh::run::*;
mod c13 {
    #![allow(dead_code)]
    include!("../props/c13.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C13", f: c13::case }]);
}
