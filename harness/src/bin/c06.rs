use vh::run::*;
mod c06 {
    #![allow(dead_code)]
    include!("../props/c06.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C06", f: c06::case }]);
}
