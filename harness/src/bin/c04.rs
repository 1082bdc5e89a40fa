use vh::run::*;
mod c04 {
    #![allow(dead_code)]
    include!("../props/c04.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C04", f: c04::case }]);
}
