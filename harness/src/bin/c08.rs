use vh::run::*;
mod c08 {
    #![allow(dead_code)]
    include!("../props/c08.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C08", f: c08::case }]);
}
