use vh::run::*;
mod c17 {
    #![allow(dead_code)]
    include!("../props/c17.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C17", f: c17::case_inproc }]);
}
