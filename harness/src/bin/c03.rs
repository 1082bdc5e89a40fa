use vh::run::*;
mod c03 {
    #![allow(dead_code)]
    include!("../props/c03.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    worker_main(&[Prop { name: "C03", f: c03::case }]);
}
