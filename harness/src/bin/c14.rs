use vh::run::*;
mod c03 {
    #![allow(dead_code)]
    include!("../props/c03.rs");
}
mod c05 {
    #![allow(dead_code)]
    include!("../props/c05.rs");
}
mod c06 {
    #![allow(dead_code)]
    include!("../props/c06.rs");
}
mod c07 {
    #![allow(dead_code)]
    include!("../props/c07.rs");
}
mod c08 {
    #![allow(dead_code)]
    include!("../props/c08.rs");
}
mod c13 {
    #![allow(dead_code)]
    include!("../props/c13.rs");
}
mod c17 {
    #![allow(dead_code)]
    include!("../props/c17.rs");
}
mod c14 {
    #![allow(dead_code)]
    include!("../props/c14.rs");
}
fn main() {
    crossmist::init();
    vh::flav::warm_up();
    c14::handlers();
    vh::fault::install(&c14::CALLS);
    worker_main(&[Prop { name: "C14", f: c14::case }]);
}
