use vh::run::*;
mod c11 {
    #![allow(dead_code, unused_imports)]
    include!("../props/c11.rs");
    include!("../props/c11_table0.rs");
    pub fn case(c: &mut Ctx) -> Res {
        run(CASES, c)
    }
}
fn main() {
    crossmist::init();
    worker_main(&[Prop { name: "C11", f: c11::case }]);
}
