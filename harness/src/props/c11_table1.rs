// Generated by gen/c11.py; do not edit.

fn plain1(p0: [u16; 3], p1: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[crossmist::func]
fn func1(p0: [u16; 3], p1: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case1(c: &mut Ctx) -> Res {
    c.note(|| "func fn [[u16; 3]] (Option<NonZeroU16>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &([u16; 3], )| { let f = func1; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ([u16; 3], ), a: (Option<NonZeroU16>, )| plain1(c.0, a.0) })
}

fn plain5(p0: char, p1: &u64, p2: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func5(p0: char, p1: &u64, p2: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case5(c: &mut Ctx) -> Res {
    c.note(|| "func fn [char, &u64, [u16; 3]] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(char, u64, [u16; 3], )| { let f = func5; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (char, u64, [u16; 3], ), a: ()| plain5(c.0, &c.1, c.2) })
}

fn plain9() -> u64 { let mut h = 7u64; h }
#[crossmist::func]
fn func9() -> u64 { let mut h = 7u64; h }
#[allow(unused_variables, clippy::all)]
fn case9(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &()| { let f = func9; Ok(f) }, model: |c: &mut (), a: ()| plain9() })
}

fn plain13(p0: i128, p1: (), p2: PodS, p3: Option<String>, p4: (u8, u32), p5: String, p6: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[crossmist::func]
fn func13(p0: i128, p1: (), p2: PodS, p3: Option<String>, p4: (u8, u32), p5: String, p6: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[allow(unused_variables, clippy::all)]
fn case13(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (i128, (), PodS, Option<String>, (u8, u32), String, Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func13; Ok(f) }, model: |c: &mut (), a: (i128, (), PodS, Option<String>, (u8, u32), String, Box<u64>, )| plain13(a.0, a.1, a.2, a.3, a.4, a.5, a.6) })
}

fn plain17(p0: &i32, p1: &(u8, u32), p2: PodS, p3: Option<NonZeroU16>, p4: &BTreeMap<u8, String>, p5: bool, p6: i32, p7: &String, p8: [u16; 3], p9: bool, p10: String, p11: String, p12: i128, p13: Mixed, p14: (String, u8), p15: PodE, p16: Mixed, p17: PodS, p18: bool, p19: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[crossmist::func]
fn func17(p0: &i32, p1: &(u8, u32), p2: PodS, p3: Option<NonZeroU16>, p4: &BTreeMap<u8, String>, p5: bool, p6: i32, p7: &String, p8: [u16; 3], p9: bool, p10: String, p11: String, p12: i128, p13: Mixed, p14: (String, u8), p15: PodE, p16: Mixed, p17: PodS, p18: bool, p19: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case17(c: &mut Ctx) -> Res {
    c.note(|| "func fn [&i32, &(u8, u32), PodS, Option<NonZeroU16>, &BTreeMap<u8, String>, bool, i32, &String, [u16; 3], bool] (String, String, i128, Mixed, (String, u8), PodE, Mixed, PodS, bool, i32)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(i32, (u8, u32), PodS, Option<NonZeroU16>, BTreeMap<u8, String>, bool, i32, String, [u16; 3], bool, )| { let f = func17; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_value(c.6.clone()); let f = again(x, f)?; let f = f.bind_ref(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_value(c.9.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (i32, (u8, u32), PodS, Option<NonZeroU16>, BTreeMap<u8, String>, bool, i32, String, [u16; 3], bool, ), a: (String, String, i128, Mixed, (String, u8), PodE, Mixed, PodS, bool, i32, )| plain17(&c.0, &c.1, c.2, c.3, &c.4, c.5, c.6, &c.7, c.8, c.9, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9) })
}

fn plain21(p0: String, p1: Vec<String>, p2: [u16; 3], p3: Option<String>, p4: i128, p5: Rc<u32>, p6: (u8, u32), p7: i128, p8: Box<u64>, p9: PodS, p10: BTreeMap<u8, String>, p11: BTreeMap<u8, String>, p12: Box<u64>, p13: Option<String>, p14: Zst, p15: Rc<u32>, p16: PodS, p17: (String, u8), p18: Option<String>, p19: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[crossmist::func]
fn func21(p0: String, p1: Vec<String>, p2: [u16; 3], p3: Option<String>, p4: i128, p5: Rc<u32>, p6: (u8, u32), p7: i128, p8: Box<u64>, p9: PodS, p10: BTreeMap<u8, String>, p11: BTreeMap<u8, String>, p12: Box<u64>, p13: Option<String>, p14: Zst, p15: Rc<u32>, p16: PodS, p17: (String, u8), p18: Option<String>, p19: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case21(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (String, Vec<String>, [u16; 3], Option<String>, i128, Rc<u32>, (u8, u32), i128, Box<u64>, PodS, BTreeMap<u8, String>, BTreeMap<u8, String>, Box<u64>, Option<String>, Zst, Rc<u32>, PodS, (String, u8), Option<String>, Option<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func21; Ok(f) }, model: |c: &mut (), a: (String, Vec<String>, [u16; 3], Option<String>, i128, Rc<u32>, (u8, u32), i128, Box<u64>, PodS, BTreeMap<u8, String>, BTreeMap<u8, String>, Box<u64>, Option<String>, Zst, Rc<u32>, PodS, (String, u8), Option<String>, Option<String>, )| plain21(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18, a.19) })
}

fn plain25(p0: &mut Box<u64>, p1: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func25(p0: &mut Box<u64>, p1: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case25(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut Box<u64>] (Rc<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Box<u64>, )| { let f = func25; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Box<u64>, ), a: (Rc<u32>, )| plain25(&mut c.0, a.0) })
}

fn plain29(p0: &mut Vec<u32>, p1: i32, p2: &mut u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); p2.evolve(h.rotate_left(2)); tick(); h }
#[crossmist::func]
fn func29(p0: &mut Vec<u32>, p1: i32, p2: &mut u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); p2.evolve(h.rotate_left(2)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case29(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut Vec<u32>, i32, &mut u64] ()".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Vec<u32>, i32, u64, )| { let f = func29; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_mut(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Vec<u32>, i32, u64, ), a: ()| plain29(&mut c.0, c.1, &mut c.2) })
}

fn plain33(p0: &mut u8, p1: &bool, p2: &BTreeMap<u8, String>, p3: &mut Vec<u32>, p4: &Option<String>, p5: [u16; 3], p6: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); p0.evolve(h.rotate_left(0)); tick(); p3.evolve(h.rotate_left(3)); tick(); h }
#[crossmist::func]
fn func33(p0: &mut u8, p1: &bool, p2: &BTreeMap<u8, String>, p3: &mut Vec<u32>, p4: &Option<String>, p5: [u16; 3], p6: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); p0.evolve(h.rotate_left(0)); tick(); p3.evolve(h.rotate_left(3)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case33(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut u8, &bool, &BTreeMap<u8, String>, &mut Vec<u32>, &Option<String>, [u16; 3]] (u8)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u8, bool, BTreeMap<u8, String>, Vec<u32>, Option<String>, [u16; 3], )| { let f = func33; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_mut(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u8, bool, BTreeMap<u8, String>, Vec<u32>, Option<String>, [u16; 3], ), a: (u8, )| plain33(&mut c.0, &c.1, &c.2, &mut c.3, &c.4, c.5, a.0) })
}

fn plain37(p0: &mut (u8, u32), p1: bool, p2: [u16; 3], p3: (String, u8), p4: bool, p5: Mixed, p6: Vec<u32>, p7: PodS, p8: Vec<u32>, p9: Mixed, p10: char, p11: PodE, p12: (String, u8), p13: Box<u64>, p14: (u8, u32), p15: Mixed, p16: BTreeMap<u8, String>, p17: PodS, p18: (u8, u32), p19: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func37(p0: &mut (u8, u32), p1: bool, p2: [u16; 3], p3: (String, u8), p4: bool, p5: Mixed, p6: Vec<u32>, p7: PodS, p8: Vec<u32>, p9: Mixed, p10: char, p11: PodE, p12: (String, u8), p13: Box<u64>, p14: (u8, u32), p15: Mixed, p16: BTreeMap<u8, String>, p17: PodS, p18: (u8, u32), p19: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case37(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut (u8, u32)] (bool, [u16; 3], (String, u8), bool, Mixed, Vec<u32>, PodS, Vec<u32>, Mixed, char, PodE, (String, u8), Box<u64>, (u8, u32), Mixed, BTreeMap<u8, String>, PodS, (u8, u32), String)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((u8, u32), )| { let f = func37; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((u8, u32), ), a: (bool, [u16; 3], (String, u8), bool, Mixed, Vec<u32>, PodS, Vec<u32>, Mixed, char, PodE, (String, u8), Box<u64>, (u8, u32), Mixed, BTreeMap<u8, String>, PodS, (u8, u32), String, )| plain37(&mut c.0, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18) })
}

fn plain41(p0: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[crossmist::func]
fn func41(p0: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case41(c: &mut Ctx) -> Res {
    c.note(|| "func once [String] ()".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(String, )| { let f = func41; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (String, ), a: ()| plain41(c.0.clone()) })
}

fn plain45(p0: &u8, p1: BTreeMap<u8, String>, p2: i128, p3: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h }
#[crossmist::func]
fn func45(p0: &u8, p1: BTreeMap<u8, String>, p2: i128, p3: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h }
#[allow(unused_variables, clippy::all)]
fn case45(c: &mut Ctx) -> Res {
    c.note(|| "func once [&u8, BTreeMap<u8, String>] (i128, Mixed)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u8, BTreeMap<u8, String>, )| { let f = func45; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u8, BTreeMap<u8, String>, ), a: (i128, Mixed, )| plain45(&c.0, c.1.clone(), a.0, a.1) })
}

fn plain49(p0: BTreeMap<u8, String>, p1: Rc<u32>, p2: PodS, p3: i32, p4: Vec<String>, p5: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[crossmist::func]
fn func49(p0: BTreeMap<u8, String>, p1: Rc<u32>, p2: PodS, p3: i32, p4: Vec<String>, p5: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case49(c: &mut Ctx) -> Res {
    c.note(|| "func once [BTreeMap<u8, String>] (Rc<u32>, PodS, i32, Vec<String>, Mixed)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, )| { let f = func49; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (BTreeMap<u8, String>, ), a: (Rc<u32>, PodS, i32, Vec<String>, Mixed, )| plain49(c.0.clone(), a.0, a.1, a.2, a.3, a.4) })
}

fn plain53(p0: u64, p1: &mut Vec<u32>, p2: &Zst, p3: &[u16; 3], p4: &Rc<u32>, p5: BTreeMap<u8, String>, p6: Box<u64>, p7: String, p8: PodS, p9: String, p10: Box<u64>, p11: [u16; 3], p12: Mixed, p13: char, p14: String, p15: Option<NonZeroU16>, p16: Mixed, p17: Box<u64>, p18: (), p19: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func53(p0: u64, p1: &mut Vec<u32>, p2: &Zst, p3: &[u16; 3], p4: &Rc<u32>, p5: BTreeMap<u8, String>, p6: Box<u64>, p7: String, p8: PodS, p9: String, p10: Box<u64>, p11: [u16; 3], p12: Mixed, p13: char, p14: String, p15: Option<NonZeroU16>, p16: Mixed, p17: Box<u64>, p18: (), p19: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case53(c: &mut Ctx) -> Res {
    c.note(|| "func once [u64, &mut Vec<u32>, &Zst, &[u16; 3], &Rc<u32>, BTreeMap<u8, String>, Box<u64>, String, PodS, String] (Box<u64>, [u16; 3], Mixed, char, String, Option<NonZeroU16>, Mixed, Box<u64>, (), String)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, Vec<u32>, Zst, [u16; 3], Rc<u32>, BTreeMap<u8, String>, Box<u64>, String, PodS, String, )| { let f = func53; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_value(c.6.clone()); let f = again(x, f)?; let f = f.bind_value(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_value(c.9.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, Vec<u32>, Zst, [u16; 3], Rc<u32>, BTreeMap<u8, String>, Box<u64>, String, PodS, String, ), a: (Box<u64>, [u16; 3], Mixed, char, String, Option<NonZeroU16>, Mixed, Box<u64>, (), String, )| plain53(c.0, &mut c.1, &c.2, &c.3, &c.4, c.5.clone(), c.6.clone(), c.7.clone(), c.8, c.9.clone(), a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9) })
}

fn plain57(p0: Vec<u32>, p1: i32, p2: Box<u64>, p3: &i32, p4: char, p5: [u16; 3], p6: Rc<u32>, p7: Mixed, p8: char, p9: &mut Box<u64>, p10: Vec<String>, p11: PodE, p12: &Vec<u32>, p13: Option<NonZeroU16>, p14: Box<u64>, p15: Mixed, p16: char, p17: char, p18: &mut String, p19: &mut Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p9.evolve(h.rotate_left(9)); tick(); p18.evolve(h.rotate_left(18)); tick(); p19.evolve(h.rotate_left(19)); tick(); h }
#[crossmist::func]
fn func57(p0: Vec<u32>, p1: i32, p2: Box<u64>, p3: &i32, p4: char, p5: [u16; 3], p6: Rc<u32>, p7: Mixed, p8: char, p9: &mut Box<u64>, p10: Vec<String>, p11: PodE, p12: &Vec<u32>, p13: Option<NonZeroU16>, p14: Box<u64>, p15: Mixed, p16: char, p17: char, p18: &mut String, p19: &mut Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p9.evolve(h.rotate_left(9)); tick(); p18.evolve(h.rotate_left(18)); tick(); p19.evolve(h.rotate_left(19)); tick(); h }
#[allow(unused_variables, unused_mut, clippy::all)]
fn case57(c: &mut Ctx) -> Res {
    c.note(|| "func once [Vec<u32>, i32, Box<u64>, &i32, char, [u16; 3], Rc<u32>, Mixed, char, &mut Box<u64>, Vec<String>, PodE, &Vec<u32>, Option<NonZeroU16>, Box<u64>, Mixed, char, char, &mut String, &mut Vec<u32>] ()".to_string());
    c.nontrivial();
    let (genc, gena, model) = (|s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), |s: &mut Src| (), |c: &mut (Vec<u32>, i32, Box<u64>, i32, char, [u16; 3], Rc<u32>, Mixed, char, Box<u64>, Vec<String>, PodE, Vec<u32>, Option<NonZeroU16>, Box<u64>, Mixed, char, char, String, Vec<u32>, ), a: ()| plain57(c.0.clone(), c.1, c.2.clone(), &c.3, c.4, c.5, c.6.clone(), c.7.clone(), c.8, &mut c.9, c.10.clone(), c.11, &c.12, c.13, c.14.clone(), c.15.clone(), c.16, c.17, &mut c.18, &mut c.19));
    let mut caps: (Vec<u32>, i32, Box<u64>, i32, char, [u16; 3], Rc<u32>, Mixed, char, Box<u64>, Vec<String>, PodE, Vec<u32>, Option<NonZeroU16>, Box<u64>, Mixed, char, char, String, Vec<u32>, ) = genc(&mut c.s);
    let mut f = (|x: &mut Ctx, c: &(Vec<u32>, i32, Box<u64>, i32, char, [u16; 3], Rc<u32>, Mixed, char, Box<u64>, Vec<String>, PodE, Vec<u32>, Option<NonZeroU16>, Box<u64>, Mixed, char, char, String, Vec<u32>, )| -> Result<_, Fail> { let f = func57; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_value(c.6.clone()); let f = again(x, f)?; let f = f.bind_value(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_mut(c.9.clone()); let f = again(x, f)?; let f = f.bind_value(c.10.clone()); let f = again(x, f)?; let f = f.bind_value(c.11.clone()); let f = again(x, f)?; let f = f.bind_ref(c.12.clone()); let f = again(x, f)?; let f = f.bind_value(c.13.clone()); let f = again(x, f)?; let f = f.bind_value(c.14.clone()); let f = again(x, f)?; let f = f.bind_value(c.15.clone()); let f = again(x, f)?; let f = f.bind_value(c.16.clone()); let f = again(x, f)?; let f = f.bind_value(c.17.clone()); let f = again(x, f)?; let f = f.bind_mut(c.18.clone()); let f = again(x, f)?; let f = f.bind_mut(c.19.clone()); let f = again(x, f)?; Ok(f) })(c, &caps)?;
    f = again(c, f)?;
    
    let a = gena(&mut c.s);
    let got = if c.s.flip() { f.call_object_once(a.clone()) } else { Box::new(f).call_object_box(a.clone()) };
    check(c, got, model(&mut caps, a))
}

fn plain61(p0: PodS, p1: [u16; 3], p2: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case61(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [PodS] ([u16; 3], Vec<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(PodS, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: PodS) |p1: [u16; 3], p2: Vec<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut (PodS, ), a: ([u16; 3], Vec<String>, )| plain61(c.0, a.0, a.1) })
}

fn plain65(p0: char, p1: PodE, p2: &char, p3: &PodS, p4: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case65(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [char, PodE, &char, &PodS] (bool)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(char, PodE, char, PodS, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); Ok(*crossmist::lambda! { move(p0: char, p1: PodE, &p2: &char, &p3: &PodS) |p4: bool| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h } }) }, model: |c: &mut (char, PodE, char, PodS, ), a: (bool, )| plain65(c.0, c.1, &c.2, &c.3, a.0) })
}

fn plain69(p0: Rc<u32>, p1: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case69(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [] (Rc<u32>, Vec<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { Ok(*crossmist::lambda! { |p0: Rc<u32>, p1: Vec<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h } }) }, model: |c: &mut (), a: (Rc<u32>, Vec<String>, )| plain69(a.0, a.1) })
}

fn plain73(p0: &Rc<u32>, p1: char, p2: PodS, p3: [u16; 3], p4: &PodS, p5: &BTreeMap<u8, String>, p6: PodS, p7: u8, p8: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); h }
#[allow(unused_variables, clippy::all)]
fn case73(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&Rc<u32>, char, PodS, [u16; 3], &PodS, &BTreeMap<u8, String>] (PodS, u8, Mixed)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Rc<u32>, char, PodS, [u16; 3], PodS, BTreeMap<u8, String>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); Ok(*crossmist::lambda! { move(&p0: &Rc<u32>, p1: char, p2: PodS, p3: [u16; 3], &p4: &PodS, &p5: &BTreeMap<u8, String>) |p6: PodS, p7: u8, p8: Mixed| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); h } }) }, model: |c: &mut (Rc<u32>, char, PodS, [u16; 3], PodS, BTreeMap<u8, String>, ), a: (PodS, u8, Mixed, )| plain73(&c.0, c.1, c.2, c.3, &c.4, &c.5, a.0, a.1, a.2) })
}

fn plain77(p0: &mut Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case77(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut Box<u64>] ()".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Box<u64>, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut Box<u64>) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut (Box<u64>, ), a: ()| plain77(&mut c.0) })
}

fn plain81(p0: &mut (u8, u32), p1: &i128, p2: [u16; 3], p3: Zst) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case81(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut (u8, u32), &i128] ([u16; 3], Zst)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((u8, u32), i128, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut (u8, u32), &p1: &i128) |p2: [u16; 3], p3: Zst| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut ((u8, u32), i128, ), a: ([u16; 3], Zst, )| plain81(&mut c.0, &c.1, a.0, a.1) })
}

fn plain85(p0: &mut (u8, u32), p1: Option<String>, p2: Option<String>, p3: (String, u8), p4: i32, p5: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case85(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut (u8, u32)] (Option<String>, Option<String>, (String, u8), i32, Option<String>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((u8, u32), )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut (u8, u32)) |p1: Option<String>, p2: Option<String>, p3: (String, u8), p4: i32, p5: Option<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut ((u8, u32), ), a: (Option<String>, Option<String>, (String, u8), i32, Option<String>, )| plain85(&mut c.0, a.0, a.1, a.2, a.3, a.4) })
}

fn plain89(p0: &(), p1: &mut Option<String>, p2: &Zst, p3: u64, p4: Option<NonZeroU16>, p5: [u16; 3], p6: PodS, p7: Option<String>, p8: Option<String>, p9: PodS, p10: Rc<u32>, p11: Option<String>, p12: char, p13: Rc<u32>, p14: Vec<u32>, p15: u64, p16: char, p17: u8, p18: Box<u64>, p19: (String, u8)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case89(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&(), &mut Option<String>, &Zst, u64, Option<NonZeroU16>] ([u16; 3], PodS, Option<String>, Option<String>, PodS, Rc<u32>, Option<String>, char, Rc<u32>, Vec<u32>, u64, char, u8, Box<u64>, (String, u8))".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((), Option<String>, Zst, u64, Option<NonZeroU16>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); Ok(*crossmist::lambda! { move(&p0: &(), &mut p1: &mut Option<String>, &p2: &Zst, p3: u64, p4: Option<NonZeroU16>) |p5: [u16; 3], p6: PodS, p7: Option<String>, p8: Option<String>, p9: PodS, p10: Rc<u32>, p11: Option<String>, p12: char, p13: Rc<u32>, p14: Vec<u32>, p15: u64, p16: char, p17: u8, p18: Box<u64>, p19: (String, u8)| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut ((), Option<String>, Zst, u64, Option<NonZeroU16>, ), a: ([u16; 3], PodS, Option<String>, Option<String>, PodS, Rc<u32>, Option<String>, char, Rc<u32>, Vec<u32>, u64, char, u8, Box<u64>, (String, u8), )| plain89(&c.0, &mut c.1, &c.2, c.3, c.4, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14) })
}

fn plain93(p0: Vec<String>, p1: Option<NonZeroU16>, p2: u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case93(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [Vec<String>] (Option<NonZeroU16>, u64)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Vec<String>, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: Vec<String>) |p1: Option<NonZeroU16>, p2: u64| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut (Vec<String>, ), a: (Option<NonZeroU16>, u64, )| plain93(c.0.clone(), a.0, a.1) })
}

fn plain97(p0: BTreeMap<u8, String>, p1: &String, p2: bool, p3: &Mixed, p4: ()) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case97(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [BTreeMap<u8, String>, &String, bool, &Mixed] (())".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, String, bool, Mixed, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); Ok(*crossmist::lambda! { move(p0: BTreeMap<u8, String>, &p1: &String, p2: bool, &p3: &Mixed) |p4: ()| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h } }) }, model: |c: &mut (BTreeMap<u8, String>, String, bool, Mixed, ), a: ((), )| plain97(c.0.clone(), &c.1, c.2, &c.3, a.0) })
}

fn plain101(p0: &mut Vec<String>, p1: Rc<u32>, p2: &Option<NonZeroU16>, p3: &mut BTreeMap<u8, String>, p4: &mut Vec<u32>, p5: BTreeMap<u8, String>, p6: Mixed, p7: u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p0.evolve(h.rotate_left(0)); tick(); p3.evolve(h.rotate_left(3)); tick(); p4.evolve(h.rotate_left(4)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case101(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [&mut Vec<String>, Rc<u32>, &Option<NonZeroU16>, &mut BTreeMap<u8, String>, &mut Vec<u32>] (BTreeMap<u8, String>, Mixed, u64)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Vec<String>, Rc<u32>, Option<NonZeroU16>, BTreeMap<u8, String>, Vec<u32>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut Vec<String>, p1: Rc<u32>, &p2: &Option<NonZeroU16>, &mut p3: &mut BTreeMap<u8, String>, &mut p4: &mut Vec<u32>) |p5: BTreeMap<u8, String>, p6: Mixed, p7: u64| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p0.evolve(h.rotate_left(0)); tick(); p3.evolve(h.rotate_left(3)); tick(); p4.evolve(h.rotate_left(4)); tick(); h } }) }, model: |c: &mut (Vec<String>, Rc<u32>, Option<NonZeroU16>, BTreeMap<u8, String>, Vec<u32>, ), a: (BTreeMap<u8, String>, Mixed, u64, )| plain101(&mut c.0, c.1.clone(), &c.2, &mut c.3, &mut c.4, a.0, a.1, a.2) })
}

fn plain105(p0: PodS, p1: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case105(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (PodS, Vec<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(PodS, Vec<u32>) -> u64>::new(plain105) }; Ok(f) }, model: |c: &mut (), a: (PodS, Vec<u32>, )| plain105(a.0, a.1) })
}

fn plain109(p0: Box<u64>, p1: (), p2: Rc<u32>, p3: String, p4: (), p5: Vec<String>, p6: PodS, p7: String, p8: PodE, p9: Mixed, p10: i128, p11: Vec<u32>, p12: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); h }
#[allow(unused_variables, clippy::all)]
fn case109(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (Box<u64>, (), Rc<u32>, String, (), Vec<String>, PodS, String, PodE, Mixed, i128, Vec<u32>, Option<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(Box<u64>, (), Rc<u32>, String, (), Vec<String>, PodS, String, PodE, Mixed, i128, Vec<u32>, Option<String>) -> u64>::new(plain109) }; Ok(f) }, model: |c: &mut (), a: (Box<u64>, (), Rc<u32>, String, (), Vec<String>, PodS, String, PodE, Mixed, i128, Vec<u32>, Option<String>, )| plain109(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12) })
}

fn plain113(p0: u64, p1: u8, p2: PodS, p3: char, p4: i128) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case113(c: &mut Ctx) -> Res {
    c.note(|| "static fn [u64, u8] (PodS, char, i128)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, u8, )| { let f = unsafe { StaticFn::<fn(u64, u8, PodS, char, i128) -> u64>::new(plain113) }; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, u8, ), a: (PodS, char, i128, )| plain113(c.0, c.1, a.0, a.1, a.2) })
}

pub const CASES: &[fn(&mut Ctx) -> Res] = &[case1, case5, case9, case13, case17, case21, case25, case29, case33, case37, case41, case45, case49, case53, case57, case61, case65, case69, case73, case77, case81, case85, case89, case93, case97, case101, case105, case109, case113];
