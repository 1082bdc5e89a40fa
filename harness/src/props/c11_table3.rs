// Generated by gen/c11.py; do not edit.

fn plain3(p0: u64, p1: BTreeMap<u8, String>, p2: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func3(p0: u64, p1: BTreeMap<u8, String>, p2: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case3(c: &mut Ctx) -> Res {
    c.note(|| "func fn [u64] (BTreeMap<u8, String>, String)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, )| { let f = func3; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, ), a: (BTreeMap<u8, String>, String, )| plain3(c.0, a.0, a.1) })
}

fn plain7(p0: u64, p1: [u16; 3], p2: i128, p3: &i32, p4: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[crossmist::func]
fn func7(p0: u64, p1: [u16; 3], p2: i128, p3: &i32, p4: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case7(c: &mut Ctx) -> Res {
    c.note(|| "func fn [u64, [u16; 3], i128, &i32] (Vec<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, [u16; 3], i128, i32, )| { let f = func7; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, [u16; 3], i128, i32, ), a: (Vec<String>, )| plain7(c.0, c.1, c.2, &c.3, a.0) })
}

fn plain11(p0: Zst, p1: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[crossmist::func]
fn func11(p0: Zst, p1: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case11(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (Zst, Vec<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func11; Ok(f) }, model: |c: &mut (), a: (Zst, Vec<u32>, )| plain11(a.0, a.1) })
}

fn plain15(p0: &[u16; 3], p1: PodS, p2: i128, p3: &Mixed, p4: &i32, p5: &u64, p6: &()) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[crossmist::func]
fn func15(p0: &[u16; 3], p1: PodS, p2: i128, p3: &Mixed, p4: &i32, p5: &u64, p6: &()) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[allow(unused_variables, clippy::all)]
fn case15(c: &mut Ctx) -> Res {
    c.note(|| "func fn [&[u16; 3], PodS, i128, &Mixed, &i32, &u64, &()] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &([u16; 3], PodS, i128, Mixed, i32, u64, (), )| { let f = func15; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_ref(c.5.clone()); let f = again(x, f)?; let f = f.bind_ref(c.6.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ([u16; 3], PodS, i128, Mixed, i32, u64, (), ), a: ()| plain15(&c.0, c.1, c.2, &c.3, &c.4, &c.5, &c.6) })
}

fn plain19(p0: u8, p1: char, p2: &i32, p3: &Option<NonZeroU16>, p4: &Vec<u32>, p5: &(u8, u32), p6: &char, p7: Zst, p8: (String, u8), p9: u64, p10: char, p11: u8, p12: Vec<String>, p13: bool, p14: BTreeMap<u8, String>, p15: char, p16: Mixed, p17: i128, p18: (String, u8), p19: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[crossmist::func]
fn func19(p0: u8, p1: char, p2: &i32, p3: &Option<NonZeroU16>, p4: &Vec<u32>, p5: &(u8, u32), p6: &char, p7: Zst, p8: (String, u8), p9: u64, p10: char, p11: u8, p12: Vec<String>, p13: bool, p14: BTreeMap<u8, String>, p15: char, p16: Mixed, p17: i128, p18: (String, u8), p19: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case19(c: &mut Ctx) -> Res {
    c.note(|| "func fn [u8, char, &i32, &Option<NonZeroU16>, &Vec<u32>, &(u8, u32), &char] (Zst, (String, u8), u64, char, u8, Vec<String>, bool, BTreeMap<u8, String>, char, Mixed, i128, (String, u8), u8)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u8, char, i32, Option<NonZeroU16>, Vec<u32>, (u8, u32), char, )| { let f = func19; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_ref(c.5.clone()); let f = again(x, f)?; let f = f.bind_ref(c.6.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u8, char, i32, Option<NonZeroU16>, Vec<u32>, (u8, u32), char, ), a: (Zst, (String, u8), u64, char, u8, Vec<String>, bool, BTreeMap<u8, String>, char, Mixed, i128, (String, u8), u8, )| plain19(c.0, c.1, &c.2, &c.3, &c.4, &c.5, &c.6, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12) })
}

fn plain23(p0: Box<u64>, p1: [u16; 3], p2: Option<NonZeroU16>, p3: String, p4: (String, u8), p5: Mixed, p6: i128, p7: Vec<u32>, p8: Option<String>, p9: Rc<u32>, p10: Vec<u32>, p11: i128, p12: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); h }
#[crossmist::func]
fn func23(p0: Box<u64>, p1: [u16; 3], p2: Option<NonZeroU16>, p3: String, p4: (String, u8), p5: Mixed, p6: i128, p7: Vec<u32>, p8: Option<String>, p9: Rc<u32>, p10: Vec<u32>, p11: i128, p12: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); h }
#[allow(unused_variables, clippy::all)]
fn case23(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (Box<u64>, [u16; 3], Option<NonZeroU16>, String, (String, u8), Mixed, i128, Vec<u32>, Option<String>, Rc<u32>, Vec<u32>, i128, Mixed)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func23; Ok(f) }, model: |c: &mut (), a: (Box<u64>, [u16; 3], Option<NonZeroU16>, String, (String, u8), Mixed, i128, Vec<u32>, Option<String>, Rc<u32>, Vec<u32>, i128, Mixed, )| plain23(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12) })
}

fn plain27(p0: &mut Option<String>, p1: Box<u64>, p2: (String, u8)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func27(p0: &mut Option<String>, p1: Box<u64>, p2: (String, u8)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case27(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut Option<String>] (Box<u64>, (String, u8))".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<String>, )| { let f = func27; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Option<String>, ), a: (Box<u64>, (String, u8), )| plain27(&mut c.0, a.0, a.1) })
}

fn plain31(p0: &mut String, p1: &mut u8, p2: i128, p3: i32, p4: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p0.evolve(h.rotate_left(0)); tick(); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func31(p0: &mut String, p1: &mut u8, p2: i128, p3: i32, p4: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p0.evolve(h.rotate_left(0)); tick(); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case31(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut String, &mut u8, i128, i32] (String)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, u8, i128, i32, )| { let f = func31; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (String, u8, i128, i32, ), a: (String, )| plain31(&mut c.0, &mut c.1, c.2, c.3, a.0) })
}

fn plain35(p0: PodE, p1: &mut String, p2: [u16; 3], p3: &u64, p4: PodS, p5: Option<NonZeroU16>, p6: [u16; 3], p7: u64, p8: Box<u64>, p9: char, p10: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func35(p0: PodE, p1: &mut String, p2: [u16; 3], p3: &u64, p4: PodS, p5: Option<NonZeroU16>, p6: [u16; 3], p7: u64, p8: Box<u64>, p9: char, p10: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case35(c: &mut Ctx) -> Res {
    c.note(|| "func mut [PodE, &mut String, [u16; 3], &u64] (PodS, Option<NonZeroU16>, [u16; 3], u64, Box<u64>, char, Option<String>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(PodE, String, [u16; 3], u64, )| { let f = func35; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (PodE, String, [u16; 3], u64, ), a: (PodS, Option<NonZeroU16>, [u16; 3], u64, Box<u64>, char, Option<String>, )| plain35(c.0, &mut c.1, c.2, &c.3, a.0, a.1, a.2, a.3, a.4, a.5, a.6) })
}

fn plain39(p0: bool, p1: u8, p2: Zst, p3: &i32, p4: PodE, p5: bool, p6: &mut String, p7: &(String, u8), p8: char, p9: u64, p10: &mut BTreeMap<u8, String>, p11: u64, p12: &mut Box<u64>, p13: u8, p14: Zst, p15: BTreeMap<u8, String>, p16: String, p17: Rc<u32>, p18: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); p6.evolve(h.rotate_left(6)); tick(); p10.evolve(h.rotate_left(10)); tick(); p12.evolve(h.rotate_left(12)); tick(); h }
#[crossmist::func]
fn func39(p0: bool, p1: u8, p2: Zst, p3: &i32, p4: PodE, p5: bool, p6: &mut String, p7: &(String, u8), p8: char, p9: u64, p10: &mut BTreeMap<u8, String>, p11: u64, p12: &mut Box<u64>, p13: u8, p14: Zst, p15: BTreeMap<u8, String>, p16: String, p17: Rc<u32>, p18: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); p6.evolve(h.rotate_left(6)); tick(); p10.evolve(h.rotate_left(10)); tick(); p12.evolve(h.rotate_left(12)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case39(c: &mut Ctx) -> Res {
    c.note(|| "func mut [bool, u8, Zst, &i32, PodE, bool, &mut String, &(String, u8), char, u64, &mut BTreeMap<u8, String>, u64, &mut Box<u64>] (u8, Zst, BTreeMap<u8, String>, String, Rc<u32>, Rc<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(bool, u8, Zst, i32, PodE, bool, String, (String, u8), char, u64, BTreeMap<u8, String>, u64, Box<u64>, )| { let f = func39; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_mut(c.6.clone()); let f = again(x, f)?; let f = f.bind_ref(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_value(c.9.clone()); let f = again(x, f)?; let f = f.bind_mut(c.10.clone()); let f = again(x, f)?; let f = f.bind_value(c.11.clone()); let f = again(x, f)?; let f = f.bind_mut(c.12.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (bool, u8, Zst, i32, PodE, bool, String, (String, u8), char, u64, BTreeMap<u8, String>, u64, Box<u64>, ), a: (u8, Zst, BTreeMap<u8, String>, String, Rc<u32>, Rc<u32>, )| plain39(c.0, c.1, c.2, &c.3, c.4, c.5, &mut c.6, &c.7, c.8, c.9, &mut c.10, c.11, &mut c.12, a.0, a.1, a.2, a.3, a.4, a.5) })
}

fn plain43(p0: [u16; 3], p1: BTreeMap<u8, String>, p2: (String, u8)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func43(p0: [u16; 3], p1: BTreeMap<u8, String>, p2: (String, u8)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case43(c: &mut Ctx) -> Res {
    c.note(|| "func once [[u16; 3], BTreeMap<u8, String>] ((String, u8))".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &([u16; 3], BTreeMap<u8, String>, )| { let f = func43; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ([u16; 3], BTreeMap<u8, String>, ), a: ((String, u8), )| plain43(c.0, c.1.clone(), a.0) })
}

fn plain47(p0: u64, p1: &mut Box<u64>, p2: BTreeMap<u8, String>, p3: Option<String>, p4: Rc<u32>, p5: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func47(p0: u64, p1: &mut Box<u64>, p2: BTreeMap<u8, String>, p3: Option<String>, p4: Rc<u32>, p5: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case47(c: &mut Ctx) -> Res {
    c.note(|| "func once [u64, &mut Box<u64>, BTreeMap<u8, String>] (Option<String>, Rc<u32>, Option<NonZeroU16>)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, Box<u64>, BTreeMap<u8, String>, )| { let f = func47; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, Box<u64>, BTreeMap<u8, String>, ), a: (Option<String>, Rc<u32>, Option<NonZeroU16>, )| plain47(c.0, &mut c.1, c.2.clone(), a.0, a.1, a.2) })
}

fn plain51(p0: String, p1: i32, p2: &Rc<u32>, p3: (u8, u32), p4: Mixed, p5: char) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[crossmist::func]
fn func51(p0: String, p1: i32, p2: &Rc<u32>, p3: (u8, u32), p4: Mixed, p5: char) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case51(c: &mut Ctx) -> Res {
    c.note(|| "func once [String, i32, &Rc<u32>, (u8, u32)] (Mixed, char)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, i32, Rc<u32>, (u8, u32), )| { let f = func51; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (String, i32, Rc<u32>, (u8, u32), ), a: (Mixed, char, )| plain51(c.0.clone(), c.1, &c.2, c.3, a.0, a.1) })
}

fn plain55(p0: Vec<u32>, p1: &i128, p2: &PodS, p3: PodS, p4: PodS, p5: &PodE, p6: &mut u64, p7: (u8, u32), p8: u8, p9: Mixed, p10: Box<u64>, p11: Mixed, p12: Vec<u32>, p13: PodE, p14: (), p15: Vec<u32>, p16: bool, p17: String, p18: i128, p19: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p6.evolve(h.rotate_left(6)); tick(); h }
#[crossmist::func]
fn func55(p0: Vec<u32>, p1: &i128, p2: &PodS, p3: PodS, p4: PodS, p5: &PodE, p6: &mut u64, p7: (u8, u32), p8: u8, p9: Mixed, p10: Box<u64>, p11: Mixed, p12: Vec<u32>, p13: PodE, p14: (), p15: Vec<u32>, p16: bool, p17: String, p18: i128, p19: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p6.evolve(h.rotate_left(6)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case55(c: &mut Ctx) -> Res {
    c.note(|| "func once [Vec<u32>, &i128, &PodS, PodS, PodS, &PodE, &mut u64] ((u8, u32), u8, Mixed, Box<u64>, Mixed, Vec<u32>, PodE, (), Vec<u32>, bool, String, i128, PodE)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Vec<u32>, i128, PodS, PodS, PodS, PodE, u64, )| { let f = func55; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; let f = f.bind_ref(c.5.clone()); let f = again(x, f)?; let f = f.bind_mut(c.6.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Vec<u32>, i128, PodS, PodS, PodS, PodE, u64, ), a: ((u8, u32), u8, Mixed, Box<u64>, Mixed, Vec<u32>, PodE, (), Vec<u32>, bool, String, i128, PodE, )| plain55(c.0.clone(), &c.1, &c.2, c.3, c.4, &c.5, &mut c.6, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12) })
}

fn plain59(p0: &PodE, p1: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case59(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&PodE] (String)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(PodE, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&p0: &PodE) |p1: String| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h } }) }, model: |c: &mut (PodE, ), a: (String, )| plain59(&c.0, a.0) })
}

fn plain63(p0: char, p1: Option<NonZeroU16>, p2: &PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case63(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [char, Option<NonZeroU16>, &PodE] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(char, Option<NonZeroU16>, PodE, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(p0: char, p1: Option<NonZeroU16>, &p2: &PodE) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut (char, Option<NonZeroU16>, PodE, ), a: ()| plain63(c.0, c.1, &c.2) })
}

fn plain67() -> u64 { let mut h = 7u64; h }
#[allow(unused_variables, clippy::all)]
fn case67(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &()| { Ok(*crossmist::lambda! { || -> u64 { let mut h = 7u64; h } }) }, model: |c: &mut (), a: ()| plain67() })
}

fn plain71(p0: i32, p1: BTreeMap<u8, String>, p2: Box<u64>, p3: u64, p4: u8, p5: Option<String>, p6: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[allow(unused_variables, clippy::all)]
fn case71(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [] (i32, BTreeMap<u8, String>, Box<u64>, u64, u8, Option<String>, bool)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { Ok(*crossmist::lambda! { |p0: i32, p1: BTreeMap<u8, String>, p2: Box<u64>, p3: u64, p4: u8, p5: Option<String>, p6: bool| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h } }) }, model: |c: &mut (), a: (i32, BTreeMap<u8, String>, Box<u64>, u64, u8, Option<String>, bool, )| plain71(a.0, a.1, a.2, a.3, a.4, a.5, a.6) })
}

fn plain75(p0: &Option<NonZeroU16>, p1: &Box<u64>, p2: &Option<NonZeroU16>, p3: &(), p4: PodE, p5: BTreeMap<u8, String>, p6: Option<NonZeroU16>, p7: PodS, p8: Vec<u32>, p9: PodS, p10: [u16; 3], p11: Box<u64>, p12: (String, u8), p13: (), p14: char, p15: Mixed, p16: (String, u8), p17: Box<u64>, p18: (String, u8), p19: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case75(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&Option<NonZeroU16>, &Box<u64>, &Option<NonZeroU16>, &(), PodE] (BTreeMap<u8, String>, Option<NonZeroU16>, PodS, Vec<u32>, PodS, [u16; 3], Box<u64>, (String, u8), (), char, Mixed, (String, u8), Box<u64>, (String, u8), (u8, u32))".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<NonZeroU16>, Box<u64>, Option<NonZeroU16>, (), PodE, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); Ok(*crossmist::lambda! { move(&p0: &Option<NonZeroU16>, &p1: &Box<u64>, &p2: &Option<NonZeroU16>, &p3: &(), p4: PodE) |p5: BTreeMap<u8, String>, p6: Option<NonZeroU16>, p7: PodS, p8: Vec<u32>, p9: PodS, p10: [u16; 3], p11: Box<u64>, p12: (String, u8), p13: (), p14: char, p15: Mixed, p16: (String, u8), p17: Box<u64>, p18: (String, u8), p19: (u8, u32)| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h } }) }, model: |c: &mut (Option<NonZeroU16>, Box<u64>, Option<NonZeroU16>, (), PodE, ), a: (BTreeMap<u8, String>, Option<NonZeroU16>, PodS, Vec<u32>, PodS, [u16; 3], Box<u64>, (String, u8), (), char, Mixed, (String, u8), Box<u64>, (String, u8), (u8, u32), )| plain75(&c.0, &c.1, &c.2, &c.3, c.4, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14) })
}

fn plain79(p0: &Rc<u32>, p1: &mut Vec<String>, p2: u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case79(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&Rc<u32>, &mut Vec<String>] (u64)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Rc<u32>, Vec<String>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(&p0: &Rc<u32>, &mut p1: &mut Vec<String>) |p2: u64| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut (Rc<u32>, Vec<String>, ), a: (u64, )| plain79(&c.0, &mut c.1, a.0) })
}

fn plain83(p0: &mut Option<String>, p1: &mut String, p2: &mut Box<u64>, p3: String, p4: Mixed, p5: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); p1.evolve(h.rotate_left(1)); tick(); p2.evolve(h.rotate_left(2)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case83(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut Option<String>, &mut String, &mut Box<u64>] (String, Mixed, Vec<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<String>, String, Box<u64>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut Option<String>, &mut p1: &mut String, &mut p2: &mut Box<u64>) |p3: String, p4: Mixed, p5: Vec<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); p1.evolve(h.rotate_left(1)); tick(); p2.evolve(h.rotate_left(2)); tick(); h } }) }, model: |c: &mut (Option<String>, String, Box<u64>, ), a: (String, Mixed, Vec<u32>, )| plain83(&mut c.0, &mut c.1, &mut c.2, a.0, a.1, a.2) })
}

fn plain87(p0: &mut String, p1: Option<NonZeroU16>, p2: char, p3: String, p4: Box<u64>, p5: String, p6: Vec<u32>, p7: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case87(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut String] (Option<NonZeroU16>, char, String, Box<u64>, String, Vec<u32>, (u8, u32))".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut String) |p1: Option<NonZeroU16>, p2: char, p3: String, p4: Box<u64>, p5: String, p6: Vec<u32>, p7: (u8, u32)| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut (String, ), a: (Option<NonZeroU16>, char, String, Box<u64>, String, Vec<u32>, (u8, u32), )| plain87(&mut c.0, a.0, a.1, a.2, a.3, a.4, a.5, a.6) })
}

fn plain91(p0: Vec<String>, p1: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case91(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [Vec<String>] (Option<String>)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Vec<String>, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: Vec<String>) |p1: Option<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h } }) }, model: |c: &mut (Vec<String>, ), a: (Option<String>, )| plain91(c.0.clone(), a.0) })
}

fn plain95(p0: &(u8, u32), p1: BTreeMap<u8, String>, p2: &mut String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p2.evolve(h.rotate_left(2)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case95(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [&(u8, u32), BTreeMap<u8, String>, &mut String] ()".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &((u8, u32), BTreeMap<u8, String>, String, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(&p0: &(u8, u32), p1: BTreeMap<u8, String>, &mut p2: &mut String) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p2.evolve(h.rotate_left(2)); tick(); h } }) }, model: |c: &mut ((u8, u32), BTreeMap<u8, String>, String, ), a: ()| plain95(&c.0, c.1.clone(), &mut c.2) })
}

fn plain99(p0: Option<String>, p1: (String, u8), p2: i128, p3: &mut Vec<String>, p4: Option<NonZeroU16>, p5: Mixed, p6: u8, p7: String, p8: (String, u8), p9: (u8, u32), p10: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); p3.evolve(h.rotate_left(3)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case99(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [Option<String>, (String, u8), i128, &mut Vec<String>] (Option<NonZeroU16>, Mixed, u8, String, (String, u8), (u8, u32), String)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<String>, (String, u8), i128, Vec<String>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); Ok(*crossmist::lambda! { move(p0: Option<String>, p1: (String, u8), p2: i128, &mut p3: &mut Vec<String>) |p4: Option<NonZeroU16>, p5: Mixed, p6: u8, p7: String, p8: (String, u8), p9: (u8, u32), p10: String| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); p3.evolve(h.rotate_left(3)); tick(); h } }) }, model: |c: &mut (Option<String>, (String, u8), i128, Vec<String>, ), a: (Option<NonZeroU16>, Mixed, u8, String, (String, u8), (u8, u32), String, )| plain99(c.0.clone(), c.1.clone(), c.2, &mut c.3, a.0, a.1, a.2, a.3, a.4, a.5, a.6) })
}

fn plain103() -> u64 { let mut h = 7u64; h }
#[allow(unused_variables, clippy::all)]
fn case103(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn() -> u64>::new(plain103) }; Ok(f) }, model: |c: &mut (), a: ()| plain103() })
}

fn plain107(p0: u64, p1: (String, u8), p2: BTreeMap<u8, String>, p3: BTreeMap<u8, String>, p4: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case107(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (u64, (String, u8), BTreeMap<u8, String>, BTreeMap<u8, String>, Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(u64, (String, u8), BTreeMap<u8, String>, BTreeMap<u8, String>, Box<u64>) -> u64>::new(plain107) }; Ok(f) }, model: |c: &mut (), a: (u64, (String, u8), BTreeMap<u8, String>, BTreeMap<u8, String>, Box<u64>, )| plain107(a.0, a.1, a.2, a.3, a.4) })
}

fn plain111(p0: char, p1: i32, p2: bool, p3: i128, p4: String, p5: i128, p6: i32, p7: Option<String>, p8: Vec<u32>, p9: Option<String>, p10: Option<String>, p11: Mixed, p12: u64, p13: u64, p14: Rc<u32>, p15: bool, p16: i32, p17: Rc<u32>, p18: Vec<u32>, p19: Zst) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case111(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (char, i32, bool, i128, String, i128, i32, Option<String>, Vec<u32>, Option<String>, Option<String>, Mixed, u64, u64, Rc<u32>, bool, i32, Rc<u32>, Vec<u32>, Zst)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(char, i32, bool, i128, String, i128, i32, Option<String>, Vec<u32>, Option<String>, Option<String>, Mixed, u64, u64, Rc<u32>, bool, i32, Rc<u32>, Vec<u32>, Zst) -> u64>::new(plain111) }; Ok(f) }, model: |c: &mut (), a: (char, i32, bool, i128, String, i128, i32, Option<String>, Vec<u32>, Option<String>, Option<String>, Mixed, u64, u64, Rc<u32>, bool, i32, Rc<u32>, Vec<u32>, Zst, )| plain111(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18, a.19) })
}

pub const CASES: &[fn(&mut Ctx) -> Res] = &[case3, case7, case11, case15, case19, case23, case27, case31, case35, case39, case43, case47, case51, case55, case59, case63, case67, case71, case75, case79, case83, case87, case91, case95, case99, case103, case107, case111];
