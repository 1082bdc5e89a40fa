// Generated by gen/c11.py; do not edit.

fn plain0(p0: &Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[crossmist::func]
fn func0(p0: &Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case0(c: &mut Ctx) -> Res {
    c.note(|| "func fn [&Vec<String>] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Vec<String>, )| { let f = func0; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Vec<String>, ), a: ()| plain0(&c.0) })
}

fn plain4(p0: char, p1: Zst, p2: Rc<u32>, p3: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h }
#[crossmist::func]
fn func4(p0: char, p1: Zst, p2: Rc<u32>, p3: Vec<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h }
#[allow(unused_variables, clippy::all)]
fn case4(c: &mut Ctx) -> Res {
    c.note(|| "func fn [char, Zst] (Rc<u32>, Vec<String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(char, Zst, )| { let f = func4; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (char, Zst, ), a: (Rc<u32>, Vec<String>, )| plain4(c.0, c.1, a.0, a.1) })
}

fn plain8(p0: (), p1: Option<NonZeroU16>, p2: Box<u64>, p3: Mixed, p4: BTreeMap<u8, String>, p5: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[crossmist::func]
fn func8(p0: (), p1: Option<NonZeroU16>, p2: Box<u64>, p3: Mixed, p4: BTreeMap<u8, String>, p5: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case8(c: &mut Ctx) -> Res {
    c.note(|| "func fn [()] (Option<NonZeroU16>, Box<u64>, Mixed, BTreeMap<u8, String>, String)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((), )| { let f = func8; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((), ), a: (Option<NonZeroU16>, Box<u64>, Mixed, BTreeMap<u8, String>, String, )| plain8(c.0, a.0, a.1, a.2, a.3, a.4) })
}

fn plain12(p0: Vec<String>, p1: Rc<u32>, p2: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func12(p0: Vec<String>, p1: Rc<u32>, p2: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case12(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (Vec<String>, Rc<u32>, Vec<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func12; Ok(f) }, model: |c: &mut (), a: (Vec<String>, Rc<u32>, Vec<u32>, )| plain12(a.0, a.1, a.2) })
}

fn plain16(p0: &Mixed, p1: &i128, p2: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func16(p0: &Mixed, p1: &i128, p2: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case16(c: &mut Ctx) -> Res {
    c.note(|| "func fn [&Mixed, &i128] (u8)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Mixed, i128, )| { let f = func16; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Mixed, i128, ), a: (u8, )| plain16(&c.0, &c.1, a.0) })
}

fn plain20(p0: i128, p1: bool, p2: PodS, p3: i128, p4: &(u8, u32), p5: [u16; 3], p6: &u8, p7: &Option<NonZeroU16>, p8: [u16; 3], p9: (u8, u32), p10: &bool, p11: &BTreeMap<u8, String>, p12: u8, p13: Box<u64>, p14: Option<String>, p15: (), p16: Rc<u32>, p17: Vec<String>, p18: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); h }
#[crossmist::func]
fn func20(p0: i128, p1: bool, p2: PodS, p3: i128, p4: &(u8, u32), p5: [u16; 3], p6: &u8, p7: &Option<NonZeroU16>, p8: [u16; 3], p9: (u8, u32), p10: &bool, p11: &BTreeMap<u8, String>, p12: u8, p13: Box<u64>, p14: Option<String>, p15: (), p16: Rc<u32>, p17: Vec<String>, p18: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); h }
#[allow(unused_variables, clippy::all)]
fn case20(c: &mut Ctx) -> Res {
    c.note(|| "func fn [i128, bool, PodS, i128, &(u8, u32), [u16; 3], &u8, &Option<NonZeroU16>, [u16; 3], (u8, u32), &bool, &BTreeMap<u8, String>, u8] (Box<u64>, Option<String>, (), Rc<u32>, Vec<String>, i32)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(i128, bool, PodS, i128, (u8, u32), [u16; 3], u8, Option<NonZeroU16>, [u16; 3], (u8, u32), bool, BTreeMap<u8, String>, u8, )| { let f = func20; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_ref(c.6.clone()); let f = again(x, f)?; let f = f.bind_ref(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_value(c.9.clone()); let f = again(x, f)?; let f = f.bind_ref(c.10.clone()); let f = again(x, f)?; let f = f.bind_ref(c.11.clone()); let f = again(x, f)?; let f = f.bind_value(c.12.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (i128, bool, PodS, i128, (u8, u32), [u16; 3], u8, Option<NonZeroU16>, [u16; 3], (u8, u32), bool, BTreeMap<u8, String>, u8, ), a: (Box<u64>, Option<String>, (), Rc<u32>, Vec<String>, i32, )| plain20(c.0, c.1, c.2, c.3, &c.4, c.5, &c.6, &c.7, c.8, c.9, &c.10, &c.11, c.12, a.0, a.1, a.2, a.3, a.4, a.5) })
}

fn plain24(p0: &mut Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func24(p0: &mut Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case24(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut Option<String>] ()".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Option<String>, )| { let f = func24; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Option<String>, ), a: ()| plain24(&mut c.0) })
}

fn plain28(p0: u64, p1: &mut Vec<String>, p2: Vec<u32>, p3: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func28(p0: u64, p1: &mut Vec<String>, p2: Vec<u32>, p3: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case28(c: &mut Ctx) -> Res {
    c.note(|| "func mut [u64, &mut Vec<String>] (Vec<u32>, PodE)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, Vec<String>, )| { let f = func28; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, Vec<String>, ), a: (Vec<u32>, PodE, )| plain28(c.0, &mut c.1, a.0, a.1) })
}

fn plain32(p0: &mut u64, p1: [u16; 3], p2: Option<NonZeroU16>, p3: (), p4: Option<String>, p5: PodS) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func32(p0: &mut u64, p1: [u16; 3], p2: Option<NonZeroU16>, p3: (), p4: Option<String>, p5: PodS) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case32(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut u64] ([u16; 3], Option<NonZeroU16>, (), Option<String>, PodS)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, )| { let f = func32; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, ), a: ([u16; 3], Option<NonZeroU16>, (), Option<String>, PodS, )| plain32(&mut c.0, a.0, a.1, a.2, a.3, a.4) })
}

fn plain36(p0: &Option<String>, p1: &mut BTreeMap<u8, String>, p2: [u16; 3], p3: char, p4: PodS, p5: i32, p6: &mut Vec<String>, p7: u64, p8: &mut Vec<String>, p9: &mut Box<u64>, p10: Zst, p11: i32, p12: Mixed, p13: PodS, p14: String, p15: i32, p16: Option<NonZeroU16>, p17: Mixed, p18: (), p19: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); p6.evolve(h.rotate_left(6)); tick(); p8.evolve(h.rotate_left(8)); tick(); p9.evolve(h.rotate_left(9)); tick(); h }
#[crossmist::func]
fn func36(p0: &Option<String>, p1: &mut BTreeMap<u8, String>, p2: [u16; 3], p3: char, p4: PodS, p5: i32, p6: &mut Vec<String>, p7: u64, p8: &mut Vec<String>, p9: &mut Box<u64>, p10: Zst, p11: i32, p12: Mixed, p13: PodS, p14: String, p15: i32, p16: Option<NonZeroU16>, p17: Mixed, p18: (), p19: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); p6.evolve(h.rotate_left(6)); tick(); p8.evolve(h.rotate_left(8)); tick(); p9.evolve(h.rotate_left(9)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case36(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&Option<String>, &mut BTreeMap<u8, String>, [u16; 3], char, PodS, i32, &mut Vec<String>, u64, &mut Vec<String>, &mut Box<u64>] (Zst, i32, Mixed, PodS, String, i32, Option<NonZeroU16>, Mixed, (), Option<String>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<String>, BTreeMap<u8, String>, [u16; 3], char, PodS, i32, Vec<String>, u64, Vec<String>, Box<u64>, )| { let f = func36; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_mut(c.6.clone()); let f = again(x, f)?; let f = f.bind_value(c.7.clone()); let f = again(x, f)?; let f = f.bind_mut(c.8.clone()); let f = again(x, f)?; let f = f.bind_mut(c.9.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Option<String>, BTreeMap<u8, String>, [u16; 3], char, PodS, i32, Vec<String>, u64, Vec<String>, Box<u64>, ), a: (Zst, i32, Mixed, PodS, String, i32, Option<NonZeroU16>, Mixed, (), Option<String>, )| plain36(&c.0, &mut c.1, c.2, c.3, c.4, c.5, &mut c.6, c.7, &mut c.8, &mut c.9, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9) })
}

fn plain40(p0: &u8, p1: &mut u8, p2: [u16; 3], p3: char, p4: [u16; 3], p5: &mut Box<u64>, p6: char, p7: PodS, p8: u64, p9: &Mixed, p10: Zst, p11: Option<NonZeroU16>, p12: Zst, p13: &Box<u64>, p14: [u16; 3], p15: Option<NonZeroU16>, p16: [u16; 3], p17: bool, p18: i128, p19: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); p5.evolve(h.rotate_left(5)); tick(); h }
#[crossmist::func]
fn func40(p0: &u8, p1: &mut u8, p2: [u16; 3], p3: char, p4: [u16; 3], p5: &mut Box<u64>, p6: char, p7: PodS, p8: u64, p9: &Mixed, p10: Zst, p11: Option<NonZeroU16>, p12: Zst, p13: &Box<u64>, p14: [u16; 3], p15: Option<NonZeroU16>, p16: [u16; 3], p17: bool, p18: i128, p19: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); p5.evolve(h.rotate_left(5)); tick(); h }
#[allow(unused_variables, unused_mut, clippy::all)]
fn case40(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&u8, &mut u8, [u16; 3], char, [u16; 3], &mut Box<u64>, char, PodS, u64, &Mixed, Zst, Option<NonZeroU16>, Zst, &Box<u64>, [u16; 3], Option<NonZeroU16>, [u16; 3], bool, i128] (Option<NonZeroU16>)".to_string());
    c.nontrivial();
    let (genc, gena, model) = (|s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), |s: &mut Src| (Val::gen(s, 1), ), |c: &mut (u8, u8, [u16; 3], char, [u16; 3], Box<u64>, char, PodS, u64, Mixed, Zst, Option<NonZeroU16>, Zst, Box<u64>, [u16; 3], Option<NonZeroU16>, [u16; 3], bool, i128, ), a: (Option<NonZeroU16>, )| plain40(&c.0, &mut c.1, c.2, c.3, c.4, &mut c.5, c.6, c.7, c.8, &c.9, c.10, c.11, c.12, &c.13, c.14, c.15, c.16, c.17, c.18, a.0));
    let mut caps: (u8, u8, [u16; 3], char, [u16; 3], Box<u64>, char, PodS, u64, Mixed, Zst, Option<NonZeroU16>, Zst, Box<u64>, [u16; 3], Option<NonZeroU16>, [u16; 3], bool, i128, ) = genc(&mut c.s);
    let mut f = (|x: &mut Ctx, c: &(u8, u8, [u16; 3], char, [u16; 3], Box<u64>, char, PodS, u64, Mixed, Zst, Option<NonZeroU16>, Zst, Box<u64>, [u16; 3], Option<NonZeroU16>, [u16; 3], bool, i128, )| -> Result<_, Fail> { let f = func40; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; let f = f.bind_mut(c.5.clone()); let f = again(x, f)?; let f = f.bind_value(c.6.clone()); let f = again(x, f)?; let f = f.bind_value(c.7.clone()); let f = again(x, f)?; let f = f.bind_value(c.8.clone()); let f = again(x, f)?; let f = f.bind_ref(c.9.clone()); let f = again(x, f)?; let f = f.bind_value(c.10.clone()); let f = again(x, f)?; let f = f.bind_value(c.11.clone()); let f = again(x, f)?; let f = f.bind_value(c.12.clone()); let f = again(x, f)?; let f = f.bind_ref(c.13.clone()); let f = again(x, f)?; let f = f.bind_value(c.14.clone()); let f = again(x, f)?; let f = f.bind_value(c.15.clone()); let f = again(x, f)?; let f = f.bind_value(c.16.clone()); let f = again(x, f)?; let f = f.bind_value(c.17.clone()); let f = again(x, f)?; let f = f.bind_value(c.18.clone()); let f = again(x, f)?; Ok(f) })(c, &caps)?;
    f = again(c, f)?;
    let a = gena(&mut c.s); let got = f.call_object_mut(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; let a = gena(&mut c.s); let got = f.call_object_mut(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; let a = gena(&mut c.s); let got = f.call_object_mut(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; 
    let a = gena(&mut c.s);
    let got = if c.s.flip() { f.call_object_once(a.clone()) } else { Box::new(f).call_object_box(a.clone()) };
    check(c, got, model(&mut caps, a))
}

fn plain44(p0: String, p1: Vec<u32>, p2: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func44(p0: String, p1: Vec<u32>, p2: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case44(c: &mut Ctx) -> Res {
    c.note(|| "func once [String] (Vec<u32>, (u8, u32))".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, )| { let f = func44; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (String, ), a: (Vec<u32>, (u8, u32), )| plain44(c.0.clone(), a.0, a.1) })
}

fn plain48(p0: Box<u64>, p1: Option<NonZeroU16>, p2: (), p3: &mut u64, p4: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p3.evolve(h.rotate_left(3)); tick(); h }
#[crossmist::func]
fn func48(p0: Box<u64>, p1: Option<NonZeroU16>, p2: (), p3: &mut u64, p4: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p3.evolve(h.rotate_left(3)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case48(c: &mut Ctx) -> Res {
    c.note(|| "func once [Box<u64>, Option<NonZeroU16>, (), &mut u64] (PodE)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Box<u64>, Option<NonZeroU16>, (), u64, )| { let f = func48; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_mut(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Box<u64>, Option<NonZeroU16>, (), u64, ), a: (PodE, )| plain48(c.0.clone(), c.1, c.2, &mut c.3, a.0) })
}

fn plain52(p0: Rc<u32>, p1: Vec<u32>, p2: i128, p3: [u16; 3], p4: &BTreeMap<u8, String>, p5: Vec<u32>, p6: &mut u8, p7: i32, p8: Vec<u32>, p9: Vec<u32>, p10: Box<u64>, p11: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); p6.evolve(h.rotate_left(6)); tick(); h }
#[crossmist::func]
fn func52(p0: Rc<u32>, p1: Vec<u32>, p2: i128, p3: [u16; 3], p4: &BTreeMap<u8, String>, p5: Vec<u32>, p6: &mut u8, p7: i32, p8: Vec<u32>, p9: Vec<u32>, p10: Box<u64>, p11: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); p6.evolve(h.rotate_left(6)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case52(c: &mut Ctx) -> Res {
    c.note(|| "func once [Rc<u32>, Vec<u32>, i128, [u16; 3], &BTreeMap<u8, String>, Vec<u32>, &mut u8] (i32, Vec<u32>, Vec<u32>, Box<u64>, [u16; 3])".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Rc<u32>, Vec<u32>, i128, [u16; 3], BTreeMap<u8, String>, Vec<u32>, u8, )| { let f = func52; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_mut(c.6.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Rc<u32>, Vec<u32>, i128, [u16; 3], BTreeMap<u8, String>, Vec<u32>, u8, ), a: (i32, Vec<u32>, Vec<u32>, Box<u64>, [u16; 3], )| plain52(c.0.clone(), c.1.clone(), c.2, c.3, &c.4, c.5.clone(), &mut c.6, a.0, a.1, a.2, a.3, a.4) })
}

fn plain56(p0: &mut BTreeMap<u8, String>, p1: u8, p2: bool, p3: u64, p4: &mut u64, p5: Zst, p6: BTreeMap<u8, String>, p7: Zst, p8: &bool, p9: char, p10: &mut BTreeMap<u8, String>, p11: Option<NonZeroU16>, p12: &mut u8, p13: Zst, p14: Option<NonZeroU16>, p15: Box<u64>, p16: i128, p17: Option<String>, p18: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); p0.evolve(h.rotate_left(0)); tick(); p4.evolve(h.rotate_left(4)); tick(); p10.evolve(h.rotate_left(10)); tick(); p12.evolve(h.rotate_left(12)); tick(); h }
#[crossmist::func]
fn func56(p0: &mut BTreeMap<u8, String>, p1: u8, p2: bool, p3: u64, p4: &mut u64, p5: Zst, p6: BTreeMap<u8, String>, p7: Zst, p8: &bool, p9: char, p10: &mut BTreeMap<u8, String>, p11: Option<NonZeroU16>, p12: &mut u8, p13: Zst, p14: Option<NonZeroU16>, p15: Box<u64>, p16: i128, p17: Option<String>, p18: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); p0.evolve(h.rotate_left(0)); tick(); p4.evolve(h.rotate_left(4)); tick(); p10.evolve(h.rotate_left(10)); tick(); p12.evolve(h.rotate_left(12)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case56(c: &mut Ctx) -> Res {
    c.note(|| "func once [&mut BTreeMap<u8, String>, u8, bool, u64, &mut u64, Zst, BTreeMap<u8, String>, Zst, &bool, char, &mut BTreeMap<u8, String>, Option<NonZeroU16>, &mut u8] (Zst, Option<NonZeroU16>, Box<u64>, i128, Option<String>, Mixed)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, u8, bool, u64, u64, Zst, BTreeMap<u8, String>, Zst, bool, char, BTreeMap<u8, String>, Option<NonZeroU16>, u8, )| { let f = func56; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_mut(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_value(c.6.clone()); let f = again(x, f)?; let f = f.bind_value(c.7.clone()); let f = again(x, f)?; let f = f.bind_ref(c.8.clone()); let f = again(x, f)?; let f = f.bind_value(c.9.clone()); let f = again(x, f)?; let f = f.bind_mut(c.10.clone()); let f = again(x, f)?; let f = f.bind_value(c.11.clone()); let f = again(x, f)?; let f = f.bind_mut(c.12.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (BTreeMap<u8, String>, u8, bool, u64, u64, Zst, BTreeMap<u8, String>, Zst, bool, char, BTreeMap<u8, String>, Option<NonZeroU16>, u8, ), a: (Zst, Option<NonZeroU16>, Box<u64>, i128, Option<String>, Mixed, )| plain56(&mut c.0, c.1, c.2, c.3, &mut c.4, c.5, c.6.clone(), c.7, &c.8, c.9, &mut c.10, c.11, &mut c.12, a.0, a.1, a.2, a.3, a.4, a.5) })
}

fn plain60(p0: bool, p1: &Zst, p2: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case60(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [bool, &Zst] (Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(bool, Zst, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(p0: bool, &p1: &Zst) |p2: Box<u64>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut (bool, Zst, ), a: (Box<u64>, )| plain60(c.0, &c.1, a.0) })
}

fn plain64(p0: &u64, p1: &String, p2: &Box<u64>, p3: Mixed, p4: Vec<String>, p5: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case64(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&u64, &String, &Box<u64>] (Mixed, Vec<String>, Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, String, Box<u64>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(&p0: &u64, &p1: &String, &p2: &Box<u64>) |p3: Mixed, p4: Vec<String>, p5: Box<u64>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h } }) }, model: |c: &mut (u64, String, Box<u64>, ), a: (Mixed, Vec<String>, Box<u64>, )| plain64(&c.0, &c.1, &c.2, a.0, a.1, a.2) })
}

fn plain68(p0: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case68(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [] (String)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { Ok(*crossmist::lambda! { |p0: String| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h } }) }, model: |c: &mut (), a: (String, )| plain68(a.0) })
}

fn plain72(p0: u64, p1: u64, p2: &(), p3: [u16; 3], p4: &Vec<String>, p5: &Option<NonZeroU16>, p6: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h }
#[allow(unused_variables, clippy::all)]
fn case72(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [u64, u64, &(), [u16; 3], &Vec<String>, &Option<NonZeroU16>] (PodE)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, u64, (), [u16; 3], Vec<String>, Option<NonZeroU16>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); Ok(*crossmist::lambda! { move(p0: u64, p1: u64, &p2: &(), p3: [u16; 3], &p4: &Vec<String>, &p5: &Option<NonZeroU16>) |p6: PodE| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); h } }) }, model: |c: &mut (u64, u64, (), [u16; 3], Vec<String>, Option<NonZeroU16>, ), a: (PodE, )| plain72(c.0, c.1, &c.2, c.3, &c.4, &c.5, a.0) })
}

fn plain76(p0: Zst, p1: &PodE, p2: (u8, u32), p3: (u8, u32), p4: PodS, p5: i32, p6: u64, p7: u8, p8: u64, p9: bool, p10: &i32, p11: (u8, u32), p12: Option<NonZeroU16>, p13: u64, p14: &BTreeMap<u8, String>, p15: &Option<NonZeroU16>, p16: &PodE, p17: (u8, u32), p18: PodE, p19: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, unused_mut, clippy::all)]
fn case76(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [Zst, &PodE, (u8, u32), (u8, u32), PodS, i32, u64, u8, u64, bool, &i32, (u8, u32), Option<NonZeroU16>, u64, &BTreeMap<u8, String>, &Option<NonZeroU16>, &PodE, (u8, u32), PodE, bool] ()".to_string());
    c.nontrivial();
    let (genc, gena, model) = (|s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), |s: &mut Src| (), |c: &mut (Zst, PodE, (u8, u32), (u8, u32), PodS, i32, u64, u8, u64, bool, i32, (u8, u32), Option<NonZeroU16>, u64, BTreeMap<u8, String>, Option<NonZeroU16>, PodE, (u8, u32), PodE, bool, ), a: ()| plain76(c.0, &c.1, c.2, c.3, c.4, c.5, c.6, c.7, c.8, c.9, &c.10, c.11, c.12, c.13, &c.14, &c.15, &c.16, c.17, c.18, c.19));
    let mut caps: (Zst, PodE, (u8, u32), (u8, u32), PodS, i32, u64, u8, u64, bool, i32, (u8, u32), Option<NonZeroU16>, u64, BTreeMap<u8, String>, Option<NonZeroU16>, PodE, (u8, u32), PodE, bool, ) = genc(&mut c.s);
    let mut f = (|x: &mut Ctx, c: &(Zst, PodE, (u8, u32), (u8, u32), PodS, i32, u64, u8, u64, bool, i32, (u8, u32), Option<NonZeroU16>, u64, BTreeMap<u8, String>, Option<NonZeroU16>, PodE, (u8, u32), PodE, bool, )| -> Result<_, Fail> { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); let p6 = c.6.clone(); let p7 = c.7.clone(); let p8 = c.8.clone(); let p9 = c.9.clone(); let p10 = c.10.clone(); let p11 = c.11.clone(); let p12 = c.12.clone(); let p13 = c.13.clone(); let p14 = c.14.clone(); let p15 = c.15.clone(); let p16 = c.16.clone(); let p17 = c.17.clone(); let p18 = c.18.clone(); let p19 = c.19.clone(); Ok(*crossmist::lambda! { move(p0: Zst, &p1: &PodE, p2: (u8, u32), p3: (u8, u32), p4: PodS, p5: i32, p6: u64, p7: u8, p8: u64, p9: bool, &p10: &i32, p11: (u8, u32), p12: Option<NonZeroU16>, p13: u64, &p14: &BTreeMap<u8, String>, &p15: &Option<NonZeroU16>, &p16: &PodE, p17: (u8, u32), p18: PodE, p19: bool) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h } }) })(c, &caps)?;
    f = again(c, f)?;
    let a = gena(&mut c.s); let got = f.call_object(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; let a = gena(&mut c.s); let got = f.call_object_mut(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; let a = gena(&mut c.s); let got = f.call_object(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; 
    let a = gena(&mut c.s);
    let got = if c.s.flip() { f.call_object_once(a.clone()) } else { Box::new(f).call_object_box(a.clone()) };
    check(c, got, model(&mut caps, a))
}

fn plain80(p0: &mut Box<u64>, p1: i32, p2: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case80(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut Box<u64>] (i32, Option<String>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Box<u64>, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut Box<u64>) |p1: i32, p2: Option<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut (Box<u64>, ), a: (i32, Option<String>, )| plain80(&mut c.0, a.0, a.1) })
}

fn plain84(p0: &(), p1: &mut Vec<u32>, p2: &(String, u8), p3: &PodS, p4: Zst) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case84(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&(), &mut Vec<u32>, &(String, u8), &PodS] (Zst)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((), Vec<u32>, (String, u8), PodS, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); Ok(*crossmist::lambda! { move(&p0: &(), &mut p1: &mut Vec<u32>, &p2: &(String, u8), &p3: &PodS) |p4: Zst| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut ((), Vec<u32>, (String, u8), PodS, ), a: (Zst, )| plain84(&c.0, &mut c.1, &c.2, &c.3, a.0) })
}

fn plain88(p0: PodE, p1: &mut BTreeMap<u8, String>, p2: &(), p3: &[u16; 3], p4: Vec<String>, p5: [u16; 3], p6: i128, p7: [u16; 3], p8: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case88(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [PodE, &mut BTreeMap<u8, String>, &(), &[u16; 3]] (Vec<String>, [u16; 3], i128, [u16; 3], Vec<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(PodE, BTreeMap<u8, String>, (), [u16; 3], )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); Ok(*crossmist::lambda! { move(p0: PodE, &mut p1: &mut BTreeMap<u8, String>, &p2: &(), &p3: &[u16; 3]) |p4: Vec<String>, p5: [u16; 3], p6: i128, p7: [u16; 3], p8: Vec<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut (PodE, BTreeMap<u8, String>, (), [u16; 3], ), a: (Vec<String>, [u16; 3], i128, [u16; 3], Vec<u32>, )| plain88(c.0, &mut c.1, &c.2, &c.3, a.0, a.1, a.2, a.3, a.4) })
}

fn plain92(p0: &(String, u8), p1: BTreeMap<u8, String>, p2: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case92(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [&(String, u8), BTreeMap<u8, String>] (Box<u64>)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((String, u8), BTreeMap<u8, String>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(&p0: &(String, u8), p1: BTreeMap<u8, String>) |p2: Box<u64>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut ((String, u8), BTreeMap<u8, String>, ), a: (Box<u64>, )| plain92(&c.0, c.1.clone(), a.0) })
}

fn plain96(p0: &BTreeMap<u8, String>, p1: PodS, p2: Vec<u32>, p3: String, p4: char, p5: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case96(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [&BTreeMap<u8, String>, PodS, Vec<u32>] (String, char, Option<String>)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, PodS, Vec<u32>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(&p0: &BTreeMap<u8, String>, p1: PodS, p2: Vec<u32>) |p3: String, p4: char, p5: Option<String>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h } }) }, model: |c: &mut (BTreeMap<u8, String>, PodS, Vec<u32>, ), a: (String, char, Option<String>, )| plain96(&c.0, c.1, c.2.clone(), a.0, a.1, a.2) })
}

fn plain100(p0: u8, p1: u8, p2: Mixed, p3: &mut Vec<u32>, p4: (String, u8), p5: &i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p3.evolve(h.rotate_left(3)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case100(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [u8, u8, Mixed, &mut Vec<u32>, (String, u8), &i32] ()".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(u8, u8, Mixed, Vec<u32>, (String, u8), i32, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); Ok(*crossmist::lambda! { move(p0: u8, p1: u8, p2: Mixed, &mut p3: &mut Vec<u32>, p4: (String, u8), &p5: &i32) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p3.evolve(h.rotate_left(3)); tick(); h } }) }, model: |c: &mut (u8, u8, Mixed, Vec<u32>, (String, u8), i32, ), a: ()| plain100(c.0, c.1, c.2.clone(), &mut c.3, c.4.clone(), &c.5) })
}

fn plain104(p0: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case104(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (bool)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(bool) -> u64>::new(plain104) }; Ok(f) }, model: |c: &mut (), a: (bool, )| plain104(a.0) })
}

fn plain108(p0: Mixed, p1: u64, p2: Mixed, p3: BTreeMap<u8, String>, p4: Zst, p5: char, p6: PodE, p7: (String, u8), p8: Vec<u32>, p9: BTreeMap<u8, String>, p10: Vec<String>, p11: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); h }
#[allow(unused_variables, clippy::all)]
fn case108(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (Mixed, u64, Mixed, BTreeMap<u8, String>, Zst, char, PodE, (String, u8), Vec<u32>, BTreeMap<u8, String>, Vec<String>, Rc<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(Mixed, u64, Mixed, BTreeMap<u8, String>, Zst, char, PodE, (String, u8), Vec<u32>, BTreeMap<u8, String>, Vec<String>, Rc<u32>) -> u64>::new(plain108) }; Ok(f) }, model: |c: &mut (), a: (Mixed, u64, Mixed, BTreeMap<u8, String>, Zst, char, PodE, (String, u8), Vec<u32>, BTreeMap<u8, String>, Vec<String>, Rc<u32>, )| plain108(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11) })
}

fn plain112(p0: PodE, p1: PodS) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case112(c: &mut Ctx) -> Res {
    c.note(|| "static fn [PodE] (PodS)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(PodE, )| { let f = unsafe { StaticFn::<fn(PodE, PodS) -> u64>::new(plain112) }; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (PodE, ), a: (PodS, )| plain112(c.0, a.0) })
}

pub const CASES: &[fn(&mut Ctx) -> Res] = &[case0, case4, case8, case12, case16, case20, case24, case28, case32, case36, case40, case44, case48, case52, case56, case60, case64, case68, case72, case76, case80, case84, case88, case92, case96, case100, case104, case108, case112];
