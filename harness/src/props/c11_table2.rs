// Generated by gen/c11.py; do not edit.

fn plain2(p0: Option<NonZeroU16>, p1: Option<NonZeroU16>, p2: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[crossmist::func]
fn func2(p0: Option<NonZeroU16>, p1: Option<NonZeroU16>, p2: i32) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case2(c: &mut Ctx) -> Res {
    c.note(|| "func fn [Option<NonZeroU16>, Option<NonZeroU16>] (i32)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Option<NonZeroU16>, Option<NonZeroU16>, )| { let f = func2; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Option<NonZeroU16>, Option<NonZeroU16>, ), a: (i32, )| plain2(c.0, c.1, a.0) })
}

fn plain6(p0: [u16; 3], p1: &char, p2: &Vec<String>, p3: (), p4: BTreeMap<u8, String>, p5: BTreeMap<u8, String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[crossmist::func]
fn func6(p0: [u16; 3], p1: &char, p2: &Vec<String>, p3: (), p4: BTreeMap<u8, String>, p5: BTreeMap<u8, String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case6(c: &mut Ctx) -> Res {
    c.note(|| "func fn [[u16; 3], &char, &Vec<String>] ((), BTreeMap<u8, String>, BTreeMap<u8, String>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &([u16; 3], char, Vec<String>, )| { let f = func6; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ([u16; 3], char, Vec<String>, ), a: ((), BTreeMap<u8, String>, BTreeMap<u8, String>, )| plain6(c.0, &c.1, &c.2, a.0, a.1, a.2) })
}

fn plain10(p0: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[crossmist::func]
fn func10(p0: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case10(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func10; Ok(f) }, model: |c: &mut (), a: (Box<u64>, )| plain10(a.0) })
}

fn plain14(p0: u64, p1: [u16; 3], p2: &String, p3: &(u8, u32), p4: &Zst, p5: &bool, p6: Rc<u32>, p7: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); h }
#[crossmist::func]
fn func14(p0: u64, p1: [u16; 3], p2: &String, p3: &(u8, u32), p4: &Zst, p5: &bool, p6: Rc<u32>, p7: Box<u64>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); h }
#[allow(unused_variables, clippy::all)]
fn case14(c: &mut Ctx) -> Res {
    c.note(|| "func fn [u64, [u16; 3], &String, &(u8, u32), &Zst, &bool] (Rc<u32>, Box<u64>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(u64, [u16; 3], String, (u8, u32), Zst, bool, )| { let f = func14; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_ref(c.5.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (u64, [u16; 3], String, (u8, u32), Zst, bool, ), a: (Rc<u32>, Box<u64>, )| plain14(c.0, c.1, &c.2, &c.3, &c.4, &c.5, a.0, a.1) })
}

fn plain18(p0: i32, p1: PodS, p2: Mixed, p3: PodS, p4: u8, p5: Box<u64>, p6: BTreeMap<u8, String>, p7: Vec<String>, p8: (u8, u32), p9: [u16; 3], p10: (), p11: u8, p12: bool, p13: String, p14: BTreeMap<u8, String>, p15: i128, p16: (String, u8), p17: Vec<String>, p18: Zst, p19: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[crossmist::func]
fn func18(p0: i32, p1: PodS, p2: Mixed, p3: PodS, p4: u8, p5: Box<u64>, p6: BTreeMap<u8, String>, p7: Vec<String>, p8: (u8, u32), p9: [u16; 3], p10: (), p11: u8, p12: bool, p13: String, p14: BTreeMap<u8, String>, p15: i128, p16: (String, u8), p17: Vec<String>, p18: Zst, p19: Mixed) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case18(c: &mut Ctx) -> Res {
    c.note(|| "func fn [i32] (PodS, Mixed, PodS, u8, Box<u64>, BTreeMap<u8, String>, Vec<String>, (u8, u32), [u16; 3], (), u8, bool, String, BTreeMap<u8, String>, i128, (String, u8), Vec<String>, Zst, Mixed)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(i32, )| { let f = func18; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (i32, ), a: (PodS, Mixed, PodS, u8, Box<u64>, BTreeMap<u8, String>, Vec<String>, (u8, u32), [u16; 3], (), u8, bool, String, BTreeMap<u8, String>, i128, (String, u8), Vec<String>, Zst, Mixed, )| plain18(c.0, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18) })
}

fn plain22(p0: Box<u64>, p1: Vec<String>, p2: Option<NonZeroU16>, p3: Option<String>, p4: PodS, p5: BTreeMap<u8, String>, p6: PodE, p7: Vec<u32>, p8: Option<String>, p9: PodS, p10: Option<NonZeroU16>, p11: Option<String>, p12: Box<u64>, p13: i128, p14: Vec<u32>, p15: u8, p16: u8, p17: Option<String>, p18: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); h }
#[crossmist::func]
fn func22(p0: Box<u64>, p1: Vec<String>, p2: Option<NonZeroU16>, p3: Option<String>, p4: PodS, p5: BTreeMap<u8, String>, p6: PodE, p7: Vec<u32>, p8: Option<String>, p9: PodS, p10: Option<NonZeroU16>, p11: Option<String>, p12: Box<u64>, p13: i128, p14: Vec<u32>, p15: u8, p16: u8, p17: Option<String>, p18: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); h }
#[allow(unused_variables, clippy::all)]
fn case22(c: &mut Ctx) -> Res {
    c.note(|| "func fn [] (Box<u64>, Vec<String>, Option<NonZeroU16>, Option<String>, PodS, BTreeMap<u8, String>, PodE, Vec<u32>, Option<String>, PodS, Option<NonZeroU16>, Option<String>, Box<u64>, i128, Vec<u32>, u8, u8, Option<String>, [u16; 3])".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = func22; Ok(f) }, model: |c: &mut (), a: (Box<u64>, Vec<String>, Option<NonZeroU16>, Option<String>, PodS, BTreeMap<u8, String>, PodE, Vec<u32>, Option<String>, PodS, Option<NonZeroU16>, Option<String>, Box<u64>, i128, Vec<u32>, u8, u8, Option<String>, [u16; 3], )| plain22(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18) })
}

fn plain26(p0: &mut String, p1: &PodE, p2: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[crossmist::func]
fn func26(p0: &mut String, p1: &PodE, p2: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case26(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&mut String, &PodE] (Option<String>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, PodE, )| { let f = func26; let f = f.bind_mut(c.0.clone()); let f = again(x, f)?; let f = f.bind_ref(c.1.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (String, PodE, ), a: (Option<String>, )| plain26(&mut c.0, &c.1, a.0) })
}

fn plain30(p0: (), p1: &mut Box<u64>, p2: &Mixed, p3: Rc<u32>, p4: i128, p5: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func30(p0: (), p1: &mut Box<u64>, p2: &Mixed, p3: Rc<u32>, p4: i128, p5: bool) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case30(c: &mut Ctx) -> Res {
    c.note(|| "func mut [(), &mut Box<u64>, &Mixed] (Rc<u32>, i128, bool)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((), Box<u64>, Mixed, )| { let f = func30; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((), Box<u64>, Mixed, ), a: (Rc<u32>, i128, bool, )| plain30(c.0, &mut c.1, &c.2, a.0, a.1, a.2) })
}

fn plain34(p0: &(u8, u32), p1: i32, p2: &mut Box<u64>, p3: (), p4: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p2.evolve(h.rotate_left(2)); tick(); h }
#[crossmist::func]
fn func34(p0: &(u8, u32), p1: i32, p2: &mut Box<u64>, p3: (), p4: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); p2.evolve(h.rotate_left(2)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case34(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&(u8, u32), i32, &mut Box<u64>, ()] (Vec<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((u8, u32), i32, Box<u64>, (), )| { let f = func34; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_mut(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((u8, u32), i32, Box<u64>, (), ), a: (Vec<u32>, )| plain34(&c.0, c.1, &mut c.2, c.3, a.0) })
}

fn plain38(p0: &BTreeMap<u8, String>, p1: &mut Box<u64>, p2: PodS, p3: &u8, p4: &PodE, p5: (u8, u32), p6: &Option<String>, p7: (String, u8), p8: (), p9: Option<String>, p10: Mixed, p11: i32, p12: char, p13: Rc<u32>, p14: Option<String>, p15: PodS, p16: (String, u8), p17: char, p18: i32, p19: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func38(p0: &BTreeMap<u8, String>, p1: &mut Box<u64>, p2: PodS, p3: &u8, p4: &PodE, p5: (u8, u32), p6: &Option<String>, p7: (String, u8), p8: (), p9: Option<String>, p10: Mixed, p11: i32, p12: char, p13: Rc<u32>, p14: Option<String>, p15: PodS, p16: (String, u8), p17: char, p18: i32, p19: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case38(c: &mut Ctx) -> Res {
    c.note(|| "func mut [&BTreeMap<u8, String>, &mut Box<u64>, PodS, &u8, &PodE, (u8, u32), &Option<String>] ((String, u8), (), Option<String>, Mixed, i32, char, Rc<u32>, Option<String>, PodS, (String, u8), char, i32, [u16; 3])".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, Box<u64>, PodS, u8, PodE, (u8, u32), Option<String>, )| { let f = func38; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_ref(c.3.clone()); let f = again(x, f)?; let f = f.bind_ref(c.4.clone()); let f = again(x, f)?; let f = f.bind_value(c.5.clone()); let f = again(x, f)?; let f = f.bind_ref(c.6.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (BTreeMap<u8, String>, Box<u64>, PodS, u8, PodE, (u8, u32), Option<String>, ), a: ((String, u8), (), Option<String>, Mixed, i32, char, Rc<u32>, Option<String>, PodS, (String, u8), char, i32, [u16; 3], )| plain38(&c.0, &mut c.1, c.2, &c.3, &c.4, c.5, &c.6, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12) })
}

fn plain42(p0: (String, u8), p1: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[crossmist::func]
fn func42(p0: (String, u8), p1: (u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); h }
#[allow(unused_variables, clippy::all)]
fn case42(c: &mut Ctx) -> Res {
    c.note(|| "func once [(String, u8)] ((u8, u32))".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((String, u8), )| { let f = func42; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((String, u8), ), a: ((u8, u32), )| plain42(c.0.clone(), a.0) })
}

fn plain46(p0: Option<String>, p1: &mut (u8, u32), p2: &(u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p1.evolve(h.rotate_left(1)); tick(); h }
#[crossmist::func]
fn func46(p0: Option<String>, p1: &mut (u8, u32), p2: &(u8, u32)) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case46(c: &mut Ctx) -> Res {
    c.note(|| "func once [Option<String>, &mut (u8, u32), &(u8, u32)] ()".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Option<String>, (u8, u32), (u8, u32), )| { let f = func46; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_mut(c.1.clone()); let f = again(x, f)?; let f = f.bind_ref(c.2.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Option<String>, (u8, u32), (u8, u32), ), a: ()| plain46(c.0.clone(), &mut c.1, &c.2) })
}

fn plain50(p0: &(), p1: Box<u64>, p2: &mut u64, p3: Mixed, p4: Rc<u32>, p5: String, p6: Vec<u32>, p7: String, p8: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); p2.evolve(h.rotate_left(2)); tick(); h }
#[crossmist::func]
fn func50(p0: &(), p1: Box<u64>, p2: &mut u64, p3: Mixed, p4: Rc<u32>, p5: String, p6: Vec<u32>, p7: String, p8: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); p2.evolve(h.rotate_left(2)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case50(c: &mut Ctx) -> Res {
    c.note(|| "func once [&(), Box<u64>, &mut u64, Mixed] (Rc<u32>, String, Vec<u32>, String, Option<String>)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((), Box<u64>, u64, Mixed, )| { let f = func50; let f = f.bind_ref(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_mut(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut ((), Box<u64>, u64, Mixed, ), a: (Rc<u32>, String, Vec<u32>, String, Option<String>, )| plain50(&c.0, c.1.clone(), &mut c.2, c.3.clone(), a.0, a.1, a.2, a.3, a.4) })
}

fn plain54(p0: Rc<u32>, p1: Vec<u32>, p2: Box<u64>, p3: char, p4: (String, u8), p5: BTreeMap<u8, String>, p6: Option<NonZeroU16>, p7: (), p8: i32, p9: Rc<u32>, p10: Box<u64>, p11: u8, p12: (), p13: Vec<u32>, p14: i32, p15: BTreeMap<u8, String>, p16: Option<String>, p17: Mixed, p18: Vec<u32>, p19: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[crossmist::func]
fn func54(p0: Rc<u32>, p1: Vec<u32>, p2: Box<u64>, p3: char, p4: (String, u8), p5: BTreeMap<u8, String>, p6: Option<NonZeroU16>, p7: (), p8: i32, p9: Rc<u32>, p10: Box<u64>, p11: u8, p12: (), p13: Vec<u32>, p14: i32, p15: BTreeMap<u8, String>, p16: Option<String>, p17: Mixed, p18: Vec<u32>, p19: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); h }
#[allow(unused_variables, clippy::all)]
fn case54(c: &mut Ctx) -> Res {
    c.note(|| "func once [Rc<u32>] (Vec<u32>, Box<u64>, char, (String, u8), BTreeMap<u8, String>, Option<NonZeroU16>, (), i32, Rc<u32>, Box<u64>, u8, (), Vec<u32>, i32, BTreeMap<u8, String>, Option<String>, Mixed, Vec<u32>, [u16; 3])".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Rc<u32>, )| { let f = func54; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (Rc<u32>, ), a: (Vec<u32>, Box<u64>, char, (String, u8), BTreeMap<u8, String>, Option<NonZeroU16>, (), i32, Rc<u32>, Box<u64>, u8, (), Vec<u32>, i32, BTreeMap<u8, String>, Option<String>, Mixed, Vec<u32>, [u16; 3], )| plain54(c.0.clone(), a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18) })
}

fn plain58(p0: u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case58(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [u8] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(u8, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: u8) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h } }) }, model: |c: &mut (u8, ), a: ()| plain58(c.0) })
}

fn plain62(p0: &Mixed, p1: [u16; 3], p2: Option<String>, p3: Rc<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h }
#[allow(unused_variables, clippy::all)]
fn case62(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&Mixed, [u16; 3]] (Option<String>, Rc<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Mixed, [u16; 3], )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(&p0: &Mixed, p1: [u16; 3]) |p2: Option<String>, p3: Rc<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); h } }) }, model: |c: &mut (Mixed, [u16; 3], ), a: (Option<String>, Rc<u32>, )| plain62(&c.0, c.1, a.0, a.1) })
}

fn plain66(p0: [u16; 3], p1: Mixed, p2: char, p3: Mixed, p4: BTreeMap<u8, String>, p5: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case66(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [[u16; 3]] (Mixed, char, Mixed, BTreeMap<u8, String>, Vec<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &([u16; 3], )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: [u16; 3]) |p1: Mixed, p2: char, p3: Mixed, p4: BTreeMap<u8, String>, p5: Vec<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h } }) }, model: |c: &mut ([u16; 3], ), a: (Mixed, char, Mixed, BTreeMap<u8, String>, Vec<u32>, )| plain66(c.0, a.0, a.1, a.2, a.3, a.4) })
}

fn plain70(p0: Box<u64>, p1: (String, u8), p2: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case70(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [] (Box<u64>, (String, u8), Vec<u32>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { Ok(*crossmist::lambda! { |p0: Box<u64>, p1: (String, u8), p2: Vec<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h } }) }, model: |c: &mut (), a: (Box<u64>, (String, u8), Vec<u32>, )| plain70(a.0, a.1, a.2) })
}

fn plain74(p0: &i32, p1: &[u16; 3], p2: char, p3: Zst, p4: Option<NonZeroU16>, p5: &i128, p6: PodS, p7: Box<u64>, p8: u64, p9: String) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); h }
#[allow(unused_variables, clippy::all)]
fn case74(c: &mut Ctx) -> Res {
    c.note(|| "lambda fn [&i32, &[u16; 3], char, Zst, Option<NonZeroU16>, &i128] (PodS, Box<u64>, u64, String)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(i32, [u16; 3], char, Zst, Option<NonZeroU16>, i128, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); Ok(*crossmist::lambda! { move(&p0: &i32, &p1: &[u16; 3], p2: char, p3: Zst, p4: Option<NonZeroU16>, &p5: &i128) |p6: PodS, p7: Box<u64>, p8: u64, p9: String| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); h } }) }, model: |c: &mut (i32, [u16; 3], char, Zst, Option<NonZeroU16>, i128, ), a: (PodS, Box<u64>, u64, String, )| plain74(&c.0, &c.1, c.2, c.3, c.4, &c.5, a.0, a.1, a.2, a.3) })
}

fn plain78(p0: &mut (u8, u32), p1: Vec<u32>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case78(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut (u8, u32)] (Vec<u32>)".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &((u8, u32), )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut (u8, u32)) |p1: Vec<u32>| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut ((u8, u32), ), a: (Vec<u32>, )| plain78(&mut c.0, a.0) })
}

fn plain82(p0: &mut BTreeMap<u8, String>, p1: bool, p2: &u8) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case82(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [&mut BTreeMap<u8, String>, bool, &u8] ()".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(BTreeMap<u8, String>, bool, u8, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); Ok(*crossmist::lambda! { move(&mut p0: &mut BTreeMap<u8, String>, p1: bool, &p2: &u8) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); p0.evolve(h.rotate_left(0)); tick(); h } }) }, model: |c: &mut (BTreeMap<u8, String>, bool, u8, ), a: ()| plain82(&mut c.0, c.1, &c.2) })
}

fn plain86(p0: [u16; 3], p1: &BTreeMap<u8, String>, p2: (u8, u32), p3: i32, p4: &String, p5: u64, p6: &mut String, p7: [u16; 3]) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p6.evolve(h.rotate_left(6)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case86(c: &mut Ctx) -> Res {
    c.note(|| "lambda mut [[u16; 3], &BTreeMap<u8, String>, (u8, u32), i32, &String, u64, &mut String] ([u16; 3])".to_string());
    drive_mut(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), ), make: |x: &mut Ctx, c: &([u16; 3], BTreeMap<u8, String>, (u8, u32), i32, String, u64, String, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); let p5 = c.5.clone(); let p6 = c.6.clone(); Ok(*crossmist::lambda! { move(p0: [u16; 3], &p1: &BTreeMap<u8, String>, p2: (u8, u32), p3: i32, &p4: &String, p5: u64, &mut p6: &mut String) |p7: [u16; 3]| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); p6.evolve(h.rotate_left(6)); tick(); h } }) }, model: |c: &mut ([u16; 3], BTreeMap<u8, String>, (u8, u32), i32, String, u64, String, ), a: ([u16; 3], )| plain86(c.0, &c.1, c.2, c.3, &c.4, c.5, &mut c.6, a.0) })
}

fn plain90(p0: Option<String>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h }
#[allow(unused_variables, clippy::all)]
fn case90(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [Option<String>] ()".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(Option<String>, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: Option<String>) || -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); h } }) }, model: |c: &mut (Option<String>, ), a: ()| plain90(c.0.clone()) })
}

fn plain94(p0: String, p1: &mut Option<String>, p2: [u16; 3], p3: u64) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case94(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [String, &mut Option<String>] ([u16; 3], u64)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, Option<String>, )| { let p0 = c.0.clone(); let p1 = c.1.clone(); Ok(*crossmist::lambda! { move(p0: String, &mut p1: &mut Option<String>) |p2: [u16; 3], p3: u64| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut (String, Option<String>, ), a: ([u16; 3], u64, )| plain94(c.0.clone(), &mut c.1, a.0, a.1) })
}

fn plain98(p0: String, p1: (), p2: Vec<u32>, p3: Vec<String>, p4: (String, u8), p5: i128) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h }
#[allow(unused_variables, clippy::all)]
fn case98(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [String] ((), Vec<u32>, Vec<String>, (String, u8), i128)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(String, )| { let p0 = c.0.clone(); Ok(*crossmist::lambda! { move(p0: String) |p1: (), p2: Vec<u32>, p3: Vec<String>, p4: (String, u8), p5: i128| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); h } }) }, model: |c: &mut (String, ), a: ((), Vec<u32>, Vec<String>, (String, u8), i128, )| plain98(c.0.clone(), a.0, a.1, a.2, a.3, a.4) })
}

fn plain102(p0: Box<u64>, p1: &mut Option<String>, p2: (), p3: (String, u8), p4: (), p5: Vec<String>, p6: Option<NonZeroU16>, p7: BTreeMap<u8, String>, p8: Box<u64>, p9: (u8, u32), p10: Vec<String>, p11: Option<NonZeroU16>, p12: u64, p13: PodE, p14: Mixed, p15: Option<String>, p16: (u8, u32), p17: PodE, p18: i128, p19: char) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h }
#[allow(unused_variables, clippy::all)]
fn case102(c: &mut Ctx) -> Res {
    c.note(|| "lambda once [Box<u64>, &mut Option<String>, (), (String, u8), ()] (Vec<String>, Option<NonZeroU16>, BTreeMap<u8, String>, Box<u64>, (u8, u32), Vec<String>, Option<NonZeroU16>, u64, PodE, Mixed, Option<String>, (u8, u32), PodE, i128, char)".to_string());
    drive_once(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &(Box<u64>, Option<String>, (), (String, u8), (), )| { let p0 = c.0.clone(); let p1 = c.1.clone(); let p2 = c.2.clone(); let p3 = c.3.clone(); let p4 = c.4.clone(); Ok(*crossmist::lambda! { move(p0: Box<u64>, &mut p1: &mut Option<String>, p2: (), p3: (String, u8), p4: ()) |p5: Vec<String>, p6: Option<NonZeroU16>, p7: BTreeMap<u8, String>, p8: Box<u64>, p9: (u8, u32), p10: Vec<String>, p11: Option<NonZeroU16>, p12: u64, p13: PodE, p14: Mixed, p15: Option<String>, p16: (u8, u32), p17: PodE, p18: i128, p19: char| -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); mixin(&mut h, 19, &p19); p1.evolve(h.rotate_left(1)); tick(); h } }) }, model: |c: &mut (Box<u64>, Option<String>, (), (String, u8), (), ), a: (Vec<String>, Option<NonZeroU16>, BTreeMap<u8, String>, Box<u64>, (u8, u32), Vec<String>, Option<NonZeroU16>, u64, PodE, Mixed, Option<String>, (u8, u32), PodE, i128, char, )| plain102(c.0.clone(), &mut c.1, c.2, c.3.clone(), c.4, a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14) })
}

fn plain106(p0: BTreeMap<u8, String>, p1: (String, u8), p2: Option<NonZeroU16>) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); h }
#[allow(unused_variables, clippy::all)]
fn case106(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (BTreeMap<u8, String>, (String, u8), Option<NonZeroU16>)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(BTreeMap<u8, String>, (String, u8), Option<NonZeroU16>) -> u64>::new(plain106) }; Ok(f) }, model: |c: &mut (), a: (BTreeMap<u8, String>, (String, u8), Option<NonZeroU16>, )| plain106(a.0, a.1, a.2) })
}

fn plain110(p0: Vec<u32>, p1: (u8, u32), p2: u8, p3: u8, p4: (String, u8), p5: Box<u64>, p6: Vec<u32>, p7: PodS, p8: Vec<u32>, p9: Box<u64>, p10: (String, u8), p11: Box<u64>, p12: BTreeMap<u8, String>, p13: Vec<u32>, p14: BTreeMap<u8, String>, p15: (u8, u32), p16: Option<String>, p17: Box<u64>, p18: PodE) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); mixin(&mut h, 5, &p5); mixin(&mut h, 6, &p6); mixin(&mut h, 7, &p7); mixin(&mut h, 8, &p8); mixin(&mut h, 9, &p9); mixin(&mut h, 10, &p10); mixin(&mut h, 11, &p11); mixin(&mut h, 12, &p12); mixin(&mut h, 13, &p13); mixin(&mut h, 14, &p14); mixin(&mut h, 15, &p15); mixin(&mut h, 16, &p16); mixin(&mut h, 17, &p17); mixin(&mut h, 18, &p18); h }
#[allow(unused_variables, clippy::all)]
fn case110(c: &mut Ctx) -> Res {
    c.note(|| "static fn [] (Vec<u32>, (u8, u32), u8, u8, (String, u8), Box<u64>, Vec<u32>, PodS, Vec<u32>, Box<u64>, (String, u8), Box<u64>, BTreeMap<u8, String>, Vec<u32>, BTreeMap<u8, String>, (u8, u32), Option<String>, Box<u64>, PodE)".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (), gena: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), make: |x: &mut Ctx, c: &()| { let f = unsafe { StaticFn::<fn(Vec<u32>, (u8, u32), u8, u8, (String, u8), Box<u64>, Vec<u32>, PodS, Vec<u32>, Box<u64>, (String, u8), Box<u64>, BTreeMap<u8, String>, Vec<u32>, BTreeMap<u8, String>, (u8, u32), Option<String>, Box<u64>, PodE) -> u64>::new(plain110) }; Ok(f) }, model: |c: &mut (), a: (Vec<u32>, (u8, u32), u8, u8, (String, u8), Box<u64>, Vec<u32>, PodS, Vec<u32>, Box<u64>, (String, u8), Box<u64>, BTreeMap<u8, String>, Vec<u32>, BTreeMap<u8, String>, (u8, u32), Option<String>, Box<u64>, PodE, )| plain110(a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8, a.9, a.10, a.11, a.12, a.13, a.14, a.15, a.16, a.17, a.18) })
}

fn plain114(p0: PodE, p1: i32, p2: u8, p3: u64, p4: ()) -> u64 { let mut h = 7u64; mixin(&mut h, 0, &p0); mixin(&mut h, 1, &p1); mixin(&mut h, 2, &p2); mixin(&mut h, 3, &p3); mixin(&mut h, 4, &p4); h }
#[allow(unused_variables, clippy::all)]
fn case114(c: &mut Ctx) -> Res {
    c.note(|| "static fn [PodE, i32, u8, u64, ()] ()".to_string());
    drive_fn(c, Spec { genc: |s: &mut Src| (Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), Val::gen(s, 1), ), gena: |s: &mut Src| (), make: |x: &mut Ctx, c: &(PodE, i32, u8, u64, (), )| { let f = unsafe { StaticFn::<fn(PodE, i32, u8, u64, ()) -> u64>::new(plain114) }; let f = f.bind_value(c.0.clone()); let f = again(x, f)?; let f = f.bind_value(c.1.clone()); let f = again(x, f)?; let f = f.bind_value(c.2.clone()); let f = again(x, f)?; let f = f.bind_value(c.3.clone()); let f = again(x, f)?; let f = f.bind_value(c.4.clone()); let f = again(x, f)?; Ok(f) }, model: |c: &mut (PodE, i32, u8, u64, (), ), a: ()| plain114(c.0, c.1, c.2, c.3, c.4) })
}

pub const CASES: &[fn(&mut Ctx) -> Res] = &[case2, case6, case10, case14, case18, case22, case26, case30, case34, case38, case42, case46, case50, case54, case58, case62, case66, case70, case74, case78, case82, case86, case90, case94, case98, case102, case106, case110, case114];
