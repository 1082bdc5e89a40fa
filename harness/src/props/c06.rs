// C06: histories over all combinations of flavours, on threads or as tasks of one executor, against the model.
use vh::flav::*;
use vh::msg::*;
use vh::ops::*;
use vh::run::*;
use vh::script::{self, Op, Opts};
use vh::val::V;

fn fl(c: &mut Ctx) -> Fl {
    FLS4[c.s.idx(4)]
}
fn threads<A: Msg, B: Msg>(c: &mut Ctx, drops: bool) -> Res {
    let mut sc = script::gen::<A, B>(c, Opts { drops, pauses: true, max_events: 24, max_total: 400_000 });
    let mut f = [fl(c), fl(c)];
    if f == [Fl::B, Fl::B] {
        f[c.s.idx(2)] = ASYNC3[c.s.idx(3)];
    }
    let mut late = [false; 2];
    for i in 0..2 {
        if f[i] != Fl::B && c.s.chance(1, 3) {
            late[i] = true;
            let at = c.s.urange(0, sc.ops[i].len());
            sc.ops[i].insert(at, Op::Convert(f[i]));
        }
    }
    c.note(|| format!("{f:?} on threads, {} of {} and {}: {:?} / {:?}, SO_SNDBUF {:?}", if sc.channel { "channel" } else { "duplex" }, A::NAME, B::NAME, sc.ops[0], sc.ops[1], sc.sndbuf));
    c.label(format!("threads {f:?}"));
    if late[0] || late[1] {
        c.label("converted after use");
    }
    if sc.ops[0].len() + sc.ops[1].len() > 6 {
        c.nontrivial();
    }
    script::run_threads(sc, f, late)
}
type Make = Box<dyn FnOnce() -> Result<Vec<Task<'static, Res>>, Fail>>;
fn one<A: Msg, B: Msg>(c: &mut Ctx, ex: Fl, small: bool) -> Make {
    let drops = c.s.flip();
    let sc = script::gen::<A, B>(c, Opts { drops, pauses: true, max_events: if small { 12 } else { 24 }, max_total: 400_000 });
    let f = if ex != Fl::T { [ex, ex] } else { [ASYNC[c.s.idx(2)], ASYNC[c.s.idx(2)]] };
    let native = c.s.flip();
    c.note(|| format!("{f:?} as tasks of {ex:?}, {} of {} and {}: {:?} / {:?}, SO_SNDBUF {:?}", if sc.channel { "channel" } else { "duplex" }, A::NAME, B::NAME, sc.ops[0], sc.ops[1], sc.sndbuf));
    c.label(format!("tasks {f:?}"));
    Box::new(move || script::tasks(sc, f, native))
}
fn tasks(c: &mut Ctx) -> Res {
    let ex = ASYNC3[c.s.idx(3)];
    let n = c.s.urange(1, 4);
    let mut makes = Vec::new();
    for _ in 0..n {
        makes.push(match c.s.below(6) {
            0 => one::<Vec<u8>, Vec<u8>>(c, ex, n > 1),
            1 => one::<(u64, String), Blob<16384>>(c, ex, n > 1),
            2 => one::<V, Vec<u8>>(c, ex, n > 1),
            3 => one::<(), Vec<(u64, u8)>>(c, ex, n > 1),
            4 => one::<Blob<32766>, PodS>(c, ex, n > 1),
            _ => one::<Option<Box<[Vec<u8>]>>, u64>(c, ex, n > 1),
        });
    }
    c.nontrivial();
    c.label(format!("{n} pairs on one executor"));
    let rs = drive(ex, async move {
        let mut ts = Vec::new();
        for m in makes {
            ts.extend(m()?);
        }
        Ok(drive_tasks(ex, ts).await)
    })?;
    for r in rs {
        r?;
    }
    Ok(())
}
pub fn case(c: &mut Ctx) -> Res {
    if c.s.flip() {
        return tasks(c);
    }
    let d = c.s.flip();
    match c.s.below(8) {
        0 => threads::<Vec<u8>, Vec<u8>>(c, d),
        1 => threads::<(u64, String), Blob<16384>>(c, d),
        2 => threads::<V, Vec<u8>>(c, d),
        3 => threads::<(), Vec<(u64, u8)>>(c, d),
        4 => threads::<Blob<32766>, PodS>(c, d),
        5 => threads::<Option<Box<[Vec<u8>]>>, u64>(c, d),
        6 => threads::<u64, Blob<60000>>(c, d),
        _ => threads::<Vec<u8>, Zst>(c, d),
    }
}
