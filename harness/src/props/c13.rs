// C13: Delayed values, unwrapped at generated moments among their neighbours.
use crossmist::{Delayed, Deserializer, Object, Serializer};
use std::os::fd::AsRawFd;
use vh::flav::*;
use vh::hand::*;
use vh::kid::*;
use vh::run::*;
use vh::src::Src;
use vh::util::*;
use vh::{ensure, must, start, violated};

#[derive(Object)]
pub enum E {
    Plain(HV),
    Del(Delayed<HV>),
    DelV(Delayed<Vec<HV>>),
    Nest(Delayed<(HV, Delayed<HV>, HV)>),
    Deep(Box<Delayed<Delayed<Delayed<HV>>>>),
    Opt(Option<Delayed<(u8, HV, String)>>),
    Many(Vec<Delayed<HV>>, String),
    Mix { a: HV, d: Delayed<HV>, b: HV },
    Num(u64),
    DelDyn(Delayed<Box<dyn HasHandle>>, u8),
}
/// Descriptions of the parts, in the order of `open`.
type Want = Vec<Vec<String>>;
struct Made {
    e: E,
    want: Want,
    /// Numbers of handles which are under way for it: in plain parts (descriptors), and in each wrapper
    plain: Vec<i32>,
    wrapped: usize,
}
/// The opened object: its parts; nothing if it was not wrapped before
fn open(e: E) -> std::io::Result<Vec<HV>> {
    Ok(match e {
        E::Plain(x) => vec![x],
        E::Del(x) => vec![x.deserialize()?],
        E::DelV(x) => x.deserialize()?,
        E::Nest(x) => {
            let (a, d, b) = x.deserialize()?;
            let d = d.deserialize()?;
            vec![a, d, b]
        }
        E::Deep(x) => vec![x.deserialize()?.deserialize()?.deserialize()?],
        E::Opt(x) => match x {
            None => vec![],
            Some(x) => {
                let (a, b, c) = x.deserialize()?;
                vec![HV::N(a as u64), b, HV::Text(c)]
            }
        },
        E::Many(x, s) => {
            let mut v = vec![HV::Text(s)];
            for x in x.into_iter().rev() {
                v.push(x.deserialize()?);
            }
            v
        }
        E::Mix { a, d, b } => {
            let d = d.deserialize()?;
            vec![a, d, b]
        }
        E::Num(x) => vec![HV::N(x)],
        E::DelDyn(d, x) => vec![HV::Dyn(d.deserialize()?), HV::N(x as u64)],
    })
}
fn dd<'a>(xs: impl IntoIterator<Item = &'a HV>) -> usize {
    let mut v: Vec<i32> = xs.into_iter().flat_map(|x| x.fds()).collect();
    v.sort();
    v.dedup();
    v.len()
}
fn gen_e(s: &mut Src, mp: &mut Maker, md: &mut Maker, left: &mut usize) -> Made {
    let k = s.below(10);
    let mut count = |s: &mut Src| {
        let n = handle_count(s, *left).min(*left);
        *left -= n;
        n
    };
    let mut want = vec![];
    let mut plain = vec![];
    let mut wrapped = 0;
    let mut del = |s: &mut Src, n: usize| md.hv(s, n, 3);
    let e = match k {
        0 => {
            let n = count(s);
            let x = mp.hv(s, n, 3);
            want.push(x.describe());
            plain.extend(x.fds());
            E::Plain(x)
        }
        1 | 2 => {
            let n = count(s);
            let x = del(s, n);
            want.push(x.describe());
            wrapped += dd([&x]);
            E::Del(Delayed::new(x))
        }
        3 => {
            let v: Vec<HV> = (0..s.below(4))
                .map(|_| {
                    let n = count(s);
                    del(s, n)
                })
                .collect();
            want.extend(v.iter().map(|x| x.describe()));
            wrapped += dd(&v);
            E::DelV(Delayed::new(v))
        }
        4 => {
            let mut one = |s: &mut Src| {
                let n = count(s);
                del(s, n)
            };
            let (a, d, b) = (one(s), one(s), one(s));
            want.extend([a.describe(), d.describe(), b.describe()]);
            wrapped += dd([&a, &b]) + dd([&d]);
            E::Nest(Delayed::new((a, Delayed::new(d), b)))
        }
        5 => {
            let n = count(s);
            let x = del(s, n);
            want.push(x.describe());
            wrapped += dd([&x]);
            E::Deep(Box::new(Delayed::new(Delayed::new(Delayed::new(x)))))
        }
        6 => {
            if s.flip() {
                let n = count(s);
                let (a, b, c) = (s.below(256) as u8, del(s, n), "q".repeat(s.idx(30)));
                want.extend([HV::N(a as u64).describe(), b.describe(), HV::Text(c.clone()).describe()]);
                wrapped += dd([&b]);
                E::Opt(Some(Delayed::new((a, b, c))))
            } else {
                E::Opt(None)
            }
        }
        7 => {
            let t = "many".repeat(s.idx(3));
            want.push(HV::Text(t.clone()).describe());
            let v: Vec<HV> = (0..s.below(4))
                .map(|_| {
                    let n = count(s);
                    del(s, n)
                })
                .collect();
            want.extend(v.iter().rev().map(|x| x.describe()));
            wrapped += v.iter().map(|x| dd([x])).sum::<usize>();
            E::Many(v.into_iter().map(Delayed::new).collect(), t)
        }
        8 => {
            let (na, nd, nb) = (count(s), count(s), count(s));
            let a = mp.hv(s, na, 2);
            let d = del(s, nd);
            let b = mp.hv(s, nb, 2);
            want.extend([a.describe(), d.describe(), b.describe()]);
            plain.extend(a.fds());
            plain.extend(b.fds());
            wrapped += dd([&d]);
            E::Mix { a, d: Delayed::new(d), b }
        }
        _ => {
            if *left >= 2 && s.flip() {
                *left -= 2;
                let h = md.h(s);
                let d: Box<dyn HasHandle> = if s.flip() { Box::new(DynA { a: 7, h, s: "dyn".into() }) } else { Box::new(DynB(vec![h, md.h(s)])) };
                let x = s.below(256) as u8;
                let hv = HV::Dyn(d);
                want.extend([hv.describe(), HV::N(x as u64).describe()]);
                wrapped += dd([&hv]);
                let HV::Dyn(d) = hv else { unreachable!() };
                E::DelDyn(Delayed::new(d), x)
            } else {
                let x = s.word();
                want.push(HV::N(x).describe());
                E::Num(x)
            }
        }
    };
    Made { e, want, plain, wrapped }
}
/// What to do with the elements, in which order: 0 open and keep, 1 open and drop, 2 drop unopened
type Plan = Vec<(usize, u8)>;
fn follow(v: Vec<E>, plan: &Plan, want: &[Want], not: &[i32], opened: &mut Vec<Vec<HV>>) -> Result<(), String> {
    let mut v: Vec<Option<E>> = v.into_iter().map(Some).collect();
    for (i, what) in plan {
        let e = v[*i].take().unwrap();
        let n0 = open_fds().len();
        if *what == 2 {
            drop(e);
            continue;
        }
        let parts = open(e).map_err(|e| format!("unwrapping element {i} failed: {e}"))?;
        if open_fds().len() != n0 {
            return Err(format!("unwrapping element {i} changed the number of descriptors from {n0} to {}", open_fds().len()));
        }
        if parts.len() != want[*i].len() {
            return Err(format!("element {i} has {} parts instead of {}", parts.len(), want[*i].len()));
        }
        for (p, w) in parts.iter().zip(&want[*i]) {
            match check_copy(w, p, not) {
                Err(Fail::V(m)) => return Err(format!("element {i}: {m}")),
                _ => {}
            }
        }
        if *what == 0 {
            opened.push(parts);
        }
    }
    // Nobody has disturbed the others
    for (parts, (i, _)) in opened.iter().zip(plan.iter().filter(|x| x.1 == 0)) {
        for (p, w) in parts.iter().zip(&want[*i]) {
            if let Some(d) = diff(w, &p.describe()) {
                return Err(format!("element {i} changed later: {d}"));
            }
        }
    }
    Ok(())
}
type Back = (Option<String>, Vec<Delayed<Vec<HV>>>);
fn in_child(v: Vec<E>, plan: Plan, want: Vec<Want>, handles: usize) -> Back {
    let rt = tokio_rt();
    let _g = rt.enter();
    in_child_here(v, plan, want, handles)
}
fn dd_groups(v: &[HV]) -> usize {
    v.iter().map(|x| x.fds().len()).sum()
}
#[crossmist::func]
fn probe(v: Vec<E>, plan: Plan, want: Vec<Want>, handles: usize) -> Back {
    in_child(v, plan, want, handles)
}
#[crossmist::func(tokio(flavor = "current_thread"))]
async fn probe_tokio(v: Vec<E>, plan: Plan, want: Vec<Want>, handles: usize) -> Back {
    in_child_here(v, plan, want, handles)
}
fn in_child_here(v: Vec<E>, plan: Plan, want: Vec<Want>, handles: usize) -> Back {
    mark("in_child");
    warm_smol();
    let mut opened = vec![];
    let before = open_fds().len();
    if let Err(m) = follow(v, &plan, &want, &[], &mut opened) {
        return (Some(m), vec![]);
    }
    let kept: usize = opened.iter().map(|x| dd_groups(x)).sum();
    let now = open_fds().len();
    if now > before - handles + kept {
        return (Some(format!("{now} descriptors are open, expected at most {before} - {handles} + {kept}")), vec![]);
    }
    (None, opened.into_iter().map(Delayed::new).collect())
}
/// Among its arguments, a wrapped one which is never opened, and one opened last
#[crossmist::func]
fn probe_args(a: Delayed<HV>, first: u64, v: Vec<E>, b: Delayed<HV>, plan: Plan, want: Vec<Want>, handles: usize, wb: Vec<String>) -> Back {
    let r = in_child(v, plan, want, handles);
    drop(a);
    let rt = tokio_rt();
    let _g = rt.enter();
    match b.deserialize() {
        Err(e) => (Some(format!("the last argument: {e}")), vec![]),
        Ok(b) => match diff(&wb, &b.describe()) {
            Some(d) => (Some(format!("the last argument: {d}")), vec![]),
            None if first != 5 => (Some("the argument between".into()), vec![]),
            None => r,
        },
    }
}

pub fn case(c: &mut Ctx) -> Res {
    let base = open_fds();
    let rt = tokio_rt();
    let r = inner(c, &rt);
    drop(rt);
    r?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    ensure!(!any_child(), "a child remains");
    Ok(())
}
fn inner(c: &mut Ctx, rt: &::tokio::runtime::Runtime) -> Res {
    let path = c.s.below(8);
    let n = 1 + c.s.len(6);
    let mut mp = Maker { no_tokio: true, ..Default::default() };
    let mut md = Maker::default();
    let mut left = if c.s.below(5) == 0 { 600 } else { 40 };
    let guard = rt.enter();
    let mut made: Vec<Made> = (0..n).map(|_| gen_e(&mut c.s, &mut mp, &mut md, &mut left)).collect();
    let extra = (path == 7).then(|| (md.hv(&mut c.s, 1, 2), md.hv(&mut c.s, 2, 2)));
    mp.settle();
    md.settle();
    drop(guard);
    let want: Vec<Want> = made.iter().map(|m| m.want.clone()).collect();
    let mut plain: Vec<i32> = made.iter().flat_map(|m| m.plain.clone()).collect();
    plain.sort();
    plain.dedup();
    let wrapped: usize = made.iter().map(|m| m.wrapped).sum();
    let handles = plain.len() + wrapped;
    let order = c.s.perm(n);
    let plan: Plan = order.into_iter().map(|i| (i, c.s.weighted(&[4, 2, 2]) as u8)).collect();
    if wrapped > 0 {
        c.nontrivial();
    }
    let kinds: Vec<String> = want.iter().map(|w| format!("{} parts", w.len())).collect();
    c.note(|| format!("path {path}, {} handles in plain and {wrapped} in delayed parts, elements {kinds:?}, plan {plan:?}", plain.len()));
    let v: Vec<E> = made.drain(..).map(|m| m.e).collect();
    let sources = open_fds();
    let not: Vec<i32> = sources.keys().copied().collect();
    let receive_here = |w: Vec<E>| -> Res {
        // what has arrived
        let now = open_fds();
        let extra: Vec<i32> = now.keys().filter(|fd| !sources.contains_key(fd)).copied().collect();
        ensure!(extra.len() == handles, "{} descriptors are new after receiving, expected {handles}", extra.len());
        for fd in &extra {
            ensure!(is_cloexec(*fd), "received handle {fd} is not close-on-exec");
        }
        let _g = rt.enter();
        let mut opened = vec![];
        if let Err(m) = follow(w, &plan, &want, &not, &mut opened) {
            violated!("{m}");
        }
        drop(opened);
        drop(_g);
        if let Some(d) = fd_settled(&sources) {
            violated!("descriptors differ after the received values were dropped: {d}");
        }
        Ok(())
    };
    match path {
        0 => {
            let mut s = Serializer::new();
            s.serialize(&v);
            let hs: Vec<_> = must!(s.drain_handles().into_iter().map(|h| h.try_clone_to_owned()).collect::<std::io::Result<Vec<_>>>(), "dup");
            let data = s.into_vec();
            let w: Vec<E> = must!(unsafe { Deserializer::new(data, hs).deserialize() }, "deserialize");
            receive_here(w)?;
        }
        1 | 2 => {
            let fl = [FLS[c.s.idx(3)], FLS[c.s.idx(3)]];
            c.note(|| format!("{fl:?}"));
            let w = std::thread::scope(|scope| -> Result<Vec<E>, Fail> {
                let (tx, rx) = must!(crossmist::channel::<Vec<E>>(), "channel");
                let sh = Hand((tx, &v));
                let h = scope.spawn(move || {
                    let (tx, v) = sh.get();
                    drive(fl[0], async {
                        let mut tx = Tx::from_blocking(tx, fl[0])?;
                        tx.send(v).await
                    })
                });
                let receive = async {
                    let mut rx = must!(Rx::from_blocking(rx, fl[1]), "conversion");
                    let w = must!(rx.recv().await, "recv");
                    Ok(match w {
                        Some(x) => x,
                        None => violated!("no message"),
                    })
                };
                let w = match fl[1] {
                    Fl::T => rt.block_on(receive),
                    Fl::S => async_io::block_on(receive),
                    Fl::B => futures_lite::future::block_on(receive),
                    Fl::C => vh::own::block_on(receive),
                }?;
                must!(h.join().unwrap(), "send");
                Ok(w)
            })?;
            receive_here(w)?;
            drop(v);
        }
        _ => {
            let how = c.s.idx(6);
            let f = c.s.below(2);
            c.note(|| format!("{} function {f}", HOWS[how]));
            let (p2, w2) = (plan.clone(), want.clone());
            let (err, back) = drive(how_fl(how), async {
                let k = match (path, extra) {
                    (7, Some((a, b))) => {
                        let wb = b.describe();
                        start!(how, probe_args, Delayed::new(a), 5, v, Delayed::new(b), p2, w2, handles, wb)
                    }
                    (_, _) if f == 0 => start!(how, probe_tokio, v, p2, w2, handles),
                    _ => start!(how, probe, v, p2, w2, handles),
                };
                let k = must!(k, "{}", HOWS[how]);
                // the arguments have been consumed
                Ok(must!(k.join().await, "join"))
            })?;
            if let Some(m) = err {
                violated!("in the child: {m}");
            }
            let _g = rt.enter();
            let kept: Vec<usize> = plan.iter().filter(|x| x.1 == 0).map(|x| x.0).collect();
            ensure!(back.len() == kept.len(), "{} objects came back instead of {}", back.len(), kept.len());
            for (x, i) in back.into_iter().zip(kept) {
                let parts = must!(x.deserialize(), "unwrapping the result");
                for (p, w) in parts.iter().zip(&want[i]) {
                    if let Some(d) = diff(w, &p.describe()) {
                        violated!("element {i} came back different: {d}");
                    }
                }
            }
        }
    }
    for (p, kind) in mp.partners.iter().chain(&md.partners) {
        let _ = (p.as_raw_fd(), kind);
    }
    Ok(())
}
