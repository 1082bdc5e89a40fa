// C02: random graphs of shared pointers.
use crossmist::{Deserializer, NonTrivialObject, Object, Serializer};
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::sync::Arc;
use vh::run::*;
use vh::src::Src;
use vh::{ensure, must};

pub trait GT: Object {
    fn inner(&self) -> (&Rc<G>, &Arc<u64>);
    fn tag(&self) -> u8;
}
#[derive(Object)]
pub struct Ga(Rc<G>, Arc<u64>, u8);
impl GT for Ga {
    fn inner(&self) -> (&Rc<G>, &Arc<u64>) {
        (&self.0, &self.1)
    }
    fn tag(&self) -> u8 {
        self.2
    }
}
#[derive(Object)]
pub struct Gb {
    t: String,
    b: Arc<u64>,
    a: Rc<G>,
}
impl GT for Gb {
    fn inner(&self) -> (&Rc<G>, &Arc<u64>) {
        (&self.a, &self.b)
    }
    fn tag(&self) -> u8 {
        100 + self.t.len() as u8
    }
}
#[derive(Object)]
pub struct Gen<T: Object> {
    x: T,
    y: Option<T>,
}

/// Shared pointers of the program's own, made with the public functions for that: one which registers the object
/// after it was built, and one which reserves its place before.
pub struct Own(Rc<u64>);
unsafe impl NonTrivialObject for Own {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const _) {
            None => {
                s.serialize_temporary(None::<NonZeroUsize>);
                s.serialize(&*self.0);
            }
            id => s.serialize_temporary(id),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        Ok(Own(match d.deserialize::<Option<NonZeroUsize>>()? {
            None => {
                let x = Rc::new(d.deserialize::<u64>()?);
                d.learn_cyclic(x.clone());
                x
            }
            Some(id) => d.get_cyclic::<Rc<u64>>(id).clone(),
        }))
    }
}
pub struct OwnNode(Arc<(G, Own)>);
unsafe impl NonTrivialObject for OwnNode {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        let id = s.learn_cyclic(Arc::as_ptr(&self.0) as *const _);
        s.serialize_temporary((7u8, id));
        if id.is_none() {
            s.serialize(&self.0 .1);
            s.serialize(&self.0 .0);
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let (seven, id): (u8, Option<NonZeroUsize>) = d.deserialize()?;
        assert!(seven == 7, "the reader is at a wrong position");
        Ok(OwnNode(match id {
            None => {
                let id = d.reserve_cyclic();
                let o = d.deserialize()?;
                let x = Arc::new((d.deserialize()?, o));
                d.fill_cyclic(id, x.clone());
                x
            }
            Some(id) => d.get_cyclic::<Arc<(G, Own)>>(id).clone(),
        }))
    }
}

#[derive(Object)]
pub enum G {
    Own(Own),
    OwnNode(OwnNode),
    Leaf(u64),
    R(Rc<G>),
    A(Arc<G>),
    Str(Rc<String>),
    Num(Arc<u64>),
    Pod(Rc<(u8, u32)>),
    Unit(Rc<()>),
    UnitA(Arc<()>),
    RR(Rc<Rc<G>>),
    AR(Arc<Rc<G>>),
    RV(Rc<Vec<Rc<G>>>),
    RB(Rc<Box<G>>),
    Vec(Vec<G>),
    Bx(Box<G>),
    Opt(Option<Arc<G>>),
    Res(Result<Rc<G>, Arc<G>>),
    Map(BTreeMap<u8, G>),
    HMap(HashMap<u8, Rc<G>>),
    Deq(VecDeque<Arc<G>>),
    List(LinkedList<Rc<G>>),
    Arr([Rc<G>; 2]),
    Sl(Box<[Arc<G>]>),
    Tup(Box<(u8, Rc<G>, Arc<u64>)>),
    Set(BTreeSet<Rc<u8>>),
    Dyn(Box<dyn GT>),
    Gn { g: Gen<Rc<G>>, u: Gen<Arc<()>> },
    Slc(Rc<Box<[G]>>),
}

#[derive(Default)]
struct Pool {
    r: Vec<Rc<G>>,
    a: Vec<Arc<G>>,
    s: Vec<Rc<String>>,
    n: Vec<Arc<u64>>,
    p: Vec<Rc<(u8, u32)>>,
    u: Vec<Rc<()>>,
    ua: Vec<Arc<()>>,
    rr: Vec<Rc<Rc<G>>>,
    ar: Vec<Arc<Rc<G>>>,
    rv: Vec<Rc<Vec<Rc<G>>>>,
    rb: Vec<Rc<Box<G>>>,
    k: Vec<Rc<u8>>,
    slc: Vec<Rc<Box<[G]>>>,
    own: Vec<Rc<u64>>,
    node: Vec<Arc<(G, Own)>>,
    made: usize,
    reused: usize,
}
macro_rules! ptr {
    ($f:ident, $pool:ident, $t:ty, $s:ident, $p:ident, $d:ident, $make:expr) => {
        fn $f($s: &mut Src, $p: &mut Pool, $d: u32) -> $t {
            let reuse = $s.below(3);
            if reuse > 0 && !$p.$pool.is_empty() {
                let i = $s.idx($p.$pool.len());
                $p.reused += 1;
                return $p.$pool[i].clone();
            }
            let $d = $d.saturating_sub(1);
            let v: $t = $make.into();
            $p.made += 1;
            $p.$pool.push(v.clone());
            v
        }
    };
}
ptr!(rc, r, Rc<G>, s, p, d, Rc::new(g(s, p, d)));
ptr!(arc, a, Arc<G>, s, p, d, Arc::new(g(s, p, d)));
ptr!(st, s, Rc<String>, s, p, _d, Rc::new("x".repeat(s.idx(4))));
ptr!(num, n, Arc<u64>, s, p, _d, Arc::new(s.word()));
ptr!(pod, p, Rc<(u8, u32)>, s, p, _d, Rc::new((s.below(256) as u8, s.word() as u32)));
ptr!(unit, u, Rc<()>, s, p, _d, { let _ = &s; Rc::new(()) });
ptr!(unita, ua, Arc<()>, s, p, _d, { let _ = &s; Arc::new(()) });
ptr!(rr, rr, Rc<Rc<G>>, s, p, d, Rc::new(rc(s, p, d)));
ptr!(ar, ar, Arc<Rc<G>>, s, p, d, Arc::new(rc(s, p, d)));
ptr!(rv, rv, Rc<Vec<Rc<G>>>, s, p, d, { let n = s.idx(4); Rc::new((0..n).map(|_| rc(s, p, d)).collect::<Vec<_>>()) });
ptr!(rb, rb, Rc<Box<G>>, s, p, d, Rc::new(Box::new(g(s, p, d))));
ptr!(key, k, Rc<u8>, s, p, _d, Rc::new(s.below(256) as u8));
ptr!(slc, slc, Rc<Box<[G]>>, s, p, d, { let n = s.idx(4); Rc::new((0..n).map(|_| g(s, p, d)).collect::<Vec<_>>().into_boxed_slice()) });
ptr!(own, own, Rc<u64>, s, p, _d, Rc::new(s.word()));
ptr!(node, node, Arc<(G, Own)>, s, p, d, Arc::new((g(s, p, d), Own(own(s, p, d)))));

fn g(s: &mut Src, p: &mut Pool, d: u32) -> G {
    let e = d.saturating_sub(1);
    let k = if d == 0 { s.below(8) } else { s.below(30) };
    match k {
        0 => G::Leaf(s.word()),
        1 => G::Str(st(s, p, e)),
        2 => G::Num(num(s, p, e)),
        3 => G::Pod(pod(s, p, e)),
        4 => G::Unit(unit(s, p, e)),
        5 => G::UnitA(unita(s, p, e)),
        6 => {
            if d == 0 && p.r.is_empty() {
                return G::Leaf(0);
            }
            G::R(if d == 0 { p.reused += 1; p.r[s.idx(p.r.len())].clone() } else { rc(s, p, e) })
        }
        7 => G::Own(Own(own(s, p, e))),
        27 => G::A(arc(s, p, e)),
        28 | 29 => G::OwnNode(OwnNode(node(s, p, e))),
        8 => G::RR(rr(s, p, e)),
        9 => G::AR(ar(s, p, e)),
        10 => G::RV(rv(s, p, e)),
        11 => G::RB(rb(s, p, e)),
        12 => G::Vec({ let n = s.idx(6); (0..n).map(|_| g(s, p, e)).collect() }),
        13 => G::Bx(Box::new(g(s, p, e))),
        14 => G::Opt(if s.flip() { Some(arc(s, p, e)) } else { None }),
        15 => G::Res(if s.flip() { Ok(rc(s, p, e)) } else { Err(arc(s, p, e)) }),
        16 => G::Map({ let n = s.idx(5); (0..n).map(|i| (i as u8, g(s, p, e))).collect() }),
        17 => G::HMap({ let n = s.idx(6); (0..n).map(|i| (i as u8, rc(s, p, e))).collect() }),
        18 => G::Deq({
            let n = s.idx(5);
            let mut q = VecDeque::new();
            for _ in 0..n {
                let x = arc(s, p, e);
                if s.flip() { q.push_front(x) } else { q.push_back(x) }
            }
            q
        }),
        19 => G::List({ let n = s.idx(5); (0..n).map(|_| rc(s, p, e)).collect() }),
        20 => G::Arr([rc(s, p, e), rc(s, p, e)]),
        21 => G::Sl({ let n = s.idx(5); (0..n).map(|_| arc(s, p, e)).collect() }),
        22 => G::Tup(Box::new((s.below(256) as u8, rc(s, p, e), num(s, p, e)))),
        23 => G::Set({ let n = s.idx(5); (0..n).map(|_| key(s, p, e)).collect() }),
        24 => G::Dyn(if s.flip() { Box::new(Gb { t: "t".repeat(s.idx(9)), b: num(s, p, e), a: rc(s, p, e) }) } else { Box::new(Ga(rc(s, p, e), num(s, p, e), s.below(99) as u8)) }),
        25 => G::Gn { g: Gen { x: rc(s, p, e), y: if s.flip() { Some(rc(s, p, e)) } else { None } }, u: Gen { x: unita(s, p, e), y: if s.flip() { Some(unita(s, p, e)) } else { None } } },
        _ => G::Slc(slc(s, p, e)),
    }
}

/// The correspondence between the pointers of the original and those of the copy.
#[derive(Default)]
struct Map {
    fwd: HashMap<usize, usize>,
    rev: HashMap<usize, usize>,
    uses: HashMap<usize, (usize, usize)>, // copy address -> (pointers seen, strong count)
}
type W = Result<(), String>;
impl Map {
    /// Ok(true): first visit, go deeper.
    fn visit(&mut self, a: usize, b: usize, strong: usize) -> Result<bool, String> {
        self.uses.entry(b).or_insert((0, strong)).0 += 1;
        match (self.fwd.get(&a), self.rev.get(&b)) {
            (Some(x), _) if *x == b => Ok(false),
            (Some(_), _) => Err("pointers to one object became pointers to different objects".into()),
            (None, Some(_)) => Err("pointers to different objects became pointers to one object".into()),
            (None, None) => {
                self.fwd.insert(a, b);
                self.rev.insert(b, a);
                Ok(true)
            }
        }
    }
    fn rc<T>(&mut self, a: &Rc<T>, b: &Rc<T>, f: impl FnOnce(&mut Map, &T, &T) -> W) -> W {
        if self.visit(Rc::as_ptr(a) as *const () as usize, Rc::as_ptr(b) as *const () as usize, Rc::strong_count(b))? {
            f(self, a, b)?;
        }
        Ok(())
    }
    fn arc<T>(&mut self, a: &Arc<T>, b: &Arc<T>, f: impl FnOnce(&mut Map, &T, &T) -> W) -> W {
        if self.visit(Arc::as_ptr(a) as *const () as usize, Arc::as_ptr(b) as *const () as usize, Arc::strong_count(b))? {
            f(self, a, b)?;
        }
        Ok(())
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(_: &mut Map, a: &T, b: &T) -> W {
    if a == b { Ok(()) } else { Err(format!("contents differ: {a:?} became {b:?}")) }
}
fn seq<'a, T: 'a>(m: &mut Map, a: impl ExactSizeIterator<Item = &'a T>, b: impl ExactSizeIterator<Item = &'a T>, mut f: impl FnMut(&mut Map, &T, &T) -> W) -> W {
    if a.len() != b.len() {
        return Err(format!("length {} became {}", a.len(), b.len()));
    }
    for (x, y) in a.zip(b) {
        f(m, x, y)?;
    }
    Ok(())
}
fn rcg(m: &mut Map, a: &Rc<G>, b: &Rc<G>) -> W {
    m.rc(a, b, walk)
}
fn arcg(m: &mut Map, a: &Arc<G>, b: &Arc<G>) -> W {
    m.arc(a, b, walk)
}
fn walk(m: &mut Map, a: &G, b: &G) -> W {
    use G::*;
    match (a, b) {
        (Leaf(a), Leaf(b)) => eq(m, a, b),
        (Own(a), Own(b)) => m.rc(&a.0, &b.0, eq),
        (OwnNode(a), OwnNode(b)) => m.arc(&a.0, &b.0, |m, a, b| {
            walk(m, &a.0, &b.0)?;
            m.rc(&a.1 .0, &b.1 .0, eq)
        }),
        (R(a), R(b)) => rcg(m, a, b),
        (A(a), A(b)) => arcg(m, a, b),
        (Str(a), Str(b)) => m.rc(a, b, eq),
        (Num(a), Num(b)) => m.arc(a, b, eq),
        (Pod(a), Pod(b)) => m.rc(a, b, eq),
        (Unit(a), Unit(b)) => m.rc(a, b, eq),
        (UnitA(a), UnitA(b)) => m.arc(a, b, eq),
        (RR(a), RR(b)) => m.rc(a, b, rcg),
        (AR(a), AR(b)) => m.arc(a, b, rcg),
        (RV(a), RV(b)) => m.rc(a, b, |m, a, b| seq(m, a.iter(), b.iter(), rcg)),
        (RB(a), RB(b)) => m.rc(a, b, |m, a, b| walk(m, a, b)),
        (Vec(a), Vec(b)) => seq(m, a.iter(), b.iter(), walk),
        (Bx(a), Bx(b)) => walk(m, a, b),
        (Opt(a), Opt(b)) => seq(m, a.as_slice().iter(), b.as_slice().iter(), arcg),
        (Res(Ok(a)), Res(Ok(b))) => rcg(m, a, b),
        (Res(Err(a)), Res(Err(b))) => arcg(m, a, b),
        (Map(a), Map(b)) => {
            seq(m, a.keys(), b.keys(), eq)?;
            seq(m, a.values(), b.values(), walk)
        }
        (HMap(a), HMap(b)) => {
            if a.len() != b.len() {
                return Err("length differs".into());
            }
            for (k, v) in a {
                rcg(m, v, b.get(k).ok_or("a key is missing")?)?;
            }
            Ok(())
        }
        (Deq(a), Deq(b)) => seq(m, a.iter(), b.iter(), arcg),
        (List(a), List(b)) => seq(m, a.iter(), b.iter(), rcg),
        (Arr(a), Arr(b)) => seq(m, a.iter(), b.iter(), rcg),
        (Sl(a), Sl(b)) => seq(m, a.iter(), b.iter(), arcg),
        (Tup(a), Tup(b)) => {
            eq(m, &a.0, &b.0)?;
            rcg(m, &a.1, &b.1)?;
            m.arc(&a.2, &b.2, eq)
        }
        (Set(a), Set(b)) => seq(m, a.iter(), b.iter(), |m, a, b| m.rc(a, b, eq)),
        (Dyn(a), Dyn(b)) => {
            eq(m, &a.tag(), &b.tag())?;
            rcg(m, a.inner().0, b.inner().0)?;
            m.arc(a.inner().1, b.inner().1, eq)
        }
        (Gn { g: a, u: x }, Gn { g: b, u: y }) => {
            rcg(m, &a.x, &b.x)?;
            seq(m, a.y.as_slice().iter(), b.y.as_slice().iter(), rcg)?;
            m.arc(&x.x, &y.x, eq)?;
            seq(m, x.y.as_slice().iter(), y.y.as_slice().iter(), |m, a, b| m.arc(a, b, eq))
        }
        (Slc(a), Slc(b)) => m.rc(a, b, |m, a, b| seq(m, a.iter(), b.iter(), walk)),
        _ => Err("a variant changed".into()),
    }
}
fn variant(g: &G, depth: u32) -> String {
    use G::*;
    if depth == 0 {
        return "…".into();
    }
    let d = depth - 1;
    let many = |n: &str, it: &mut dyn Iterator<Item = &G>| format!("{n}[{}]", it.map(|x| variant(x, d)).collect::<std::vec::Vec<_>>().join(","));
    match g {
        Leaf(_) => "leaf".into(),
        Own(a) => format!("own@{:x}", Rc::as_ptr(&a.0) as usize & 0xfffff),
        OwnNode(a) => format!("OwnArc@{:x}({})", Arc::as_ptr(&a.0) as usize & 0xfffff, variant(&a.0 .0, d)),
        R(a) => format!("Rc@{:x}({})", Rc::as_ptr(a) as usize & 0xfffff, variant(a, d)),
        A(a) => format!("Arc@{:x}({})", Arc::as_ptr(a) as usize & 0xfffff, variant(a, d)),
        Str(a) => format!("str@{:x}", Rc::as_ptr(a) as usize & 0xfffff),
        Num(a) => format!("num@{:x}", Arc::as_ptr(a) as usize & 0xfffff),
        Pod(_) => "pod".into(),
        Unit(a) => format!("unit@{:x}", Rc::as_ptr(a) as usize & 0xfffff),
        UnitA(_) => "unita".into(),
        RR(a) => format!("RcRc@{:x}({})", Rc::as_ptr(a) as usize & 0xfffff, variant(a, d)),
        AR(a) => format!("ArcRc@{:x}({})", Arc::as_ptr(a) as usize & 0xfffff, variant(a, d)),
        RV(a) => many("RcVec", &mut a.iter().map(|x| &**x)),
        RB(a) => format!("RcBox({})", variant(a, d)),
        Vec(a) => many("vec", &mut a.iter()),
        Bx(a) => format!("box({})", variant(a, d)),
        Opt(a) => many("opt", &mut a.iter().map(|x| &**x)),
        Res(Ok(a)) => format!("ok({})", variant(a, d)),
        Res(Err(a)) => format!("err({})", variant(a, d)),
        Map(a) => many("map", &mut a.values()),
        HMap(a) => many("hmap", &mut a.values().map(|x| &**x)),
        Deq(a) => many("deq", &mut a.iter().map(|x| &**x)),
        List(a) => many("list", &mut a.iter().map(|x| &**x)),
        Arr(a) => many("arr", &mut a.iter().map(|x| &**x)),
        Sl(a) => many("slice", &mut a.iter().map(|x| &**x)),
        Tup(a) => format!("tup({})", variant(&a.1, d)),
        Set(a) => format!("set{}", a.len()),
        Dyn(a) => format!("dyn({})", variant(a.inner().0, d)),
        Gn { g, .. } => format!("gen({})", variant(&g.x, d)),
        Slc(a) => many("RcSlice", &mut a.iter()),
    }
}

/// More objects than the graphs of the other cases have: numbers of any size must work.
fn many(c: &mut Ctx) -> Res {
    let n = match c.s.below(4) {
        0 => c.s.urange(120, 140),
        1 => c.s.urange(250, 260),
        2 => c.s.urange(32_760, 32_775),
        _ => c.s.urange(65_530, 70_000),
    };
    let seed = c.s.word();
    let r = |i: usize| vh::src::mix(seed.wrapping_add(i as u64)) as usize;
    c.note(|| format!("{n} objects, and pointers to all of them again"));
    c.label("many objects");
    c.nontrivial();
    let objects: Vec<Arc<(u32, Option<Rc<u32>>)>> = (0..n / 2).map(|i| Arc::new((i as u32, if i % 2 == 0 { Some(Rc::new(!i as u32)) } else { None }))).collect();
    let more: Vec<Rc<u32>> = (0..n - n / 2).map(|i| Rc::new(7 * i as u32)).collect();
    let again: Vec<(Arc<(u32, Option<Rc<u32>>)>, Rc<u32>)> = (0..n).map(|i| (objects[r(i) % objects.len()].clone(), more[r(i) / n % more.len()].clone())).collect();
    let v = (objects, more, again);
    let mut s = Serializer::new();
    s.serialize(&v);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    let got: (Vec<Arc<(u32, Option<Rc<u32>>)>>, Vec<Rc<u32>>, Vec<(Arc<(u32, Option<Rc<u32>>)>, Rc<u32>)>) = must!(unsafe { d.deserialize() }, "deserializing");
    drop(d);
    ensure!(got.0 == v.0 && got.1 == v.1 && got.2.len() == n, "the contents differ");
    for i in 0..n {
        let (a, b) = (r(i) % v.0.len(), r(i) / n % v.1.len());
        ensure!(Arc::ptr_eq(&got.2[i].0, &got.0[a]) && Rc::ptr_eq(&got.2[i].1, &got.1[b]), "pointer {i} of {n} does not lead to its object");
    }
    for (i, x) in got.1.iter().enumerate() {
        ensure!(Rc::strong_count(x) == Rc::strong_count(&v.1[i]), "object {i} has another number of pointers");
    }
    Ok(())
}

pub fn case(c: &mut Ctx) -> Res {
    if c.s.below(15_000) == 14_999 {
        return many(c);
    }
    let mut p = Pool::default();
    let depth = c.s.range(1, 6) as u32;
    let n = c.s.urange(1, 5);
    let roots: Vec<G> = (0..n).map(|_| g(&mut c.s, &mut p, depth)).collect();
    // Keeps everything alive only through the roots from here on
    let (made, reused) = (p.made, p.reused);
    drop(p);
    let seps = c.s.flip();
    // A temporary object may contain shared pointers, too; its objects are its own
    let temps: Vec<u64> = (0..n).map(|_| if c.s.chance(1, 4) { 1 + c.s.below(3) } else { 0 }).collect();
    let alias = Rc::new(77u32);
    c.note(|| format!("{made} objects made, {reused} pointers shared, roots: {}", roots.iter().map(|x| variant(x, 6)).collect::<Vec<_>>().join(" | ")));
    let mode = c.s.below(3);
    let mut s = Serializer::new();
    let mut copy: Vec<G> = Vec::new();
    if mode == 0 || temps.iter().any(|t| *t > 0) {
        for (r, t) in roots.iter().zip(&temps) {
            match t {
                1 => s.serialize_temporary((Rc::new(1u32), Arc::new(2u64))),
                2 => {
                    let x = Rc::new(3u32);
                    s.serialize_temporary((x.clone(), x, alias.clone()))
                }
                3 => s.serialize_temporary(vec![Rc::new(1u32); 3]),
                _ => {}
            }
            s.serialize(r);
            if seps {
                s.serialize_temporary(0xabcdu16);
            }
        }
        let mut d = Deserializer::new(s.into_vec(), Vec::new());
        for t in &temps {
            match t {
                1 => {
                    let x: (Rc<u32>, Arc<u64>) = must!(unsafe { d.deserialize() }, "temporary");
                    ensure!(*x.0 == 1 && *x.1 == 2, "wrong temporary");
                }
                2 => {
                    let x: (Rc<u32>, Rc<u32>, Rc<u32>) = must!(unsafe { d.deserialize() }, "temporary");
                    ensure!(Rc::ptr_eq(&x.0, &x.1) && *x.0 == 3 && *x.2 == 77 && !Rc::ptr_eq(&x.0, &x.2), "wrong temporary");
                }
                3 => {
                    let x: Vec<Rc<u32>> = must!(unsafe { d.deserialize() }, "temporary");
                    ensure!(x.len() == 3 && *x[0] == 1 && Rc::ptr_eq(&x[0], &x[1]) && Rc::ptr_eq(&x[1], &x[2]), "wrong temporary");
                }
                _ => {}
            }
            copy.push(must!(unsafe { d.deserialize() }, "deserializing"));
            if seps {
                let x: u16 = must!(unsafe { d.deserialize() }, "separator");
                ensure!(x == 0xabcd, "the reader is at a wrong position");
            }
        }
        c.label("several values in one serializer");
    } else if mode == 1 {
        s.serialize_slice(&roots);
        let mut d = Deserializer::new(s.into_vec(), Vec::new());
        for _ in 0..n {
            copy.push(must!(unsafe { d.deserialize() }, "deserializing"));
        }
    } else {
        s.serialize(&roots);
        if s.into_vec().len() > 60000 {
            return Ok(());
        }
        let (mut tx, mut rx) = must!(crossmist::channel::<Vec<G>>(), "channel");
        must!(tx.send(&roots), "send");
        copy = must!(must!(rx.recv(), "recv").ok_or("None"), "recv");
        c.label("message");
    }
    let mut m = Map::default();
    if let Err(e) = seq(&mut m, roots.iter(), copy.iter(), walk) {
        return Err(Fail::V(e));
    }
    for b in m.rev.keys() {
        ensure!(!m.fwd.contains_key(b), "the copy shares an object with the original");
    }
    for (uses, strong) in m.uses.values() {
        ensure!(uses == strong, "an object of the copy has {uses} pointers to it but its reference count is {strong}");
    }
    if reused > 0 {
        c.label("shared");
        if made >= 3 {
            c.nontrivial();
        }
    }
    // Both can be dropped in any order
    if c.s.flip() {
        drop(roots);
        drop(copy);
    }
    Ok(())
}
