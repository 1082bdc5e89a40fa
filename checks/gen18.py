"""Generates programs full of type definitions with derive(Object), for C18."""
import re
import progen

STD = "::std::"
# expression, traits (c Copy, l Clone, d Default, p PartialEq, o Ord, h Hash), plain data
PRIMS = [(t, "cldpoh", True) for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char ()".split()] + \
        [("f32", "cldp", True), ("f64", "cldp", True)] + \
        [(STD + "num::NonZero" + x, "clpoh", True) for x in "U8 U16 U32 U64 I8 I32 I128 Usize".split()] + \
        [(STD + "time::Duration", "cldpoh", True), (STD + "time::SystemTime", "clpoh", True), ("::vh::ops::PodS", "clpoh", True), ("::vh::ops::PodE", "clpoh", True),
         ("::vh::ops::Zst", "clpoh", True)]
OWNED = [(STD + "string::String", "ldpoh", False), (STD + "path::PathBuf", "ldpoh", False), (STD + "ffi::OsString", "ldpoh", False),
         (STD + "ffi::CString", "ldpoh", False), ("::vh::derived::Counted", "", False), ("::vh::derived::Filed", "", False),
         ("::vh::ops::Mixed", "lpoh", False), (STD + "string::String", "ldpoh", False), ("::vh::derived::Counted", "", False)]
ALSO = {"f32": "cldp", "f64": "cldp"}

FIELDS = """a b c s d x y i n v t a0 a1 a2 self_ args entry data pos handles value inner Self_ crossmist serde ok err none some result r#type r#fn r#match r#struct r#impl
 r#dyn r#async r#ref r#mut r#where r#loop r#true _a _0 __ T größe crossmist_a0 crossmist_s crossmist_d func field this other f0 f1 std core usize_ Ok_ item key len""".split()
VARIANTS = """A B C D E F Ok Err Some None s d a0 a1 Self_ r#type r#fn r#true X0 X1 Unit Tuple Box Vec String Option Result Object Variant Ä serde _V usize i u8 T U Default Drop""".split()
NAMES = """S T0 Node Tree Result Option Vec Box String Object Serializer Deserializer Self_ r#type r#fn D s d Ä Packet Message Config Data Value Error Item Entry
 Identity PlainOldData NonTrivialObject Void Type E std crossmist_ usize_ Pair Wrapper Iterator Clone_ Sized_ X""".split()
PARAMS = ["T", "U", "V", "W", "A", "B", "S", "D", "Ok", "Tt", "t", "K", "Err", "Object", "F", "R", "Q"]
ATTRS = ["#[allow(dead_code)]", "/// A documented thing.", "#[doc(hidden)]", "#[cfg(all())]", "#[allow(clippy::all, non_snake_case)]"]


# Other things in the module, which code written by the macro must not meet
NOISE = ["pub enum Others { Ok, Err, Some, None } use Others::*;", "pub struct Ok;", "#[allow(non_upper_case_globals)] const Ok: u8 = 1;", "pub struct Err(u8); pub struct Some;",
         "mod std { pub mod result {} } mod crossmist { pub struct Object; }", "pub trait Other { fn serialize(&self, _: u8) {} fn deserialize(self) where Self: Sized {} } impl<X> Other for X {}",
         "fn serialize(_: u8) {} fn deserialize() -> u8 { 0 } fn unsafe_() {}"]

class Field:
    def __init__(s, ty, pod, gen=None, same=None, deps=(), weight=1, rec=False, size=1):
        s.ty, s.pod, s.gen, s.same, s.deps, s.weight, s.rec = ty, pod, gen, same, set(deps), weight, rec
        s.name = None
        s.attr = ""
        s.family = False

GEN = "::vh::Val::gen(vh_s, vh_d.saturating_sub(1))"

class Item:
    """One type definition in a module of its own."""
    pass

class Gen:
    def __init__(g, rng, cfg, count):
        g.r, g.cfg = rng, cfg
        g.items = []
        # in every program: an enum with more variants than a byte can number (one of which contains something), and a type of no size which is not plain data
        big, empty = rng.sample(range(count), 2)
        for k in range(count):
            g.items.append(g.item(k, {big: "big", empty: "empty"}.get(k)))

    # ---- types
    def known(g, pod=None, weight=60):
        """A reference to an earlier type, instantiated: (type, traits, pod, dep, weight)"""
        c = [i for i in g.items if not i.never and i.weight <= weight and (pod is None or i.pod == pod)]
        if not c:
            return None
        i = g.r.choice(c)
        return (i.instance(), i.traits, i.pod, i.k, i.weight)

    def leaf(g, pod, it):
        r = g.r
        if r.random() < 0.25:
            x = g.known(pod)
            if x:
                it.deps.add(x[3])
                return x[0], x[2], x[4]
        if it.params and r.random() < (0.5 if not pod else 0.35):
            p = r.choice(it.params)
            p.used = True
            if p.pod or not pod:
                return p.name, p.pod, 3
        if pod or r.random() < 0.4:
            return r.choice(PRIMS)[0], True, 1
        if r.random() < 0.08:
            return r.choice(["::vh::val::V", "::vh::val::K"]), False, 12
        return r.choice(OWNED)[0], False, 2

    def ty(g, pod, it, depth):
        """-> type, pod, weight"""
        r = g.r
        if depth <= 0 or r.random() < 0.45:
            return g.leaf(pod, it)
        def sub(p=pod):
            return g.ty(p, it, depth - 1)
        if pod:
            k = r.randrange(6)
            if k == 4:
                a, p, w = sub()
                return STD + "option::Option<%s>" % a, p, w
            if k == 5:
                a, b = sub(), sub()
                return STD + "result::Result<%s, %s>" % (a[0], b[0]), a[1] and b[1], a[2] + b[2]
            if k == 0:
                a, p, w = sub()
                n = r.choice([0, 1, 2, 3, 5])
                if it.consts and r.random() < 0.7:
                    n = r.choice(it.consts)[0]
                    return "[%s; %s]" % (a, n), p, w * 3
                return "[%s; %d]" % (a, n), p, w * n
            if k == 1:
                xs = [sub() for _ in range(r.choice([1, 2, 2, 3, 5]))]
                return "(%s,)" % ", ".join(x[0] for x in xs), all(x[1] for x in xs), sum(x[2] for x in xs)
            if k == 2:
                return STD + "marker::PhantomData<%s>" % g.phantom(it), True, 0
            return sub()
        k = r.randrange(16)
        P = STD
        if k == 0:
            a, p, w = sub(); return P + "option::Option<%s>" % a, False, w
        if k == 1:
            a, p, w = sub(); return P + "vec::Vec<%s>" % a, False, w * 3
        if k == 2:
            a, p, w = sub(); return P + "boxed::Box<%s>" % a, False, w
        if k == 3:
            a, p, w = sub(); n = r.choice([0, 1, 2, 3])
            if it.consts and r.random() < 0.7:
                return "[%s; %s]" % (a, r.choice(it.consts)[0]), p, w * 3
            return "[%s; %d]" % (a, n), p, w * n
        if k in (4, 5):
            xs = [sub(r.choice([True, False])) for _ in range(r.choice([1, 2, 2, 3]))]
            return "(%s,)" % ", ".join(x[0] for x in xs), all(x[1] for x in xs), sum(x[2] for x in xs)
        if k == 6:
            a, b = sub(), sub(); return P + "result::Result<%s, %s>" % (a[0], b[0]), False, a[2] + b[2]
        if k == 7:
            a = sub(); return P + "collections::BTreeMap<%s, %s>" % (r.choice(["u8", STD + "string::String", "(u8, i16)"]), a[0]), False, a[2] * 3
        if k == 8:
            a = sub(); return P + "collections::HashMap<%s, %s>" % (r.choice(["u32", STD + "string::String", "char"]), a[0]), False, a[2] * 3
        if k == 9:
            return P + r.choice(["collections::HashSet<%s>", "collections::BTreeSet<%s>", "collections::BinaryHeap<%s>"]) % r.choice(["u16", STD + "string::String", "(bool, u8)"]), False, 4
        if k == 10:
            a = sub(); return P + r.choice(["collections::VecDeque<%s>", "collections::LinkedList<%s>"]) % a[0], False, a[2] * 3
        if k == 11 and not it.lifetimes:
            a = sub(); it.static = True; return P + r.choice(["rc::Rc<%s>", "sync::Arc<%s>"]) % a[0], False, a[2]
        if k == 12:
            a = sub(); return P + "boxed::Box<[%s]>" % a[0], False, a[2] * 3
        if k == 13:
            return P + "marker::PhantomData<%s>" % g.phantom(it), True, 0
        return g.leaf(pod, it)

    def phantom(g, it):
        r = g.r
        c = ["u8", STD + "string::String", STD + "boxed::Box<dyn ::std::fmt::Debug>", "fn(u8) -> u8", "*const u8"]
        for p in it.params:
            c += [p.name, p.name]
            p.used = True
        if it.lifetimes:
            c += ["&'a u8"] * 3
        x = r.choice(c)
        return x

    def field(g, pod, it, recursive_ok=True):
        r = g.r
        if not pod and recursive_ok and r.random() < 0.12 and it.recs < 3:
            it.recs += 1
            # itself, or any other type without parameters
            self_ty = r.choice(["Self", it.name + it.args()])
            tgt, dep = self_ty, None
            k = r.randrange(3 if it.lifetimes else 4)
            if k == 3 and it.params:
                it.static = True
            if k == 0:
                return Field(STD + "option::Option<%sboxed::Box<%s>>" % (STD, tgt), False,
                             "if vh_d == 0 { ::std::option::Option::None } else { %s }" % GEN, weight=2, rec=True)
            if k == 1:
                return Field(STD + "vec::Vec<%s>" % tgt, False,
                             "if vh_d == 0 { ::std::vec::Vec::new() } else { (0..vh_s.below(3)).map(|_| ::vh::Val::gen(vh_s, vh_d - 1)).collect() }", weight=2, rec=True)
            if k == 2:
                return Field(STD + "collections::BTreeMap<u8, %s>" % tgt, False,
                             "if vh_d == 0 { ::std::default::Default::default() } else { (0..vh_s.below(3)).map(|i| (i as u8, ::vh::Val::gen(vh_s, vh_d - 1))).collect() }", weight=2, rec=True)
            return Field(STD + "option::Option<%src::Rc<%s>>" % (STD, tgt), False,
                         "if vh_d == 0 { ::std::option::Option::None } else { %s }" % GEN, weight=2, rec=True)
        if not pod and r.random() < 0.06:
            nv = [i for i in g.items if i.never]
            if nv:
                n = r.choice(nv)
                it.deps.add(n.k)
                t = n.instance()
                k = r.randrange(3)
                if k == 0:
                    return Field(STD + "option::Option<%s>" % t, False, "::std::option::Option::None", "%s.is_none() && %s.is_none()")
                if k == 1:
                    return Field(STD + "vec::Vec<%s>" % t, False, "::std::vec::Vec::new()", "%s.is_empty() && %s.is_empty()")
                return Field(STD + "result::Result<u16, %s>" % t, False, "::std::result::Result::Ok(::vh::Val::gen(vh_s, 0))", "%s.as_ref().unwrap() == %s.as_ref().unwrap()")
        t, p, w = g.ty(pod, it, r.choice([0, 1, 1, 2, 3]))
        return Field(t, p, weight=w)

    # ---- definitions
    def item(g, k, special=None):
        r = g.r
        it = Item()
        it.k, it.name = k, r.choice(NAMES)
        it.params, it.consts, it.lifetimes, it.deps, it.recs, it.static = [], [], [], set(), 0, False
        it.never = False
        it.traits = ""
        it.macro = False
        it.self_deps = set()
        generic = r.random() < 0.45 and special != "empty"
        if generic:
            if r.random() < 0.2:
                it.lifetimes = ["'a"] + (["'b"] if r.random() < 0.3 else [])
            names = r.sample([p for p in PARAMS if p != it.name], 4)
            for n in names[:r.choice([0, 1, 1, 2, 2, 3]) if it.lifetimes else r.choice([1, 1, 2, 2, 3])]:
                p = Item()
                p.name = n
                p.used = False
                p.extra = r.choice(["", "", "c", "l", "d", "p", "o", "lp"])
                p.static = False
                p.open = False
                # what it is going to be, in one of the uses
                x = None
                if r.random() < 0.3 and not p.extra:
                    x = g.known()
                if x:
                    p.inst, p.pod = x[0], False
                    it.deps.add(x[3])
                else:
                    c = [q for q in PRIMS + OWNED + OWNED if all(t in q[1] for t in p.extra)]
                    q = r.choice(c)
                    p.inst = q[0]
                    p.pod = False
                it.params.append(p)
            if r.random() < 0.3:
                it.consts = [(n, t, v) for n, t, v in r.sample([("N", "usize", "3"), ("M", "usize", "0"), ("FLAG", "bool", "true"), ("CH", "char", "'x'")], r.choice([1, 1, 2]))]
                it.array_consts = [c for c in it.consts if c[1] == "usize"]
        it.all_consts = it.consts
        it.consts = [c for c in it.consts if c[1] == "usize"]
        pod = r.random() < 0.45 and not special
        spoil = pod and r.random() < 0.35
        it.family = None
        if r.random() < 0.2 and not special:
            pod, it.family = True, g.family(it)
        it.is_enum = r.random() < 0.55 or special == "big" or special == "empty" and r.random() < 0.5
        it.variants = []
        it.empty = special == "empty"
        if special == "empty":
            style = r.choice(["tuple", "named"])
            fs = [Field(g.empty(it), False, "::std::array::from_fn(|_| ::vh::Val::gen(vh_s, 0))") for _ in range(r.choice([1, 1, 2]))]
            names = r.sample(FIELDS, 3)
            for _ in range(r.choice([0, 0, 1])):
                fs.insert(r.randint(0, len(fs)), Field(r.choice(["()", "[u8; 0]", "::vh::ops::Zst"]), True))
            for f, n in zip(fs, names):
                f.vis = "pub " if r.random() < 0.3 else ""
                f.name = n if style == "named" else None
            it.variants.append([r.choice(VARIANTS) if it.is_enum else None, style, fs, None])
        elif special != "big" and it.is_enum and r.random() < 0.04 and not it.params and not it.lifetimes:
            it.never = True
        elif it.is_enum:
            n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, 17])
            big = r.random() < 0.03 or special == "big"
            if big:
                n = r.choice([257, 258, 300, 400]) if special else r.choice([255, 256, 257, 300, 700])
            names = (VARIANTS if n <= len(VARIANTS) else ["V%d" % i for i in range(n)])[:]
            if n <= len(VARIANTS):
                names = r.sample(names, n)
            spoil_at = r.randrange(n) if spoil else -1
            for j in range(n):
                style = r.choice(["unit", "tuple", "named"]) if not big or r.random() < 0.03 else "unit"
                if special == "big" and j in (1, n - 1):
                    style = r.choice(["tuple", "named"])
                if j == spoil_at and style == "unit":
                    style = r.choice(["tuple", "named"])
                nf = 0 if style == "unit" else r.choice([0, 1, 1, 2, 2, 3, 4])
                if j == spoil_at:
                    nf = max(nf, 1)
                if special == "big" and j in (1, n - 1):
                    it.variants.append([names[j], style, [Field(r.choice(OWNED)[0], False)], None])
                    it.variants[-1][2][0].name = "x" if style == "named" else None
                    it.variants[-1][2][0].vis = ""
                    continue
                it.variants.append([names[j], style, g.fields(nf, pod, it, style, spoil=j == spoil_at), None])
            if all(any(f.rec for f in v[2]) for v in it.variants):
                pass  # recursion ends by depth anyway
        else:
            style = r.choice(["named", "named", "tuple", "tuple", "unit"] if not generic else ["named", "tuple"])
            n = 0 if style == "unit" else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9, 14, 25])
            if spoil:
                if style == "unit":
                    style = "named"
                n = max(n, 1)
            it.variants.append([None, style, g.fields(n, pod, it, style, spoil=spoil), None])
        if it.family:
            c = [(v[2], i) for v in it.variants for i, f in enumerate(v[2]) if f.family]
            for fs, i in r.sample(c, min(len(c), r.choice([0, 1, 1, 1, 1, 2]))):
                f = g.in_family(it, False)
                f.name, f.attr, f.vis = fs[i].name, fs[i].attr, fs[i].vis
                fs[i] = f
        g.use_params(it)
        fs = [f for v in it.variants for f in v[2]]
        it.pod = all(f.pod for f in fs)
        it.weight = 1 + sum(f.weight for f in fs) if not it.is_enum else 1 + max([sum(f.weight for f in v[2]) for v in it.variants] or [0])
        it.traits = ""
        g.attributes(it)
        it.generic_text(g)
        return it

    def empty(g, it):
        """An array of no elements of something which is not plain data."""
        x = g.r.choice(OWNED)[0]
        return g.r.choice(["[%s; 0]", "[(u8, %s); 0]", "[" + STD + "option::Option<%s>; 0]"]) % x

    def family(g, it):
        """Fields of similar types, all but one of plain data: how to make one of them."""
        r = g.r
        c = [i for i in g.items if not i.never and i.weight < 40 and any(not p.extra and p.open for p in i.params)]
        if c and r.random() < 0.4:
            i = r.choice(c)
            it.deps.add(i.k)
            q = r.choice([p for p in i.params if not p.extra and p.open])
            # the rest of the parameters are plain data
            rest = {p.name: r.choice([x for x in PRIMS if all(t in x[1] for t in p.extra)])[0] for p in i.params if p.open}
            return lambda x: i.instance({**rest, q.name: x}), i.weight
        h = r.choice(["option::Option<%s>", "option::Option<%s>", "result::Result<%s, u8>", "result::Result<i16, %s>", "[%s; 2]", "[[%s; 1]; 2]", "(%s,)", "(%s, bool)", "(u8, %s)",
                      "option::Option<::std::option::Option<%s>>", "([%s; 2], char)", "option::Option<(%s, u16)>", "option::Option<[%s; 3]>", "result::Result<(), (u8, %s)>", "%s"])
        h = h if h[0] in "[(%" else STD + h
        return lambda x: h % x, 3

    def in_family(g, it, plain):
        f = Field(it.family[0]((g.r.choice(PRIMS) if plain else g.r.choice(OWNED))[0]), plain, weight=it.family[1])
        f.family = True
        return f

    def fields(g, n, pod, it, style, spoil=False):
        r = g.r
        fs = [g.field(pod, it) if not it.family else g.in_family(it, True) if r.random() < 0.85 else g.field(True, it) for _ in range(n)]
        if it.family:
            spoil = False
        if spoil and fs:
            i = r.randrange(len(fs))
            for _ in range(50):
                fs[i] = g.field(False, it)
                if not fs[i].pod:
                    break
        if n > len(FIELDS):
            n = len(FIELDS)
        if style == "named":
            for f, name in zip(fs, r.sample(FIELDS, len(fs))):
                f.name = name
        for f in fs:
            f.attr = " ".join([r.choice(ATTRS) + "\n"] if r.random() < 0.06 else [])
            f.vis = r.choice(["", "", "pub ", "pub(crate) ", "pub(super) "])
        return fs

    def use_params(g, it):
        """Unused parameters are not allowed."""
        r = g.r
        text = " ".join(f.ty for v in it.variants for f in v[2] if not f.rec)
        words = set(re.findall(r"(?<![:\w])'?\w+", text))
        extra = [p.name for p in it.params if p.name not in words] + ["&%s ()" % l for l in it.lifetimes if l not in words]
        if extra:
            f = Field(STD + "marker::PhantomData<(%s,)>" % ", ".join(extra), True, weight=0)
            f.vis = ""
            v = r.choice(it.variants)
            if v[1] == "unit":
                v[1] = "tuple"
            if v[1] == "named":
                f.name = "marker_" if "marker_" not in [x.name for x in v[2]] else "marker__"
            v[2].insert(r.randint(0, len(v[2])), f)

    def attributes(g, it):
        r = g.r
        it.repr = ""
        plain = all(v[1] == "unit" for v in it.variants)
        if it.is_enum and not it.never:
            if r.random() < 0.35:
                t = r.choice(["u8", "i8", "u16", "i32", "u64", "i64", "isize"])
                if len(it.variants) > 120:
                    t = "u32"
                it.repr = "#[repr(%s)]" % t
            if (plain or it.repr) and r.random() < 0.7:
                # distinct discriminants; implicit ones follow the previous
                lo, hi = {"u8": (0, 250), "i8": (-128, 120)}.get(it.repr[7:-2], (0, 60000) if "u" in it.repr else (-30000, 30000))
                if len(it.variants) > 60:
                    lo, hi = 0, 50000
                vals, used = [], set()
                cur = -1
                ok = True
                for v in it.variants:
                    if r.random() < 0.5:
                        for _ in range(100):
                            c = r.randint(lo, hi)
                            if c not in used:
                                break
                        v[3] = c
                    else:
                        c = cur + 1
                        if c in used or c > hi or c < lo:
                            c = max(used) + 1 if used else lo
                            v[3] = c
                    if c in used or c > hi + 5:
                        ok = False
                    used.add(c)
                    cur = c
                if not ok:
                    for v in it.variants:
                        v[3] = None
        elif not it.never and r.random() < 0.3:
            it.repr = r.choice(["#[repr(C)]", "#[repr(align(16))]", "#[repr(C, align(32))]", "#[non_exhaustive]", "#[must_use]"])
        it.macro = not it.is_enum and it.variants[0][1] == "named" and not it.params and not it.lifetimes and not it.all_consts and g.r.random() < 0.15 \
            and not any("Self" in f.ty for f in it.variants[0][2])
        it.drop = not it.params and not it.lifetimes and not it.all_consts and not it.never and r.random() < 0.1

def arguments(it):
    xs = list(it.lifetimes) + [p.name for p in it.params] + [c[0] for c in it.all_consts]
    return "<%s>" % ", ".join(xs) if xs else ""
def instance(it, other={}):
    xs = ["'static"] * len(it.lifetimes) + [other.get(p.name, p.inst) for p in it.params] + [c[2] for c in it.all_consts]
    return "crate::m%d::%s%s" % (it.k, it.name, "<%s>" % ", ".join(xs) if xs else "")
BOUNDS = {"c": "::std::marker::Copy", "l": "::std::clone::Clone", "d": "::std::default::Default", "p": "::std::cmp::PartialEq", "o": "::std::cmp::Ord", "h": "::std::hash::Hash"}
OB = "::crossmist::Object"
def generic_text(it, g):
    """Distribute the bounds between the parameters and the where clause."""
    r = g.r
    it.generics, it.where, it.val_generics = [], [], []
    for l in it.lifetimes:
        it.generics.append("'b: 'a" if l == "'b" and r.random() < 0.4 else l)
    ndef = r.choice([0, 0, 0, 1, 2])
    for i, p in enumerate(it.params):
        bs = [OB] + [BOUNDS[t] for t in p.extra]
        if it.static or r.random() < 0.25:
            bs.append("'static")
        p.open = True
        if r.random() < 0.15:
            p.open = False
            bs.append(r.choice(["::vh::derived::Tr", "::vh::derived::Tr<u16>", "::vh::derived::Tr<u8, Assoc = u8>", "::std::fmt::Debug"]))
        if r.random() < 0.1:
            bs.append("Sized")
        r.shuffle(bs)
        k = r.randrange(4)
        if k == 0:
            inline, wh = [], bs
        elif k == 1:
            c = r.randint(0, len(bs))
            inline, wh = bs[:c], bs[c:]
        else:
            inline, wh = bs, []
        d = ""
        if ndef and i >= len(it.params) - ndef:
            d = " = " + p.inst
        it.generics.append(p.name + (": " + " + ".join(inline) if inline else "") + d)
        it.val_generics.append(p.name + ": " + " + ".join(["::vh::Val"] + bs))
        if wh:
            it.where.append("%s: %s" % (p.name, " + ".join(wh)))
        if r.random() < 0.12:
            it.where.append(r.choice(["::std::vec::Vec<%s>: Sized", "for<'q> &'q %s: ::std::fmt::Debug", "[%s; 2]: Sized", "::std::option::Option<%s>: ::std::fmt::Debug"]) % p.name)
    for n, t, v in it.all_consts:
        it.generics.append("const %s: %s%s" % (n, t, " = " + v if ndef and (it.params or n == it.all_consts[-1][0]) else ""))
    if r.random() < 0.05:
        it.where.append("u8: Sized")
    it.order = r.random()
    it.noise = [n for n in NOISE if r.random() < 0.04 and not re.search(r"\b(%s)\b" % it.name, n)]
    if len(it.noise) > 1 and any("Ok" in n or "Some" in n for n in it.noise):
        it.noise = it.noise[:1]

def body(f):
    return f.attr + (f.vis if f.vis else "") + (f.name + ": " if f.name else "") + f.ty
def source(it, g_order):
    o = ["mod m%d {" % it.k] + it.noise
    k = int(it.order * 1000)
    derive = ["#[derive(::crossmist::Object, Debug)]", "#[derive(Debug)]\n#[derive(::crossmist::Object)]", "#[derive(::crossmist::Object)]\n#[derive(Debug)]",
              "#[derive(Debug, ::crossmist::Object,)]"][k % 4]
    attrs = [derive] + ([it.repr] if it.repr else [])
    if k % 3 == 0:
        attrs.insert(k % 2, ATTRS[k % len(ATTRS)])
    gs = "<%s>" % ", ".join(it.generics) if it.generics else ""
    where = ("\nwhere " + ", ".join(it.where) + (","if k % 2 else "")) if it.where else ""
    gone = "#[cfg(any())] gone: ::no::Such, " if k % 7 == 0 else ""
    def fields(v, enum):
        _, style, fs, _ = v
        b = [body(f) if not enum else f.attr + (f.name + ": " if f.name else "") + f.ty for f in fs]
        if style == "unit":
            return ""
        if style == "tuple":
            return "(" + ", ".join(b) + ("," if b and k % 2 else "") + ")"
        return " { " + gone + ", ".join(b) + ("," if b and k % 2 else "") + " }"
    if it.never:
        o.append("\n".join(attrs) + "\npub enum %s {}" % it.name)
    elif it.is_enum:
        vs = []
        if k % 11 == 0:
            vs.append("#[cfg(any())] Gone(::no::Such)")
        for v in it.variants:
            vs.append(v[0] + fields(v, True) + (" = %d" % v[3] if v[3] is not None else ""))
        o.append("\n".join(attrs) + "\npub enum %s%s%s {\n    %s\n}" % (it.name, gs, where, ",\n    ".join(vs)))
    else:
        v = it.variants[0]
        if it.macro:
            o.append("macro_rules! make { ($name:ident $($f:ident: $t:ty),*) => {\n%s\npub struct $name { $(pub $f: $t),* }\n} }\nmake!(%s %s);" % (
                "\n".join(attrs), it.name, ", ".join("%s: %s" % (f.name, f.ty) for f in v[2])))
        elif v[1] == "named":
            o.append("\n".join(attrs) + "\npub struct %s%s%s%s" % (it.name, gs, where, fields(v, False)))
        else:
            o.append("\n".join(attrs) + "\npub struct %s%s%s%s;" % (it.name, gs, fields(v, False), where))
    if it.drop:
        o.append("impl ::std::ops::Drop for %s {\n    fn drop(&mut self) {}\n}" % it.name)
    # values
    vg = ["const %s: %s" % (n, t) for n, t, _ in it.all_consts]
    vg = it.val_generics + vg
    self_ty = it.name + ("<%s>" % ", ".join(["'static"] * len(it.lifetimes) + [p.name for p in it.params] + [c[0] for c in it.all_consts]) if it.generics else "")
    vwhere = ("\nwhere " + ", ".join(it.where)) if it.where else ""
    def make(v, self_):
        _, style, fs, _ = v
        if style == "unit":
            return self_
        gens = [(f.name + ": " if f.name else "") + (f.gen or GEN) for f in fs]
        return self_ + ("(%s)" if style == "tuple" else " { %s }") % ", ".join(gens)
    def pat(v, self_, x):
        _, style, fs, _ = v
        if style == "unit":
            return self_
        ps = [(f.name + ": " if f.name else "") + "%s_%d" % (x, i) for i, f in enumerate(fs)]
        return self_ + ("(%s)" if style == "tuple" else " { %s }") % ", ".join(ps)
    def eq(v):
        return " && ".join(["true"] + [(f.same % ("left_%d" % i, "right_%d" % i) if f.same else "::vh::Val::same(left_%d, right_%d)" % (i, i)) for i, f in enumerate(v[2])])
    if it.never:
        gen, same = "unreachable!()", "match *self {}"
    elif it.is_enum:
        n = len(it.variants)
        # at the end of the depth, prefer what is not recursive
        gen = "match vh_s.below(%d) { %s, _ => unreachable!() }" % (n, ", ".join("%d => %s" % (i, make(v, "Self::" + v[0])) for i, v in enumerate(it.variants)))
        same = "match (self, vh_o) { %s, #[allow(unreachable_patterns)] _ => false }" % ", ".join(
            "(%s, %s) => %s" % (pat(v, "Self::" + v[0], "left"), pat(v, "Self::" + v[0], "right"), eq(v)) for v in it.variants)
    else:
        v = it.variants[0]
        gen = make(v, "Self")
        same = "match (self, vh_o) { (%s, %s) => %s }" % (pat(v, "Self", "left"), pat(v, "Self", "right"), eq(v))
    o.append("impl%s ::vh::Val for %s%s {\n    fn gen(vh_s: &mut ::vh::Src, vh_d: u32) -> Self {\n        %s\n    }\n    fn same(&self, vh_o: &Self) -> bool {\n        %s\n    }\n}" % (
        "<%s>" % ", ".join(vg) if vg else "", self_ty, vwhere, gen, same))
    o.append("}")
    return "\n".join(o)
Item.args = arguments
Item.instance = instance
Item.generic_text = generic_text

WRAPS = ["::std::vec::Vec<%s>", "(u8, %s)", "[%s; 3]", "::std::option::Option<%s>", "::std::boxed::Box<[%s]>", "::std::rc::Rc<%s>", "::std::collections::BTreeMap<u8, %s>",
         "::std::boxed::Box<%s>", "::std::result::Result<%s, u8>", "(%s, bool)", "::std::collections::VecDeque<%s>", "(%s,)"]

class Program:
    def __init__(s, items, wraps, name):
        s.items, s.wraps, s.name = items, wraps, name
        s.lines = []
    def source(s):
        out = ["// Generated by checks/gen18.py.", "#![allow(warnings)]"]
        s.lines = []
        at = len(out) + 1
        for it in s.items:
            t = source(it, None)
            n = t.count("\n") + 1
            s.lines.append((at, at + n, it.k))
            at += n
            out.append(t)
        out.append("static TABLE: &[::vh::ops::Ops] = &[")
        for it in s.items:
            if it.never:
                continue
            t = it.instance()
            for x in [t] + [w % t for w in s.wraps[it.k]]:
                out.append("    ::vh::ops::ops::<%s>(\"%s\")," % (x, x.replace("::std::", "").replace("crate::", "")))
        out.append("];")
        out.append("fn main() {\n    ::vh::derived::set_table(TABLE);\n    ::crossmist::init();\n    ::vh::flav::warm_up();\n    ::vh::flav::warm_smol();\n"
                   "    ::vh::run::worker_main(&[::vh::run::Prop { name: \"C18\", f: ::vh::derived::case }]);\n}")
        return "\n".join(out) + "\n"
    def item_at(s, line):
        for a, b, k in s.lines:
            if a <= line < b:
                return k
        return None
    def subset(s, ks):
        need, todo = set(), list(ks)
        by = {i.k: i for i in s.items}
        while todo:
            k = todo.pop()
            if k not in need:
                need.add(k)
                todo += list(by[k].deps)
        return Program([i for i in s.items if i.k in need], s.wraps, s.name)
    def describe(s, k):
        it = [i for i in s.items if i.k == k][0]
        t = source(it, None)
        return "a type with derive(Object): " + " ".join(t[:t.index("impl")].split())[:700]
    def kinds(s):
        for i in s.items:
            yield "enum" if i.is_enum else "struct"
            if i.pod:
                yield "plain data"
            if i.params or i.lifetimes or i.all_consts:
                yield "generic"
            if i.recs:
                yield "recursive"
            if i.never:
                yield "empty enum"
            if any(v[3] is not None for v in i.variants):
                yield "explicit discriminants"
            if len(i.variants) > 255:
                yield "over 255 variants"
                if not i.pod:
                    yield "over 255 variants, not plain data"
            if i.empty:
                yield "of no size, but not plain data"
            if i.where:
                yield "where clause"
            if i.macro:
                yield "made by a macro"
    def sample(s):
        t = source(s.items[len(s.items) // 2], None)
        return "definition: " + " ".join(t[:t.index("impl")].split())[:500]

COUNT = 22
def make(rng, cfg):
    g = Gen(rng, cfg, COUNT)
    wraps = {}
    for it in g.items:
        wraps[it.k] = rng.sample(WRAPS, 2 if len(it.variants) < 100 else 0)
        if it.empty:
            wraps[it.k] = ["::std::vec::Vec<%s>"] + rng.sample(WRAPS[1:], 3)
    return Program(g.items, wraps, "gen18")

def run(pid, entry, tier, seed, scale):
    q = tier == "quick"
    configs = [("stable", 8 if q else 10), ("bare", 1 if q else 2), ("nightly", 3 if q else 4)]
    return progen.run(pid, entry, tier, seed, scale, make, "gen18", configs, dict(quick=6000, thorough=20000))
def replay(pid, d):
    return progen.replay(pid, d, "gen18")
