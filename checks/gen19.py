"""Generates programs full of #[func] functions and lambdas, for C19."""
import re
import progen

S = "::std::"
COPY = [(t, "clp") for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 bool char ()".split()] + [
    ("(u8, u32)", "clp"), (S + "option::Option<" + S + "num::NonZeroU16>", "clp"), ("[u16; 3]", "clp"), ("::vh::ops::PodS", "clp"), ("::vh::ops::Zst", "clp"), (S + "time::Duration", "clp")]
OWN = [(S + "string::String", "lp"), (S + "vec::Vec<u32>", "lp"), (S + "boxed::Box<u64>", "lp"), (S + "option::Option<%sstring::String>" % S, "lp"),
       (S + "collections::BTreeMap<u8, %sstring::String>" % S, "lp"), (S + "vec::Vec<%sstring::String>" % S, "lp"), ("(%sstring::String, u8)" % S, "lp"), (S + "rc::Rc<u32>", "lp"),
       ("::vh::ops::Mixed", "lp"), (S + "path::PathBuf", "lp"), (S + "ffi::CString", "lp"), ("::vh::derived::Counted", ""), ("::vh::derived::Filed", ""), ("::vh::derived::Counted", ""),
       (S + "boxed::Box<[u16]>", "lp"), (S + "sync::Arc<%sstring::String>" % S, "lp"), (S + "result::Result<u8, %sstring::String>" % S, "lp"), ("[%sstring::String; 2]" % S, "lp"),
       (S + "vec::Vec<(u8, ::vh::derived::Counted)>", ""), (S + "option::Option<::vh::derived::Filed>", "")]
CAPS = COPY + [o for o in OWN if "l" in o[1]]
MUT = ["u64", S + "string::String", S + "vec::Vec<u32>", S + "option::Option<%sstring::String>" % S, S + "collections::BTreeMap<u8, %sstring::String>" % S, "(u8, u32)",
       S + "vec::Vec<%sstring::String>" % S, S + "boxed::Box<u64>", "u8"]

NAMES = """f g x y s d e i n a b h t v f0 f1 a0 a1 new body invoke func spawn run join call_object bind_value main init test drop default from into args entry output handle value result
 output_tx return_value self_ r#type r#fn r#match r#struct r#async r#ref r#mut r#where r#loop r#true r#dyn crossmist std core tokio smol alloc u8 String Box Vec T E F Func Head
 Object Größe _x __ process sender tx rx data deserialize serialize handles pos CallWrapper Delayed Worker VALUE spawn_tokio run_smol child fut wait task ptr""".split()
# Names which only parameters have: a constant of that name would clash with a variable which code generated by #[func] might well have.
ONLY_PARAMS = set("handle value result output sender tx rx data child fut wait task ptr process func f0 f1 a1 worker handles pos".split())
FNAMES = [x for x in NAMES if x not in ONLY_PARAMS]
# a constant of such a name breaks macros of other libraries, which make variables of that name
BAD_WITH_TOKIO = {"body", "s", "e"}
PARAMS = ["T", "U", "V", "A", "B", "F", "R", "S", "D", "Output", "Func", "Head", "Args", "E", "Tail", "X", "Key", "Object", "Box", "Vec", "Self_", "f0", "t"]
ATTRS = ["/// Documented.", "#[inline]", "#[allow(unused)]", "#[cold]", "#[cfg(all())]", "#[inline(never)]", "#[doc(hidden)]", "#[must_use]", "#[allow(clippy::all)]", "/** A block comment. */"]
BOUNDS = {"c": S + "marker::Copy", "l": S + "clone::Clone", "p": S + "cmp::PartialEq"}

# Other things in the module, which code written by the macro must not meet
NOISE = ["pub enum Others { Ok, Err, Some, None } use Others::*;", "pub struct Ok;", "#[allow(non_upper_case_globals)] const Ok: u8 = 1;", "pub struct Err(u8); pub struct Some;",
         "mod std { pub mod result {} } mod crossmist { pub struct Object; }",
         "pub trait Other { fn serialize(&self, _: u8) {} fn expect(self, _: &str) where Self: Sized {} } impl<X> Other for X {}",
         "pub struct Child; pub struct Sender; pub struct Receiver; pub trait Object {}"]

def noise(it):
    """Of few functions, chosen by their number"""
    import zlib
    h = zlib.crc32(repr((it.k, it.kind, getattr(it, "name", ""), getattr(it, "ret", ""))).encode())
    if h % 5:
        return []
    x = NOISE[h // 5 % len(NOISE)]
    names = [getattr(it, "name", "")] + [p.name for p in getattr(it, "params", [])]
    return [x] if not any(n and re.search(r"\b%s\b" % re.escape(n.replace("r#", "")), x) for n in names) else []

class P:
    pass

class Item:
    pass

class Gen:
    def __init__(g, rng, cfg, count):
        g.r, g.cfg = rng, cfg
        g.items = []
        for k in range(count):
            g.items.append(g.func(k) if rng.random() < 0.72 else g.lamb(k))

    def value_type(g):
        r = g.r
        k = r.random()
        if k < 0.4:
            return r.choice(COPY)[0]
        if k < 0.85:
            return r.choice(OWN)[0]
        a, b = r.choice(COPY + OWN)[0], r.choice(COPY + OWN)[0]
        return r.choice([S + "vec::Vec<%s>" % a, S + "option::Option<%s>" % a, "(%s, %s)" % (a, b), S + "boxed::Box<%s>" % a, S + "rc::Rc<%s>" % a, "[%s; 2]" % a, S + "marker::PhantomData<%s>" % a])

    def func(g, k):
        r = g.r
        it = Item()
        it.k, it.kind = k, "func"
        it.mode = r.choice([""] * 4 + progen.api(g.cfg))
        it.place = r.choice(["mod"] * 6 + ["block", "macro", "macro"])
        while True:
            it.name = r.choice(FNAMES) if it.place != "block" else r.choice(["vh_inner", "r#type", "Nested", "_unused", "r#loop"])
            # rustc does not parse constants named r#async (it takes them for a closure)
            if it.name != "r#async" and not (it.mode == "tokio" and it.name in BAD_WITH_TOKIO):
                break
        it.refs = not it.mode and r.random() < 0.25
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 12, 15, 20])
        it.lifetimes = []
        if it.refs and it.place != "macro" and r.random() < 0.5:
            it.lifetimes = ["'a"] + (["'b"] if r.random() < 0.3 else [])
        it.generics = []
        it.inst = {}
        if r.random() < 0.35 and n and it.place != "macro":
            for name in r.sample([p for p in PARAMS if p != it.name], r.choice([1, 1, 2, 3])):
                p = P()
                p.name = name
                p.extra = r.choice(["", "", "l", "p", "c"])
                p.inst = r.choice([o for o in COPY + OWN if all(e in o[1] for e in p.extra)])[0]
                it.generics.append(p)
        # parameters
        it.params = []
        names = r.sample([x for x in NAMES if x != it.name], n)
        for name in names:
            p = P()
            p.name = name
            p.ref = ""
            p.alias = False
            gen = it.generics and r.random() < 0.5
            if gen:
                q = r.choice(it.generics)
                p.ty = q.name
                if r.random() < 0.25:
                    p.ty = r.choice([S + "vec::Vec<%s>", "(u8, %s)", S + "option::Option<%s>", S + "marker::PhantomData<%s>", S + "boxed::Box<%s>"]) % q.name
            else:
                p.ty = g.value_type()
            it.params.append(p)
        # every parameter of the function must be determined by the arguments
        for q in it.generics[:]:
            if not any(re.search(r"(?<![\w:])%s(?!\w)" % re.escape(q.name), p.ty) for p in it.params):
                free = [p for p in it.params if not any(re.search(r"(?<![\w:])%s(?!\w)" % re.escape(z.name), p.ty) for z in it.generics)]
                if free:
                    r.choice(free).ty = q.name
                else:
                    it.generics.remove(q)
        for p in it.params:
            p.inst = p.ty
            for q in it.generics:
                p.inst = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(q.name), "\0%s\0" % q.name, p.inst)
            for q in it.generics:
                p.inst = p.inst.replace("\0%s\0" % q.name, q.inst)
        # forms of the parameters
        for p in it.params:
            p.pat = "mut " if r.random() < 0.15 else "ref " if r.random() < 0.06 and it.place != "macro" else ""
            p.attr = "#[allow(unused_mut)] " if r.random() < 0.05 and it.place != "macro" else ""
            p.tail = " @ _" if r.random() < 0.03 and it.place != "macro" else ""
            if it.place == "macro":
                p.pat = ""
        if it.refs:
            if not it.params:
                it.refs = False
                it.lifetimes = []
            else:
                some = False
                for p in r.sample(it.params, r.randint(1, min(3, len(it.params)))):
                    lt = (r.choice(it.lifetimes) + " ") if it.lifetimes and r.random() < 0.7 else ""
                    k2 = r.choice(["&", "&", "&mut", "str", "slice"])
                    p.tail = ""
                    p.pat = ""
                    if k2 == "str":
                        p.inst, p.ref, p.sig = S + "string::String", "&", "&%sstr" % lt
                    elif k2 == "slice":
                        p.inst, p.ref, p.sig = S + "vec::Vec<u32>", "&", "&%s[u32]" % lt
                    elif k2 == "&mut":
                        p.inst = p.ty = r.choice(MUT)
                        p.ref, p.sig = "&mut", "&%smut %s" % (lt, p.ty)
                    else:
                        p.inst, p.ref, p.sig = p.inst, "&", "&%s%s" % (lt, p.ty)
                # a lifetime may not be determined, but type parameters must be
                for q in it.generics[:]:
                    if not any(re.search(r"(?<![\w:])%s(?!\w)" % re.escape(q.name), getattr(p, "sig", p.ty)) for p in it.params):
                        it.generics.remove(q)
        for p in it.params:
            if not hasattr(p, "sig"):
                p.sig = p.ty
        it.inst_args = [q.inst for q in it.generics]
        # the report of functions without a result
        it.report = False
        k2 = r.randrange(10)
        movable = [p for p in it.params if not p.ref and p.pat != "ref "]
        it.early = None
        if k2 < 2 and len(it.params) < 20:
            it.report = True
            p = P()
            p.name = r.choice([x for x in NAMES if x != it.name and x not in [q.name for q in it.params]])
            p.ty = p.sig = p.inst = "::vh::sig::Report"
            p.ref = p.pat = p.attr = p.tail = ""
            it.params.insert(r.randint(0, len(it.params)), p)
            it.reporter = p
            it.ret, it.ret_inst = r.choice(["", "", " -> ()"]), "()"
            it.expr = "%s.put(vh_h)" % p.name
        elif k2 < 5 and movable:
            some = r.sample(movable, min(len(movable), r.choice([1, 1, 2, 3])))
            it.ret = " -> (u64, %s)" % ", ".join(p.ty for p in some)
            it.ret_inst = "(u64, %s)" % ", ".join(p.inst for p in some)
            it.expr = "(vh_h, %s)" % ", ".join(p.name for p in some)
        elif k2 == 5 and movable:
            p = r.choice(movable)
            it.ret = " -> %soption::Option<%s>" % (S, p.ty)
            it.ret_inst = "%soption::Option<%s>" % (S, p.inst)
            it.expr = "if vh_h % 3 == 0 { return ::std::option::Option::None; } ::std::option::Option::Some(" + p.name + ")"
        elif k2 == 6 and movable:
            p = r.choice(movable)
            it.ret = " -> %sresult::Result<%s, %sstring::String>" % (S, p.ty, S)
            it.ret_inst = "%sresult::Result<%s, %sstring::String>" % (S, p.inst, S)
            it.expr = "let vh_e: ::std::result::Result<u8, ::std::string::String> = if vh_h % 2 == 0 { ::std::result::Result::Ok(1) } else { ::std::result::Result::Err(vh_h.to_string()) }; vh_e?; ::std::result::Result::Ok(" + p.name + ")"
        elif k2 == 7 and movable:
            p = r.choice(movable)
            it.ret, it.ret_inst, it.expr = " -> %s" % p.ty, p.inst, "let _ = vh_h; " + p.name
        elif k2 == 8:
            it.ret = it.ret_inst = " -> %svec::Vec<u64>" % S
            it.ret_inst = S + "vec::Vec<u64>"
            it.expr = "::std::vec![vh_h; (vh_h % 5) as usize]"
        else:
            it.ret, it.ret_inst, it.expr = " -> u64", "u64", "vh_h"
        # recursion through processes
        it.recursive = False
        if not it.refs and not it.report and it.place == "mod" and r.random() < 0.25:
            c = [p for p in it.params if p.sig == "u8" and p.pat != "ref "]
            if c and not any(p.pat == "ref " for p in it.params):
                it.recursive = c[0]
        it.attrs = r.sample(ATTRS, r.choice([0, 0, 0, 1, 2]))
        it.vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) "])
        it.twin = it.place == "mod" and r.random() < 0.2
        it.bounds(g)
        # splits: how many arguments to bind
        n = len(it.params)
        it.splits = sorted(set([r.randint(1, n) for _ in range(2)] + ([n] if r.random() < 0.5 else []))) if n and not it.refs else []
        if n > 12:
            it.splits = it.splits[:2]
        it.desc = "%s %s(%s)%s" % (it.mode, it.name, ", ".join(p.sig for p in it.params), it.ret)
        return it

    def lamb(g, k):
        r = g.r
        it = Item()
        it.k, it.kind = k, "lambda"
        it.level = r.choice(["fn", "fn", "mut", "once"])
        nc = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
        na = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
        if nc == 0:
            it.level = "fn"
        kinds = [r.choice({"fn": "vr", "mut": "vrm", "once": "vrmo"}[it.level]) for _ in range(nc)]
        if it.level == "mut" and "m" not in kinds:
            kinds[r.randrange(nc)] = "m"
        if it.level == "once" and "o" not in kinds:
            kinds[r.randrange(nc)] = "o"
        refs = [i for i, x in enumerate(kinds) if x in "rm"]
        r.shuffle(refs)
        if it.level == "mut" and kinds[refs[0]] != "m":
            refs.sort(key=lambda i: kinds[i] != "m")
        for i in refs[4:]:
            kinds[i] = "v"
        names = r.sample(NAMES, nc + na)
        it.caps, it.args = [], []
        for i in range(nc):
            p = P()
            p.kind, p.name = kinds[i], names[i]
            p.ty = {"v": lambda: r.choice(COPY)[0], "o": lambda: r.choice(OWN)[0], "m": lambda: r.choice(MUT), "r": lambda: r.choice(COPY + OWN)[0]}[p.kind]()
            p.sig = {"v": "", "o": "", "m": "&mut ", "r": "&"}[p.kind] + p.ty
            p.inst = p.ty
            it.caps.append(p)
        for i in range(na):
            p = P()
            p.name, p.ty = names[nc + i], g.value_type()
            p.sig = p.inst = p.ty
            it.args.append(p)
        it.params = it.caps + it.args
        it.comma = r.random() < 0.3
        mov = [p for p in it.args] + [p for p in it.caps if p.kind in "vo"]
        if mov and r.random() < 0.4:
            p = r.choice(mov)
            it.ret_inst, it.expr = "(u64, %s)" % p.inst, "(vh_h, %s)" % p.name
        else:
            it.ret_inst, it.expr = "u64", "vh_h"
        it.generics, it.place, it.mode = [], "lambda", ""
        it.desc = "lambda (%s) |%s| -> %s" % (", ".join(p.sig for p in it.caps), ", ".join(p.sig for p in it.args), it.ret_inst)
        return it

def bounds(it, g):
    r = g.r
    it.gens, it.where = [], []
    for l in it.lifetimes:
        it.gens.append("'b: 'a" if l == "'b" and r.random() < 0.5 else l)
    for p in it.generics:
        bs = ["::crossmist::Object", S + "fmt::Debug"] + ["'static"] + [BOUNDS[e] for e in p.extra]
        if r.random() < 0.15:
            bs.append(r.choice(["::vh::derived::Tr", "::vh::derived::Tr<u16>", "::vh::derived::Tr<u8, Assoc = u8>"]))
        r.shuffle(bs)
        c = r.choice([0, len(bs), len(bs), r.randint(0, len(bs))])
        it.gens.append(p.name + (": " + " + ".join(bs[:c]) if c else ""))
        if bs[c:]:
            it.where.append("%s: %s" % (p.name, " + ".join(bs[c:])))
        if r.random() < 0.1:
            it.where.append(r.choice(["::std::vec::Vec<%s>: Sized", "::std::option::Option<%s>: ::std::fmt::Debug"]) % p.name)
    if r.random() < 0.04:
        it.where.append("u8: Sized")
Item.bounds = bounds

def tup(xs):
    return "(" + "".join(x + ", " for x in xs) + ")"

def code(it, call):
    """The body; call: how to call itself."""
    b = "let mut vh_h = 7u64; "
    for i, p in enumerate(it.params):
        if getattr(p, "pat", "") == "mut ":
            b += "let _ = &mut %s; " % p.name
        b += "::vh::sig::mixin(&mut vh_h, %d, &%s); " % (i, p.name)
    for i, p in enumerate(it.params):
        if p.sig.startswith("&") and "mut " in p.sig:
            b += "::vh::sig::Evolve::evolve(%s, vh_h.rotate_left(%d)); " % (p.name, i)
    return b

def func_text(it, plain):
    gens = "<%s>" % ", ".join(it.gens) if it.gens else ""
    where = " where " + ", ".join(it.where) if it.where else ""
    b = code(it, None)
    if it.recursive:
        args = ", ".join(p.name if p is not it.recursive else p.name + " / 3" for p in it.params)
        call = ("vh_plain(%s)" % args) if plain else ("%s.run(%s).expect(\"the process of the recursive call\")" % (it.name, args))
        b += "if %s %% 3 == 1 { return %s; } " % (it.recursive.name, call)
    if it.mode and not plain:
        b += {"tokio": "::tokio::task::yield_now().await; vh_h = ::tokio::spawn(async move { vh_h }).await.unwrap(); ",
              "smol": "::smol::future::yield_now().await; vh_h = ::smol::spawn(async move { vh_h }).await; "}[it.mode]
    b += it.expr
    ps = ", ".join("%s%s%s%s: %s" % (p.attr, p.pat, p.name, p.tail, p.sig) for p in it.params)
    if plain:
        return "#[allow(warnings)] fn vh_plain%s(%s)%s%s { %s }" % (gens, ps, it.ret, where, b)
    attr = "#[::crossmist::func%s]" % {"": "", "tokio": '(tokio(flavor = "current_thread"))', "smol": "(smol)"}[it.mode]
    at = it.k % (len(it.attrs) + 1)
    if it.place == "macro":
        names = ", ".join("%s: %s" % (p.name, p.sig) for p in it.params)
        ret = it.ret[4:] if it.ret else "()"
        return ("macro_rules! make_func { ($n:ident [$($a:ident: $t:ty),*] $r:ty, $b:block) => { %s pub %sfn $n($($a: $t),*) -> $r $b } }\nmake_func!(%s [%s] %s, { %s });" % (
            attr, "async " if it.mode else "", it.name, names, ret, b))
    attrs = it.attrs[:at] + [attr] + it.attrs[at:]
    # #[cfg] and doc comments may stand anywhere
    abi = ["extern \"C\" ", "extern \"Rust\" "][it.k % 2] if it.k % 5 == 2 and not it.mode else ""
    return "\n".join(attrs) + "\n%s%s%sfn %s%s(%s)%s%s { %s }" % (it.vis if it.place == "mod" else "", "async " if it.mode else "", abi, it.name, gens, ps, it.ret, where, b)

GEN = "::vh::Val::gen(%s, 2)"

def source(it, cfg):
    return func_source(it, cfg) if it.kind == "func" else lambda_source(it)

def func_source(it, cfg):
    o = ["mod m%d {" % it.k] + noise(it)
    where = "super::"
    if it.place != "block":
        o.append(func_text(it, False))
    o.append(func_text(it, True))
    if it.twin:
        o.append("pub fn vh_twin() -> u64 {\n    { #[::crossmist::func] fn %s() -> u64 { 77 }\n    ::crossmist::FnObject::call_object(&%s, ()) + { #[::crossmist::func] fn %s(vh_a: u64) -> u64 { vh_a }\n"
                 "    ::crossmist::FnObject::call_object(&%s, (23,)) } }\n}" % (it.name, it.name, it.name, it.name))
    o.append("pub mod vh_case {")
    o.append("pub fn case(vh_c: &mut ::vh::run::Ctx) -> ::vh::run::Res {")
    F = "super::" + it.name
    if it.place == "block":
        o.append(func_text(it, False))
        F = it.name
    fl = {"": "", "tokio": "::vh::flav::Fl::T", "smol": "::vh::flav::Fl::S"}[it.mode]
    ps = it.params
    n = len(ps)
    if it.twin:
        o.append('    ::vh::ensure!(super::vh_twin() == 100, "functions of the same name are mixed up");')
    # the arguments
    o.append("    let vh_at = vh_c.s.at();")
    vals = [p for p in ps if p.inst != "::vh::sig::Report"]
    def args(src):
        """Make the arguments: variables vh_v0.."""
        t = []
        for i, p in enumerate(ps):
            if p.inst == "::vh::sig::Report":
                t.append("let (vh_v%d, vh_rx) = ::vh::sig::Report::new();" % i)
            else:
                t.append("let mut vh_v%d: %s = %s;" % (i, p.inst, GEN % src))
        return " ".join(t)
    def pass_(i):
        p = ps[i]
        return {"": "vh_v%d", "&": "&vh_v%d", "&mut": "&mut vh_v%d"}[p.ref] % i
    allp = [pass_(i) for i in range(n)]
    R = it.ret_inst
    o.append("    %s" % args("&mut vh_c.s"))
    o.append('    let vh_n = format!("%s", %s);' % (", ".join("{:?}" for _ in ps), ", ".join("&vh_v%d" % i for i in range(n))) if ps else "    let vh_n = String::new();")
    o.append("    vh_c.note(|| vh_n);")
    muts = [i for i, p in enumerate(ps) if p.ref == "&mut"]
    def state():
        return "::std::format!(\"%s\", %s)" % (" ".join("{:?}" for _ in muts), ", ".join("vh_v%d" % i for i in muts)) if muts else "()"
    o.append("    let vh_want: %s = super::vh_plain(%s);" % (R, ", ".join(allp)))
    if it.report:
        o.append("    let vh_want = ::vh::sig::reports(vh_rx);")
    o.append("    let vh_state = %s;" % state())
    o.append("    let vh_steps = 1 + vh_c.s.len(4);")
    o.append("    for vh_step in 0..vh_steps {")
    o.append("        let vh_again = &mut vh_c.s.again(vh_at);")
    o.append("        " + args("vh_again"))
    T = tup([p.inst if not p.ref else "_" for p in ps])
    arms = []
    w = (lambda e: "::vh::sig::wait(%s, %s)" % (fl, e)) if it.mode else (lambda e: e)
    a = tup(allp)
    arms.append(("call_object", w("::crossmist::FnObject::call_object(&%s, %s)" % (F, a))))
    arms.append(("call_object_mut", "{ let mut vh_f = ::vh::sig::again(vh_c, %s)?; %s }" % (F, w("::crossmist::FnMutObject::call_object_mut(&mut vh_f, %s)" % a))))
    arms.append(("call_object_once", "{ let vh_f = ::vh::sig::again(vh_c, %s)?; %s }" % (F, w("::crossmist::FnOnceObject::call_object_once(vh_f, %s)" % a))))
    out = R if not it.mode else "::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = %s>>>" % R
    if not it.refs:
        for tr, m in (("FnObject", "call_object(&"), ("FnMutObject", "call_object_mut(&mut "), ("FnOnceObject", "call_object_box(")):
            star = "*" if tr != "FnOnceObject" else ""
            f = "{ let mut vh_f: ::std::boxed::Box<dyn ::crossmist::%s<%s, Output = %s>> = ::std::boxed::Box::new(%s); let mut vh_f = ::vh::sig::again(vh_c, vh_f)?; %s }" % (
                tr, T, out, F, w("::crossmist::%s::%s%svh_f, %s)" % (tr, m, star, a)))
            arms.append(("Box<dyn %s>" % tr, f))
        if not it.mode:
            f = "{ let vh_f: ::std::boxed::Box<dyn ::crossmist::FnOnceObject<%s, Output = %s>> = ::std::boxed::Box::new(%s); " % (T, out, F)
            arms.append(("gate", f + 'vh_slow += 1; let vh_k = ::vh::flav::drive(::vh::flav::FLS[vh_how %% 3], async { let vh_k = ::vh::must!(::vh::start!(vh_how, ::vh::sig::gate, vh_f, %s), "gate"); ::std::result::Result::Ok(::vh::must!(vh_k.join().await, "gate")) })?; vh_k }' % a))
        f = 'vh_slow += 1; ::vh::flav::drive(::vh::flav::FLS[vh_how %% 3], async { let vh_k = ::vh::must!(::vh::start!(vh_how, %s, %s), "a process"); ::std::result::Result::Ok(::vh::must!(vh_k.join().await, "a process")) })?' % (F, ", ".join(allp))
        f = f.replace(", )", ")")
        arms.append(("process", "{ %s }" % f))
        arms.append(("process", "{ %s }" % f))
    if cfg == "nightly":
        arms.append(("direct", w("%s(%s)" % (F, ", ".join(allp)))))
    for s in it.splits:
        b = "{ let vh_f = %s; " % F
        for i in range(s):
            b += "let vh_f = ::crossmist::BindValue::<%s, %s>::bind_value(vh_f, vh_v%d); " % (ps[i].inst, tup([p.inst for p in ps[i + 1:]]), i)
            if i == s - 1 or i % 4 == s % 3:
                b += "let vh_f = ::vh::sig::again(vh_c, vh_f)?; "
        rest = tup(["vh_v%d" % i for i in range(s, n)])
        rt = tup([p.inst for p in ps[s:]])
        arms.append(("bind %d" % s, b + w("::crossmist::FnOnceObject::<%s>::call_object_once(vh_f, %s)" % (rt, rest)) + " }"))
        b2 = b + "let vh_f: ::std::boxed::Box<dyn ::crossmist::FnOnceObject<%s, Output = %s>> = ::std::boxed::Box::new(vh_f); let vh_f = ::vh::sig::again(vh_c, vh_f)?; " % (rt, out)
        arms.append(("bind %d, boxed" % s, b2 + w("::crossmist::FnOnceObject::call_object_box(vh_f, %s)" % rest) + " }"))
    # processes cost more
    o.append("        let vh_how = vh_c.s.idx(6);\n        let mut vh_slow = 0;")
    slow = [i for i, x in enumerate(arms) if x[0] in ("process", "gate")]
    fast = [i for i, x in enumerate(arms) if x[0] not in ("process", "gate")]
    if slow:
        o.append("        let vh_way = if vh_c.s.below(24) == 23 { [%s][vh_c.s.idx(%d)] } else { [%s][vh_c.s.idx(%d)] };" % (
            ", ".join(map(str, slow)), len(slow), ", ".join(map(str, fast)), len(fast)))
    else:
        o.append("        let vh_way = vh_c.s.idx(%d);" % len(arms))
    names = ", ".join('"%s"' % x[0] for x in arms)
    o.append('        let vh_name = [%s][vh_way];\n        vh_c.note(|| vh_name.to_string());\n        vh_c.label(vh_name.split(" ").next().unwrap());' % names)
    o.append("        let vh_got: %s = match vh_way {" % R)
    for i, (_, e) in enumerate(arms):
        o.append("            %d => %s," % (i, e))
    o.append("            _ => unreachable!(),\n        };")
    if it.report:
        o.append("        let vh_got = ::vh::sig::reports(vh_rx);")
        o.append('        ::vh::ensure!(vh_got == vh_want, "through {vh_name}, the function reported {vh_got:?}, not {vh_want:?}");')
    else:
        o.append('        ::vh::ensure!(::vh::Val::same(&vh_got, &vh_want), "through {vh_name}, the function returned {vh_got:?}, not {vh_want:?}");')
    if muts:
        o.append('        ::vh::ensure!(%s == vh_state, "through {vh_name}, the function left its arguments as {:?}, not {vh_state:?}", %s);' % (state(), state()))
    o.append("    }\n    ::std::result::Result::Ok(())\n}\n}\n}")
    return "\n".join(o)

def lambda_source(it):
    o = ["mod m%d {" % it.k] + noise(it)
    b = code(it, None) + it.expr
    o.append("#[allow(warnings)] fn vh_plain(%s) -> %s { %s }" % (", ".join("%s: %s" % (p.name, p.sig) for p in it.params), it.ret_inst, b))
    tr = {"fn": "FnObject", "mut": "FnMutObject", "once": "FnOnceObject"}[it.level]
    A = tup([p.inst for p in it.args])
    dyn_ = lambda t: "::std::boxed::Box<dyn ::crossmist::%s<%s, Output = %s>>" % (t, A, it.ret_inst)
    mv = "move(%s) " % ", ".join({"v": "", "o": "", "m": "&mut ", "r": "&"}[p.kind] + "%s: %s" % (p.name, p.sig) for p in it.caps) if it.caps else ""
    if not it.caps and it.comma:
        mv = ""
    o.append("#[allow(warnings)] fn vh_make(%s) -> %s {\n    ::crossmist::lambda! { %s|%s| -> %s { %s } }\n}" % (
        ", ".join("%s: %s" % (p.name, p.inst) for p in it.caps), dyn_(tr), mv, ", ".join("%s: %s" % (p.name, p.inst) for p in it.args), it.ret_inst, b))
    nc = len(it.caps)
    o.append("pub fn case(vh_c: &mut ::vh::run::Ctx) -> ::vh::run::Res {")
    o.append("    let vh_at = vh_c.s.at();")
    def args(src, ps, start):
        return " ".join("let mut vh_v%d: %s = %s;" % (start + i, p.inst, GEN % src) for i, p in enumerate(ps))
    def model():
        return "vh_plain(%s)" % ", ".join([{"v": "vh_m%d", "o": "vh_m%d.take().unwrap()", "m": "&mut vh_m%d", "r": "&vh_m%d"}[p.kind] % i for i, p in enumerate(it.caps)] +
                                          ["vh_v%d" % (nc + i) for i in range(len(it.args))])
    for i, p in enumerate(it.caps):
        o.append("    let mut vh_m%d: %s = %s;" % (i, p.inst if p.kind != "o" else S + "option::Option<%s>" % p.inst,
                                                  GEN % "&mut vh_c.s" if p.kind != "o" else S + "option::Option::Some(%s)" % (GEN % "&mut vh_c.s")))
    o.append('    let vh_n = format!("{:?}", (%s));' % "".join("&vh_m%d, " % i for i in range(min(nc, 8))))
    o.append("    vh_c.note(|| vh_n);")
    o.append("    let vh_again = &mut vh_c.s.again(vh_at);")
    o.append("    " + args("vh_again", it.caps, 0))
    o.append("    let vh_f = vh_make(%s);" % ", ".join("vh_v%d" % i for i in range(nc)))
    o.append("    let mut vh_f = ::vh::sig::again(vh_c, vh_f)?;")
    once = it.level == "once"
    o.append("    let vh_steps = %s;" % ("0" if once else "vh_c.s.below(4)"))
    a = "(" + "".join("vh_v%d, " % (nc + i) for i in range(len(it.args))) + ")"
    if not once:
        o.append("    for vh_step in 0..vh_steps {")
        o.append("        let vh_at = vh_c.s.at();")
        o.append("        " + args("&mut vh_c.s", it.args, nc))
        o.append("        let vh_want = %s;" % model())
        o.append("        let vh_again = &mut vh_c.s.again(vh_at);")
        o.append("        " + args("vh_again", it.args, nc))
        o.append('        vh_c.label("call");')
        call = "::crossmist::FnMutObject::call_object_mut(&mut *vh_f, %s)" % a
        if it.level == "fn":
            call = "if vh_c.s.flip() { %s } else { ::crossmist::FnObject::call_object(&*vh_f, %s) }" % (call, a)
        o.append("        let vh_got = %s;" % call)
        o.append('        ::vh::ensure!(::vh::Val::same(&vh_got, &vh_want), "call {vh_step} of the lambda returned {vh_got:?}, not {vh_want:?}");')
        o.append("        if vh_c.s.below(3) == 2 { vh_f = ::vh::sig::again(vh_c, vh_f)?; }")
        o.append("    }")
    # the last call
    o.append("    let vh_at = vh_c.s.at();")
    o.append("    " + args("&mut vh_c.s", it.args, nc))
    o.append("    let vh_want = %s;" % model())
    o.append("    let vh_again = &mut vh_c.s.again(vh_at);")
    o.append("    " + args("vh_again", it.args, nc))
    if once:
        o.append("    let vh_g: %s = vh_f;" % dyn_("FnOnceObject"))
    else:
        o.append("    let vh_g: %s = ::std::boxed::Box::new(vh_f);" % dyn_("FnOnceObject") if False else "    let vh_g = vh_f;")
    o.append("    let vh_how = vh_c.s.idx(6);")
    proc = 'vh_c.label("process"); let vh_g: %s = %s; ::vh::flav::drive(::vh::flav::FLS[vh_how %% 3], async { let vh_k = ::vh::must!(::vh::start!(vh_how, ::vh::sig::gate, vh_g, %s), "gate"); ::std::result::Result::Ok(::vh::must!(vh_k.join().await, "gate")) })?' % (
        dyn_("FnOnceObject"), "vh_g" if once else "::std::boxed::Box::new(::vh::sig::Once(vh_g))", a)
    if not once:
        proc = "unreachable!()"
    o.append("    let vh_got: %s = if %s { %s } else { vh_c.label(\"last call\"); ::crossmist::FnOnceObject::call_object_box(vh_g, %s) };" % (
        it.ret_inst, "vh_c.s.below(16) == 15" if once else "false", proc, a))
    o.append('    ::vh::ensure!(::vh::Val::same(&vh_got, &vh_want), "the lambda returned {vh_got:?}, not {vh_want:?}");')
    o.append("    ::std::result::Result::Ok(())\n}\n}")
    return "\n".join(o)

class Program:
    def __init__(s, items, cfg):
        s.items, s.cfg = items, cfg
        s.lines = []
    def source(s):
        out = ["// Generated by checks/gen19.py.", "#![allow(warnings)]"]
        s.lines = []
        at = len(out) + 1
        for it in s.items:
            t = source(it, s.cfg)
            n = t.count("\n") + 1
            s.lines.append((at, at + n, it.k))
            at += n
            out.append(t)
        out.append("static TABLE: &[::vh::sig::Case] = &[")
        for it in s.items:
            out.append('    ::vh::sig::Case { name: r#"m%d: %s"#, f: m%d::%scase },' % (it.k, it.desc.replace("::std::", ""), it.k, "vh_case::" if it.kind == "func" else ""))
        out.append("];")
        out.append("fn main() {\n    ::vh::sig::set_table(TABLE);\n    ::crossmist::init();\n    ::vh::flav::warm_up();\n    ::vh::flav::warm_smol();\n"
                   "    ::vh::run::worker_main(&[::vh::run::Prop { name: \"C19\", f: ::vh::sig::case }]);\n}")
        return "\n".join(out) + "\n"
    def item_at(s, line):
        for a, b, k in s.lines:
            if a <= line < b:
                return k
        return None
    def subset(s, ks):
        return Program([i for i in s.items if i.k in ks], s.cfg)
    def text(s, it):
        if it.kind == "func":
            return " ".join(func_text(it, False).split())
        t = source(it, s.cfg)
        t = t[t.index("::crossmist::lambda!"):]
        return " ".join(t[:t.index("\n}")].split())
    def describe(s, k):
        it = [i for i in s.items if i.k == k][0]
        return "a use of " + s.text(it)[:700]
    def kinds(s):
        for i in s.items:
            yield i.kind
            if i.kind == "func":
                yield i.mode or "sync"
                yield "in a " + i.place
                if i.generics:
                    yield "generic"
                if i.lifetimes:
                    yield "with lifetimes"
                if i.where:
                    yield "with where clause"
                if i.refs:
                    yield "by reference"
                if i.recursive:
                    yield "recursive through processes"
                if i.report:
                    yield "without result"
            yield "%s parameters" % (len(i.params) if len(i.params) < 4 else "4-9" if len(i.params) < 10 else "10-20")
    def sample(s):
        return s.text(s.items[len(s.items) // 2])[:500]

COUNT = 12
def make(rng, cfg):
    return Program(Gen(rng, cfg, COUNT).items, cfg)
def run(pid, entry, tier, seed, scale):
    q = tier == "quick"
    configs = [("stable", 7 if q else 10), ("bare", 1), ("onlytokio", 1), ("onlysmol", 1), ("nightly", 2 if q else 4)]
    return progen.run(pid, entry, tier, seed, scale, make, "gen19", configs, dict(quick=2500, thorough=12000))
def replay(pid, d):
    return progen.replay(pid, d, "gen19")
