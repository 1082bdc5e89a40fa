#!/usr/bin/env python3
"""Generates harness/src/props/c11_table.rs: callables of many capture modes and arities. Run from anywhere; the output is committed."""
import random, os
COPY = ["u8", "u64", "i32", "char", "bool", "(u8, u32)", "Option<NonZeroU16>", "PodS", "[u16; 3]", "()", "Zst", "i128", "PodE"]
OWN = ["String", "Vec<u32>", "Box<u64>", "Option<String>", "BTreeMap<u8, String>", "Vec<String>", "(String, u8)", "Rc<u32>", "Box<str2>", "Mixed"]
OWN = [t for t in OWN if t != "Box<str2>"]
MUT = ["u64", "String", "Vec<u32>", "Option<String>", "BTreeMap<u8, String>", "(u8, u32)", "Vec<String>", "Box<u64>", "u8"]
rng = random.Random(7)

def signature(ncap, nargs, level):
    caps = []
    for i in range(ncap):
        if level == "fn": k = rng.choice("vr")
        elif level == "mut": k = rng.choice("vrm")
        else: k = rng.choice("vrmo")
        caps.append(k)
    if level == "mut" and "m" not in caps: caps[rng.randrange(ncap)] = "m"
    if level == "once" and "o" not in caps: caps[rng.randrange(ncap)] = "o"
    # the time to compile doubles with each capture by reference
    refs = [i for i, k in enumerate(caps) if k in 'rm']
    rng.shuffle(refs)
    keep = 5
    if level == 'mut' and caps[refs[0]] != 'm': refs.sort(key=lambda i: caps[i] != 'm')
    for i in refs[keep:]: caps[i] = 'v'
    out = []
    for k in caps:
        if k == "v": out.append((k, rng.choice(COPY)))
        elif k == "o": out.append((k, rng.choice(OWN)))
        elif k == "m": out.append((k, rng.choice(MUT)))
        else: out.append((k, rng.choice(COPY + OWN)))
    return out, [rng.choice(COPY + OWN + OWN) for _ in range(nargs)]

def ptype(k, t): return {"v": t, "o": t, "m": f"&mut {t}", "r": f"&{t}"}[k]

def body(caps, args):
    b = "let mut h = 7u64; "
    n = 0
    for k, _ in caps:
        b += f"mixin(&mut h, {n}, &p{n}); "; n += 1
    for _ in args:
        b += f"mixin(&mut h, {n}, &p{n}); "; n += 1
    for i, (k, _) in enumerate(caps):
        if k == "m": b += f"p{i}.evolve(h.rotate_left({i})); tick(); "
    return b + "h"

out = ["// Generated by gen/c11.py; do not edit.\n"]
names = []
def emit(i, how, caps, args, level):
    nc, na = len(caps), len(args)
    params = ", ".join([f"p{j}: {ptype(k, t)}" for j, (k, t) in enumerate(caps)] + [f"p{nc+j}: {t}" for j, t in enumerate(args)])
    b = body(caps, args)
    C = "(" + "".join(t + ", " for _, t in caps) + ")"
    A = "(" + "".join(t + ", " for t in args) + ")"
    o = f"fn plain{i}({params}) -> u64 {{ {b} }}\n"
    model_args = []
    for j, (k, _) in enumerate(caps):
        model_args.append({"v": f"c.{j}", "o": f"c.{j}.clone()", "m": f"&mut c.{j}", "r": f"&c.{j}"}[k])
    model_args += [f"a.{j}" for j in range(na)]
    model = f"|c: &mut {C}, a: {A}| plain{i}({', '.join(model_args)})"
    if how == "func":
        o += f"#[crossmist::func]\nfn func{i}({params}) -> u64 {{ {b} }}\n"
        make = f"let f = func{i};"
    elif how == "static":
        make = f"let f = unsafe {{ StaticFn::<fn({', '.join([t for _, t in caps] + args)}) -> u64>::new(plain{i}) }};"
    if how == "lambda":
        mv = ", ".join({"v": "", "o": "", "m": "&mut ", "r": "&"}[k] + f"p{j}: {ptype(k, t)}" for j, (k, t) in enumerate(caps))
        vs = ", ".join(f"p{nc+j}: {t}" for j, t in enumerate(args))
        make = " ".join(f"let p{j} = c.{j}.clone();" for j in range(nc)) + f" Ok(*crossmist::lambda! {{ move({mv}) |{vs}| -> u64 {{ {b} }} }})"
        if nc == 0:
            make = f"Ok(*crossmist::lambda! {{ |{vs}| -> u64 {{ {b} }} }})"
    else:
        # types of the tails are named because several impls match (e.g. through Box)
        for j, (k, t) in enumerate(caps):
            m = {"v": "value", "o": "value", "m": "mut", "r": "ref"}[k]
            make += f" let f = f.bind_{m}(c.{j}.clone()); let f = again(x, f)?;"
        make += " Ok(f)"
    gen = "|s: &mut Src| (" + "".join("Val::gen(s, 1), " for _ in range(max(na, 0))) + ")"
    genc = "|s: &mut Src| (" + "".join("Val::gen(s, 1), " for _ in range(max(nc, 0))) + ")"
    drv = {"fn": "drive_fn", "mut": "drive_mut", "once": "drive_once"}[level]
    note = repr(f"{how} {level} [{', '.join(ptype(k, t) for k, t in caps)}] ({', '.join(args)})").replace("'", '"')
    if nc > 15:
        # a type nested so deep makes the compiler slow in generic code, so this one is only called and copied
        calls = {"fn": ["call_object", "call_object_mut", "call_object"], "mut": ["call_object_mut"] * 3, "once": []}[level]
        steps = "".join(f"let a = gena(&mut c.s); let got = f.{m}(a.clone()); check(c, got, model(&mut caps, a))?; f = again(c, f)?; " for m in calls)
        o += f"""#[allow(unused_variables, unused_mut, clippy::all)]
fn case{i}(c: &mut Ctx) -> Res {{
    c.note(|| {note}.to_string());
    c.nontrivial();
    let (genc, gena, model) = ({genc}, {gen}, {model});
    let mut caps: {C} = genc(&mut c.s);
    let mut f = (|x: &mut Ctx, c: &{C}| -> Result<_, Fail> {{ {make} }})(c, &caps)?;
    f = again(c, f)?;
    {steps}
    let a = gena(&mut c.s);
    let got = if c.s.flip() {{ f.call_object_once(a.clone()) }} else {{ Box::new(f).call_object_box(a.clone()) }};
    check(c, got, model(&mut caps, a))
}}
"""
    else:
        o += f"""#[allow(unused_variables, clippy::all)]
fn case{i}(c: &mut Ctx) -> Res {{
    c.note(|| {note}.to_string());
    {drv}(c, Spec {{ genc: {genc}, gena: {gen}, make: |x: &mut Ctx, c: &{C}| {{ {make} }}, model: {model} }})
}}
"""
    out.append(o)
    names.append(f"case{i}")

def plan():
    for how in ("func", "lambda"):
        for level in ("fn", "mut", "once"):
            shapes = [(1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 0), (3, 3), (4, 1), (1, 5)]
            if level == "fn": shapes += [(0, 0), (0, 1), (0, 2), (0, 3), (0, 7)]
            shapes += [(rng.randint(1, 12), rng.randint(0, 7)) for _ in range(3)]
            if how == "func": shapes += [(10, 10), (1, 19), (7, 13), (13, 6)] + {"fn": [], "mut": [(19, 1)], "once": [(20, 0)]}[level]
            else: shapes += [(5, 15)] + ([(20, 0)] if level == "fn" else [])
            if how == "func" and level == "fn": shapes += [(0, 20), (0, 19), (0, 13)]
            for nc, na in shapes:
                yield (how, level) + signature(nc, na, level)
    for nc, na in [(0, 0), (0, 1), (0, 2), (0, 3), (0, 5), (0, 12), (0, 13), (0, 19), (0, 20)]:
        yield ("static", "fn") + signature(nc, na, "fn")
    for nc, na in [(1, 1), (2, 3), (5, 0)]:
        yield ("static", "fn", [("v", rng.choice(COPY)) for _ in range(nc)], [rng.choice(OWN + COPY) for _ in range(na)])
PARTS = 4
PLAN = list(plan())
for part in range(PARTS):
    out = ["// Generated by gen/c11.py; do not edit.\n"]
    names = []
    for i, (how, level, caps, args) in enumerate(PLAN):
        if i % PARTS == part:
            emit(i, how, caps, args, level)
    out.append("pub const CASES: &[fn(&mut Ctx) -> Res] = &[" + ", ".join(names) + "];\n")
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "props", f"c11_table{part}.rs")
    open(path, "w").write("\n".join(out))
print(len(PLAN))
