"""C22: generated programs with all forms of an entry point, which start themselves in generated ways."""
import random
import progen

RETURNS = [
    # name, declaration, error?, code?, never?, body (END is an expression of type End)
    ("nothing", "", 0, 0, 0, "match END { ::vh::root::End::Return => {} vh_x => unreachable!(\"HARNESS {vh_x:?}\") }"),
    ("unit", " -> ()", 0, 0, 0, "let _ = END; return;"),
    ("string", " -> ::std::result::Result<(), ::std::string::String>", 1, 0, 0,
     "match END { ::vh::root::End::Fail(vh_x) => ::std::result::Result::Err(vh_x), _ => ::std::result::Result::Ok(()) }"),
    ("boxed error", " -> ::std::result::Result<(), ::std::boxed::Box<dyn ::std::error::Error>>", 1, 0, 0,
     "match END { ::vh::root::End::Fail(vh_x) => { ::std::result::Result::<(), ::std::string::String>::Err(vh_x)?; } _ => {} } ::std::result::Result::Ok(())"),
    ("io error", " -> ::std::io::Result<()>", 1, 0, 0,
     "if let ::vh::root::End::Fail(vh_x) = END { return ::std::result::Result::Err(::std::io::Error::new(::std::io::ErrorKind::Other, vh_x)); } ::std::result::Result::Ok(())"),
    ("code", " -> ::std::process::ExitCode", 0, 1, 0,
     "match END { ::vh::root::End::Code(vh_x) => ::std::process::ExitCode::from(vh_x), _ => ::std::process::ExitCode::SUCCESS }"),
    ("code or error", " -> ::std::result::Result<::std::process::ExitCode, ::std::string::String>", 1, 1, 0,
     "::std::result::Result::Ok(match END { ::vh::root::End::Code(vh_x) => ::std::process::ExitCode::from(vh_x), ::vh::root::End::Fail(vh_x) => return ::std::result::Result::Err(vh_x), _ => ::std::process::ExitCode::SUCCESS })"),
    ("some termination", " -> impl ::std::process::Termination", 0, 1, 0,
     "match END { ::vh::root::End::Code(vh_x) => ::std::process::ExitCode::from(vh_x), _ => ::std::process::ExitCode::SUCCESS }"),
    ("own termination", " -> Own", 0, 1, 0, "match END { ::vh::root::End::Code(vh_x) => Own(vh_x), _ => Own(0) }"),
    ("alias", " -> Alias", 1, 0, 0, "match END { ::vh::root::End::Fail(vh_x) => ::std::result::Result::Err(vh_x), _ => ::std::result::Result::Ok(()) }"),
    ("never", " -> !", 0, 0, 1, "let _ = END; unreachable!()"),
]
MAIN_ATTRS = ["::crossmist::main", "crossmist::main", "main", "entry", "cm::main"]
ATTRS = ["#[allow(unused)]", "/// The entry.\n", "#[inline(never)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(dead_code))]", "#[deny(unsafe_op_in_unsafe_fn)]", "#[doc(hidden)]", "#[cold]"]
NOISE = [
    "mod std { pub mod process { pub struct ExitCode; } }",
    "#[allow(non_snake_case)] fn init() { panic!(\"not this one\") }",
    "#[allow(non_upper_case_globals)] const args: u8 = 1;",
    "struct Termination; struct Result; struct Ok; struct Err;",
    "mod inner { pub fn main() { panic!(\"not this one\") } #[::crossmist::func] pub fn helper(x: u8) -> u8 { x + 1 } }",
    "#[::crossmist::func] fn helper(x: ::std::vec::Vec<u8>) -> usize { x.len() }",
    "macro_rules! vec { ($($t:tt)*) => { compile_error!(\"not this one\") } }",
    "static INITIALIZED: u8 = 0;",
]

class Program:
    def __init__(s, rng, cfg, which):
        s.cfg = cfg
        s.items = [0]
        ret = RETURNS[which]
        hosts = ["Sync", "Sync", "Tokio", "Smol"]
        s.host = rng.choice(hosts)
        if s.host == "Tokio" and "tokio" not in progen.api(cfg):
            s.host = "Sync"
        if ret[0] in ("some termination", "never") and s.host == "Tokio":
            s.host = "Sync"
        at = rng.choice(MAIN_ATTRS)
        before, after = [], []
        for a in rng.sample(ATTRS, rng.randrange(4)):
            (before if rng.random() < 0.4 else after).append(a)
        uses = {"main": "use ::crossmist::main;", "entry": "use ::crossmist::main as entry;", "cm::main": "use ::crossmist as cm;"}.get(at, "")
        if at == "main" and rng.random() < 0.5:
            uses = "#[allow(unused_imports)] use ::crossmist::*;"
        noise = rng.sample(NOISE, rng.randrange(4))
        if any("fn init" in n or "mod std" in n or "struct Ok" in n for n in noise) and "*" in uses or s.host == "Tokio" and "*" in uses:
            uses = "use ::crossmist::main;"
        vis = rng.choice(["", "", "pub ", "pub(crate) ", "pub(self) "])
        s.name = "main returning %s, %s, %smain" % (ret[0], s.host, vis)
        form = '::vh::root::Form { name: "%s", host: ::vh::root::Host::%s, fail: %s, code: %s, never: %s }' % (
            s.name, s.host, *["true" if x else "false" for x in ret[2:5]])
        end = "::vh::root::subject_sync()" if s.host == "Sync" else "::vh::root::subject(::vh::root::Host::Tokio).await" if s.host == "Tokio" else \
            "::vh::root::smol_main(::vh::root::subject(::vh::root::Host::Smol))"
        body = ret[5].replace("END", end)
        runtime = ""
        fn = "fn"
        if s.host == "Tokio":
            runtime = rng.choice(['#[::tokio::main(flavor = "current_thread")]', '#[tokio::main(flavor = "current_thread")]'])
            fn = "async fn"
        inner = rng.choice(["", "fn helper() -> u8 { 7 } let _ = helper();", "use ::std::collections::HashMap as _H;", "let main = 5; let _ = main;"])
        # workers run outside of any runtime
        begin = "::vh::root::begin(%s);" % form
        if s.host == "Tokio":
            begin = "if ::std::env::var_os(\"VH_PLAN\").is_none() { ::std::thread::spawn(|| ::vh::root::begin(%s)).join().unwrap(); } %s" % (form, begin)
        # crossmist::init() instead of the attribute, and calls of it which have nothing left to do
        s.explicit = s.host != "Tokio" and rng.random() < 0.25
        s.again = rng.random() < 0.25
        if s.again:
            inner += " ::crossmist::init(); ::std::thread::spawn(::crossmist::init).join().unwrap();"
        if s.explicit:
            begin = "::crossmist::init(); " + begin
            s.name += ", init()"
            at = "allow(unused)"
        fntext = "%s\n#[%s]\n%s%s%s%s main()%s {\n    %s\n    %s\n    %s\n}" % (
            "\n".join(before), at, "".join(a + "\n" for a in after), runtime + "\n" if runtime else "", vis, fn, ret[1], begin, inner, body)
        s.by_macro = rng.random() < 0.2
        if s.by_macro:
            fntext = "macro_rules! make_entry { ($name:ident) => { %s } }\nmake_entry!(main);" % fntext.replace("main()", "$name()", 1) 
        s.src = "\n".join(["// Generated by checks/gen22.py.", "#![allow(warnings)]", uses,
                           "struct Own(u8);\nimpl ::std::process::Termination for Own { fn report(self) -> ::std::process::ExitCode { ::std::process::ExitCode::from(self.0) } }",
                           "type Alias = ::std::result::Result<(), ::std::string::String>;"] + noise + [fntext]) + "\n"
    def source(s):
        return s.src
    def item_at(s, line):
        return 0
    def subset(s, ks):
        return s
    def describe(s, k):
        return s.name
    def kinds(s):
        yield s.name.split(",")[0]
        yield s.host
        if s.by_macro:
            yield "made by a macro"
        if s.explicit:
            yield "crossmist::init() instead of the attribute"
        if s.again:
            yield "crossmist::init() again"
    def sample(s):
        return s.src[s.src.index("#[allow") if "#[allow" in s.src else 0:][-700:]

class Make:
    def __init__(s):
        s.n = 0
    def __call__(s, rng, cfg):
        s.n += 1
        if s.n % 11 == 1:
            s.order = list(range(len(RETURNS)))
            rng.shuffle(s.order)
        return Program(rng, cfg, s.order[(s.n - 1) % 11])
def run(pid, entry, tier, seed, scale):
    q = tier == "quick"
    configs = [("stable", 11), ("bare", 1 if q else 2), ("nightly", 0 if q else 4)]
    return progen.run(pid, entry, tier, seed, scale, Make(), "gen22", [c for c in configs if c[1]], dict(quick=900, thorough=9000))
def replay(pid, d):
    return progen.replay(pid, d, "gen22")
