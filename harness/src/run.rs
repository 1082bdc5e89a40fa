//! The property runner. A worker process runs one shard of the cases of a property, or replays one tape.
//! Exit codes: 0 all cases held, 1 violation, 3 error of the harness.

use crate::src::{mirror_case, mix, set_mirror, Src};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Debug)]
pub enum Fail {
    /// The property is broken.
    V(String),
    /// The harness could not do its job.
    H(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return ::std::result::Result::Err($crate::run::Fail::V(format!($($a)*))); } };
}
#[macro_export]
macro_rules! violated {
    ($($a:tt)*) => { return ::std::result::Result::Err($crate::run::Fail::V(format!($($a)*))) };
}
#[macro_export]
macro_rules! harness {
    ($e:expr, $($a:tt)*) => { match $e { ::std::result::Result::Ok(v) => v, ::std::result::Result::Err(e) => return ::std::result::Result::Err($crate::run::Fail::H(format!("{}: {}", format!($($a)*), e))) } };
}
/// An operation of the library which must succeed.
#[macro_export]
macro_rules! must {
    ($e:expr, $($a:tt)*) => { match $e { ::std::result::Result::Ok(v) => v, ::std::result::Result::Err(e) => return ::std::result::Result::Err($crate::run::Fail::V(format!("{} failed: {:?}", format!($($a)*), e))) } };
}

pub struct Ctx {
    pub s: Src,
    pub log: Vec<String>,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub verbose: bool,
    /// Shape of the case, for distinctness in addition to the tape.
    pub index: u64,
    pub tier_thorough: bool,
}
impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.log.len() < 400 {
            let mut s = f();
            if s.len() > 300 {
                let mut k = 300;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            if self.verbose {
                eprintln!("  {s}");
            }
            self.log.push(s);
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub struct Prop {
    pub name: &'static str,
    pub f: fn(&mut Ctx) -> Res,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn hash_tape(t: &[u64]) -> u64 {
    t.iter().fold(0x1234567, |h, v| mix(h ^ *v))
}

fn run_case(p: &Prop, c: &mut Ctx) -> Res {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
    match catch_unwind(AssertUnwindSafe(|| (p.f)(c))) {
        Ok(r) => r,
        Err(e) => {
            let m = last_panic();
            let m2 = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // (no threads are left in the sandbox: nothing the code under test could do about it)
            if m.contains("HARNESS") || m2.contains("HARNESS") || m.contains("failed to spawn thread") {
                return Err(Fail::H(format!("{m} {m2}")));
            }
            Err(Fail::V(format!("panic: {}", if m.is_empty() { m2 } else { m })))
        }
    }
}

/// Entry point of the worker binaries. Call after `crossmist::init()`.
pub fn worker_main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} run|replay PROP ...", args[0]);
        std::process::exit(3)
    };
    if args.len() < 3 {
        usage();
    }
    if let Some(p) = arg(&args, "--mirror") {
        // 1 MiB words
        let words = 1 << 20;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(&p).expect("HARNESS mirror");
        f.set_len(words as u64 * 8).expect("HARNESS mirror");
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                words * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                std::os::fd::AsRawFd::as_raw_fd(&f),
                0,
            )
        };
        assert!(m != libc::MAP_FAILED, "HARNESS mmap");
        set_mirror(m as *mut u64, words);
        crate::kid::journal_init(&format!("{p}.journal"));
    }
    let quiet = arg(&args, "--loud").is_none();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.to_string();
        if let Ok(mut l) = LAST_PANIC.lock() {
            if l.is_empty() {
                *l = m.clone();
            }
        }
        if !quiet {
            eprintln!("{m}");
        }
    }));
    let Some(prop) = props.iter().find(|p| p.name == args[2]) else {
        eprintln!("no such property {}", args[2]);
        std::process::exit(3)
    };
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    let ctx = |s: Src, verbose: bool, index: u64| Ctx {
        s,
        log: Vec::new(),
        labels: BTreeMap::new(),
        nontrivial: false,
        verbose,
        index,
        tier_thorough: thorough,
    };
    match args[1].as_str() {
        "replay" => {
            let text = std::fs::read_to_string(arg(&args, "--tape").unwrap_or_else(|| usage())).expect("HARNESS tape");
            let tape: Vec<u64> = text.split_whitespace().map(|x| x.parse().expect("HARNESS tape")).collect();
            let mut c = ctx(Src::replay(tape).mirrored(), !quiet, 0);
            mirror_case(0);
            let r = run_case(prop, &mut c);
            let (code, kind, msg) = match r {
                Ok(()) => (0, "held", String::new()),
                Err(Fail::V(m)) => (1, "violation", m),
                Err(Fail::H(m)) => (3, "harness", m),
            };
            let tape: Vec<String> = c.s.tape.iter().map(|x| x.to_string()).collect();
            println!("{{\"result\":{},\"message\":{},\"log\":{},\"tape\":[{}]}}", jstr(kind), jstr(&msg), jlist(&c.log), tape.join(","));
            std::process::exit(code)
        }
        "run" => {
            let seed: u64 = arg(&args, "--seed").unwrap_or_else(|| usage()).parse().expect("HARNESS seed");
            let shard: u64 = arg(&args, "--shard").unwrap_or_else(|| usage()).parse().expect("HARNESS shard");
            let cases: u64 = arg(&args, "--cases").unwrap_or_else(|| usage()).parse().expect("HARNESS cases");
            let from: u64 = arg(&args, "--from").map_or(0, |x| x.parse().expect("HARNESS from"));
            let out = arg(&args, "--out").unwrap_or_else(|| usage());
            let mut evals = 0u64;
            let mut nontrivial: HashSet<u64> = HashSet::new();
            let mut labels: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples: Vec<String> = Vec::new();
            let mut failure = String::from("null");
            let mut code = 0;
            for i in from..cases {
                let case_seed = mix(mix(mix(seed) ^ hash_str(prop.name)) ^ mix(shard << 40 | i));
                let mut c = ctx(Src::gen(case_seed).mirrored(), false, i);
                mirror_case(i);
                let r = run_case(prop, &mut c);
                evals += 1;
                for (k, v) in &c.labels {
                    *labels.entry(k.clone()).or_insert(0) += v;
                }
                if c.nontrivial {
                    let fresh = nontrivial.insert(hash_tape(&c.s.tape));
                    if fresh && (samples.is_empty() || (samples.len() < 3 && i % 7 == 3)) {
                        samples.push(format!("case {}.{}: {}", shard, i, c.log.join("; ")));
                    }
                }
                match r {
                    Ok(()) => {}
                    Err(f) => {
                        let (kind, msg) = match f {
                            Fail::V(m) => ("violation", m),
                            Fail::H(m) => ("harness", m),
                        };
                        code = if kind == "violation" { 1 } else { 3 };
                        let tape: Vec<String> = c.s.tape.iter().map(|x| x.to_string()).collect();
                        failure = format!(
                            "{{\"kind\":{},\"case\":{},\"message\":{},\"log\":{},\"tape\":[{}]}}",
                            jstr(kind), i, jstr(&msg), jlist(&c.log), tape.join(",")
                        );
                        break;
                    }
                }
            }
            let labels: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            let hashes: Vec<String> = nontrivial.iter().map(|x| format!("\"{x:x}\"")).collect();
            let text = format!(
                "{{\"evaluations\":{},\"nontrivial\":[{}],\"labels\":{{{}}},\"samples\":{},\"failure\":{}}}\n",
                evals, hashes.join(","), labels.join(","), jlist(&samples), failure
            );
            let mut f = std::fs::File::create(&out).expect("HARNESS out");
            f.write_all(text.as_bytes()).expect("HARNESS out");
            std::process::exit(code)
        }
        _ => usage(),
    }
}
