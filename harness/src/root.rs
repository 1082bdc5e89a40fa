//! What the generated programs of C22 share: each of them is a worker which starts itself, as a subject, with generated
//! names, arguments, environment, directory and streams.

use crate::flav::{drive, Fl};
use crate::kid::how_fl;
use crate::run::*;
use crate::src::fill;
use crate::{ensure, harness, start, violated};
use std::ffi::{OsStr, OsString};
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq)]
pub enum Host {
    Sync,
    Tokio,
    Smol,
}
/// How the subject is to end.
#[derive(Debug)]
pub enum End {
    Return,
    Fail(String),
    Code(u8),
}
#[derive(Clone, Copy)]
pub struct Form {
    pub name: &'static str,
    pub host: Host,
    /// main can return an error
    pub fail: bool,
    /// main can return a code
    pub code: bool,
    /// main cannot return at all
    pub never: bool,
}
static FORM: OnceLock<Form> = OnceLock::new();

const PLAN: &str = "VH_PLAN";
const REPORT: &str = "VH_REPORT";
const SCRATCH: &str = "VH_SCRATCH";

/// To be called in main: tells whether this process is the subject. A worker does not return.
pub fn begin(form: Form) {
    if std::env::var_os(PLAN).is_some() {
        report(&format!("main {} {}", unsafe { libc::getpid() }, std::env::args_os().map(|a| hex(a.as_bytes())).collect::<Vec<_>>().join(",")));
        return;
    }
    let _ = FORM.set(form);
    crate::flav::warm_up();
    worker_main(&[Prop { name: "C22", f: case }]);
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn report(line: &str) {
    let mut f = std::fs::OpenOptions::new().append(true).open(std::env::var_os(REPORT).expect("HARNESS report")).expect("HARNESS report");
    f.write_all(format!("{line}\n").as_bytes()).expect("HARNESS report");
}

fn status(field: &str) -> String {
    let s = std::fs::read("/proc/thread-self/status").expect("HARNESS status");
    let s = String::from_utf8_lossy(&s);
    s.lines().find_map(|l| l.strip_prefix(field)).unwrap_or("?").trim().to_string()
}
fn limit(r: libc::__rlimit_resource_t) -> (u64, u64) {
    let mut l: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe { libc::getrlimit(r, &mut l) };
    (l.rlim_cur, l.rlim_max)
}
fn set_soft(r: libc::__rlimit_resource_t, v: u64) {
    let (_, max) = limit(r);
    unsafe { libc::setrlimit(r, &libc::rlimit { rlim_cur: v.min(max), rlim_max: max }) };
}
/// What a process sees of its surroundings.
fn view() -> Vec<String> {
    let mut v = Vec::new();
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    for (k, x) in env {
        v.push(format!("env {}={}", hex(k.as_bytes()), hex(x.as_bytes())));
    }
    v.push(format!("cwd {}", std::env::current_dir().map_or("?".into(), |d| hex(d.as_os_str().as_bytes()))));
    v.push(format!("exe {:?}", std::fs::read_link("/proc/self/exe")));
    v.push(format!("root {:?}", std::fs::read_link("/proc/self/root")));
    for f in ["Umask:", "SigBlk:", "SigIgn:", "Uid:", "Gid:", "Groups:", "NoNewPrivs:", "Cpus_allowed:"] {
        v.push(format!("{f} {}", status(f)));
    }
    unsafe {
        v.push(format!("pgid {} sid {}", libc::getpgid(0), libc::getsid(0)));
        v.push(format!("nice {}", libc::getpriority(libc::PRIO_PROCESS, 0)));
    }
    for (n, r) in [("nofile", libc::RLIMIT_NOFILE), ("core", libc::RLIMIT_CORE), ("fsize", libc::RLIMIT_FSIZE), ("stack", libc::RLIMIT_STACK)] {
        v.push(format!("limit {n} {:?}", limit(r)));
    }
    for fd in 0..3 {
        v.push(format!("fd {fd} {:?}", crate::util::file_id(fd)));
    }
    v
}
fn differ(what: &str, want: &[String], got: &[String]) {
    for g in got {
        if !want.contains(g) {
            report(&format!("bad {what} sees {g}, unlike its parent"));
        }
    }
    for w in want {
        if !got.contains(w) {
            report(&format!("bad {what} does not see {w} of its parent"));
        }
    }
}

/// Functions run in child processes.
#[crossmist::func]
fn see(ask: u64) -> (u64, i32, i32, Vec<String>) {
    (ask, unsafe { libc::getpid() }, unsafe { libc::getppid() }, view())
}
#[crossmist::func]
fn say(text: String, err: bool) {
    if err {
        eprintln!("{text}");
    } else {
        println!("{text}");
    }
}
#[crossmist::func]
fn listen(n: usize) -> Vec<u8> {
    use std::io::Read;
    let mut b = vec![0; n];
    let mut f = std::mem::ManuallyDrop::new(unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) });
    let mut k = 0;
    while k < n {
        let m = f.read(&mut b[k..]).expect("stdin");
        if m == 0 {
            break;
        }
        k += m;
    }
    b.truncate(k);
    b
}
/// A child which starts a child.
#[crossmist::func]
fn deeper(how: usize, ask: u64) -> (u64, Vec<String>) {
    let mine = view();
    let me = unsafe { libc::getpid() };
    let (x, _, parent, theirs) = drive(how_fl(how), async { start!(how, see, ask).expect("deeper").join().await.expect("deeper") });
    if parent != me {
        report("bad a grandchild has another parent");
    }
    differ("a grandchild", &mine, &theirs);
    (x, mine)
}

/// A child which looks when it is told to, and then changes what it can: `go` says when, `dir` where to go.
#[crossmist::func]
fn see_later(mut go: crossmist::Receiver<()>, dir: PathBuf, mask: u32) -> Vec<String> {
    go.recv().expect("later").expect("later");
    let v = view();
    std::env::set_current_dir(dir).expect("HARNESS chdir");
    unsafe { libc::umask(mask) };
    std::env::set_var("VH_A", "changed by a child");
    set_soft(libc::RLIMIT_NOFILE, 50);
    v
}
/// What the parent does to itself after the start of a child does not affect the child, nor the other way round.
async fn later(how: usize, a: u64, b: u64, scratch: PathBuf) -> std::io::Result<()> {
    let (mut tx, rx) = crossmist::channel()?;
    let want = view();
    let kid = start!(how, see_later, rx, scratch.join(format!("d{}", b % 3)), (b % 0o777) as u32)?;
    std::env::set_current_dir(scratch.join(format!("d{}", a % 3))).expect("HARNESS chdir");
    unsafe { libc::umask((a % 0o777) as libc::mode_t) };
    std::env::set_var(name(a), value(b));
    let mine = view();
    tx.send(&())?;
    let theirs = kid.join().await?;
    differ("a child which looks later", &want, &theirs);
    differ("the parent, after its child changed its surroundings,", &mine, &view());
    Ok(())
}

const SIGNALS: [i32; 6] = [libc::SIGUSR1, libc::SIGUSR2, libc::SIGHUP, libc::SIGWINCH, libc::SIGTERM, libc::SIGALRM];

macro_rules! go_sync {
    ($how:expr, $f:expr $(, $a:expr)*) => {{
        let how: usize = $how;
        drive(how_fl(how), async { match start!(how, $f $(, $a)*) { Ok(k) => k.join().await, Err(e) => Err(e) } })
    }};
}
macro_rules! go {
    ($host:expr, $how:expr, $f:expr $(, $a:expr)*) => {{
        let how: usize = $how;
        match $host {
            Host::Sync => go_sync!(how, $f $(, $a)*),
            Host::Tokio => match start!(how, $f $(, $a)*) { Ok(k) => k.join().await, Err(e) => Err(e) },
            // no tokio runtime here
            Host::Smol => { let how = if how % 3 == 1 { how - 1 } else { how }; match start!(how, $f $(, $a)*) { Ok(k) => k.join().await, Err(e) => Err(e) } }
        }
    }};
}
fn name(i: u64) -> OsString {
    OsString::from_vec(match i % 5 {
        0 => b"VH_A".to_vec(),
        1 => b"x".to_vec(),
        2 => vec![0xff, b'n'],
        3 => b"LD_NOTHING".to_vec(),
        _ => "ключ".as_bytes().to_vec(),
    })
}
fn value(i: u64) -> OsString {
    let mut b = fill(i, (i % 9) as usize * if i % 4 == 3 { 700 } else { 1 });
    b.retain(|x| *x != 0);
    OsString::from_vec(b)
}
/// The body of the subject.
pub async fn subject(host: Host) -> End {
    let plan: Vec<u64> = std::env::var(PLAN).expect("HARNESS plan").split(',').map(|x| x.parse().expect("HARNESS plan")).collect();
    let scratch = PathBuf::from(std::env::var_os(SCRATCH).expect("HARNESS scratch"));
    for st in plan[3..].chunks(3) {
        let (a, b) = (st[1], st[2]);
        let how = (a % 6) as usize;
        match st[0] {
            0 => std::env::set_var(name(a), value(b)),
            1 => std::env::remove_var(name(a)),
            2 => std::env::set_current_dir(scratch.join(format!("d{}", a % 3))).expect("HARNESS chdir"),
            3 => unsafe {
                libc::umask((a % 0o1000) as libc::mode_t);
            },
            4 => unsafe {
                let mut set: libc::sigset_t = std::mem::zeroed();
                libc::sigemptyset(&mut set);
                libc::sigaddset(&mut set, SIGNALS[a as usize % SIGNALS.len()]);
                libc::pthread_sigmask(if b % 3 == 2 { libc::SIG_UNBLOCK } else { libc::SIG_BLOCK }, &set, std::ptr::null_mut());
            },
            5 => unsafe {
                libc::signal(SIGNALS[a as usize % SIGNALS.len()], if b % 3 == 2 { libc::SIG_DFL } else { libc::SIG_IGN });
            },
            6 => {
                let (want, r) = if host == Host::Sync && a / 8 % 3 == 1 {
                    // from another thread, with its own signal mask
                    std::thread::scope(|s| {
                        s.spawn(|| {
                            unsafe {
                                let mut set: libc::sigset_t = std::mem::zeroed();
                                libc::sigemptyset(&mut set);
                                libc::sigaddset(&mut set, SIGNALS[b as usize % SIGNALS.len()]);
                                libc::pthread_sigmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
                            }
                            (view(), go_sync!(how, see, b))
                        })
                        .join()
                        .expect("HARNESS thread")
                    })
                } else {
                    (view(), go!(host, how, see, b))
                };
                match r {
                    Ok((x, pid, ppid, got)) => {
                        let me = unsafe { libc::getpid() };
                        if x != b || pid == me || ppid != me {
                            report(&format!("bad a child {pid} of {ppid} answers {x} to {b} of {me}"));
                        }
                        differ("a child", &want, &got);
                    }
                    Err(e) => report(&format!("bad a child failed: {e}")),
                }
            }
            7 => {
                if let Err(e) = go!(host, how, say, format!("line {b}"), a % 2 == 1) {
                    report(&format!("bad a child which writes failed: {e}"));
                }
            }
            8 => match go!(host, how, listen, b as usize) {
                Ok(d) => report(&format!("read {}", hex(&d))),
                Err(e) => report(&format!("bad a child which reads failed: {e}")),
            },
            9 => {
                let exe = PathBuf::from(std::env::var_os("VH_EXE").expect("HARNESS exe"));
                if a % 2 == 0 {
                    let _ = std::fs::remove_file(&exe);
                } else if std::fs::rename(&exe, scratch.join("moved")).is_ok() {
                    // something else takes its place
                    let _ = std::fs::write(&exe, "#!/bin/false\n");
                }
            }
            10 => {
                if a % 2 == 0 {
                    set_soft(libc::RLIMIT_NOFILE, 64 + b % 500)
                } else {
                    set_soft(libc::RLIMIT_FSIZE, (1 << 24) + b % 1000)
                }
            }
            12 => {
                let how = how % 3;
                let scratch = scratch.clone();
                let r = match host {
                    Host::Sync => drive(how_fl(how), later(how, a, b, scratch)),
                    Host::Tokio => later(how, a, b, scratch).await,
                    Host::Smol => later(if how == 1 { 0 } else { how }, a, b, scratch).await,
                };
                if let Err(e) = r {
                    report(&format!("bad a child which looks later failed: {e}"));
                }
            }
            _ => {
                let want = view();
                match go!(host, how, deeper, (b % 6) as usize, b) {
                    Ok((x, got)) => {
                        if x != b {
                            report("bad a grandchild answers something else");
                        }
                        differ("a child", &want, &got);
                    }
                    Err(e) => report(&format!("bad a child with a child failed: {e}")),
                }
            }
        }
    }
    report("end");
    match plan[0] {
        0 => End::Return,
        1 => End::Fail(format!("failed as told {}", plan[1])),
        2 => End::Code(plan[1] as u8),
        3 => panic!("ended as told"),
        _ => std::process::exit(plan[1] as i32),
    }
}
pub fn subject_sync() -> End {
    futures_lite::future::block_on(subject(Host::Sync))
}

fn text(c: &mut Ctx) -> Vec<u8> {
    match c.s.below(8) {
        0 => Vec::new(),
        1 => b"_crossmist_".to_vec(),
        2 => c.s.pick(&["_crossmist", "crossmist_", "_crossmist_ ", "_CROSSMIST_", "./_crossmist_", "--", "-h", "3"]).as_bytes().to_vec(),
        3 => {
            let n = c.s.urange(1, 12);
            c.s.bytes(n).into_iter().map(|b| b.max(1)).collect()
        }
        4 => vec![0xff],
        5 => "имя".as_bytes().to_vec(),
        6 => vec![b'a'; c.s.urange(1, 5000)],
        _ => format!("arg{}", c.s.below(100)).into_bytes(),
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn case(c: &mut Ctx) -> Res {
    let form = *FORM.get().expect("HARNESS form");
    let exe = harness!(std::env::current_exe(), "exe");
    let dir = exe.parent().expect("HARNESS exe").join(format!("vh-c22-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    harness!(std::fs::create_dir(&dir), "scratch");
    let dir = Scratch(dir);
    for i in 0..3 {
        harness!(std::fs::create_dir(dir.0.join(format!("d{i}"))), "scratch");
    }
    let file: &[u8] = *c.s.pick(&[b"prog".as_slice(), b"_crossmist_", b"with space", b"\xff\xfe", b"x (deleted)"]);
    let link = dir.0.join(OsStr::from_bytes(file));
    harness!(std::fs::hard_link(&exe, &link), "link");
    let rep = dir.0.join("report");
    harness!(std::fs::write(&rep, ""), "report");
    let input: Vec<u8> = c.s.bytes(40);
    harness!(std::fs::write(dir.0.join("in"), &input), "in");

    // the invocation
    let mut arg0 = text(c);
    if arg0 == b"_crossmist_" {
        // the name which crossmist itself uses for children
        arg0.push(b'2');
    }
    let own_name = c.s.chance(1, 3);
    if own_name {
        arg0 = link.as_os_str().as_bytes().to_vec();
    }
    let args: Vec<Vec<u8>> = (0..c.s.len(6)).map(|_| text(c)).collect();
    let clear = c.s.flip();
    let mut envs: Vec<(OsString, OsString)> = Vec::new();
    for _ in 0..c.s.len(5) {
        let n = name(c.s.below(5));
        if envs.iter().all(|e| e.0 != n) {
            envs.push((n, value(c.s.below(40))));
        }
    }
    let end = loop {
        let e = c.s.below(5);
        if (form.never && e < 3) || (!form.fail && e == 1) || (!form.code && e == 2) {
            if c.s.below(2) == 0 {
                break 4;
            }
            continue;
        }
        break e;
    };
    let code = c.s.below(256);
    let mut plan = vec![end, code, 0];
    let mut said = Vec::new();
    let mut reads = Vec::new();
    let mut at = 0;
    let mut children = 0;
    for _ in 0..c.s.len(8) {
        let k = c.s.weighted(&[3, 1, 2, 2, 2, 2, 8, 3, 2, 1, 1, 2, 4]) as u64;
        let (a, mut b) = (c.s.below(512), c.s.below(512));
        match k {
            6 | 11 | 12 => children += 1,
            7 => {
                children += 1;
                said.push((a % 2 == 1, format!("line {b}")));
            }
            8 => {
                children += 1;
                b %= 20;
                let n = (b as usize).min(input.len() - at);
                reads.push(input[at..at + n].to_vec());
                at += n;
            }
            _ => {}
        }
        c.label(["set variable", "remove variable", "change directory", "umask", "block signal", "ignore signal", "child looks", "child writes", "child reads",
            "executable is gone", "limits", "grandchild looks", "child looks later"][k as usize]);
        plan.extend([k, a, b]);
    }
    c.note(|| format!("{}: name {:?} arguments {:?} variables {:?}, ends by {} {}, plan {:?}", form.name, OsStr::from_bytes(&arg0), args.iter().map(|a| OsStr::from_bytes(a)).collect::<Vec<_>>(),
        envs, ["returning", "an error", "a code", "a panic", "exit"][end as usize], code, &plan[3..]));
    c.label(["returns", "returns an error", "returns a code", "panics", "exits"][end as usize]);
    if std::str::from_utf8(&arg0).is_err() {
        c.label("name is not UTF-8");
    }
    if children > 0 || std::str::from_utf8(&arg0).is_err() || arg0.is_empty() {
        c.nontrivial();
    }

    let mut cmd = Command::new(&link);
    cmd.arg0(OsStr::from_bytes(&arg0));
    for a in &args {
        cmd.arg(OsStr::from_bytes(a));
    }
    if clear {
        cmd.env_clear();
    }
    for (k, v) in &envs {
        cmd.env(k, v);
    }
    let text: Vec<String> = plan.iter().map(|x| x.to_string()).collect();
    cmd.env(PLAN, text.join(",")).env(REPORT, &rep).env(SCRATCH, &dir.0).env("VH_EXE", &link).env("RUST_BACKTRACE", "0");
    cmd.current_dir(dir.0.join("d0"));
    let open = |p: &Path| std::fs::OpenOptions::new().append(true).create(true).open(p);
    cmd.stdin(harness!(std::fs::File::open(dir.0.join("in")), "in"));
    cmd.stdout(Stdio::from(harness!(open(&dir.0.join("out")), "out"))).stderr(Stdio::from(harness!(open(&dir.0.join("err")), "err")));
    let status = harness!(cmd.status(), "starting the subject");
    let err = String::from_utf8_lossy(&harness!(std::fs::read(dir.0.join("err")), "err")).into_owned();
    let out = String::from_utf8_lossy(&harness!(std::fs::read(dir.0.join("out")), "out")).into_owned();
    let report = harness!(std::fs::read_to_string(&rep), "report");
    let lines: Vec<&str> = report.lines().collect();
    if err.contains("HARNESS") {
        return Err(Fail::H(err));
    }
    if let Some(b) = lines.iter().find_map(|l| l.strip_prefix("bad ")) {
        violated!("{b}");
    }
    let mut want = vec![hex(&arg0)];
    want.extend(args.iter().map(|a| hex(a)));
    let mains: Vec<&&str> = lines.iter().filter(|l| l.starts_with("main ")).collect();
    ensure!(mains.len() == 1, "the body of main ran {} times (stderr: {err})", mains.len());
    ensure!(mains[0].split(' ').nth(2) == Some(&want.join(",")), "main sees the arguments {}, not {}", mains[0], want.join(","));
    ensure!(lines.contains(&"end"), "main did not get to its end, with status {status:?} (stderr: {err})");
    let want_code = match end {
        0 => 0,
        1 => 1,
        3 => 101,
        _ => code as i32,
    };
    ensure!(status.code() == Some(want_code), "the program ended with {:?} (signal {:?}), not {want_code} (stderr: {err})", status.code(), status.signal());
    if end == 1 {
        ensure!(err.contains(&format!("failed as told {code}")), "the error returned by main was not printed, but {err:?}");
    }
    let outs: String = said.iter().filter(|s| !s.0).map(|s| format!("{}\n", s.1)).collect();
    ensure!(out == outs, "the children wrote {outs:?}, but the output is {out:?}");
    let errs: String = said.iter().filter(|s| s.0).map(|s| format!("{}\n", s.1)).collect();
    ensure!(err.starts_with(&errs), "the children wrote {errs:?}, but the standard error is {err:?}");
    let got: Vec<&str> = lines.iter().filter_map(|l| l.strip_prefix("read ").or((*l == "read").then_some(""))).collect();
    let reads: Vec<String> = reads.iter().map(|r| hex(r)).collect();
    ensure!(got == reads, "the children read {got:?}, not {reads:?}");
    Ok(())
}
pub fn smol_main(f: impl std::future::Future<Output = End>) -> End {
    drive(Fl::S, f)
}
