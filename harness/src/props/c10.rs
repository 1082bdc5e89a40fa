// C10: which descriptors a child has, and which its own children have; ends of streams are noticed at once.
use crossmist::Object;
use std::fs::File;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};
use vh::flav::*;
use vh::hand::*;
use vh::kid::*;
use vh::run::*;
use vh::src::Src;
use vh::util::*;
use vh::{ensure, must, start, violated};

/// Handled in main: print the table of descriptors and exit, or wait for the end of the standard input.
pub fn exec_modes() {
    match std::env::args().nth(1).as_deref() {
        Some("--table") => {
            let t = open_fds();
            for fd in t.keys() {
                if *fd > 2 {
                    println!("{fd} {}", describe_fd(*fd));
                }
            }
            std::process::exit(0);
        }
        Some("--linger") => {
            let _ = std::io::stdin().read_to_end(&mut Vec::new());
            std::process::exit(0);
        }
        _ => {}
    }
}
/// std::process::Command does not work if descriptor 0 is closed
fn have_stdin() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC);
        if fd > 2 {
            libc::close(fd);
        } else {
            libc::fcntl(fd, libc::F_SETFD, 0);
        }
    }
}
/// What a program started from this process inherits
fn exec_census() -> Res<Vec<String>> {
    have_stdin();
    let mut cmd = std::process::Command::new("/proc/self/exe");
    cmd.arg("--table").stdin(std::process::Stdio::null());
    let out = match cmd.stderr(std::process::Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return Err(Fail::H(format!("starting a program: {e}"))),
    };
    if !out.status.success() {
        return Err(Fail::H(format!("the program ended with {:?}", out.status)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect())
}

#[derive(Object, Clone, Debug)]
pub enum Step {
    /// Start a program and record what it has
    Exec,
    /// Start a child with new handles, or with all the handles of this process
    Sub { how: u8, give: bool, steps: Vec<Step> },
    /// Receive a number of messages with handles while programs are started
    Recv { fl: u8, n: u8, meanwhile: bool },
    /// Drop all the handles and tell the parent
    Drop,
    /// Leave something behind which outlives this process
    LeaveExec,
    LeaveKid,
    /// Make pairs and files in this process, which the following children must not have
    Own(u8),
}
#[derive(Object)]
pub struct Kit {
    hv: Option<HV>,
    ends: Vec<crossmist::Sender<u64>>,
    ctl: Option<crossmist::Duplex<u64, u64>>,
    feed: Option<crossmist::Receiver<Vec<File>>>,
    hold: Option<File>,
}
impl Kit {
    fn fds(&self) -> Vec<i32> {
        let mut v = self.hv.as_ref().map_or(vec![], |x| x.fds());
        v.extend(self.ends.iter().map(|x| x.as_raw_fd()));
        v.extend(self.ctl.iter().map(|x| x.as_raw_fd()));
        v.extend(self.feed.iter().map(|x| x.as_raw_fd()));
        v.extend(self.hold.iter().map(|x| x.as_raw_fd()));
        v.sort();
        v
    }
}
#[derive(Object, Clone, Debug, PartialEq)]
pub struct Entry {
    fd: i32,
    dev: u64,
    ino: u64,
    cloexec: bool,
    what: String,
    /// For sockets, the process which created it
    maker: i32,
}
#[derive(Object, Clone, Debug)]
pub struct Report {
    table: Vec<Entry>,
    args: Vec<i32>,
    desc: Vec<String>,
    parent: i32,
    pid: i32,
    /// What programs inherited
    execs: Vec<String>,
    subs: Vec<(Report, bool, Vec<String>, Vec<Entry>)>,
    err: Option<String>,
}
fn table() -> Vec<Entry> {
    open_fds()
        .into_iter()
        .map(|(fd, id)| {
            let mut cred: libc::ucred = unsafe { std::mem::zeroed() };
            let mut len = std::mem::size_of::<libc::ucred>() as u32;
            let r = unsafe { libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_PEERCRED, &mut cred as *mut _ as *mut _, &mut len) };
            Entry { fd, dev: id.dev, ino: id.ino, cloexec: is_cloexec(fd), what: describe_fd(fd), maker: if r == 0 { cred.pid } else { 0 } }
        })
        .collect()
}
fn std_ids() -> Vec<Entry> {
    table().into_iter().filter(|e| e.fd <= 2).collect()
}

#[crossmist::func]
fn census(kit: Kit, steps: Vec<Step>) -> Report {
    let table = table();
    let mut r = Report {
        table,
        args: kit.fds(),
        desc: kit.hv.as_ref().map_or(vec![], |x| x.describe()),
        parent: unsafe { libc::getppid() },
        pid: std::process::id() as i32,
        execs: Vec::new(),
        subs: Vec::new(),
        err: None,
    };
    if let Err(e) = go(kit, steps, &mut r) {
        r.err = Some(format!("{e:?}"));
    }
    r
}
#[crossmist::func]
fn census_unit(kit: Kit, steps: Vec<Step>) {
    let mut r = Report { table: vec![], args: vec![], desc: vec![], parent: 0, pid: 0, execs: vec![], subs: vec![], err: None };
    match go(kit, steps, &mut r) {
        Err(Fail::H(_)) => return,
        r => r.unwrap(),
    }
    assert!(r.execs.is_empty());
}
#[crossmist::func]
fn linger(hold: File) {
    let mut hold = hold;
    let _ = hold.read_to_end(&mut Vec::new());
}
fn go(kit: Kit, steps: Vec<Step>, r: &mut Report) -> Res {
    let mut kit = kit;
    let mut own: Vec<File> = Vec::new();
    let mut feed: Option<Rx<Vec<File>>> = None;
    let mut own_ch = Vec::new();
    for st in steps {
        match st {
            Step::Exec => r.execs.extend(exec_census()?),
            Step::Own(n) => {
                for i in 0..n {
                    own.push(memfd());
                    if i % 2 == 0 {
                        own_ch.push(must!(crossmist::channel::<u64>(), "channel"));
                    }
                }
            }
            Step::Recv { fl, n, meanwhile } => {
                let fl = FLS[fl as usize];
                let Some(x) = kit.feed.take() else { continue };
                if feed.is_some() {
                    continue;
                }
                let stop = AtomicBool::new(false);
                let mut bad = Vec::new();
                let res = std::thread::scope(|s| {
                    let t = if meanwhile {
                        Some(s.spawn(|| -> Res<Vec<String>> {
                            let mut v = Vec::new();
                            for _ in 0..6 {
                                v.extend(exec_census()?);
                                if stop.load(Ordering::SeqCst) {
                                    break;
                                }
                            }
                            Ok(v)
                        }))
                    } else {
                        None
                    };
                    let res = drive(fl, async {
                        let mut x = must!(Rx::from_blocking(x, fl), "conversion");
                        for _ in 0..n {
                            match must!(x.recv().await, "receiving") {
                                Some(v) => {
                                    for f in &v {
                                        ensure!(is_cloexec(f.as_raw_fd()), "a received handle is not close-on-exec");
                                    }
                                    own.extend(v)
                                }
                                None => break,
                            }
                        }
                        if let Rx::B(_) = &x {
                            feed = Some(x);
                        }
                        Ok(())
                    });
                    stop.store(true, Ordering::SeqCst);
                    if let Some(t) = t {
                        bad = match t.join() { Ok(x) => x?, Err(_) => vec!["panic".into()] };
                    }
                    res
                });
                r.execs.extend(bad);
                res?;
            }
            Step::Drop => {
                kit.hv = None;
                kit.ends.clear();
                own.clear();
                if let Some(c) = &mut kit.ctl {
                    must!(c.send(&1), "reporting");
                    ensure!(matches!(c.recv(), Ok(Some(2))), "no answer");
                }
            }
            Step::LeaveExec => {
                if let Some(h) = &kit.hold {
                    have_stdin();
                    let h = must!(h.try_clone(), "dup");
                    match std::process::Command::new("/proc/self/exe").arg("--linger").stdin(h).spawn() {
                        Ok(_) => {}
                        Err(e) => return Err(Fail::H(format!("starting a program: {e}"))),
                    }
                }
            }
            Step::LeaveKid => {
                if let Some(h) = &kit.hold {
                    let h = must!(h.try_clone(), "dup");
                    std::mem::forget(must!(linger.spawn(h), "spawn"));
                }
            }
            Step::Sub { how, give, steps } => {
                let sub = if give {
                    Kit { hv: kit.hv.take(), ends: std::mem::take(&mut kit.ends), ctl: None, feed: None, hold: kit.hold.as_ref().map(|h| h.try_clone().unwrap()) }
                } else {
                    let v = (0..3).map(|_| HV::H(H::File(memfd()))).collect();
                    Kit { hv: Some(HV::Vec(v)), ends: vec![], ctl: None, feed: None, hold: None }
                };
                let want = sub.hv.as_ref().map_or(vec![], |x| x.describe());
                let rep: Res<Report> = drive(how_fl(how as usize), async {
                    let k = must!(start!(how as usize, census, sub, steps), "spawn");
                    Ok(must!(k.join().await, "join"))
                });
                r.subs.push((rep?, give, want, std_ids()));
            }
        }
    }
    drop(own_ch);
    Ok(())
}

/// How a child ends for which nobody waits
#[derive(Object, Clone, Copy, Debug, PartialEq)]
pub enum Last {
    /// With a result which nobody receives
    Return,
    /// Unwinding while the handles are in use
    Panic,
    /// With a result which cannot be sent in one piece: some of it is queued already
    Large,
    /// In the middle of unpacking its arguments
    Bad,
}
pub struct Picky(bool);
unsafe impl crossmist::NonTrivialObject for Picky {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut crossmist::Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut crossmist::Deserializer) -> std::io::Result<Self> {
        match d.deserialize()? {
            true => Err(std::io::ErrorKind::InvalidData.into()),
            false => Ok(Picky(false)),
        }
    }
}
fn last(kit: Kit, gate: crossmist::Receiver<u8>, l: Last) -> (Vec<u8>, Option<HV>) {
    let mut gate = gate;
    let _ = gate.recv();
    let big = if l == Last::Large { vec![7; 3 << 20] } else { vec![] };
    let Kit { hv, ends, .. } = kit;
    if l == Last::Panic {
        let _held = (hv, ends);
        std::panic::resume_unwind(Box::new(()));
    }
    (big, hv)
}
#[crossmist::func]
fn orphan(kit: Kit, gate: crossmist::Receiver<u8>, p: Picky, l: Last) -> (Vec<u8>, Option<HV>) {
    let _ = p;
    last(kit, gate, l)
}
#[crossmist::func(tokio(flavor = "current_thread"))]
async fn orphan_t(kit: Kit, gate: crossmist::Receiver<u8>, p: Picky, l: Last) -> (Vec<u8>, Option<HV>) {
    let _ = p;
    last(kit, gate, l)
}
#[crossmist::func(smol)]
async fn orphan_s(kit: Kit, gate: crossmist::Receiver<u8>, p: Picky, l: Last) -> (Vec<u8>, Option<HV>) {
    let _ = p;
    last(kit, gate, l)
}
/// A child whose Child is dropped: it ends by itself, and whatever it does not get rid of, it is not aborted for
/// closing a descriptor twice (as happens in builds with debug assertions).
fn orphans(list: &[(usize, usize, Last, u64)]) -> Res {
    for (how, kind, l, seed) in list {
        let (how, kind, l) = (*how, *kind, *l);
        let mut s = Src::gen(*seed);
        let mut m = Maker::default();
        m.files_only = true;
        let n = s.urange(0, 5);
        let hv = if n > 0 { Some(m.hv(&mut s, n, 2)) } else { None };
        m.settle();
        let mut ends = Vec::new();
        let mut rx = Vec::new();
        for _ in 0..s.below(3) {
            let (a, b) = must!(crossmist::channel::<u64>(), "channel");
            ends.push(a);
            rx.push(b);
        }
        let kit = Kit { hv, ends, ctl: None, feed: None, hold: None };
        let (gate_tx, gate) = must!(crossmist::channel::<u8>(), "channel");
        let bad = Picky(l == Last::Bad);
        let pid = drive(how_fl(how), async {
            let k = match kind {
                0 => must!(start!(how, orphan, kit, gate, bad, l), "spawn"),
                1 => must!(start!(how, orphan_t, kit, gate, bad, l), "spawn"),
                _ => must!(start!(how, orphan_s, kit, gate, bad, l), "spawn"),
            };
            Ok(k.id().unwrap())
        })?;
        drop(gate_tx);
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
            if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                return Err(Fail::H("waitpid".into()));
            }
        }
        ensure!(libc::WIFEXITED(st), "a child ({l:?}) whose Child was dropped was ended by signal {} instead of exiting", libc::WTERMSIG(st));
        ended(&rx, "the dropped child has ended")?;
    }
    Ok(())
}

/// Is the table what it must be?
fn check(r: &Report, maker: i32, want: &[String], std: &[Entry], anon: bool) -> Res {
    if let Some(e) = &r.err {
        if e.starts_with("H(") {
            return Err(Fail::H(e.clone()));
        }
        violated!("in the child: {e}");
    }
    ensure!(r.parent == maker, "HARNESS parent {} {maker}", r.parent);
    if let Some(d) = diff(want, &r.desc) {
        violated!("the child got a wrong value or handle: {d}");
    }
    let mut conn = 0;
    for e in &r.table {
        if r.args.contains(&e.fd) {
            ensure!(e.cloexec, "the handle {} ({}) of the child is not close-on-exec", e.fd, e.what);
            continue;
        }
        if e.fd <= 2 && (e.what == "/dev/null" || std.iter().any(|x| x.fd == e.fd && (x.dev, x.ino) == (e.dev, e.ino))) {
            continue;
        }
        if e.what.starts_with("socket:") && e.maker == maker && conn == 0 {
            conn += 1;
            ensure!(e.cloexec, "the connection {} of the child is not close-on-exec", e.fd);
            continue;
        }
        if anon && e.what.starts_with("anon_inode:") && e.cloexec {
            continue;
        }
        violated!("the child has descriptor {} ({}), which is not one of its handles {:?}", e.fd, e.what, r.args);
    }
    ensure!(conn == 1, "the child has no connection: {:?}", r.table);
    for fd in &r.args {
        ensure!(r.table.iter().any(|e| e.fd == *fd), "descriptor {fd} of an argument is not open");
    }
    ensure!(r.execs.is_empty(), "a program started by the child inherited {:?}", r.execs);
    Ok(())
}
fn check_deep(r: &Report, maker: i32, want: &[String], std: &[Entry], anon: bool) -> Res {
    check(r, maker, want, std, anon)?;
    for (s, give, w, std) in &r.subs {
        check_deep(s, r.pid, w, std, anon && *give)?;
    }
    Ok(())
}

fn steps(s: &mut Src, depth: u32, top: bool) -> Vec<Step> {
    let n = s.urange(0, if top { 4 } else { 3 });
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match s.below(if top { 14 } else { 9 }) {
            0..=2 => Step::Exec,
            3 | 4 => Step::Own(s.below(6) as u8),
            5 | 6 if depth > 0 => Step::Sub { how: s.below(6) as u8, give: s.flip(), steps: steps(s, depth - 1, false) },
            7 => Step::LeaveKid,
            8 => Step::LeaveExec,
            9..=11 => Step::Drop,
            _ => Step::Recv { fl: s.below(3) as u8, n: s.below(5) as u8, meanwhile: s.below(3) != 0 },
        });
    }
    v
}
fn leaves(v: &[Step]) -> bool {
    v.iter().any(|s| match s {
        Step::LeaveExec | Step::LeaveKid => true,
        Step::Sub { steps, .. } => leaves(steps),
        _ => false,
    })
}
fn has(v: &[Step], f: fn(&Step) -> bool) -> bool {
    v.iter().any(|s| f(s) || matches!(s, Step::Sub { steps, .. } if has(steps, f)))
}

#[derive(Debug)]
struct One {
    how: usize,
    unit: bool,
    steps: Vec<Step>,
    handles: usize,
    simple: bool,
    ends: usize,
    feed: usize,
    seed: u64,
    /// Close-on-exec is off for one of the handles in the parent
    bare: bool,
}

/// Waits at the barrier exactly once, whatever happens
struct Once<'a>(&'a Barrier, std::cell::Cell<bool>);
impl Once<'_> {
    fn wait(&self) {
        if !self.1.replace(true) {
            self.0.wait();
        }
    }
}
impl Drop for Once<'_> {
    fn drop(&mut self) {
        self.wait();
    }
}
fn spawn_one(o: &One, hold: &File, std: &[Entry], barrier: &Once, mine: &mut Vec<crossmist::Receiver<u64>>) -> Res {
    let mut s = Src::gen(o.seed);
    let mut m = Maker::default();
    m.files_only = o.simple;
    m.no_tokio = true;
    let hv = if o.handles > 0 { Some(m.hv(&mut s, o.handles, 3)) } else { None };
    m.settle();
    let want = hv.as_ref().map_or(vec![], |x| x.describe());
    let mut ends = Vec::new();
    let mut rx = Vec::new();
    for _ in 0..o.ends {
        let (a, b) = must!(crossmist::channel::<u64>(), "channel");
        ends.push(a);
        rx.push(b);
    }
    let (ctl, mut pctl) = must!(crossmist::duplex::<u64, u64>(), "duplex");
    let (mut feed_tx, feed) = must!(crossmist::channel::<Vec<File>>(), "channel");
    for _ in 0..o.feed {
        let v: Vec<File> = (0..1 + s.below(3)).map(|_| memfd()).collect();
        must!(feed_tx.send(&v), "send");
    }
    drop(feed_tx);
    if o.bare {
        if let Some(fd) = hv.as_ref().and_then(|x| x.fds().first().copied()) {
            unsafe { libc::fcntl(fd, libc::F_SETFD, 0) };
        }
    }
    let kit = Kit { hv, ends, ctl: Some(ctl), feed: Some(feed), hold: if leaves(&o.steps) { Some(hold.try_clone().unwrap()) } else { None } };
    let drops = o.steps.iter().filter(|s| matches!(s, Step::Drop)).count();
    barrier.wait();
        drive(how_fl(o.how), async {
        if o.unit {
            let k = must!(start!(o.how, census_unit, kit, o.steps.clone()), "spawn");
            serve(drops, &mut pctl, &rx)?;
            must!(k.join().await, "join");
        } else {
            let k = must!(start!(o.how, census, kit, o.steps.clone()), "spawn");
            let pid = k.id().unwrap();
            serve(drops, &mut pctl, &rx)?;
            let rep = must!(k.join().await, "join");
            ensure!(rep.pid == pid, "id() is {pid}, the process is {}", rep.pid);
            check_deep(&rep, std::process::id() as i32, &want, std, !o.simple)?;
        }
        Ok(())
    })?;
    ended(&rx, "the child which had the other end has ended")?;
    for r in &mut rx {
        ensure!(matches!(r.recv(), Ok(None)), "no end of the stream");
    }
    ensure!(soon(pctl.as_raw_fd()), "the end of the connection to the child is not noticed");
    mine.extend(rx);
    Ok(())
}
/// A process which another thread is just starting has a copy of the whole table until it executes the program, so
/// a moment may pass.
fn soon(fd: i32) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::poll(&mut p, 1, 3000) > 0 }
}
fn ended(rx: &[crossmist::Receiver<u64>], why: &str) -> Res {
    for (i, r) in rx.iter().enumerate() {
        ensure!(soon(r.as_raw_fd()), "end {i} of {} is not noticed although {why}", rx.len());
    }
    Ok(())
}
/// Serve the reports of the child that it has dropped its handles (a child that failed just ends).
fn serve(drops: usize, ctl: &mut crossmist::Duplex<u64, u64>, rx: &[crossmist::Receiver<u64>]) -> Res {
    for _ in 0..drops {
        match ctl.recv() {
            Ok(Some(1)) => {}
            _ => return Ok(()),
        }
        ended(rx, "the child has dropped the other end")?;
        let _ = ctl.send(&2);
    }
    Ok(())
}

pub fn case(c: &mut Ctx) -> Res {
    let nthreads = c.s.urange(1, 5);
    let rounds = c.s.urange(1, 3);
    let mut plan: Vec<Vec<One>> = Vec::new();
    let noise_recv = c.s.below(3) == 0;
    let background = c.s.urange(0, 12);
    let closed0 = c.s.below(8) == 0;
    let noise_exec = c.s.below(3) == 0 && !closed0;
    for _ in 0..nthreads {
        let mut v = Vec::new();
        for _ in 0..rounds {
            let st = steps(&mut c.s, 2, true);
            v.push(One {
                how: c.s.idx(3),
                unit: c.s.below(4) == 0,
                steps: st,
                handles: c.s.urange(0, 12),
                simple: c.s.below(3) != 0,
                ends: c.s.urange(0, 3),
                feed: c.s.urange(0, 4),
                seed: c.s.word(),
                bare: nthreads == 1 && !noise_exec && c.s.below(4) == 0,
            });
        }
        plan.push(v);
    }
    c.note(|| format!("{nthreads} threads, {background} other files{}{}{}", if noise_exec { ", programs started meanwhile" } else { "" }, if noise_recv { ", handles received meanwhile" } else { "" },
        if closed0 { ", standard input closed" } else { "" }));
    for (t, v) in plan.iter().enumerate() {
        for o in v {
            c.note(|| format!("thread {t}: {}{} with {} {}handles, {} ends, {} messages; {:?}", HOWS[o.how], if o.unit { " (unit)" } else { "" }, o.handles, if o.simple { "plain " } else { "" }, o.ends, o.feed, o.steps));
        }
    }
    let nobody: Vec<(usize, usize, Last, u64)> = (0..c.s.below(6).saturating_sub(2))
        .map(|_| (c.s.idx(3), c.s.idx(3), *c.s.pick(&[Last::Return, Last::Return, Last::Panic, Last::Large, Last::Bad]), c.s.word()))
        .collect();
    if !nobody.is_empty() {
        c.label("dropped children");
    }
    for n in &nobody {
        c.note(|| format!("dropped: {} of the {} function, {:?}", HOWS[n.0], ["plain", "tokio", "smol"][n.1], n.2));
    }
    let all: Vec<&One> = plan.iter().flatten().collect();
    if nthreads > 1 || all.iter().any(|o| o.steps.iter().any(|s| !matches!(s, Step::Own(_)))) {
        c.nontrivial();
    }
    if nthreads > 1 {
        c.label("concurrent spawns");
    }
    for (l, f) in [
        ("program started by the child", (|s: &Step| matches!(s, Step::Exec)) as fn(&Step) -> bool),
        ("grandchild", |s| matches!(s, Step::Sub { .. })),
        ("dropped ends", |s| matches!(s, Step::Drop)),
        ("outlived child", |s| matches!(s, Step::LeaveExec | Step::LeaveKid)),
        ("handles received", |s| matches!(s, Step::Recv { .. })),
    ] {
        if all.iter().any(|o| has(&o.steps, f)) {
            c.label(l);
        }
    }
    let before = open_fds();
    let std = std_ids();
    let saved = if closed0 {
        let n = unsafe { libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 500) };
        if n >= 0 {
            unsafe { libc::close(0) };
        }
        n
    } else {
        -1
    };
    let r = (|| -> Res {
        let mut extra: Vec<File> = (0..background).map(|_| memfd()).collect();
        extra.push(memfd());
        let mut p = [0; 2];
        if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err(Fail::H("pipe2".into()));
        }
        let (hold, hold_w) = unsafe { (File::from_raw_fd(p[0]), File::from_raw_fd(p[1])) };
        let barrier = Arc::new(Barrier::new(nthreads));
        let stop = AtomicBool::new(false);
        let r = std::thread::scope(|sc| -> Res {
            let exec = if noise_exec {
                Some(sc.spawn(|| -> Res {
                    for _ in 0..12 {
                        let v = exec_census()?;
                        ensure!(v.is_empty(), "a program started by the parent inherited {v:?}");
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                    }
                    Ok(())
                }))
            } else {
                None
            };
            let recv = if noise_recv {
                Some(sc.spawn(|| -> Res {
                    let (mut tx, mut rx) = must!(crossmist::channel::<Vec<File>>(), "channel");
                    for i in 0..400 {
                        must!(tx.send(&vec![memfd(), memfd(), memfd()]), "send");
                        let v = must!(rx.recv(), "recv");
                        drop(v);
                        if stop.load(Ordering::SeqCst) && i > 3 {
                            break;
                        }
                    }
                    Ok(())
                }))
            } else {
                None
            };
            let ts: Vec<_> = plan
                .iter()
                .map(|v| {
                    let (hold, std, barrier) = (&hold, &std, barrier.clone());
                    sc.spawn(move || -> Res {
                        let mut mine = Vec::new();
                        let mut out = Ok(());
                        for o in v {
                            let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| spawn_one(o, hold, std, &Once(&barrier, Default::default()), &mut mine)));
                            let done = match done {
                                Ok(r) => r,
                                Err(_) => Err(Fail::V(format!("panic: {}", last_panic()))),
                            };
                            if out.is_ok() {
                                out = done;
                            }
                        }
                        out
                    })
                })
                .collect();
            let mut out = Ok(());
            for t in ts {
                let r = t.join().unwrap_or_else(|_| Err(Fail::V("panic".into())));
                if out.is_ok() {
                    out = r;
                }
            }
            stop.store(true, Ordering::SeqCst);
            for t in [exec, recv].into_iter().flatten() {
                let r = t.join().unwrap_or_else(|_| Err(Fail::V(format!("panic: {}", last_panic()))));
                if out.is_ok() {
                    out = r;
                }
            }
            out
        });
        drop(hold_w);
        // What outlived its parent now ends, and is ours to be reaped
        reap_orphans();
        r?;
        orphans(&nobody)
    })();
    if r.is_err() {
        reap_orphans();
    }
    if saved >= 0 {
        unsafe {
            libc::dup2(saved, 0);
            libc::close(saved);
        }
    }
    r?;
    if let Some(d) = fd_settled(&before) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
fn reap_orphans() {
    loop {
        let r = unsafe { libc::waitpid(-1, std::ptr::null_mut(), 0) };
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return;
        }
    }
}
