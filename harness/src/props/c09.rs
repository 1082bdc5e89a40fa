// C09: histories of spawning, joining, dropping and killing in several threads.
use crossmist::{KillHandle, Object, Receiver, Sender};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use vh::fault::{self, Act};
use vh::flav::*;
use vh::kid::*;
use vh::run::*;
use vh::util::*;
use vh::{ensure, start, violated};

#[derive(Clone, Copy, Debug, PartialEq, Object)]
pub enum Fate {
    Now,
    After(u32),
    Forever,
    OnMessage,
    Exit(i32),
    Panic,
    /// Returns, and then stays for so many microseconds in an exit handler
    Linger(u32),
    LingerForever,
    /// A value which cannot be received, and then stays
    Odd(u32),
    /// Stops (as by SIGSTOP) for ever
    Stopped,
}
use Fate::*;
static LINGER: AtomicU64 = AtomicU64::new(0);
extern "C" fn linger() {
    match LINGER.load(Ordering::SeqCst) {
        u64::MAX => loop {
            unsafe { libc::pause() };
        },
        n => std::thread::sleep(Duration::from_micros(n)),
    }
}
fn act(f: Fate, rx: &mut Receiver<u8>) {
    match f {
        Now => {}
        After(us) => std::thread::sleep(Duration::from_micros(us as u64)),
        Forever => loop {
            unsafe { libc::pause() };
        },
        OnMessage => {
            rx.recv().unwrap().unwrap();
        }
        Exit(n) => std::process::exit(n),
        Panic => panic!("fate"),
        Linger(us) | Odd(us) => {
            LINGER.store(us as u64, Ordering::SeqCst);
            unsafe { libc::atexit(linger) };
        }
        Stopped => loop {
            unsafe { libc::raise(libc::SIGSTOP) };
        },
        LingerForever => {
            LINGER.store(u64::MAX, Ordering::SeqCst);
            unsafe { libc::atexit(linger) };
        }
    }
}
/// Fails to be deserialized if it is told so
#[derive(Debug)]
pub struct Ret(u64, bool);
unsafe impl crossmist::NonTrivialObject for Ret {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut crossmist::Serializer<'a>) {
        s.serialize(&self.0);
        s.serialize(&self.1);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut crossmist::Deserializer) -> std::io::Result<Self> {
        let r = Ret(d.deserialize()?, d.deserialize()?);
        if r.1 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "odd"));
        }
        Ok(r)
    }
}
/// What a child has done about signals
const GUARDS: [&str; 4] = ["default", "ignored", "blocked", "handled by exiting with success"];
extern "C" fn leave(_: i32) {
    unsafe { libc::_exit(0) }
}
fn guard(g: u8, mut ready: Sender<u8>) {
    unsafe {
        if g == 2 {
            let mut all: libc::sigset_t = std::mem::zeroed();
            libc::sigfillset(&mut all);
            libc::sigprocmask(libc::SIG_BLOCK, &all, std::ptr::null_mut());
        } else if g > 0 {
            let how = if g == 1 { libc::SIG_IGN } else { leave as extern "C" fn(i32) as usize };
            for n in 1..32 {
                // Not those which are needed to end as the fate says
                if ![libc::SIGKILL, libc::SIGSTOP, libc::SIGCHLD, libc::SIGABRT, libc::SIGPIPE, libc::SIGSEGV].contains(&n) {
                    libc::signal(n, how);
                }
            }
        }
    }
    let _ = ready.send(&1);
}
#[crossmist::func]
fn value(f: Fate, g: u8, ready: Sender<u8>, rx: Receiver<u8>, v: u64) -> Ret {
    let mut rx = rx;
    guard(g, ready);
    act(f, &mut rx);
    Ret(v, matches!(f, Odd(_)))
}
#[crossmist::func]
fn unit(f: Fate, g: u8, ready: Sender<u8>, rx: Receiver<u8>, v: u64) {
    let mut rx = rx;
    let _ = v;
    guard(g, ready);
    act(f, &mut rx)
}

#[derive(Clone, Debug)]
enum End {
    Join,
    Drop,
    /// Poll the join for so many microseconds, then abandon it
    Abandon(u64),
    /// Keep until everything else is over, then join
    Last,
}
#[derive(Clone, Debug)]
struct KidPlan {
    fate: Fate,
    guard: u8,
    unit: bool,
    how: usize,
    start: u64,
    wait: u64,
    end: End,
    release: Option<u64>,
    v: u64,
}
#[derive(Clone, Debug)]
struct KillPlan {
    kid: usize,
    /// Not before the child has set up its guard
    ready: bool,
    wait: u64,
    times: usize,
    gap: u64,
    /// Only after the process has ended
    after_end: bool,
    /// Only after the owner has finished with the child
    after_owner: bool,
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}
static STRAY: Mutex<Vec<String>> = Mutex::new(Vec::new());
static OWN: AtomicBool = AtomicBool::new(false);
/// A signal is about to be sent by us: is the target our own child, not yet reaped?
fn judge(n: &fault::Notif) {
    let pid = n.args[0] as i32;
    let me = std::process::id() as i32;
    let ok = pid > 0 && matches!(fault::ppid(pid), Some((p, _)) if p == me);
    if !ok {
        STRAY.lock().unwrap().push(format!("signal {} sent to process {pid}, which is not a child that waits to be joined", n.args[1]));
    }
}
#[derive(Debug)]
struct Killed {
    kid: usize,
    from: u64,
    to: u64,
    ok: bool,
    err: String,
    /// The process was known to have ended before
    ended: bool,
}
#[derive(Debug, Default)]
struct Owned {
    pid: i32,
    join_from: u64,
    join_to: u64,
    result: Option<Result<u64, String>>,
    remains: bool,
    spawn_error: Option<String>,
    dead_on_drop: bool,
    done: u64,
}
fn pause_us(us: u64) {
    if us > 0 {
        std::thread::sleep(Duration::from_micros(us));
    }
}
fn delay(c: &mut Ctx) -> u64 {
    match c.s.below(4) {
        0 | 1 => 0,
        2 => c.s.below(300),
        _ => c.s.below(4000),
    }
}
fn gen_kid(c: &mut Ctx) -> KidPlan {
    let fate = match c.s.below(13) {
        0 | 1 => Now,
        2 => After(c.s.below(4000) as u32),
        3 | 4 | 5 => Forever,
        6 | 7 => OnMessage,
        8 => *c.s.pick(&[Exit(0), Exit(3), Panic]),
        9 => Linger(c.s.below(4000) as u32),
        10 => LingerForever,
        12 => Stopped,
        _ => Odd(c.s.below(3000) as u32),
    };
    let end = match c.s.below(8) {
        0 | 1 | 2 | 3 => End::Join,
        4 => End::Drop,
        5 => End::Abandon(c.s.below(3000)),
        _ => End::Last,
    };
    let release = if fate == OnMessage && c.s.below(4) != 0 { Some(delay(c)) } else { None };
    let guard = if c.s.flip() { 0 } else { c.s.below(4) as u8 };
    KidPlan { fate, guard, unit: c.s.flip(), how: c.s.idx(3), start: if c.s.flip() { 0 } else { c.s.below(500) }, wait: delay(c), end, release, v: c.s.word() }
}
/// Does it end without being killed?
fn ends(k: &KidPlan) -> bool {
    match k.fate {
        Forever | LingerForever | Stopped => false,
        OnMessage => k.release.is_some(),
        _ => true,
    }
}
fn natural(k: &KidPlan) -> Result<u64, ()> {
    match k.fate {
        Exit(0) if k.unit => Ok(0),
        Exit(_) | Panic => Err(()),
        Odd(_) if !k.unit => Err(()),
        _ => Ok(if k.unit { 0 } else { k.v }),
    }
}
type Handles = Vec<mpsc::Receiver<(i32, KillHandle)>>;
fn to_text<T>(r: std::io::Result<T>, f: impl Fn(T) -> u64) -> Result<u64, String> {
    r.map(f).map_err(|e| e.to_string())
}
fn own(k: &KidPlan, outs: Vec<mpsc::Sender<(i32, KillHandle)>>, ready: Sender<u8>, rx: Receiver<u8>, last: Arc<(Mutex<usize>, std::sync::Condvar)>) -> Owned {
    let fl = how_fl(k.how);
    let mut o = Owned::default();
    pause_us(k.start);
    drive(fl, async {
        macro_rules! go {
            ($f:ident, $conv:expr) => {{
                match start!(k.how, $f, k.fate, k.guard, ready, rx, k.v) {
                    Err(e) => o.spawn_error = Some(e.to_string()),
                    Ok(kid) => {
                        o.pid = kid.id().unwrap();
                        for t in &outs {
                            t.send((o.pid, kid.killer().unwrap())).expect("HARNESS handles");
                        }
                        pause(fl, k.wait).await;
                        if let End::Last = k.end {
                            let (m, cv) = &*last;
                            let mut g = m.lock().unwrap();
                            while *g > 0 {
                                g = cv.wait(g).unwrap();
                            }
                        }
                        match k.end {
                            End::Join | End::Last => {
                                o.join_from = now();
                                let r = kid.join().await;
                                o.join_to = now();
                                o.result = Some(to_text(r, $conv));
                                o.remains = is_waitable_child(o.pid) || matches!(fault::ppid(o.pid), Some((p, _)) if p == std::process::id() as i32);
                            }
                            End::Drop => {
                                drop(kid);
                                o.dead_on_drop = !matches!(fault::ppid(o.pid), Some((_, st)) if st != 'Z');
                            }
                            End::Abandon(us) => {
                                if k.how == 0 {
                                    drop(kid);
                                } else {
                                    o.join_from = now();
                                    let join = Box::pin(kid.join());
                                    let t = Box::pin(pause(fl, us));
                                    match futures_lite::future::or(async { Some(join.await) }, async {
                                        t.await;
                                        None
                                    })
                                    .await
                                    {
                                        Some(r) => {
                                            o.join_to = now();
                                            o.result = Some(to_text(r, $conv));
                                            o.remains = is_waitable_child(o.pid);
                                        }
                                        None => {}
                                    }
                                }
                            }
                        }
                    }
                }
            }};
        }
        if k.unit {
            go!(unit, |_| 0)
        } else {
            go!(value, |r: Ret| r.0)
        }
    });
    o.done = now();
    o
}

pub fn case(c: &mut Ctx) -> Res {
    let n = c.s.urange(1, 3);
    let mut kids: Vec<KidPlan> = (0..n).map(|_| gen_kid(c)).collect();
    let mut kills: Vec<KillPlan> = vec![];
    for _ in 0..c.s.idx(4) {
        let kid = c.s.idx(n);
        let after_end = c.s.below(5) == 0;
        let after_owner = !after_end && c.s.below(4) == 0;
        let most = if c.s.flip() { 2 } else { 12 };
        let ready = c.s.flip();
        kills.push(KillPlan { kid, ready, wait: delay(c), times: 1 + c.s.idx(most), gap: delay(c) / 8, after_end, after_owner });
    }
    // Whatever does not end by itself and is waited for must be killed by somebody
    for i in 0..n {
        let stays = !ends(&kids[i]);
        let early = kills.iter().any(|k| k.kid == i && !k.after_end && !k.after_owner);
        if stays && !early {
            match kids[i].end {
                End::Join => kills.push(KillPlan { kid: i, ready: c.s.flip(), wait: delay(c), times: 1, gap: 0, after_end: false, after_owner: false }),
                End::Last => kids[i].end = End::Drop,
                End::Abandon(_) if matches!(kids[i].fate, LingerForever) => {
                    // an asynchronous join waits for the end of the process in the thread once the value has arrived
                    kills.push(KillPlan { kid: i, ready: c.s.flip(), wait: delay(c), times: 1, gap: 0, after_end: false, after_owner: false })
                }
                _ => {}
            }
        }
        if stays && matches!(kids[i].end, End::Last | End::Join | End::Abandon(_)) {
            for k in kills.iter_mut().filter(|k| k.kid == i && k.after_end) {
                k.after_end = false;
            }
        }
        // Nobody may wait for the end of a process which has been joined and is gone
        if !matches!(kids[i].end, End::Last) {
            for k in kills.iter_mut().filter(|k| k.kid == i) {
                k.after_end = false;
            }
        }
    }
    let hold = if c.s.flip() { 0 } else { c.s.range(50, 2500) };
    if !kills.is_empty() {
        c.nontrivial();
    }
    c.note(|| format!("children {kids:?}, kills {kills:?}, the kill system call is held for {hold} us"));
    STRAY.lock().unwrap().clear();
    CLOCK.store(1, Ordering::SeqCst);
    fault::late(judge);
    fault::handler(move |x| {
        if !x.main || OWN.load(Ordering::SeqCst) {
            return Act::Continue;
        }
        // A signal to a thread of our own (abort and the like)
        if x.nr != libc::SYS_kill && x.args[0] as u32 == std::process::id() {
            return Act::Continue;
        }
        if hold > 0 {
            return Act::Delay(hold);
        }
        judge(x);
        Act::Continue
    });
    let parked = Mutex::new(vec![]);
    let r = history(&kids, &kills, &parked);
    fault::clear();
    let (owned, killed) = r?;
    c.note(|| format!("children {owned:?}, kills {killed:?}"));
    // Clean up, then judge
    let verdict = check(&kids, &kills, &owned, &killed);
    OWN.store(true, Ordering::SeqCst);
    for o in &owned {
        if o.pid > 0 && is_waitable_child(o.pid) {
            unsafe {
                libc::kill(o.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(o.pid, &mut st, 0);
            }
        }
    }
    OWN.store(false, Ordering::SeqCst);
    drop(parked);
    verdict?;
    if let Some(s) = STRAY.lock().unwrap().first() {
        violated!("{s}");
    }
    ensure!(!any_child(), "an unknown child remains");
    for k in &killed {
        c.label(if k.ok { "kill succeeded" } else { "kill refused" });
    }
    for k in &kids {
        c.label(&format!("signals of the child: {}", GUARDS[k.guard as usize]));
    }
    Ok(())
}
fn history(kids: &[KidPlan], kills: &[KillPlan], parked: &Mutex<Vec<Hand<Sender<u8>>>>) -> Result<(Vec<Owned>, Vec<Killed>), Fail> {
    std::thread::scope(|scope| {
        let mut txs: Vec<Vec<mpsc::Sender<(i32, KillHandle)>>> = kids.iter().map(|_| vec![]).collect();
        let mut handles: Handles = vec![];
        for k in kills {
            let (t, r) = mpsc::channel();
            txs[k.kid].push(t);
            handles.push(r);
        }
        let early = |k: &KillPlan| !k.after_owner;
        let last = Arc::new((Mutex::new(kills.iter().filter(|k| early(k)).count()), std::sync::Condvar::new()));
        let mut owner_done = vec![];
        let mut ready = vec![];
        let mut owners = vec![];
        for (k, outs) in kids.iter().zip(txs) {
            let (tx, rx): (Sender<u8>, Receiver<u8>) = match crossmist::channel() {
                Ok(x) => x,
                Err(e) => return Err(Fail::V(format!("channel: {e}"))),
            };
            let (rtx, rrx) = match crossmist::channel::<u8>() {
                Ok(x) => x,
                Err(e) => return Err(Fail::V(format!("channel: {e}"))),
            };
            let is_ready = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
            ready.push(is_ready.clone());
            let rrx = Hand(rrx);
            scope.spawn(move || {
                let mut rrx = rrx.get();
                // None if the child has been killed before
                let _ = rrx.recv();
                *is_ready.0.lock().unwrap() = true;
                is_ready.1.notify_all();
            });
            let sh = Hand((rtx, rx, outs));
            let last = last.clone();
            let done = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
            owner_done.push(done.clone());
            owners.push(scope.spawn(move || {
                let (rtx, rx, outs) = sh.get();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| own(k, outs, rtx, rx, last)));
                *done.0.lock().unwrap() = true;
                done.1.notify_all();
                r
            }));
            let mut tx = tx;
            scope.spawn(move || {
                if let Some(us) = k.release {
                    pause_us(us);
                    let _ = tx.send(&1);
                } else if k.fate == OnMessage {
                    // the channel must not end before the child has been killed
                    parked.lock().unwrap().push(Hand(tx));
                }
            });
        }
        let mut killers = vec![];
        for (k, h) in kills.iter().zip(handles) {
            let last = last.clone();
            let done = owner_done[k.kid].clone();
            let ready = ready[k.kid].clone();
            killers.push(scope.spawn(move || {
                let mut out = vec![];
                let finish = || {
                    if early(k) {
                        *last.0.lock().unwrap() -= 1;
                        last.1.notify_all();
                    }
                };
                let Ok((pid, h)) = h.recv() else {
                    finish();
                    return out;
                };
                if k.after_owner {
                    let mut g = done.0.lock().unwrap();
                    while !*g {
                        g = done.1.wait(g).unwrap();
                    }
                }
                if k.ready {
                    let mut g = ready.0.lock().unwrap();
                    while !*g {
                        g = ready.1.wait(g).unwrap();
                    }
                }
                if k.after_end {
                    wait_ended(pid);
                }
                pause_us(k.wait);
                for i in 0..k.times {
                    if i > 0 {
                        pause_us(k.gap);
                    }
                    let from = now();
                    let r = h.kill();
                    out.push(Killed { kid: k.kid, from, to: now(), ok: r.is_ok(), err: r.err().map(|e| e.to_string()).unwrap_or_default(), ended: k.after_end });
                }
                finish();
                out
            }));
        }
        let mut owned = vec![];
        let mut bad = None;
        for o in owners {
            match o.join().unwrap() {
                Ok(x) => owned.push(x),
                Err(p) => bad = Some(p),
            }
        }
        let killed: Vec<Killed> = killers.into_iter().flat_map(|k| k.join().unwrap()).collect();
        if let Some(p) = bad {
            std::panic::resume_unwind(p);
        }
        Ok((owned, killed))
    })
}
fn check(kids: &[KidPlan], kills: &[KillPlan], owned: &[Owned], killed: &[Killed]) -> Res {
    let _ = kills;
    for (i, (k, o)) in kids.iter().zip(owned).enumerate() {
        if let Some(e) = &o.spawn_error {
            violated!("spawning child {i} failed: {e}");
        }
        ensure!(!o.remains, "child {i} (process {}) still exists after join returned {:?}", o.pid, o.result);
        let mine: Vec<&Killed> = killed.iter().filter(|x| x.kid == i).collect();
        let joined = o.result.is_some();
        for x in &mine {
            if joined && x.from > o.join_to {
                ensure!(!x.ok, "kill of child {i} succeeded after join had returned");
            }
            if !joined || x.to < o.join_from {
                ensure!(x.ok, "kill of child {i}, which has not been joined, failed: {}", x.err);
            }
        }
        // The first attempt on a process which can end in no other way. Of attempts at the same time, each may be the first
        if !ends(k) {
            if let Some(to) = mine.iter().map(|x| x.to).min() {
                let first: Vec<_> = mine.iter().filter(|x| x.from < to).collect();
                ensure!(first.iter().any(|x| x.ok), "kill of child {i}, which was running, failed: {}", first[0].err);
            }
        }
        if let Some(r) = &o.result {
            let nat = natural(k);
            let certain_natural = mine.is_empty() || mine.iter().all(|x| x.ended || !x.ok);
            let certain_death = !ends(k);
            match (r, nat) {
                (Ok(v), _) if certain_death => violated!("join of child {i}, which was killed while running, returned Ok({v})"),
                (Ok(v), Ok(w)) => ensure!(*v == w, "join of child {i} returned {v} instead of {w}"),
                (Ok(v), Err(())) => violated!("join of child {i} ({:?}) returned Ok({v})", k.fate),
                (Err(e), Ok(_)) => ensure!(!certain_natural, "join of child {i} ({:?}), which was not killed, failed: {e}", k.fate),
                (Err(_), Err(())) => {}
            }
        } else if matches!(k.end, End::Drop) && mine.is_empty() && !ends(k) && matches!(k.fate, Forever | OnMessage | Stopped) {
            ensure!(!o.dead_on_drop, "child {i} has died because the Child was dropped");
            ensure!(matches!(fault::ppid(o.pid), Some((_, st)) if st != 'Z'), "child {i}, which was dropped and never killed, has died");
        }
        // A kill which succeeded has killed
        if !joined && mine.iter().any(|x| x.ok) {
            wait_ended(o.pid);
        }
    }
    Ok(())
}
