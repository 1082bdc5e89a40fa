// C08: what join returns, against what the child was told to do.
use crossmist::{Object, Receiver, Sender};
use std::future::Future;
use std::pin::Pin;
use std::sync::OnceLock;
use vh::flav::*;
use vh::kid::*;
use vh::ops::Zst;
use vh::run::*;
use vh::util::*;
use vh::{must, start, violated};

#[derive(Clone, Debug, PartialEq, Object)]
pub enum Fate {
    Return,
    PanicStr,
    PanicString(String),
    PanicAny,
    /// Panics while panicking
    PanicTwice,
    Unwrap,
    Overflow(u8),
    Exit(i32),
    ExitRaw(i32),
    Abort,
    Raise(i32),
    NullWrite,
    StackOverflow,
    /// Another thread panics, which does not matter
    ThreadPanic,
    /// Another thread ends the process while this one waits forever
    Thread(Box<Fate>),
    /// Another thread ends the process soon, while this one returns
    Meanwhile(u16, Box<Fate>),
    /// In an exit handler, i.e. after the value has been sent
    AtExit(Box<Fate>),
    /// Stops, until it is continued by the parent
    Stop,
    /// Waits for something which never comes, until it is killed
    Block,
    /// Waits for a message, then does it
    OnMessage(Box<Fate>),
}
use Fate::*;
static AT_EXIT: OnceLock<Fate> = OnceLock::new();
extern "C" fn at_exit() {
    // exit() within exit() is not allowed
    match AT_EXIT.get().unwrap() {
        Exit(n) | ExitRaw(n) => unsafe { libc::_exit(*n) },
        f => act(f.clone(), &mut None),
    }
}
struct Grenade;
impl Drop for Grenade {
    fn drop(&mut self) {
        panic!("second panic");
    }
}
#[allow(unconditional_recursion)]
fn deep(x: &mut [u8; 4096]) -> u64 {
    let mut y = [x[0]; 4096];
    deep(&mut y) + y[7] as u64
}
fn act(f: Fate, rx: &mut Option<Receiver<u8>>) {
    match f {
        Return => {}
        PanicStr => panic!("a panic"),
        PanicString(s) => panic!("{s}"),
        PanicAny => std::panic::panic_any(5u8),
        PanicTwice => {
            let _g = Grenade;
            panic!("first panic");
        }
        Unwrap => {
            None::<u8>.unwrap();
        }
        Overflow(x) => {
            let v: Vec<u8> = vec![];
            std::hint::black_box(v[x as usize]);
        }
        Exit(n) => std::process::exit(n),
        ExitRaw(n) => unsafe { libc::_exit(n) },
        Abort => std::process::abort(),
        Raise(s) => unsafe {
            libc::signal(s, libc::SIG_DFL);
            libc::raise(s);
        },
        NullWrite => unsafe { std::hint::black_box(std::ptr::null_mut::<u64>()).write_volatile(1) },
        StackOverflow => {
            std::hint::black_box(deep(&mut [1; 4096]));
        }
        ThreadPanic => {
            let r = std::thread::spawn(|| panic!("in a thread")).join();
            assert!(r.is_err());
        }
        Thread(f) => {
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(100));
                act(*f, &mut None)
            });
            loop {
                std::thread::park();
            }
        }
        Meanwhile(us, f) => {
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(us as u64));
                act(*f, &mut None)
            });
        }
        AtExit(f) => {
            AT_EXIT.set(*f).unwrap();
            unsafe { libc::atexit(at_exit) };
        }
        Stop => unsafe {
            libc::raise(libc::SIGSTOP);
        },
        Block => {
            let r = rx.as_mut().expect("no channel to wait on").recv();
            panic!("got {r:?}");
        }
        OnMessage(f) => {
            rx.as_mut().expect("no channel to wait on").recv().unwrap().unwrap();
            act(*f, rx);
        }
    }
}
/// The exit status which the fate leads to, if the function returns a value. None: it is ended abnormally. Some((code, returned)).
fn outcome(f: &Fate) -> Option<(i32, bool)> {
    match f {
        Return | ThreadPanic | Stop => Some((0, true)),
        PanicStr | PanicString(_) | PanicAny | Unwrap | Overflow(_) => Some((101, false)),
        Exit(n) | ExitRaw(n) => Some((n & 255, false)),
        PanicTwice | Abort | NullWrite | StackOverflow | Block => None,
        Raise(s) => {
            if [libc::SIGCHLD, libc::SIGCONT, libc::SIGURG, libc::SIGWINCH].contains(s) {
                Some((0, true))
            } else {
                None
            }
        }
        Thread(f) => match outcome(f) {
            Some((c, false)) if matches!(**f, Exit(_) | ExitRaw(_)) => Some((c, false)),
            None => None,
            Some(_) => unreachable!(),
        },
        AtExit(f) => match outcome(f) {
            Some((c, _)) => Some((c, true)),
            None => None,
        },
        OnMessage(f) => outcome(f),
        Meanwhile(..) => Some((0, true)),
    }
}
/// The process stops at some moment, and has to be continued by the parent.
fn stops(f: &Fate) -> bool {
    match f {
        Stop => true,
        AtExit(f) | Meanwhile(_, f) => stops(f),
        _ => false,
    }
}
fn signals(c: &mut Ctx) -> i32 {
    let all: Vec<i32> = (1..32).chain([34, 40, 64]).filter(|s| ![libc::SIGSTOP, libc::SIGTSTP, libc::SIGTTIN, libc::SIGTTOU].contains(s)).collect();
    *c.s.pick(&all)
}
fn code(c: &mut Ctx) -> i32 {
    match c.s.below(4) {
        0 => 0,
        1 => 1,
        2 => *c.s.pick(&[2, 101, 127, 128, 134, 137, 139, 255, 256, -1, 512, 0x101]),
        _ => c.s.below(256) as i32,
    }
}
fn ending(c: &mut Ctx) -> Fate {
    match c.s.below(6) {
        0 => Exit(code(c)),
        1 => ExitRaw(code(c)),
        2 => Abort,
        _ => Raise(loop {
            let s = signals(c);
            if outcome(&Raise(s)).is_none() {
                break s;
            }
        }),
    }
}
fn fate(c: &mut Ctx) -> Fate {
    match c.s.below(26) {
        0 | 1 | 2 => Return,
        23 | 24 => Meanwhile(c.s.below(2000) as u16, Box::new(if c.s.chance(1, 4) { Stop } else { ending(c) })),
        3 => PanicStr,
        4 => PanicString("x".repeat(c.s.idx(5))),
        5 => PanicAny,
        6 => PanicTwice,
        7 => Unwrap,
        8 => Overflow(c.s.below(9) as u8),
        9 => Exit(code(c)),
        10 => ExitRaw(code(c)),
        11 => Abort,
        12 | 13 => Raise(signals(c)),
        14 => NullWrite,
        15 => {
            if c.s.below(3) == 0 {
                StackOverflow
            } else {
                Return
            }
        }
        16 => ThreadPanic,
        17 | 18 => Thread(Box::new(ending(c))),
        19 | 20 => AtExit(Box::new(if c.s.chance(1, 3) { Stop } else { ending(c) })),
        21 => Stop,
        22 => Block,
        _ => OnMessage(Box::new(match c.s.below(4) {
            0 => Return,
            1 => PanicStr,
            _ => ending(c),
        })),
    }
}

/// Arguments and results which misbehave.
pub struct Odd {
    v: u64,
    /// 1: cannot be deserialized in the child. 2: panics there. 3: panics when it is serialized by the child. 4: cannot be deserialized by the parent.
    mode: u8,
    maker: u32,
}
unsafe impl crossmist::NonTrivialObject for Odd {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut crossmist::Serializer<'a>) {
        if self.mode == 3 && std::process::id() != self.maker {
            panic!("cannot serialize");
        }
        s.serialize(&self.v);
        s.serialize(&self.mode);
        s.serialize(&self.maker);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut crossmist::Deserializer) -> std::io::Result<Self> {
        let (v, mode, maker) = (d.deserialize()?, d.deserialize()?, d.deserialize()?);
        if std::process::id() != maker {
            if mode == 1 {
                return Err(std::io::Error::other("odd value"));
            }
            if mode == 2 {
                panic!("odd value");
            }
        } else if mode == 4 {
            return Err(std::io::Error::other("odd value"));
        }
        Ok(Odd { v, mode, maker })
    }
}
/// A result which does something when the child drops it, after it was sent.
#[derive(Object)]
pub struct Bomb {
    v: u64,
    f: Fate,
    pid: u32,
}
impl Drop for Bomb {
    fn drop(&mut self) {
        if std::process::id() == self.pid {
            act(self.f.clone(), &mut None);
        }
    }
}

macro_rules! fns {
    ($name:ident, $tname:ident, $sname:ident, $r:ty, $v:ident => $e:expr) => {
        #[crossmist::func]
        fn $name(f: Fate, $v: u64, rx: Option<Receiver<u8>>) -> $r {
            let mut rx = rx;
            act(f, &mut rx);
            $e
        }
        #[crossmist::func(tokio(flavor = "current_thread"))]
        async fn $tname(f: Fate, $v: u64, rx: Option<Receiver<u8>>) -> $r {
            let mut rx = rx;
            ::tokio::task::yield_now().await;
            act(f, &mut rx);
            $e
        }
        #[crossmist::func(smol)]
        async fn $sname(f: Fate, $v: u64, rx: Option<Receiver<u8>>) -> $r {
            let mut rx = rx;
            futures_lite::future::yield_now().await;
            act(f, &mut rx);
            $e
        }
    };
}
fns!(unit, t_unit, s_unit, (), v => { std::hint::black_box(v); });
fns!(num, t_num, s_num, u64, v => v);
fns!(zst, t_zst, s_zst, Zst, v => { std::hint::black_box(v); Zst });
fns!(opt, t_opt, s_opt, Option<()>, v => (v % 2 == 0).then_some(()));
fns!(big, t_big, s_big, Vec<u8>, v => vh::src::fill(v, 700_000));
fns!(texts, t_texts, s_texts, Vec<String>, v => vec![v.to_string(); (v % 9) as usize]);
#[derive(Object)]
pub enum Never {}
#[crossmist::func]
fn never(f: Fate, v: u64, rx: Option<Receiver<u8>>) -> Never {
    let mut rx = rx;
    act(f, &mut rx);
    std::process::exit(v as i32)
}
#[crossmist::func]
fn bomb(f: Fate, v: u64) -> Bomb {
    Bomb { v, f, pid: std::process::id() }
}
#[crossmist::func]
fn odd(x: Odd) -> Odd {
    x
}
#[crossmist::func]
fn odd_unit(x: Odd) {
    std::hint::black_box(x.v);
}

type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
struct Plan {
    text: String,
    fate: Fate,
    how: usize,
    /// What the parent does before joining
    wait_end: bool,
    delay: u64,
    kill: Option<u64>,
    go: Box<dyn FnOnce(usize, Option<Receiver<u8>>) -> Fut<std::io::Result<(Option<i32>, Option<crossmist::KillHandle>, Fut<std::io::Result<Box<dyn FnOnce() -> Option<String>>>>)>>>,
    /// Whether join must succeed. None: either
    ok: Option<bool>,
}
fn plan(c: &mut Ctx) -> Plan {
    let how = c.s.idx(6);
    let v = c.s.word();
    let kind = c.s.below(22);
    if kind == 20 {
        let mode = c.s.range(0, 4) as u8;
        let no_value = c.s.flip();
        let maker = std::process::id();
        let ok = mode == 0 || (no_value && mode >= 3);
        return Plan {
            text: format!("{} of odd{} value of mode {mode}", HOWS[how], if no_value { "_unit" } else { "" }),
            fate: Return,
            how,
            wait_end: false,
            delay: 0,
            kill: None,
            ok: Some(ok),
            go: if no_value {
                Box::new(move |how, _| {
                    Box::pin(async move {
                        let kid: Kid<()> = start!(how, odd_unit, Odd { v, mode, maker })?;
                        Ok((kid.id(), kid.killer(), Box::pin(async move { kid.join().await.map(|()| Box::new(|| None) as Box<dyn FnOnce() -> Option<String>>) }) as Fut<_>))
                    })
                })
            } else {
                Box::new(move |how, _| {
                    Box::pin(async move {
                        let kid: Kid<Odd> = start!(how, odd, Odd { v, mode, maker })?;
                        Ok((
                            kid.id(),
                            kid.killer(),
                            Box::pin(async move {
                                kid.join().await.map(|x| Box::new(move || (x.v != v).then(|| format!("wrong value {}", x.v))) as Box<dyn FnOnce() -> Option<String>>)
                            }) as Fut<_>,
                        ))
                    })
                })
            },
        };
    }
    let mut f = fate(c);
    if kind == 21 {
        // The child gets to the end after the value was sent
        f = loop {
            if !matches!(f, Block | OnMessage(_) | AtExit(_) | Meanwhile(..)) {
                break f;
            }
            f = ending(c);
        };
        let end = outcome(&f);
        let ok = match end {
            Some((0, _)) => true,
            _ => false,
        };
        let how = if stops(&f) { how % 3 } else { how };
        let g = f.clone();
        return Plan {
            text: format!("{} of bomb: {f:?}", HOWS[how]),
            fate: if stops(&f) { AtExit(Box::new(Stop)) } else { Return },
            how,
            wait_end: how < 3 && !stops(&f) && c.s.flip(),
            delay: 0,
            kill: None,
            ok: Some(ok),
            go: Box::new(move |how, _| {
                Box::pin(async move {
                    let kid: Kid<Bomb> = start!(how, bomb, g, v)?;
                    Ok((
                        kid.id(),
                        kid.killer(),
                        Box::pin(async move { kid.join().await.map(|x| Box::new(move || (x.v != v).then(|| format!("wrong value {}", x.v))) as Box<dyn FnOnce() -> Option<String>>) })
                            as Fut<_>,
                    ))
                })
            }),
        };
    }
    let needs_parent = |f: &Fate| stops(f) || matches!(f, Block | OnMessage(_));
    let how = if needs_parent(&f) { how % 3 } else { how };
    let out = outcome(&f);
    let ty = kind as usize % 19;
    let is_unit = ty < 3;
    let is_never = ty == 18;
    let mut ok = match out {
        Some((0, true)) if is_never => Some(false), // exits without a value
        Some((0, returned)) => Some(returned || is_unit),
        _ => Some(false),
    };
    // A value which does not fit into the buffers is cut off by a thread which ends the process in the middle
    let mut kill = None;
    if how < 3 && !matches!(f, Stop | OnMessage(_)) {
        if f == Block {
            kill = Some(c.s.below(1500));
            ok = Some(false);
        } else if c.s.chance(1, 6) {
            kill = Some(c.s.below(3000));
            if ok == Some(true) {
                ok = None;
            }
        }
    }
    let wait_end = how < 3 && kill.is_none() && !needs_parent(&f) && !((12..15).contains(&ty) && ok == Some(true)) && c.s.chance(1, 4) && !(12..15).contains(&ty);
    let mut wait_end = wait_end;
    if matches!(f, Meanwhile(..)) && !stops(&f) {
        ok = None;
        // The value does not fit into the buffer, so the child cannot finish sending it before it ends
        if (12..15).contains(&ty) && how < 3 && kill.is_none() && c.s.flip() {
            wait_end = true;
            ok = Some(false);
        } else {
            wait_end = false;
        }
    }
    let delay = if c.s.chance(1, 3) { c.s.below(2000) } else { 0 };
    let g = f.clone();
    macro_rules! v {
        ($f:expr, $x:ident => $check:expr) => {{
            let g = g.clone();
            Box::new(move |how: usize, rx: Option<Receiver<u8>>| {
                Box::pin(async move {
                    let kid = start!(how, $f, g, v, rx)?;
                    let (id, killer) = (kid.id(), kid.killer());
                    let join: Fut<std::io::Result<Box<dyn FnOnce() -> Option<String>>>> = Box::pin(async move {
                        let $x = kid.join().await?;
                        Ok(Box::new(move || $check) as Box<dyn FnOnce() -> Option<String>>)
                    });
                    Ok((id, killer, join))
                }) as Fut<_>
            })
        }};
    }
    let bad = |b: bool| b.then(|| "wrong value".to_string());
    let (name, go): (&str, Box<dyn FnOnce(usize, Option<Receiver<u8>>) -> Fut<_>>) = match ty {
        0 => ("unit", v!(unit, x => { let () = x; None })),
        1 => ("t_unit", v!(t_unit, x => { let () = x; None })),
        2 => ("s_unit", v!(s_unit, x => { let () = x; None })),
        3 => ("num", v!(num, x => bad(x != v))),
        4 => ("t_num", v!(t_num, x => bad(x != v))),
        5 => ("s_num", v!(s_num, x => bad(x != v))),
        6 => ("zst", v!(zst, x => { let Zst = x; None })),
        7 => ("t_zst", v!(t_zst, x => { let Zst = x; None })),
        8 => ("s_zst", v!(s_zst, x => { let Zst = x; None })),
        9 => ("opt", v!(opt, x => bad(x != (v % 2 == 0).then_some(())))),
        10 => ("t_opt", v!(t_opt, x => bad(x != (v % 2 == 0).then_some(())))),
        11 => ("s_opt", v!(s_opt, x => bad(x != (v % 2 == 0).then_some(())))),
        12 => ("big", v!(big, x => bad(x != vh::src::fill(v, 700_000)))),
        13 => ("t_big", v!(t_big, x => bad(x != vh::src::fill(v, 700_000)))),
        14 => ("s_big", v!(s_big, x => bad(x != vh::src::fill(v, 700_000)))),
        15 => ("texts", v!(texts, x => bad(x != vec![v.to_string(); (v % 9) as usize]))),
        16 => ("t_texts", v!(t_texts, x => bad(x != vec![v.to_string(); (v % 9) as usize]))),
        17 => ("s_texts", v!(s_texts, x => bad(x != vec![v.to_string(); (v % 9) as usize]))),
        _ => ("never", {
            let g = g.clone();
            Box::new(move |how: usize, rx: Option<Receiver<u8>>| {
                Box::pin(async move {
                    let v = v & 7;
                    let kid = start!(how, never, g, v, rx)?;
                    let (id, killer) = (kid.id(), kid.killer());
                    let join: Fut<std::io::Result<Box<dyn FnOnce() -> Option<String>>>> = Box::pin(async move {
                        match kid.join().await {
                            Ok(x) => match x {},
                            Err(e) => Err(e),
                        }
                    });
                    Ok((id, killer, join))
                }) as Fut<_>
            })
        }),
    };
    Plan { text: format!("{} of {name}: {f:?}, wait_end {wait_end}, kill {kill:?}", HOWS[how]), fate: f, how, wait_end, delay, kill, go, ok }
}

pub fn case(c: &mut Ctx) -> Res {
    let base = open_fds();
    let k = c.s.urange(1, 3);
    let plans: Vec<Plan> = (0..k).map(|_| plan(c)).collect();
    for p in &plans {
        c.note(|| format!("{}, expected {:?}", p.text, p.ok));
        c.label(format!("{}", format!("{:?}", p.fate).split(|x: char| !x.is_alphanumeric()).next().unwrap()));
        c.label(match p.ok { Some(true) => "ok", Some(false) => "error", None => "either" });
    }
    c.nontrivial();
    let order = c.s.perm(k);
    let fls: Vec<Fl> = plans.iter().map(|p| how_fl(p.how)).collect();
    let fl = if fls.contains(&Fl::T) { Fl::T } else if fls.contains(&Fl::S) { Fl::S } else { Fl::B };
    drive(fl, async move {
        let mut running = Vec::new();
        for p in plans {
            let (tx, rx) = must!(crossmist::channel::<u8>(), "channel");
            let r = (p.go)(p.how, matches!(p.fate, Block | OnMessage(_)).then_some(rx)).await;
            let x = must!(r, "{}", p.text);
            running.push(Some((x, Some(tx), p.text, p.fate, p.wait_end, p.delay, p.kill, p.ok, p.how)));
        }
        let mut helpers = Vec::new();
        for i in order {
            let ((pid, killer, join), mut tx, text, fate, wait_end, delay, kill, ok, how): (_, Option<Sender<u8>>, _, _, _, _, _, _, _) = running[i].take().unwrap();
            // What the parent has to do, from a thread
            let t2 = text.clone();
            // Stays open until the end of the child
            let keep = if fate == Block { tx.take() } else { None };
            helpers.push(std::thread::spawn(move || -> Res {
                match fate {
                    _ if stops(&fate) => {
                        let pid = pid.unwrap();
                        while proc_state(pid).is_some_and(|s| s != 'T' && s != 'Z') {
                            std::thread::sleep(std::time::Duration::from_micros(200));
                        }
                        unsafe { libc::kill(pid, libc::SIGCONT) };
                    }
                    OnMessage(_) => {
                        std::thread::sleep(std::time::Duration::from_micros(delay));
                        must!(tx.take().unwrap().send(&1), "sending to the child of {t2}");
                    }
                    _ => {}
                }
                if let Some(us) = kill {
                    std::thread::sleep(std::time::Duration::from_micros(us));
                    let r = killer.unwrap().kill();
                    if fate == Block {
                        must!(r, "killing the child of {t2}");
                    }
                }
                Ok(())
            }));
            if wait_end {
                wait_ended(pid.unwrap());
            } else if delay > 0 {
                pause(how_fl(how), delay).await;
            }
            let r = join.await;
            drop(keep);
            match (r, ok) {
                (Ok(_), Some(false)) => violated!("join returned Ok for {text}"),
                (Err(e), Some(true)) => violated!("join returned an error for {text}: {e:?}"),
                (Ok(check), _) => {
                    if let Some(m) = check() {
                        violated!("{text}: {m}");
                    }
                }
                (Err(_), _) => {}
            }
        }
        for h in helpers {
            h.join().unwrap()?;
        }
        Ok(())
    })?;
    if let Some(d) = fd_settled(&base) {
        violated!("descriptors differ after the case: {d}");
    }
    Ok(())
}
