//! Child processes started in any of the ways, behind one interface; a journal of what ran.

use crossmist::{KillHandle, Object};
use std::io::Result;
use std::sync::OnceLock;

#[cfg(not(feature = "smol"))]
use crate::stub as cs;
#[cfg(not(feature = "tokio"))]
use crate::stub as ct;
#[cfg(feature = "smol")]
use crossmist::smol as cs;
#[cfg(feature = "tokio")]
use crossmist::tokio as ct;

pub enum Kid<T: Object> {
    B(crossmist::Child<T>),
    T(ct::Child<T>),
    S(cs::Child<T>),
    Done(Result<T>),
}
/// Ways to start a function. The first three give a child, the others run it to the end at once.
pub const HOWS: [&str; 6] = ["spawn", "spawn_tokio", "spawn_smol", "run", "run_tokio", "run_smol"];
pub fn how_fl(how: usize) -> crate::flav::Fl {
    crate::flav::FLS[how % 3]
}
impl<T: Object> Kid<T> {
    pub async fn join(self) -> Result<T> {
        match self {
            Kid::B(x) => x.join(),
            Kid::T(x) => x.join().await,
            Kid::S(x) => x.join().await,
            Kid::Done(r) => r,
        }
    }
    pub fn id(&self) -> Option<i32> {
        match self {
            Kid::B(x) => Some(x.id()),
            Kid::T(x) => Some(x.id()),
            Kid::S(x) => Some(x.id()),
            Kid::Done(_) => None,
        }
    }
    pub fn killer(&self) -> Option<KillHandle> {
        match self {
            Kid::B(x) => Some(x.get_kill_handle()),
            Kid::T(x) => Some(x.get_kill_handle()),
            Kid::S(x) => Some(x.get_kill_handle()),
            Kid::Done(_) => None,
        }
    }
}
/// Start a #[func] function in one of `HOWS`; to be used inside an async block. Gives io::Result<Kid<_>>.
#[macro_export]
macro_rules! start {
    ($how:expr, $f:expr $(, $a:expr)* $(,)?) => {
        match $how {
            0 => $f.spawn($($a),*).map($crate::kid::Kid::B),
            1 => $crate::spawn_t!($f $(, $a)*),
            2 => $crate::spawn_s!($f $(, $a)*),
            3 => ::std::result::Result::Ok($crate::kid::Kid::Done($f.run($($a),*))),
            4 => ::std::result::Result::Ok($crate::kid::Kid::Done($crate::run_t!($f $(, $a)*))),
            _ => ::std::result::Result::Ok($crate::kid::Kid::Done($crate::run_s!($f $(, $a)*))),
        }
    };
}

#[cfg(feature = "tokio")]
#[doc(hidden)]
#[macro_export]
macro_rules! spawn_t { ($f:expr $(, $a:expr)*) => { $f.spawn_tokio($($a),*).await.map($crate::kid::Kid::T) }; }
#[cfg(not(feature = "tokio"))]
#[doc(hidden)]
#[macro_export]
macro_rules! spawn_t { ($f:expr $(, $a:expr)*) => { $f.spawn($($a),*).map($crate::kid::Kid::B) }; }
#[cfg(feature = "tokio")]
#[doc(hidden)]
#[macro_export]
macro_rules! run_t { ($f:expr $(, $a:expr)*) => { $f.run_tokio($($a),*).await }; }
#[cfg(not(feature = "tokio"))]
#[doc(hidden)]
#[macro_export]
macro_rules! run_t { ($f:expr $(, $a:expr)*) => { $f.run($($a),*) }; }

#[cfg(feature = "smol")]
#[doc(hidden)]
#[macro_export]
macro_rules! spawn_s { ($f:expr $(, $a:expr)*) => { $f.spawn_smol($($a),*).await.map($crate::kid::Kid::S) }; }
#[cfg(not(feature = "smol"))]
#[doc(hidden)]
#[macro_export]
macro_rules! spawn_s { ($f:expr $(, $a:expr)*) => { $f.spawn($($a),*).map($crate::kid::Kid::B) }; }
#[cfg(feature = "smol")]
#[doc(hidden)]
#[macro_export]
macro_rules! run_s { ($f:expr $(, $a:expr)*) => { $f.run_smol($($a),*).await }; }
#[cfg(not(feature = "smol"))]
#[doc(hidden)]
#[macro_export]
macro_rules! run_s { ($f:expr $(, $a:expr)*) => { $f.run($($a),*) }; }

static JOURNAL: OnceLock<String> = OnceLock::new();
const ENV: &str = "VH_JOURNAL";
pub fn journal_init(path: &str) {
    std::env::set_var(ENV, path);
    journal_reset();
}
fn journal() -> Option<&'static String> {
    if JOURNAL.get().is_none() {
        let _ = JOURNAL.set(std::env::var(ENV).ok()?);
    }
    JOURNAL.get()
}
pub fn journal_reset() {
    if let Some(p) = journal() {
        std::fs::write(p, "").expect("HARNESS journal");
    }
}
/// Append a line: the process and a text.
pub fn mark(what: &str) {
    use std::io::Write;
    if let Some(p) = journal() {
        let line = format!("{} {what}\n", std::process::id());
        let mut f = std::fs::OpenOptions::new().append(true).open(p).expect("HARNESS journal");
        f.write_all(line.as_bytes()).expect("HARNESS journal");
        drop(f);
        if let Some((name, end)) = std::env::var(ENV_END).ok().as_deref().and_then(|e| e.split_once(':')) {
            if name == what {
                end_now(end);
            }
        }
    }
}
const ENV_END: &str = "VH_END";
/// Ways in which a process can end instead of returning from the function
pub const ENDS: [&str; 6] = ["exit3", "exit0", "exit255", "panic", "kill", "term"];
/// From now on, processes which mark `name` end then and there. None: no longer.
pub fn set_end(what: Option<(&str, &str)>) {
    match what {
        Some((name, end)) => std::env::set_var(ENV_END, format!("{name}:{end}")),
        None => std::env::remove_var(ENV_END),
    }
}
fn end_now(end: &str) {
    match end {
        "exit0" => std::process::exit(0),
        "exit3" => std::process::exit(3),
        "exit255" => std::process::exit(255),
        "panic" => std::panic::resume_unwind(Box::new(())),
        "kill" => drop(unsafe { libc::kill(libc::getpid(), libc::SIGKILL) }),
        _ => drop(unsafe { libc::kill(libc::getpid(), libc::SIGTERM) }),
    }
    loop {
        std::thread::park();
    }
}
pub fn journal_lines() -> Vec<(i32, String)> {
    let p = journal().expect("HARNESS journal");
    std::fs::read_to_string(p)
        .expect("HARNESS journal")
        .lines()
        .map(|l| {
            let (a, b) = l.split_once(' ').expect("HARNESS journal line");
            (a.parse().expect("HARNESS journal pid"), b.to_string())
        })
        .collect()
}
