//! The source of randomness: a tape of choices. In generation mode choices come from a PRNG seeded by
//! (VERIF_SEED, property, shard, case); in replay mode they come from a saved tape. Every random decision
//! of a case is a draw from here, so a case is a pure function of its tape, and shrinking the tape shrinks
//! the case (0 is the simplest choice of every draw).

use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

/// Shared-memory mirror of the tape, so that it survives a crash of the process.
static MIRROR: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static MIRROR_CAP: AtomicU64 = AtomicU64::new(0);
pub const MIRROR_HDR: usize = 2; // case index, tape length

pub fn set_mirror(p: *mut u64, words: usize) {
    MIRROR_CAP.store((words - MIRROR_HDR) as u64, Ordering::SeqCst);
    MIRROR.store(p, Ordering::SeqCst);
}
pub fn mirror_case(index: u64) {
    let p = MIRROR.load(Ordering::SeqCst);
    if !p.is_null() {
        unsafe {
            p.add(1).write_volatile(0);
            p.write_volatile(index);
        }
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    quiet: bool,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn gen(seed: u64) -> Src {
        Src { mode: Mode::Gen(Rng(mix(seed))), quiet: true, tape: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(tape), quiet: true, tape: Vec::new() }
    }
    /// Only the source of the case itself writes to the mirror; auxiliary sources, which a property makes from
    /// a seed or from a part of the tape, must not overwrite it.
    pub fn mirrored(mut self) -> Src {
        self.quiet = false;
        self
    }
    /// Repeats the choices made since `from`, to generate an equal value again.
    pub fn again(&self, from: usize) -> Src {
        Src { mode: Mode::Replay(self.tape[from..].to_vec()), quiet: true, tape: Vec::new() }
    }
    pub fn at(&self) -> usize {
        self.tape.len()
    }

    fn record(&mut self, v: u64) {
        let n = self.tape.len();
        self.tape.push(v);
        if self.quiet {
            return;
        }
        let p = MIRROR.load(Ordering::Relaxed);
        if !p.is_null() && (n as u64) < MIRROR_CAP.load(Ordering::Relaxed) {
            unsafe {
                p.add(MIRROR_HDR + n).write_volatile(v);
                p.add(1).write_volatile(n as u64 + 1);
            }
        }
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let i = self.tape.len();
        let v = match &mut self.mode {
            Mode::Gen(r) => r.next() % n,
            Mode::Replay(t) => t.get(i).copied().unwrap_or(0).min(n - 1),
        };
        self.record(v);
        v
    }
    /// A full 64-bit word.
    pub fn word(&mut self) -> u64 {
        let i = self.tape.len();
        let v = match &mut self.mode {
            Mode::Gen(r) => r.next(),
            Mode::Replay(t) => t.get(i).copied().unwrap_or(0),
        };
        self.record(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn urange(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Weighted choice of an index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A length, biased to small ones, at most max.
    pub fn len(&mut self, max: usize) -> usize {
        let cap = match self.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => 3,
            4 | 5 => 8,
            6 => 24,
            _ => max,
        };
        self.urange(0, cap.min(max))
    }
    /// `n` pseudo-random bytes from one draw. Simplest: zeros.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let seed = self.word();
        fill(seed, n)
    }
    /// Fisher-Yates permutation of 0..n.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.idx(i + 1);
            v.swap(i, j);
        }
        v
    }
}

/// Deterministic contents from a seed; seed 0 gives zeros.
pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut r = Rng(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}
