//! Messages whose size on the wire is chosen with respect to the packet boundaries.

use crate::ops::*;
use crate::src::Src;
use crate::val::*;

pub const PACKET: usize = 16 * 1024;
/// Data bytes in one packet (the first byte is a marker).
pub const CHUNK: usize = PACKET - 1;

/// A size in bytes of serialized data, biased to the boundaries of packets; `max` limits it.
pub fn wire_size(s: &mut Src, max: usize) -> usize {
    let n = match s.below(12) {
        0 => 0,
        1 => s.urange(0, 16),
        2 | 3 => s.urange(0, 2000),
        4 => s.urange(CHUNK - 12, CHUNK + 12),
        5 => s.urange(PACKET - 2, PACKET + 2),
        6 | 7 => {
            let k = s.urange(1, 6);
            let d = s.urange(0, 20);
            k * CHUNK + d - 10
        }
        8 => s.urange(0, 5) * PACKET,
        9 => s.urange(0, 100_000),
        10 => {
            let k = s.urange(1, 40);
            let d = s.urange(0, 4);
            k * CHUNK + d - 2
        }
        _ => s.urange(0, 1_500_000),
    };
    n.min(max)
}

pub trait Msg: Val {
    /// `max` is an approximate limit of the size on the wire.
    fn msg(s: &mut Src, max: usize) -> Self;
    /// Approximate size on the wire.
    fn wire(&self) -> usize;
    const NAME: &'static str;
}
impl Msg for Vec<u8> {
    fn msg(s: &mut Src, max: usize) -> Self {
        let n = wire_size(s, max).saturating_sub(8);
        s.bytes(n)
    }
    fn wire(&self) -> usize {
        self.len() + 8
    }
    const NAME: &'static str = "Vec<u8>";
}
impl Msg for (u64, String) {
    fn msg(s: &mut Src, max: usize) -> Self {
        let n = wire_size(s, max).saturating_sub(16);
        (s.word(), s.bytes(n).iter().map(|b| (b % 128) as char).collect())
    }
    fn wire(&self) -> usize {
        16 + self.1.len()
    }
    const NAME: &'static str = "(u64, String)";
}
impl Msg for Vec<(u64, u8)> {
    fn msg(s: &mut Src, max: usize) -> Self {
        let n = wire_size(s, max) / 16;
        let mut r = crate::src::Rng(s.word());
        (0..n).map(|_| (r.next(), r.next() as u8)).collect()
    }
    fn wire(&self) -> usize {
        8 + 16 * self.len()
    }
    const NAME: &'static str = "Vec<(u64, u8)>";
}
impl Msg for Option<Box<[Vec<u8>]>> {
    fn msg(s: &mut Src, max: usize) -> Self {
        if s.chance(1, 4) {
            return None;
        }
        let n = s.urange(0, 5);
        Some((0..n).map(|_| Vec::<u8>::msg(s, max / n)).collect())
    }
    fn wire(&self) -> usize {
        9 + self.as_ref().map_or(0, |v| v.iter().map(|x| x.wire()).sum())
    }
    const NAME: &'static str = "Option<Box<[Vec<u8>]>>";
}
macro_rules! small_msg {
    ($($t:ty),*) => { $(
        impl Msg for $t {
            fn msg(s: &mut Src, _: usize) -> Self {
                Val::gen(s, 1)
            }
            fn wire(&self) -> usize {
                std::mem::size_of::<Self>()
            }
            const NAME: &'static str = stringify!($t);
        }
    )* };
}
small_msg!((), u8, u64, bool, (u8, u32), PodS, PodE, Zst, Option<u64>, [u8; 0]);
impl Msg for V {
    fn msg(s: &mut Src, _: usize) -> Self {
        let d = s.range(0, 3) as u32;
        V::gen(s, d)
    }
    fn wire(&self) -> usize {
        60_000 // at most, roughly
    }
    const NAME: &'static str = "V";
}
/// Plain data of a given size.
#[derive(Clone, Copy, PartialEq, Eq, crossmist::Object)]
pub struct Blob<const N: usize>(pub [u8; N]);
impl<const N: usize> std::fmt::Debug for Blob<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Blob<{N}>({:?}...)", &self.0[..N.min(4)])
    }
}
impl<const N: usize> Val for Blob<N> {
    fn gen(s: &mut Src, _: u32) -> Self {
        let mut b = [0; N];
        b.copy_from_slice(&s.bytes(N));
        Blob(b)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<const N: usize> Msg for Blob<N> {
    fn msg(s: &mut Src, _: usize) -> Self {
        Val::gen(s, 0)
    }
    fn wire(&self) -> usize {
        N
    }
    const NAME: &'static str = "Blob";
}
