// C01: round trip of sequences of values of mixed types through one serializer.
use crossmist::{Deserializer, Object, Serializer};
use std::any::Any;
use std::collections::*;
use std::os::unix::ffi::OsStringExt;
use vh::ops::{Ops, TABLE};
use vh::run::*;
use vh::{ensure, must};

const SENTINEL: u64 = 0x5ea1ed_c0ffee_11;

/// Round trip of one long or deep value, between two others.
fn one<T: Object + PartialEq>(what: &str, v: T) -> Res {
    let mut s = Serializer::new();
    s.serialize_temporary(SENTINEL);
    s.serialize(&v);
    s.serialize_temporary(SENTINEL);
    let mut d = Deserializer::new(s.into_vec(), Vec::new());
    let x: u64 = must!(unsafe { d.deserialize() }, "sentinel");
    ensure!(x == SENTINEL, "wrong first value");
    let got: T = must!(unsafe { d.deserialize() }, "deserializing {what}");
    ensure!(got == v, "{what} arrived changed");
    let x: u64 = must!(unsafe { d.deserialize() }, "sentinel");
    ensure!(x == SENTINEL, "after {what} the reader is at a wrong position");
    Ok(())
}
#[derive(Object, PartialEq)]
enum Chain {
    End,
    Link(u16, Box<Chain>),
    Deep { next: Option<Box<Chain>>, text: String },
}
fn long(c: &mut Ctx) -> Res {
    let n = match c.s.below(4) {
        0 => c.s.urange(250, 260),
        1 => c.s.urange(261, 6000),
        2 => c.s.urange(65_530, 65_542),
        _ => c.s.urange(66_000, 140_000),
    };
    let seed = c.s.word();
    let kind = c.s.below(24);
    let r = |i: usize| vh::src::mix(seed.wrapping_add(i as u64));
    let text = |i: usize| "é".repeat(r(i) as usize % 4);
    let what = format!("a value of kind {kind} with {n} elements");
    c.note(|| what.clone());
    c.nontrivial();
    c.label("long value");
    let turn = r(n + 1) as usize % n;
    match kind {
        0 => one(&what, (0..n).map(|i| char::from_u32(1 + r(i) as u32 % 0xd7ff).unwrap()).collect::<String>()),
        1 => one(&what, (0..n).map(|i| r(i) as u8).collect::<Vec<u8>>()),
        2 => one(&what, (0..n).map(|i| (r(i) as u8, i as u32)).collect::<Vec<(u8, u32)>>()),
        3 => one(&what, (0..n).map(text).collect::<Vec<String>>()),
        4 => one(&what, (0..n).map(|i| (r(i) % 2 == 0).then(|| text(i))).collect::<Vec<Option<String>>>()),
        5 => one(&what, {
            let mut q = (0..n).map(|i| r(i) as u32).collect::<VecDeque<u32>>();
            q.rotate_left(turn);
            q
        }),
        6 => one(&what, {
            let mut q = (0..n).map(text).collect::<VecDeque<String>>();
            q.rotate_left(turn);
            q
        }),
        7 => one(&what, (0..n).map(|i| r(i) as u16).collect::<LinkedList<u16>>()),
        8 => one(&what, (0..n).map(text).collect::<LinkedList<String>>()),
        9 => one(&what, (0..n).map(|i| (r(i) as u32, text(i))).collect::<BTreeMap<u32, String>>()),
        10 => one(&what, (0..n).map(|i| r(i)).collect::<BTreeSet<u64>>()),
        11 => one(&what, (0..n).map(|i| (r(i) as u32, i as u8)).collect::<HashMap<u32, u8>>()),
        12 => one(&what, (0..n).map(|i| format!("{}", r(i) % 200_000)).collect::<HashSet<String>>()),
        13 => one(&what, (0..n).map(text).collect::<Box<[String]>>()),
        14 => one(&what, (0..n).map(|i| r(i) as u16).collect::<Box<[u16]>>()),
        15 => one(&what, vec![(); n]),
        16 => one(&what, (0..n).map(|i| vec![r(i) as u8; i % 3]).collect::<Vec<Vec<u8>>>()),
        17 => one(&what, std::ffi::CString::new((0..n).map(|i| 1 + (r(i) % 255) as u8).collect::<Vec<u8>>()).unwrap()),
        18 => one(&what, std::path::PathBuf::from(std::ffi::OsString::from_vec((0..n).map(|i| r(i) as u8).collect()))),
        19 => {
            // The order of a heap may differ, what it contains may not
            let h = (0..n).map(|i| (r(i) % 1000, text(i))).collect::<BinaryHeap<_>>();
            let mut s = Serializer::new();
            s.serialize(&h);
            let mut d = Deserializer::new(s.into_vec(), Vec::new());
            let got: BinaryHeap<(u64, String)> = must!(unsafe { d.deserialize() }, "deserializing {what}");
            ensure!(got.into_sorted_vec() == h.into_sorted_vec(), "{what} arrived changed");
            Ok(())
        }
        20 => one(&what, {
            let n = 1 + n % 400;
            (0..n).fold(Chain::End, |c, i| if r(i) % 2 == 0 { Chain::Link(i as u16, Box::new(c)) } else { Chain::Deep { next: Some(Box::new(c)), text: text(i) } })
        }),
        21 => one(&what, (Box::new([0u8; 70_000].map(|_| seed as u8)), seed)),
        22 => one(&what, (0..n / 100).map(|i| (0..r(i) % 300).map(|j| (j as u8, text(j as usize))).collect::<BTreeMap<u8, String>>()).collect::<Vec<_>>()),
        _ => one(&what, Box::new(std::array::from_fn::<String, 300, _>(text))),
    }
}

pub fn case(c: &mut Ctx) -> Res {
    if c.s.below(3000) == 2999 {
        return long(c);
    }
    let n = 1 + c.s.len(12);
    let mut items: Vec<(&Ops, Box<dyn Any>, u64, u64)> = Vec::new();
    for _ in 0..n {
        // Half of the time, the dynamic universal type; otherwise a type from the table
        let t = if c.s.flip() { c.s.idx(TABLE.len()) } else { 0 };
        let depth = c.s.range(0, 5) as u32;
        let v = (TABLE[t].gen)(&mut c.s, depth);
        let (how_s, how_d) = (c.s.below(4), c.s.below(4));
        if t > 1 {
            c.label("static type");
        }
        items.push((&TABLE[t], v, how_s, how_d));
    }
    c.note(|| items.iter().map(|(o, v, _, _)| format!("{} = {}", o.name, (o.show)(&**v))).collect::<Vec<_>>().join(" | "));
    let sentinels = c.s.flip();
    let sent = SENTINEL;
    let mut s = Serializer::new();
    for (o, v, how, _) in &items {
        (o.ser)(&**v, &mut s, *how);
        if sentinels {
            s.serialize_temporary(SENTINEL);
        }
    }
    s.serialize(&sent);
    ensure!(s.drain_handles().is_empty(), "handles appeared from values without handles");
    let data = if c.s.flip() { s.into_iter().collect() } else { s.into_vec() };
    let total = data.len();
    c.label(if total > 16383 { "over one packet" } else { "small" });
    let mut d = Deserializer::new(data, Vec::new());
    let mut copies = Vec::new();
    for (i, (o, v, _, how)) in items.iter().enumerate() {
        let got = must!(unsafe { (o.de)(&mut d, *how) }, "deserializing item {i}, {}", o.name);
        ensure!((o.same)(&**v, &*got), "item {i} of type {}: wrote {} read {}", o.name, (o.show)(&**v), (o.show)(&*got));
        if sentinels {
            let x: u64 = must!(unsafe { d.deserialize() }, "sentinel");
            ensure!(x == SENTINEL, "after item {i} of type {} the reader is at a wrong position", o.name);
        }
        copies.push(got);
    }
    let x: u64 = must!(unsafe { d.deserialize() }, "sentinel");
    ensure!(x == SENTINEL, "after the last item the reader is at a wrong position");
    drop(d);
    // Values are independent of the originals and of the deserializer
    let originals: Vec<_> = items.into_iter().map(|(o, v, _, _)| (o, v)).collect();
    if c.s.flip() {
        let (os, vs): (Vec<_>, Vec<_>) = originals.into_iter().unzip();
        // Round trip of the copy, after the copy was compared: still the same as the original
        let mut s = Serializer::new();
        for (o, v) in os.iter().zip(&copies) {
            (o.ser)(&**v, &mut s, 0);
        }
        let mut d = Deserializer::new(s.into_vec(), Vec::new());
        for (o, v) in os.iter().zip(&vs) {
            let got = must!(unsafe { (o.de)(&mut d, 0) }, "deserializing again, {}", o.name);
            ensure!((o.same)(&**v, &*got), "second round trip of {}: {} became {}", o.name, (o.show)(&**v), (o.show)(&*got));
        }
    }
    if n >= 2 && total > 24 {
        c.nontrivial();
    }
    Ok(())
}
