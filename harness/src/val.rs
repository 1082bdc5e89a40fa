//! The universe of values: how to generate a value of each supported type, and when two values are the same.

use crate::src::Src;
use crossmist::Object;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::ffi::{CString, OsString};
use std::fmt::Debug;
use std::hash::Hash;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

/// `d` is the remaining nesting depth.
pub trait Val: Object + Debug + Sized + 'static {
    fn gen(s: &mut Src, d: u32) -> Self;
    fn same(&self, o: &Self) -> bool;
}

macro_rules! eq_same {
    () => {
        fn same(&self, o: &Self) -> bool {
            self == o
        }
    };
}

macro_rules! int_val {
    ($($t:ty)*) => { $(
        impl Val for $t {
            fn gen(s: &mut Src, _: u32) -> Self {
                match s.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => <$t>::MAX,
                    3 => <$t>::MIN,
                    4 => (0 as $t).wrapping_sub(1),
                    5 => s.below(256) as $t,
                    _ => {
                        let lo = s.word() as u128;
                        if std::mem::size_of::<$t>() > 8 { (lo | (s.word() as u128) << 64) as $t } else { lo as $t }
                    }
                }
            }
            eq_same!();
        }
    )* };
}
int_val!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! nonzero_val {
    ($($nz:ident $t:ty),*) => { $(
        impl Val for std::num::$nz {
            fn gen(s: &mut Src, d: u32) -> Self {
                let v = <$t as Val>::gen(s, d);
                Self::new(v).unwrap_or(Self::new(1).unwrap())
            }
            eq_same!();
        }
    )* };
}
nonzero_val!(NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize,
             NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize);

impl Val for bool {
    fn gen(s: &mut Src, _: u32) -> Self {
        s.flip()
    }
    eq_same!();
}
pub fn gen_char(s: &mut Src) -> char {
    match s.below(6) {
        0 => 'a',
        1 => (b' ' + s.below(95) as u8) as char,
        2 => '\0',
        3 => char::MAX,
        4 => char::from_u32(0x80 + s.below(0x700) as u32).unwrap(),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}
impl Val for char {
    fn gen(s: &mut Src, _: u32) -> Self {
        gen_char(s)
    }
    eq_same!();
}
impl Val for f32 {
    fn gen(s: &mut Src, _: u32) -> Self {
        match s.below(6) {
            0 => 0.0,
            1 => -0.0,
            2 => f32::NAN,
            3 => f32::INFINITY,
            4 => 1.5,
            _ => f32::from_bits(s.word() as u32),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Val for f64 {
    fn gen(s: &mut Src, _: u32) -> Self {
        match s.below(6) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::NAN,
            3 => f64::NEG_INFINITY,
            4 => 1.5,
            _ => f64::from_bits(s.word()),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: 'static> Val for std::marker::PhantomData<T> {
    fn gen(_: &mut Src, _: u32) -> Self {
        std::marker::PhantomData
    }
    eq_same!();
}
impl Val for () {
    fn gen(_: &mut Src, _: u32) -> Self {}
    eq_same!();
}
impl Val for Duration {
    fn gen(s: &mut Src, _: u32) -> Self {
        match s.below(4) {
            0 => Duration::ZERO,
            1 => Duration::MAX,
            _ => Duration::new(s.word() >> s.below(60), s.below(1_000_000_000) as u32),
        }
    }
    eq_same!();
}
// The same in all processes.
fn base_instant() -> Instant {
    let zero: Instant = unsafe { std::mem::zeroed() };
    zero + Duration::from_secs(1_000_000_000)
}
impl Val for Instant {
    fn gen(s: &mut Src, _: u32) -> Self {
        base_instant() + Duration::new(s.below(1 << 30), s.below(1_000_000_000) as u32)
    }
    eq_same!();
}
impl Val for SystemTime {
    fn gen(s: &mut Src, _: u32) -> Self {
        let d = Duration::new(s.below(1 << 34), s.below(1_000_000_000) as u32);
        if s.flip() {
            SystemTime::UNIX_EPOCH - d
        } else {
            SystemTime::UNIX_EPOCH + d
        }
    }
    eq_same!();
}

/// A length for byte-like contents: mostly small, sometimes around the packet boundaries.
pub fn byte_len(s: &mut Src) -> usize {
    match s.below(16) {
        0 => 0,
        1 => 1,
        15 => s.urange(16300, 16500),
        14 => s.urange(0, 3000),
        _ => s.urange(0, 40),
    }
}
pub fn gen_string(s: &mut Src, n: usize) -> String {
    match s.below(3) {
        0 => s.bytes(n).iter().map(|b| (b' ' + b % 95) as char).collect(),
        1 => {
            let mut o = String::new();
            while o.len() < n.min(64) {
                o.push(gen_char(s));
            }
            o
        }
        _ => String::from_utf8_lossy(&s.bytes(n)).into_owned(),
    }
}
impl Val for String {
    fn gen(s: &mut Src, _: u32) -> Self {
        let n = byte_len(s);
        gen_string(s, n)
    }
    eq_same!();
}
impl Val for CString {
    fn gen(s: &mut Src, _: u32) -> Self {
        let n = byte_len(s);
        CString::new(s.bytes(n).into_iter().filter(|b| *b != 0).collect::<Vec<u8>>()).unwrap()
    }
    eq_same!();
}
impl Val for OsString {
    fn gen(s: &mut Src, _: u32) -> Self {
        let n = byte_len(s);
        OsString::from_vec(s.bytes(n))
    }
    eq_same!();
}
impl Val for PathBuf {
    fn gen(s: &mut Src, d: u32) -> Self {
        match s.below(3) {
            0 => PathBuf::from("/"),
            1 => ["a", "..", ".", "x y"].iter().take(s.urange(0, 4)).collect(),
            _ => OsString::gen(s, d).into(),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.as_os_str() == o.as_os_str()
    }
}

macro_rules! tuple_val {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Val),*> Val for ($($t,)*) where Self: Debug {
            fn gen(s: &mut Src, d: u32) -> Self {
                ($($t::gen(s, d),)*)
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& self.$i.same(&o.$i))*
            }
        }
    };
}
tuple_val!(A 0);
tuple_val!(A 0, B 1);
tuple_val!(A 0, B 1, C 2);
tuple_val!(A 0, B 1, C 2, D 3);
tuple_val!(A 0, B 1, C 2, D 3, E 4);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

/// Tuples of more than 12 elements implement neither Debug nor Val directly.
#[derive(crossmist::Object)]
pub struct Big<T: Object>(pub T);
macro_rules! big_tuple_val {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Val),*> Debug for Big<($($t,)*)> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.debug_list()$(.entry(&self.0.$i))*.finish()
            }
        }
        impl<$($t: Val),*> Val for Big<($($t,)*)> {
            fn gen(s: &mut Src, d: u32) -> Self {
                Big(($($t::gen(s, d),)*))
            }
            fn same(&self, o: &Self) -> bool {
                true $(&& self.0.$i.same(&o.0.$i))*
            }
        }
    };
}
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18);
big_tuple_val!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18, T 19);

impl<T: Val> Val for Option<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        if s.chance(2, 3) {
            Some(T::gen(s, d))
        } else {
            None
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Val, E: Val> Val for Result<T, E> {
    fn gen(s: &mut Src, d: u32) -> Self {
        if s.flip() {
            Err(E::gen(s, d))
        } else {
            Ok(T::gen(s, d))
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
fn seq_len(s: &mut Src, d: u32) -> usize {
    let m = s.len(if d > 2 { 40 } else { 200 });
    if d == 0 {
        m.min(2)
    } else {
        m
    }
}
/// Elements of large sequences are generated with less depth.
fn seq<T: Val>(s: &mut Src, d: u32, n: usize) -> Vec<T> {
    let dd = if n > 8 { 0 } else { d.saturating_sub(1) };
    (0..n).map(|_| T::gen(s, dd)).collect()
}
fn all_same<'a, T: Val>(a: impl ExactSizeIterator<Item = &'a T>, b: impl ExactSizeIterator<Item = &'a T>) -> bool {
    a.len() == b.len() && a.zip(b).all(|(x, y)| x.same(y))
}
impl<T: Val> Val for Vec<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        let mut v: Vec<T> = seq(s, d, n);
        if s.flip() {
            v.reserve(s.urange(1, 9)); // capacity is not length
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        all_same(self.iter(), o.iter())
    }
}
impl<T: Val> Val for Box<[T]> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        seq(s, d, n).into_boxed_slice()
    }
    fn same(&self, o: &Self) -> bool {
        all_same(self.iter(), o.iter())
    }
}
impl<T: Val> Val for VecDeque<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        // Make the ring wrap: the contents are in two slices
        let n = seq_len(s, d);
        let mut q: VecDeque<T> = VecDeque::with_capacity(n + s.urange(0, 3));
        let front = s.urange(0, n);
        let items = seq::<T>(s, d, n);
        for (i, x) in items.into_iter().enumerate() {
            if i < front {
                q.push_front(x)
            } else {
                q.push_back(x)
            }
        }
        let k = s.urange(0, 3).min(q.len());
        for _ in 0..k {
            let x = q.pop_front().unwrap();
            q.push_back(x);
        }
        q
    }
    fn same(&self, o: &Self) -> bool {
        all_same(self.iter(), o.iter())
    }
}
impl<T: Val> Val for LinkedList<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        seq(s, d, n).into_iter().collect()
    }
    fn same(&self, o: &Self) -> bool {
        all_same(self.iter(), o.iter())
    }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn gen(s: &mut Src, d: u32) -> Self {
        let dd = if N > 8 { 0 } else { d.saturating_sub(1) };
        std::array::from_fn(|_| T::gen(s, dd))
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(x, y)| x.same(y))
    }
}
impl<T: Val + Ord> Val for BTreeSet<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        seq(s, d, n).into_iter().collect()
    }
    fn same(&self, o: &Self) -> bool {
        all_same(self.iter(), o.iter())
    }
}
impl<T: Val + Ord> Val for BinaryHeap<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        seq(s, d, n).into_iter().collect()
    }
    fn same(&self, o: &Self) -> bool {
        let mut a: Vec<&T> = self.iter().collect();
        let mut b: Vec<&T> = o.iter().collect();
        a.sort();
        b.sort();
        self.peek() == o.peek() && a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.same(y))
    }
}
impl<T: Val + Eq + Hash> Val for HashSet<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        seq(s, d, n).into_iter().collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|x| o.get(x).is_some_and(|y| x.same(y)))
    }
}
impl<K: Val + Ord, T: Val> Val for BTreeMap<K, T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        let k = seq::<K>(s, d, n);
        let v = seq::<T>(s, d, n);
        k.into_iter().zip(v).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|((k, v), (l, w))| k.same(l) && v.same(w))
    }
}
impl<K: Val + Eq + Hash, T: Val> Val for HashMap<K, T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = seq_len(s, d);
        let k = seq::<K>(s, d, n);
        let v = seq::<T>(s, d, n);
        k.into_iter().zip(v).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get_key_value(k).is_some_and(|(l, w)| k.same(l) && v.same(w)))
    }
}
impl<T: Val> Val for Box<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        Box::new(T::gen(s, d))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<T: Val> Val for Rc<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        Rc::new(T::gen(s, d))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}
impl<T: Val> Val for Arc<T> {
    fn gen(s: &mut Src, d: u32) -> Self {
        Arc::new(T::gen(s, d))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}

// Dynamic types: every container inside every other one, chosen at run time.

use crossmist::Object as DeriveObject;

/// Values usable as keys.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, DeriveObject)]
pub enum K {
    Unit,
    U8(u8),
    I64(i64),
    U128(u128),
    Bool(bool),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Path(PathBuf),
    Os(OsString),
    C(CString),
    Dur { d: Duration, x: u16 },
    Time(SystemTime),
    Pair(Box<(K, K)>),
    Opt(Option<Box<K>>),
    Res(Box<Result<K, K>>),
    Vec(Vec<K>),
    Set(BTreeSet<K>),
    Map(BTreeMap<K, K>),
    Arr(Box<[K; 2]>),
    Nz(std::num::NonZeroU32, Option<std::num::NonZeroU64>),
}
impl Val for K {
    fn gen(s: &mut Src, d: u32) -> Self {
        let n = if d == 0 { 13 } else { 21 };
        let e = d.saturating_sub(1);
        match s.below(n) {
            0 => K::Unit,
            1 => K::U8(Val::gen(s, e)),
            2 => K::I64(Val::gen(s, e)),
            3 => K::U128(Val::gen(s, e)),
            4 => K::Bool(Val::gen(s, e)),
            5 => K::Char(Val::gen(s, e)),
            6 => K::Str(Val::gen(s, e)),
            7 => K::Bytes(Val::gen(s, e)),
            8 => K::Path(Val::gen(s, e)),
            9 => K::Os(Val::gen(s, e)),
            10 => K::C(Val::gen(s, e)),
            11 => K::Dur { d: Val::gen(s, e), x: Val::gen(s, e) },
            12 => K::Nz(Val::gen(s, e), Val::gen(s, e)),
            13 => K::Time(Val::gen(s, e)),
            14 => K::Pair(Val::gen(s, e)),
            15 => K::Opt(Val::gen(s, e)),
            16 => K::Res(Val::gen(s, e)),
            17 => K::Vec(Val::gen(s, e)),
            18 => K::Set(Val::gen(s, e)),
            19 => K::Map(Val::gen(s, e)),
            _ => K::Arr(Val::gen(s, e)),
        }
    }
    eq_same!();
}

/// Any value.
#[derive(Debug, DeriveObject)]
pub enum V {
    Unit,
    Key(K),
    F32(f32),
    F64 { value: f64 },
    Inst(Instant),
    Ph(std::marker::PhantomData<String>),
    Box(Box<V>),
    Slice(Box<[V]>),
    Vec(Vec<V>),
    Deque(VecDeque<V>),
    List(LinkedList<V>),
    Heap(BinaryHeap<K>),
    HSet(HashSet<K>),
    HMap(HashMap<K, V>),
    BMap(BTreeMap<K, V>),
    Opt(Option<Box<V>>),
    OptOpt(Option<Option<Box<V>>>),
    Res(Box<Result<V, K>>),
    Rc(Rc<V>),
    Arc(Arc<V>),
    T2(Box<(V, V)>),
    T5 { t: Box<(u8, V, u64, V, bool)>, tail: u8 },
    Arr3(Box<[V; 3]>),
    Arr0([Box<V>; 0]),
    Pods(Vec<(u8, u32, Option<bool>)>),
    Niche(Option<char>, Option<Option<bool>>, Option<std::num::NonZeroU8>, Result<u8, ()>),
    VecUnit(Vec<()>),
    VecStr(Vec<String>),
    OptVec(Vec<Option<u64>>),
    DequeU(VecDeque<u16>),
}
impl Val for V {
    fn gen(s: &mut Src, d: u32) -> Self {
        let e = d.saturating_sub(1);
        let k = if d == 0 { s.below(12) } else { s.below(30) };
        match k {
            0 => V::Unit,
            1 => V::Key(Val::gen(s, e)),
            2 => V::F32(Val::gen(s, e)),
            3 => V::F64 { value: Val::gen(s, e) },
            4 => V::Inst(Val::gen(s, e)),
            5 => V::Ph(std::marker::PhantomData),
            6 => V::Pods(Val::gen(s, e)),
            7 => V::Niche(Val::gen(s, e), Val::gen(s, e), Val::gen(s, e), Val::gen(s, e)),
            8 => V::VecUnit(Val::gen(s, e)),
            9 => V::OptVec(Val::gen(s, e)),
            10 => V::DequeU(Val::gen(s, e)),
            11 => V::Arr0([]),
            12 => V::Box(Val::gen(s, e)),
            13 => V::Slice(Val::gen(s, e)),
            14 => V::Vec(Val::gen(s, e)),
            15 => V::Deque(Val::gen(s, e)),
            16 => V::List(Val::gen(s, e)),
            17 => V::Heap(Val::gen(s, e)),
            18 => V::HSet(Val::gen(s, e)),
            19 => V::HMap(Val::gen(s, e)),
            20 => V::BMap(Val::gen(s, e)),
            21 => V::Opt(Val::gen(s, e)),
            22 => V::OptOpt(Val::gen(s, e)),
            23 => V::Res(Val::gen(s, e)),
            24 => V::Rc(Val::gen(s, e)),
            25 => V::Arc(Val::gen(s, e)),
            26 => V::T2(Val::gen(s, e)),
            27 => V::T5 { t: Val::gen(s, e), tail: Val::gen(s, e) },
            28 => V::Arr3(Val::gen(s, e)),
            _ => V::VecStr(Val::gen(s, e)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        use V::*;
        match (self, o) {
            (Unit, Unit) => true,
            (Key(a), Key(b)) => a.same(b),
            (F32(a), F32(b)) => a.same(b),
            (F64 { value: a }, F64 { value: b }) => a.same(b),
            (Inst(a), Inst(b)) => a.same(b),
            (Ph(_), Ph(_)) => true,
            (Box(a), Box(b)) => a.same(b),
            (Slice(a), Slice(b)) => a.same(b),
            (Vec(a), Vec(b)) => a.same(b),
            (Deque(a), Deque(b)) => a.same(b),
            (List(a), List(b)) => a.same(b),
            (Heap(a), Heap(b)) => a.same(b),
            (HSet(a), HSet(b)) => a.same(b),
            (HMap(a), HMap(b)) => a.same(b),
            (BMap(a), BMap(b)) => a.same(b),
            (Opt(a), Opt(b)) => a.same(b),
            (OptOpt(a), OptOpt(b)) => a.same(b),
            (Res(a), Res(b)) => a.same(b),
            (Rc(a), Rc(b)) => a.same(b),
            (Arc(a), Arc(b)) => a.same(b),
            (T2(a), T2(b)) => a.same(b),
            (T5 { t: a, tail: x }, T5 { t: b, tail: y }) => a.same(b) && x == y,
            (Arr3(a), Arr3(b)) => a.same(b),
            (Arr0(_), Arr0(_)) => true,
            (Pods(a), Pods(b)) => a.same(b),
            (Niche(a, c, e, g), Niche(b, d, f, h)) => a.same(b) && c.same(d) && e.same(f) && g.same(h),
            (VecUnit(a), VecUnit(b)) => a.same(b),
            (VecStr(a), VecStr(b)) => a.same(b),
            (OptVec(a), OptVec(b)) => a.same(b),
            (DequeU(a), DequeU(b)) => a.same(b),
            _ => false,
        }
    }
}
