//! A table of concrete types with type-erased operations, so that cases can mix types at run time.

use crate::src::Src;
use crate::val::*;
use crossmist::{Deserializer, Serializer};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::ffi::{CString, OsString};
use std::marker::PhantomData;
use std::num::*;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

pub struct Ops {
    pub name: &'static str,
    pub gen: fn(&mut Src, u32) -> Box<dyn Any>,
    pub ser: for<'a> fn(&'a dyn Any, &mut Serializer<'a>, how: u64),
    pub de: unsafe fn(&mut Deserializer, how: u64) -> std::io::Result<Box<dyn Any>>,
    pub same: fn(&dyn Any, &dyn Any) -> bool,
    pub show: fn(&dyn Any) -> String,
}

fn gen<T: Val>(s: &mut Src, d: u32) -> Box<dyn Any> {
    Box::new(T::gen(s, d))
}
/// how: 0 serialize, 1 as a slice of one, 2 via serialize_self, 3 as Option-like nested write through &
fn ser<'a, T: Val>(v: &'a dyn Any, s: &mut Serializer<'a>, how: u64) {
    let v: &'a T = v.downcast_ref().unwrap();
    match how {
        1 => s.serialize_slice(std::slice::from_ref(v)),
        2 => v.serialize_self(s),
        _ => s.serialize(v),
    }
}
unsafe fn de<T: Val>(d: &mut Deserializer, how: u64) -> std::io::Result<Box<dyn Any>> {
    Ok(if how == 3 { Box::new(T::deserialize_self(d)?) } else { Box::new(d.deserialize::<T>()?) })
}
fn same<T: Val>(a: &dyn Any, b: &dyn Any) -> bool {
    a.downcast_ref::<T>().unwrap().same(b.downcast_ref::<T>().unwrap())
}
fn show<T: Val>(a: &dyn Any) -> String {
    use std::fmt::Write;
    struct Lim(String);
    impl Write for Lim {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.len() > 400 {
                return Err(std::fmt::Error);
            }
            Ok(())
        }
    }
    let mut l = Lim(String::new());
    let _ = write!(l, "{:?}", a.downcast_ref::<T>().unwrap());
    l.0
}
pub const fn ops<T: Val>(name: &'static str) -> Ops {
    Ops { name, gen: gen::<T>, ser: ser::<T>, de: de::<T>, same: same::<T>, show: show::<T> }
}
macro_rules! table {
    ($($t:ty;)*) => { &[$(ops::<$t>(stringify!($t))),*] };
}

pub type P1 = (u8, u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, crossmist::Object)]
pub struct PodS {
    pub a: u8,
    pub b: u64,
    pub c: u16,
}
impl Val for PodS {
    fn gen(s: &mut Src, d: u32) -> Self {
        PodS { a: Val::gen(s, d), b: Val::gen(s, d), c: Val::gen(s, d) }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, crossmist::Object)]
pub enum PodE {
    A,
    B(u8),
    C { x: u32, y: bool },
    D(Option<NonZeroU16>),
}
impl Val for PodE {
    fn gen(s: &mut Src, d: u32) -> Self {
        match s.below(4) {
            0 => PodE::A,
            1 => PodE::B(Val::gen(s, d)),
            2 => PodE::C { x: Val::gen(s, d), y: Val::gen(s, d) },
            _ => PodE::D(Val::gen(s, d)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, crossmist::Object)]
pub struct Zst;
impl Val for Zst {
    fn gen(_: &mut Src, _: u32) -> Self {
        Zst
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
/// Not plain data, but contains no payload on the wire except through its field.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, crossmist::Object)]
pub struct Mixed {
    pub a: u8,
    pub s: String,
    pub b: Option<u64>,
    pub v: Vec<PodS>,
    pub z: Zst,
}
impl Val for Mixed {
    fn gen(s: &mut Src, d: u32) -> Self {
        Mixed { a: Val::gen(s, d), s: Val::gen(s, d), b: Val::gen(s, d), v: Val::gen(s, d), z: Zst }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

macro_rules! table_main { ($m:ident) => { $m! {
    V; K;
    (); bool; char; u8; u16; u32; u64; u128; usize; i8; i16; i32; i64; i128; isize; f32; f64;
    NonZeroI8; NonZeroI16; NonZeroI32; NonZeroI64; NonZeroI128; NonZeroIsize;
    NonZeroU8; NonZeroU16; NonZeroU32; NonZeroU64; NonZeroU128; NonZeroUsize;
    Duration; Instant; SystemTime; PhantomData<u32>; PhantomData<String>;
    String; CString; OsString; PathBuf; PodS; PodE; Zst; Mixed;
    Option<u8>; Option<bool>; Option<char>; Option<NonZeroU8>; Option<Option<bool>>; Option<String>; Option<()>; Option<Duration>;
    Option<Box<u32>>; Option<PodE>; Option<Vec<u8>>; Option<Option<Option<u64>>>; Option<SystemTime>; Option<Rc<u8>>;
    Result<u8, u8>; Result<u8, String>; Result<(), ()>; Result<String, Vec<u8>>; Result<Result<u8, ()>, bool>; Result<(), u128>; Result<PathBuf, CString>;
    Vec<()>; Vec<bool>; Vec<char>; Vec<u8>; Vec<u16>; Vec<u64>; Vec<u128>; Vec<i8>; Vec<f64>; Vec<String>; Vec<Vec<u8>>; Vec<Vec<Vec<u8>>>; Vec<Option<u8>>;
    Vec<Option<String>>; Vec<(u8, u32)>; Vec<(u8, String)>; Vec<Box<u8>>; Vec<PodS>; Vec<PodE>; Vec<Zst>; Vec<Mixed>; Vec<[u8; 3]>; Vec<Duration>; Vec<PathBuf>; Vec<OsString>; Vec<CString>;
    Vec<NonZeroU16>; Vec<Result<u8, u32>>; Vec<V>; Vec<Rc<String>>; Vec<Box<[u16]>>; Vec<VecDeque<u8>>; Vec<PhantomData<u8>>; Vec<Instant>;
    Box<u8>; Box<()>; Box<String>; Box<Box<u8>>; Box<Vec<u8>>; Box<[u8]>; Box<[u64]>; Box<[String]>; Box<[()]>; Box<[Box<[u8]>]>; Box<[PodS]>; Box<Mixed>; Box<PodS>; Box<Zst>; Box<[Option<u8>]>; Box<(u8, u64)>; Box<[u8; 5]>;
    [u8; 0]; [String; 0]; [u8; 1]; [u8; 5]; [u32; 3]; [u64; 33]; [String; 3]; [Option<bool>; 4]; [[u8; 3]; 2]; [[String; 2]; 2]; [Vec<u8>; 4]; [PodS; 4]; [(); 7]; [Box<u16>; 2]; [u8; 257]; [Mixed; 2]; [V; 2];
    VecDeque<u8>; VecDeque<u32>; VecDeque<String>; VecDeque<()>; VecDeque<Vec<u8>>; VecDeque<PodS>; VecDeque<Option<u16>>; VecDeque<V>;
    LinkedList<u8>; LinkedList<String>; LinkedList<PodE>; LinkedList<V>; LinkedList<()>;
    BinaryHeap<u8>; BinaryHeap<i64>; BinaryHeap<String>; BinaryHeap<K>; BinaryHeap<(u8, u8)>; BinaryHeap<()>;
    BTreeSet<u8>; BTreeSet<String>; BTreeSet<K>; BTreeSet<(u16, char)>; BTreeSet<()>; BTreeSet<Option<bool>>;
    HashSet<u8>; HashSet<String>; HashSet<K>; HashSet<(u16, char)>; HashSet<()>; HashSet<PodE>;
    BTreeMap<u8, u8>; BTreeMap<u8, String>; BTreeMap<String, u64>; BTreeMap<K, V>; BTreeMap<(), ()>; BTreeMap<i32, BTreeMap<u8, u8>>; BTreeMap<u64, PodS>;
    HashMap<u8, u8>; HashMap<u8, String>; HashMap<String, u64>; HashMap<K, V>; HashMap<(), u8>; HashMap<i32, HashMap<u8, String>>; HashMap<PodS, PodE>;
    Rc<u8>; Rc<String>; Rc<()>; Arc<u8>; Arc<Vec<u8>>; Arc<Arc<u8>>; Rc<Arc<String>>; Rc<Rc<Rc<u64>>>; Arc<V>; Rc<V>; (Rc<u8>, Arc<u8>); Rc<Vec<Rc<u32>>>; Box<Rc<Box<u8>>>;
    (u8,); (String,); (u8, u8); (u8, u64); (u64, u8); (u8, String); (String, u8); (String, String); ((), u8); ((), ()); (bool, char, u128); (u8, (u16, (u32, (u64,)))); (Vec<u8>, u8, Vec<u8>);
    (u8, u16, u32, u64); (u8, String, u8, String); (u8, u16, u32, u64, u128); (String, u8, Option<u8>, Vec<u8>, bool); (u8, u8, u8, u8, u8, u8); (u8, String, u16, Vec<u8>, u32, Option<String>);
    (u8, u16, u8, u32, u8, u64, u8); (u8, u16, u8, u32, String, u64, u8); (u8, u16, u32, u64, i8, i16, i32, i64); (u8, u16, u32, u64, String, i16, i32, i64);
    (u8, u16, u32, u64, i8, i16, i32, i64, bool); (u8, u16, u32, u64, i8, i16, i32, i64, String);
    (u8, u16, u32, u64, i8, i16, i32, i64, bool, char); (u8, u16, u32, u64, i8, String, i32, i64, bool, char);
    (u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32); (u8, u16, u32, u64, i8, i16, i32, i64, bool, char, String);
    (u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64); (String, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64);
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8)>; Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, String, u8)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16)>; Big<(u8, u16, u32, u64, i8, i16, i32, String, bool, char, f32, f64, u8, u16)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32)>; Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, String, u32)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64)>; Big<(u8, u16, String, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8)>; Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, String)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, i16)>; Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, String, i8, i16)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, i16, i32)>; Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, String, i32)>;
    Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, i16, i32, i64)>; Big<(String, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, i16, String, i64)>;
    Vec<Big<(u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, f64, u8, u16, u32, u64, i8, i16, i32, i64)>>;
} } }

pub static TABLE: &[Ops] = table_main!(table);
