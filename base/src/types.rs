//! User-side types: keys, values, queries and hashers whose every callback goes through the simulator.

use crate::world::{self, Cb, byz, cb, cb_err, ctl};
use equivalent::{Comparable, Equivalent};
use frozen_collections::Scalar;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::{BuildHasher, Hash, Hasher};

// ---------------------------------------------------------------- SimKey

/// A tracked key. `tag` identifies the supplied entry and takes no part in comparisons.
pub struct SimKey {
    can: u64,
    inst: u64,
    id: u64,
    tag: u64,
}

impl SimKey {
    #[inline(never)]
    pub fn new(id: u64, tag: u64) -> Self {
        let inst = world::birth(true);
        Self { can: world::canary(inst, true), inst, id, tag }
    }
    /// A key that lives in a static collection: usable, never to be destroyed.
    pub const fn fixed(id: u64, tag: u64) -> Self {
        Self { can: world::FIXED, inst: u64::MAX, id, tag }
    }
    /// The same, not to be had at compile time.
    pub fn late(id: u64, tag: u64) -> Self {
        Self::fixed(std::hint::black_box(id), tag)
    }
    #[inline(never)]
    pub fn check(&self) {
        world::touch(self.inst, self.can, true);
    }
    #[inline(never)]
    pub fn id(&self) -> u64 {
        self.check();
        self.id
    }
    #[inline(never)]
    pub fn tag(&self) -> u64 {
        self.check();
        self.tag
    }
}
impl Drop for SimKey {
    #[inline(never)]
    fn drop(&mut self) {
        world::death(self.inst, self.can, true);
        cb(Cb::Drop);
    }
}
impl Clone for SimKey {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.check();
        cb(Cb::Clone);
        let id = match byz(Cb::Clone) {
            Some(r) => r % 97,
            None => self.id,
        };
        Self::new(id, self.tag)
    }
}
#[inline(never)]
fn bool_or(class: Cb, honest: bool) -> bool {
    match byz(class) {
        Some(r) => r & 1 == 0,
        None => honest,
    }
}
#[inline(never)]
fn ord_or(honest: Ordering) -> Ordering {
    match byz(Cb::Cmp) {
        Some(r) => match r % 3 {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        },
        None => honest,
    }
}
fn hash_id<H: Hasher>(id: u64, state: &mut H) {
    cb(Cb::Hash);
    state.write_u64(byz(Cb::Hash).unwrap_or(id));
}
impl PartialEq for SimKey {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.id == o.id)
    }
}
impl Eq for SimKey {}
impl PartialOrd for SimKey {
    #[inline(never)]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimKey {
    #[inline(never)]
    fn cmp(&self, o: &Self) -> Ordering {
        self.check();
        o.check();
        cb(Cb::Cmp);
        ord_or(self.id.cmp(&o.id))
    }
}
impl Hash for SimKey {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.check();
        hash_id(self.id, state);
    }
}
impl Debug for SimKey {
    #[inline(never)]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check();
        if cb_err(Cb::Fmt) {
            return Err(fmt::Error);
        }
        write!(f, "<K{}>", self.id)
    }
}
impl Serialize for SimKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check();
        if cb_err(Cb::Ser) {
            return Err(serde::ser::Error::custom("simulated element error"));
        }
        s.serialize_u64(self.id)
    }
}
impl<'de> Deserialize<'de> for SimKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if cb_err(Cb::De) {
            return Err(serde::de::Error::custom("simulated element error"));
        }
        Ok(Self::new(u64::deserialize(d)?, 0))
    }
}

/// A query equivalent to a `SimKey`; queries that differ in `variant` are unequal yet equivalent to the same key.
#[derive(Clone, Copy)]
pub struct SimQ {
    pub id: u64,
    pub variant: u64,
}
impl PartialEq for SimQ {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.id == o.id && self.variant == o.variant)
    }
}
impl Eq for SimQ {}
impl Hash for SimQ {
    fn hash<H: Hasher>(&self, state: &mut H) {
        hash_id(self.id, state);
    }
}
impl Equivalent<SimKey> for SimQ {
    #[inline(never)]
    fn equivalent(&self, k: &SimKey) -> bool {
        k.check();
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.id == k.id)
    }
}
impl Comparable<SimKey> for SimQ {
    #[inline(never)]
    fn compare(&self, k: &SimKey) -> Ordering {
        k.check();
        cb(Cb::Cmp);
        ord_or(self.id.cmp(&k.id))
    }
}

// ---------------------------------------------------------------- SimScalar

/// A user-defined scalar key.
#[derive(Clone, Copy)]
pub struct SimScalar(pub u64);
impl PartialEq for SimScalar {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.0 == o.0)
    }
}
impl Eq for SimScalar {}
impl PartialOrd for SimScalar {
    #[inline(never)]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimScalar {
    #[inline(never)]
    fn cmp(&self, o: &Self) -> Ordering {
        cb(Cb::Cmp);
        ord_or(self.0.cmp(&o.0))
    }
}
impl Hash for SimScalar {
    fn hash<H: Hasher>(&self, state: &mut H) {
        hash_id(self.0, state);
    }
}
impl Scalar for SimScalar {
    #[inline(never)]
    fn index(&self) -> usize {
        cb(Cb::Index);
        match byz(Cb::Index) {
            Some(r) => match r >> 60 {
                0 => usize::MAX,
                1 => 0,
                2..=5 => (r >> 20) as usize,
                _ => ((r >> 20) % 300) as usize,
            },
            None => self.0 as usize,
        }
    }
}
impl Debug for SimScalar {
    #[inline(never)]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if cb_err(Cb::Fmt) {
            return Err(fmt::Error);
        }
        write!(f, "<K{}>", self.0)
    }
}
impl Serialize for SimScalar {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if cb_err(Cb::Ser) {
            return Err(serde::ser::Error::custom("simulated element error"));
        }
        s.serialize_u64(self.0)
    }
}
impl<'de> Deserialize<'de> for SimScalar {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if cb_err(Cb::De) {
            return Err(serde::de::Error::custom("simulated element error"));
        }
        Ok(Self(u64::deserialize(d)?))
    }
}

/// A scalar query type different from, but comparable to, the key type.
#[derive(Clone, Copy)]
pub struct SimScalarQ {
    pub id: u64,
    pub variant: u64,
}
impl PartialEq for SimScalarQ {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.id == o.id && self.variant == o.variant)
    }
}
impl Eq for SimScalarQ {}
impl PartialOrd for SimScalarQ {
    #[inline(never)]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SimScalarQ {
    #[inline(never)]
    fn cmp(&self, o: &Self) -> Ordering {
        cb(Cb::Cmp);
        ord_or((self.id, self.variant).cmp(&(o.id, o.variant)))
    }
}
impl Scalar for SimScalarQ {
    #[inline(never)]
    fn index(&self) -> usize {
        SimScalar(self.id).index()
    }
}
impl Equivalent<SimScalar> for SimScalarQ {
    #[inline(never)]
    fn equivalent(&self, k: &SimScalar) -> bool {
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.id == k.0)
    }
}
impl Comparable<SimScalar> for SimScalarQ {
    #[inline(never)]
    fn compare(&self, k: &SimScalar) -> Ordering {
        cb(Cb::Cmp);
        ord_or(self.id.cmp(&k.0))
    }
}

// ---------------------------------------------------------------- SimStr

/// A user-defined string-like type.
pub struct SimStr {
    s: String,
    other: String,
    pub variant: u64,
}
impl SimStr {
    #[inline(never)]
    pub fn new(id: u64, variant: u64) -> Self {
        Self { s: key_string(id), other: key_string(id.wrapping_mul(7) % 131), variant }
    }
}
impl AsRef<str> for SimStr {
    #[inline(never)]
    fn as_ref(&self) -> &str {
        cb(Cb::AsRef);
        if byz(Cb::AsRef).is_some() { &self.other } else { &self.s }
    }
}
impl PartialEq for SimStr {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.s == o.s && self.variant == o.variant)
    }
}
impl Eq for SimStr {}

/// The string that stands for a key number, in the run's shape; injective for each shape.
#[inline(never)]
pub fn key_string(mut id: u64) -> String {
    let _g = crate::alloc::OutLib::enter();
    if id >= 1 << 40 && id < (1 << 40) + 1_000_000 {
        if let Some(s) = world::interned(id) {
            return s;
        }
        // this number may be given to a string that is yet to come
        id += 1 << 42;
    }
    let s = match ctl().shape.get() % 15 {
        0 => format!("k{id}"),
        1 => format!("a/very/long/common/prefix/of/paths/{id}"),
        2 => format!("{id}.a.common.suffix.example.com"),
        3 => format!("{}{}", "x".repeat((id % 150) as usize), if id < 150 { String::new() } else { format!("#{id}") }),
        4 => format!("é{id}✓ü"),
        5 => format!("{:016x}", id.wrapping_mul(0x9e37_79b9_7f4a_7c15)),
        6 => format!("pre-{id:05}-post"),
        7 => match id % 16 {
            0 if id == 0 => String::new(),
            1 => format!("\"{id}\\"),
            2 => format!("\n{id}\t\u{1}"),
            3 => format!("{id}\u{0}"),
            4 => format!("𝄞{id}"),
            5 => format!(" {id} "),
            _ => format!("{id}"),
        },
        8 => {
            let mut b = vec![b'a'; 20];
            b[(id % 20) as usize] = b'b' + ((id / 20) % 24) as u8;
            let mut s = String::from_utf8(b).unwrap();
            if id >= 480 {
                s.push_str(&(id / 480).to_string());
            }
            s
        }
        // lengths that are the same modulo 256 or 65536
        10 => {
            let l = (id % 7 + [0, 256, 512, 1024, 65_536][(id / 7 % 5) as usize]) as usize;
            format!("{}{}", "x".repeat(l), if id < 35 { String::new() } else { format!("#{id}") })
        }
        // what differs is far from the beginning, or from the end, or from both
        11 => format!("{}{id}", "p".repeat(300)),
        12 => format!("{id:04}{}", "s".repeat(300)),
        13 => {
            let mut b = vec![b'a'; 560];
            b[(id % 280 * 2) as usize] = b'b' + ((id / 280) % 24) as u8;
            let mut s = String::from_utf8(b).unwrap();
            if id >= 280 * 24 {
                s.push_str(&(id / (280 * 24)).to_string());
            }
            s
        }
        // what differs is at a fixed distance from the end
        14 => format!("{}{id:03}{}", "p".repeat((id % 5 + 1) as usize), "s".repeat(7)),
        _ => match id {
            0 => String::new(),
            _ => {
                // short strings over a small alphabet: many share every short subslice
                let mut n = id;
                let mut s = String::new();
                while n > 0 {
                    s.push((b'a' + ((n - 1) % 3) as u8) as char);
                    n = (n - 1) / 3;
                }
                s
            }
        },
    };
    world::register_string(&s, id);
    s
}

// ---------------------------------------------------------------- SimVal

/// A tracked value.
pub struct SimVal {
    can: u64,
    inst: u64,
    val: u64,
}
impl SimVal {
    #[inline(never)]
    pub fn new(val: u64) -> Self {
        let inst = world::birth(false);
        Self { can: world::canary(inst, false), inst, val }
    }
    /// A value that lives in a static collection: usable, never to be destroyed.
    pub const fn fixed(val: u64) -> Self {
        Self { can: world::FIXED, inst: u64::MAX, val }
    }
    /// The same, not to be had at compile time.
    pub fn late(val: u64) -> Self {
        Self::fixed(std::hint::black_box(val))
    }
    #[inline(never)]
    pub fn check(&self) {
        world::touch(self.inst, self.can, false);
    }
    #[inline(never)]
    pub fn get(&self) -> u64 {
        self.check();
        self.val
    }
    #[inline(never)]
    pub fn set(&mut self, v: u64) {
        self.check();
        self.val = v;
    }
}
impl Drop for SimVal {
    #[inline(never)]
    fn drop(&mut self) {
        world::death(self.inst, self.can, false);
        cb(Cb::Drop);
    }
}
impl Clone for SimVal {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.check();
        cb(Cb::Clone);
        Self::new(self.val)
    }
}
impl PartialEq for SimVal {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        cb(Cb::Eq);
        bool_or(Cb::Eq, self.val == o.val)
    }
}
impl Eq for SimVal {}
impl Debug for SimVal {
    #[inline(never)]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check();
        if cb_err(Cb::Fmt) {
            return Err(fmt::Error);
        }
        write!(f, "<V{}>", self.val)
    }
}
impl Serialize for SimVal {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check();
        if cb_err(Cb::Ser) {
            return Err(serde::ser::Error::custom("simulated element error"));
        }
        s.serialize_u64(self.val)
    }
}
impl<'de> Deserialize<'de> for SimVal {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if cb_err(Cb::De) {
            return Err(serde::de::Error::custom("simulated element error"));
        }
        Ok(Self::new(u64::deserialize(d)?))
    }
}

/// What every kind of value can do.
pub trait Val {
    fn get(&self) -> u64;
    fn set(&mut self, v: u64);
    /// where it is, if it is anywhere
    fn addr(&self) -> usize;
}
impl Val for SimVal {
    fn get(&self) -> u64 {
        Self::get(self)
    }
    fn set(&mut self, v: u64) {
        Self::set(self, v);
    }
    fn addr(&self) -> usize {
        std::ptr::from_ref(self) as usize
    }
}

/// A tracked value that takes no room, and must sit at a multiple of 16 all the same.
#[repr(align(16))]
pub struct SimZst;
impl SimZst {
    #[inline(never)]
    pub fn new(_: u64) -> Self {
        world::zst_birth();
        Self
    }
    #[inline(never)]
    fn check(&self) {
        if std::ptr::from_ref(self) as usize % 16 != 0 {
            world::violate_now("memory:misaligned", "the library handed out a value at a misaligned address".into());
        }
    }
    pub fn get(&self) -> u64 {
        self.check();
        0
    }
    pub fn set(&mut self, _: u64) {
        self.check();
    }
    pub fn addr(&self) -> usize {
        0
    }
}
/// A tracked value with a large alignment.
#[repr(align(128))]
pub struct SimBig(SimVal);
impl SimBig {
    pub fn new(v: u64) -> Self {
        Self(SimVal::new(v))
    }
    #[inline(never)]
    fn check(&self) {
        if std::ptr::from_ref(self) as usize % 128 != 0 {
            world::violate_now("memory:misaligned", "the library handed out a value at a misaligned address".into());
        }
    }
    pub fn get(&self) -> u64 {
        self.check();
        self.0.get()
    }
    pub fn set(&mut self, v: u64) {
        self.check();
        self.0.set(v);
    }
    pub fn addr(&self) -> usize {
        std::ptr::from_ref(self) as usize
    }
}
macro_rules! odd_val {
    ($($t:ident, $drop:expr;)+) => {$(
        impl Val for $t {
            fn get(&self) -> u64 {
                Self::get(self)
            }
            fn set(&mut self, v: u64) {
                Self::set(self, v);
            }
            fn addr(&self) -> usize {
                Self::addr(self)
            }
        }
        impl Drop for $t {
            #[inline(never)]
            fn drop(&mut self) {
                ($drop)(self);
            }
        }
        impl Eq for $t {}
        impl Debug for $t {
            #[inline(never)]
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if cb_err(Cb::Fmt) {
                    return Err(fmt::Error);
                }
                write!(f, "<V{}>", self.get())
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if cb_err(Cb::Ser) {
                    return Err(serde::ser::Error::custom("simulated element error"));
                }
                s.serialize_u64(self.get())
            }
        }
    )+};
}
odd_val! {
    SimZst, |v: &mut SimZst| { v.check(); world::zst_death(); cb(Cb::Drop); };
    SimBig, |v: &mut SimBig| v.check();
}
impl Clone for SimZst {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.check();
        cb(Cb::Clone);
        Self::new(0)
    }
}
impl PartialEq for SimZst {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        cb(Cb::Eq);
        bool_or(Cb::Eq, true)
    }
}
impl Clone for SimBig {
    #[inline(never)]
    fn clone(&self) -> Self {
        self.check();
        Self(self.0.clone())
    }
}
impl PartialEq for SimBig {
    #[inline(never)]
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        self.0 == o.0
    }
}

// ---------------------------------------------------------------- hashers

/// A hash builder whose quality is a knob of the run.
#[derive(Clone, Debug)]
pub struct SimBH {
    pub mode: u8,
    pub seed: u64,
}
pub const BH_MODES: u8 = 9;
impl Default for SimBH {
    #[inline(never)]
    fn default() -> Self {
        Self { mode: ctl().bh_mode.get(), seed: ctl().bh_seed.get() }
    }
}
impl BuildHasher for SimBH {
    type Hasher = SimHasher;
    #[inline(never)]
    fn build_hasher(&self) -> SimHasher {
        cb(Cb::Build);
        SimHasher { mode: self.mode, seed: self.seed, acc: 0xcbf2_9ce4_8422_2325, last: 0 }
    }
}
pub struct SimHasher {
    mode: u8,
    seed: u64,
    acc: u64,
    last: u64,
}
impl Hasher for SimHasher {
    #[inline(never)]
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.acc = (self.acc ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
            self.last = (self.last << 8) | u64::from(*b);
        }
    }
    #[inline(never)]
    fn write_u64(&mut self, v: u64) {
        self.acc = world::mix(self.acc, v);
        self.last = v;
    }
    #[inline(never)]
    fn finish(&self) -> u64 {
        let good = world::mix(self.acc, self.seed);
        match self.mode {
            0 | 1 => good,
            2 => 0,                    // everything collides
            3 => u64::MAX,             // everything collides, at the top
            4 => good & 7,             // a handful of codes
            5 => good << 52,           // only the top bits differ
            6 => self.last,            // identity
            7 => self.last << 20,      // identity, low bits all zero
            _ => self.seed,            // one random code
        }
    }
}
