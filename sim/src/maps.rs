//! The map types under simulation, behind one object-safe interface.

use crate::alloc::{InLib, OutLib};
use crate::iters::{Cloneable, Item, Plain, SimIter};
use crate::serde_sim::{DeFrom, Elem, RefMap, SerTo, de_any, ser_any};
use crate::types::{SimBH, SimKey, SimQ, SimScalar, SimScalarQ, SimStr, SimVal, Val, key_string};
use crate::world::{self, Cb, cb, go};
use frozen_collections::{FzHashMap, FzOrderedMap, FzScalarMap, FzStringMap, Len, Map, MapExtras, MapIteration, MapQuery, Scalar};
use std::any::Any;
use std::collections::BTreeMap;
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;
use std::num::{NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroIsize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroUsize};

#[macro_export]
macro_rules! lib {
    ($e:expr) => {{
        $crate::world::go();
        let _g = $crate::alloc::InLib::enter();
        $e
    }};
}

/// A key family: how key numbers become keys and back.
pub trait Fam: 'static {
    type K: Ord + Hash + Clone + 'static;
    type Input: 'static;
    type Own: Eq + 'static;
    type Alt: Eq + 'static;
    const TRACKED: bool;
    fn canon(id: u64) -> u64 {
        id
    }
    fn input(id: u64, tag: u64) -> Self::Input;
    fn key(id: u64, tag: u64) -> Self::K;
    fn own(id: u64) -> Self::Own;
    fn alt(id: u64, variant: u64) -> Self::Alt;
    fn id_of(k: &Self::K) -> (u64, u64);
    /// the key as it appears in a document
    fn elem(id: u64) -> Elem {
        Elem::U(Self::canon(id))
    }
    fn unelem(e: &Elem) -> Option<u64> {
        match e {
            Elem::U(n) => Some(Self::canon(*n)),
            Elem::I(n) => Some(Self::canon(*n as u64)),
            Elem::S(s) => match (s.parse::<u64>(), s.parse::<i64>()) {
                (Ok(n), _) => Some(Self::canon(n)),
                (_, Ok(n)) => Some(Self::canon(n as u64)),
                _ => None,
            },
        }
    }
    /// the plainest type the key can be read as
    type De: serde::de::DeserializeOwned + Ord + Hash + 'static;
    fn de_id(k: &Self::De) -> u64;
}

pub struct FKey;
impl Fam for FKey {
    type K = SimKey;
    type Input = SimKey;
    type Own = SimKey;
    type Alt = SimQ;
    const TRACKED: bool = true;
    fn input(id: u64, tag: u64) -> SimKey {
        SimKey::new(id, tag)
    }
    fn key(id: u64, tag: u64) -> SimKey {
        SimKey::new(id, tag)
    }
    fn own(id: u64) -> SimKey {
        SimKey::new(id, 0)
    }
    fn alt(id: u64, variant: u64) -> SimQ {
        SimQ { id, variant }
    }
    fn id_of(k: &SimKey) -> (u64, u64) {
        (k.id(), k.tag())
    }
    type De = SimKey;
    fn de_id(k: &SimKey) -> u64 {
        k.id()
    }
}

fn scalar_elem(t: &str, id: u64) -> Elem {
    match t {
        "i8" | "NonZeroI8" => Elem::I(i64::from(id as u8 as i8)),
        "i16" | "NonZeroI16" => Elem::I(i64::from(id as u16 as i16)),
        "i32" | "NonZeroI32" => Elem::I(i64::from(id as u32 as i32)),
        "i64" | "isize" | "NonZeroI64" | "NonZeroIsize" => Elem::I(id as i64),
        _ => Elem::U(id),
    }
}

pub struct FScalar<T>(PhantomData<T>);
macro_rules! fscalar {
    ($($t:ty, $alt:ty, $canon:expr, $make:expr, $back:expr, $mkalt:expr;)+) => {$(
        impl Fam for FScalar<$t> {
            type K = $t;
            type Input = $t;
            type Own = $t;
            type Alt = $alt;
            const TRACKED: bool = false;
            fn canon(id: u64) -> u64 { ($canon)(id) }
            fn input(id: u64, _: u64) -> $t { ($make)(($canon)(id)) }
            fn key(id: u64, _: u64) -> $t { ($make)(($canon)(id)) }
            fn own(id: u64) -> $t { ($make)(($canon)(id)) }
            fn alt(id: u64, variant: u64) -> $alt { ($mkalt)(($canon)(id), variant) }
            fn id_of(k: &$t) -> (u64, u64) { (($back)(*k), 0) }
            type De = $t;
            fn de_id(k: &$t) -> u64 { ($back)(*k) }
            fn elem(id: u64) -> Elem { scalar_elem(stringify!($t), ($canon)(id)) }
        }
    )+};
}
fscalar! {
    u8, u8, |i: u64| i & 0xff, |i: u64| i as u8, |k: u8| u64::from(k), |i: u64, _| i as u8;
    i8, i8, |i: u64| i & 0xff, |i: u64| i as u8 as i8, |k: i8| u64::from(k as u8), |i: u64, _| i as u8 as i8;
    u16, u16, |i: u64| i & 0xffff, |i: u64| i as u16, |k: u16| u64::from(k), |i: u64, _| i as u16;
    i16, i16, |i: u64| i & 0xffff, |i: u64| i as u16 as i16, |k: i16| u64::from(k as u16), |i: u64, _| i as u16 as i16;
    u32, u32, |i: u64| i & 0xffff_ffff, |i: u64| i as u32, |k: u32| u64::from(k), |i: u64, _| i as u32;
    isize, isize, |i: u64| i, |i: u64| i as isize, |k: isize| k as u64, |i: u64, _| i as isize;
    i32, i32, |i: u64| i & 0xffff_ffff, |i: u64| i as u32 as i32, |k: i32| u64::from(k as u32), |i: u64, _| i as u32 as i32;
    u64, u64, |i: u64| i, |i: u64| i, |k: u64| k, |i: u64, _| i;
    i64, i64, |i: u64| i, |i: u64| i as i64, |k: i64| k as u64, |i: u64, _| i as i64;
    usize, usize, |i: u64| i, |i: u64| i as usize, |k: usize| k as u64, |i: u64, _| i as usize;
    SimScalar, SimScalarQ, |i: u64| i, SimScalar, |k: SimScalar| k.0, |i: u64, v: u64| SimScalarQ { id: i, variant: v };
}

macro_rules! fnonzero {
    ($($t:ident $i:ty, $u:ty;)+) => { fscalar! {$(
        $t, $t, |i: u64| if i as $u == 0 { 77 } else { u64::from(i as $u as u64) }, |i: u64| $t::new(i as $u as $i).unwrap(),
            |k: $t| k.get() as $u as u64, |i: u64, _| $t::new(i as $u as $i).unwrap();
    )+} };
}
fnonzero! {
    NonZeroU8 u8, u8; NonZeroI8 i8, u8; NonZeroU16 u16, u16; NonZeroI16 i16, u16; NonZeroU32 u32, u32; NonZeroI32 i32, u32;
    NonZeroU64 u64, u64; NonZeroI64 i64, u64; NonZeroUsize usize, usize; NonZeroIsize isize, usize;
}

pub struct FStr;
impl Fam for FStr {
    type K = Box<str>;
    type Input = SimStr;
    type Own = String;
    type Alt = SimStr;
    const TRACKED: bool = false;
    fn canon(id: u64) -> u64 {
        // damaged documents bring strings of their own, which may be those of other key numbers
        if id == u64::MAX { id } else { world::intern(&key_string(id)) }
    }
    fn input(id: u64, _: u64) -> SimStr {
        let _g = OutLib::enter();
        SimStr::new(id, 0)
    }
    fn key(id: u64, _: u64) -> Box<str> {
        key_string(id).into_boxed_str()
    }
    fn own(id: u64) -> String {
        key_string(id)
    }
    fn alt(id: u64, variant: u64) -> SimStr {
        let _g = OutLib::enter();
        SimStr::new(id, variant)
    }
    fn id_of(k: &Box<str>) -> (u64, u64) {
        (world::string_id(k), 0)
    }
    fn elem(id: u64) -> Elem {
        Elem::S(key_string(id))
    }
    fn unelem(e: &Elem) -> Option<u64> {
        match e {
            Elem::S(s) => Some(world::intern(s)),
            _ => None,
        }
    }
    type De = String;
    fn de_id(k: &String) -> u64 {
        world::intern(k)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub id: u64,
    /// bit 0: through the other query type; bit 1: through the trait
    pub mode: u8,
    pub variant: u64,
}

/// The numbers of keys `get_disjoint_mut` is called with.
pub fn width(n: usize) -> usize {
    *[0, 1, 2, 3, 4, 5, 8, 17, 70].iter().rev().find(|w| **w <= n).unwrap()
}

pub trait SimMap: Any {
    fn len(&self) -> (usize, bool, usize);
    fn get(&self, q: Q) -> Option<u64>;
    fn contains(&self, q: Q) -> bool;
    fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)>;
    fn index(&self, q: Q) -> u64;
    fn set(&mut self, q: Q, new: u64) -> Option<u64>;
    fn disjoint(&mut self, qs: &[Q], unchecked: bool, f: &mut dyn FnMut(&mut [Option<&mut dyn Val>]));
    fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a>;
    fn iter_mut<'a>(&'a mut self, kind: u64) -> Box<dyn SimIter<'a> + 'a>;
    fn into_iter(self: Box<Self>, kind: u64) -> Box<dyn SimIter<'static>>;
    fn clone_box(&self) -> Box<dyn SimMap>;
    fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool;
    fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool>;
    fn eq_std(&self, entries: &[(u64, u64)], kind: u64) -> bool;
    fn default_like(&self) -> Box<dyn SimMap>;
    fn has_default(&self) -> bool {
        true
    }
    fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result;
    fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String>;
    fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn is_set(&self) -> bool {
        false
    }
    /// union, intersection, difference, symmetric difference
    fn pair<'a>(&'a self, _op: u64, _o: &'a dyn SimMap) -> Option<Box<dyn SimIter<'a> + 'a>> {
        None
    }
    /// subset, superset, disjoint
    fn rel(&self, _op: u64, _o: &dyn SimMap) -> Option<bool> {
        None
    }
    /// the operators, giving owned sets
    fn oper(&self, _op: u64, _o: &dyn SimMap) -> Option<Vec<(u64, u64)>> {
        None
    }
}

pub fn item<F: Fam>(k: Option<&F::K>, v: Option<&SimVal>) -> Item {
    Item { k: k.map(|k| F::id_of(k)), v: v.map(|v| v.get()), addr: 0, wrote: 0 }
}
pub fn item_mut<F: Fam>(k: Option<&F::K>, v: &mut SimVal) -> Item {
    let old = v.get();
    let wrote = world::fresh_val();
    v.set(wrote);
    Item { k: k.map(|k| F::id_of(k)), v: Some(old), addr: std::ptr::from_mut(v) as usize, wrote }
}

/// Input for one construction.
pub struct Req<'a> {
    pub entries: &'a [(u64, u64, u64)],
    pub path: u64,
    pub hint: u64,
    pub bh: SimBH,
}

/// An input iterator that can lie about its size and comes back to life after its end.
pub struct SimInput<I: Iterator> {
    pub it: I,
    pub hint: u64,
    pub ended: bool,
    pub zombie: Option<I::Item>,
}
impl<I: Iterator> Iterator for SimInput<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        cb(Cb::Next);
        if self.ended {
            return self.zombie.take();
        }
        let x = self.it.next();
        if x.is_none() {
            self.ended = true;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint % 6 {
            0 => self.it.size_hint(),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (self.it.size_hint().0 + 17, None),
            4 => (5000, Some(1)),
            _ => (1, Some(1)),
        }
    }
}

/// The entries of a request as owned pairs, in a vector that counts as the library's memory once handed over.
pub fn pairs<F: Fam>(r: &Req<'_>) -> Vec<(F::Input, SimVal)> {
    let _g = InLib::enter();
    let mut v = Vec::with_capacity(r.entries.len() + if r.path & 64 != 0 { 13 } else { 0 });
    for (id, tag, val) in r.entries {
        v.push((F::input(*id, *tag), SimVal::new(*val)));
    }
    v
}

macro_rules! from_array {
    ($v:expr, $t:ty, $($n:literal)+) => {{
        let v = $v;
        match v.len() {
            $($n => {
                let a: [_; $n] = match v.try_into() { Ok(a) => a, Err(_) => unreachable!() };
                $crate::lib!(<$t>::from(a))
            })+
            _ => $crate::lib!(<$t>::from_iter(v)),
        }
    }};
}


macro_rules! sim_map {
    ($W:ident, $M:ty, $F:ty, [$($peer:ident)+]) => {
        pub struct $W(pub $M);
        impl SimMap for $W {
            fn len(&self) -> (usize, bool, usize) {
                $crate::lib!((self.0.len(), self.0.is_empty(), Len::len(&self.0)))
            }
            fn get(&self, q: Q) -> Option<u64> {
                if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    let r = if q.mode & 2 == 0 { $crate::lib!(self.0.get(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Own, SimVal>::get(&self.0, &k)) };
                    r.map(|v| v.get())
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    let r = if q.mode & 2 == 0 { $crate::lib!(self.0.get(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Alt, SimVal>::get(&self.0, &k)) };
                    r.map(|v| v.get())
                }
            }
            fn contains(&self, q: Q) -> bool {
                if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    if q.mode & 2 == 0 { $crate::lib!(self.0.contains_key(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Own, SimVal>::contains_key(&self.0, &k)) }
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    if q.mode & 2 == 0 { $crate::lib!(self.0.contains_key(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Alt, SimVal>::contains_key(&self.0, &k)) }
                }
            }
            fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
                if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    let r = if q.mode & 2 == 0 { $crate::lib!(self.0.get_key_value(&k)) } else { $crate::lib!(MapExtras::<<$F as Fam>::K, SimVal, <$F as Fam>::Own>::get_key_value(&self.0, &k)) };
                    r.map(|(k, v)| { let (i, t) = <$F>::id_of(k); (i, t, v.get()) })
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    let r = if q.mode & 2 == 0 { $crate::lib!(self.0.get_key_value(&k)) } else { $crate::lib!(MapExtras::<<$F as Fam>::K, SimVal, <$F as Fam>::Alt>::get_key_value(&self.0, &k)) };
                    r.map(|(k, v)| { let (i, t) = <$F>::id_of(k); (i, t, v.get()) })
                }
            }
            fn index(&self, q: Q) -> u64 {
                let k = <$F>::own(q.id);
                $crate::lib!(&self.0[&k]).get()
            }
            fn set(&mut self, q: Q, new: u64) -> Option<u64> {
                let f = |r: Option<&mut SimVal>| r.map(|v| { let o = v.get(); v.set(new); o });
                if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    f(if q.mode & 2 == 0 { $crate::lib!(self.0.get_mut(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Own, SimVal>::get_mut(&mut self.0, &k)) })
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    f(if q.mode & 2 == 0 { $crate::lib!(self.0.get_mut(&k)) } else { $crate::lib!(MapQuery::<<$F as Fam>::Alt, SimVal>::get_mut(&mut self.0, &k)) })
                }
            }
            fn disjoint(&mut self, qs: &[Q], unchecked: bool, f: &mut dyn FnMut(&mut [Option<&mut dyn Val>])) {
                let alt = qs.first().is_some_and(|q| q.mode & 1 != 0);
                let tr = qs.first().is_some_and(|q| q.mode & 2 != 0);
                if alt {
                    let ks: Vec<<$F as Fam>::Alt> = qs.iter().map(|q| <$F>::alt(q.id, q.variant)).collect();
                    disj!(self, ks, unchecked, tr, f, <$F as Fam>::K, <$F as Fam>::Alt; 0 1 2 3 4 5 8 17 70)
                } else {
                    let ks: Vec<<$F as Fam>::Own> = qs.iter().map(|q| <$F>::own(q.id)).collect();
                    disj!(self, ks, unchecked, tr, f, <$F as Fam>::K, <$F as Fam>::Own; 0 1 2 3 4 5 8 17 70)
                }
            }
            fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
                match kind % 7 {
                    0 => Box::new(Cloneable { it: $crate::lib!(self.0.iter()), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    1 => Box::new(Cloneable { it: $crate::lib!(self.0.keys()), f: |k: &'a _| item::<$F>(Some(k), None) }),
                    2 => Box::new(Cloneable { it: $crate::lib!(self.0.values()), f: |v: &'a _| item::<$F>(None, Some(v)) }),
                    3 => Box::new(Cloneable { it: $crate::lib!((&self.0).into_iter()), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    4 => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::iter(&self.0)), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    5 => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::keys(&self.0)), f: |k: &'a _| item::<$F>(Some(k), None) }),
                    _ => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::values(&self.0)), f: |v: &'a _| item::<$F>(None, Some(v)) }),
                }
            }
            fn iter_mut<'a>(&'a mut self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
                match kind % 5 {
                    0 => Box::new(Plain { it: $crate::lib!(self.0.iter_mut()), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    1 => Box::new(Plain { it: $crate::lib!(self.0.values_mut()), f: |v: &'a mut _| item_mut::<$F>(None, v), dbg: |i| format!("{i:?}") }),
                    2 => Box::new(Plain { it: $crate::lib!((&mut self.0).into_iter()), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    3 => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::iter_mut(&mut self.0)), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    _ => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::values_mut(&mut self.0)), f: |v: &'a mut _| item_mut::<$F>(None, v), dbg: |i| format!("{i:?}") }),
                }
            }
            fn into_iter(self: Box<Self>, kind: u64) -> Box<dyn SimIter<'static>> {
                let m = self.0;
                match kind % 5 {
                    0 => Box::new(Plain { it: $crate::lib!(IntoIterator::into_iter(m)), f: |(k, v): (<$F as Fam>::K, SimVal)| item::<$F>(Some(&k), Some(&v)), dbg: |i| format!("{i:?}") }),
                    1 => Box::new(Plain { it: $crate::lib!(m.into_keys()), f: |k: <$F as Fam>::K| item::<$F>(Some(&k), None), dbg: |i| format!("{i:?}") }),
                    2 => Box::new(Plain { it: $crate::lib!(m.into_values()), f: |v: SimVal| item::<$F>(None, Some(&v)), dbg: |i| format!("{i:?}") }),
                    3 => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::into_keys(m)), f: |k: <$F as Fam>::K| item::<$F>(Some(&k), None), dbg: |i| format!("{i:?}") }),
                    _ => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::into_values(m)), f: |v: SimVal| item::<$F>(None, Some(&v)), dbg: |i| format!("{i:?}") }),
                }
            }
            fn clone_box(&self) -> Box<dyn SimMap> {
                let m = $crate::lib!(self.0.clone());
                Box::new(Self(m))
            }
            fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool {
                match o.as_any().downcast_ref::<Self>() {
                    Some(o) => { $crate::lib!(self.0.clone_from(&o.0)); true }
                    None => false,
                }
            }
            fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
                $(if let Some(o) = o.as_any().downcast_ref::<$peer>() {
                    return Some($crate::lib!(self.0 == o.0));
                })+
                None
            }
            fn eq_std(&self, entries: &[(u64, u64)], kind: u64) -> bool {
                let it = entries.iter().map(|(i, v)| (<$F>::key(*i, 0), SimVal::new(*v)));
                match kind % 3 {
                    0 => { let m: BTreeMap<<$F as Fam>::K, SimVal> = it.collect(); $crate::lib!(self.0 == m) }
                    1 => { let m: std::collections::HashMap<<$F as Fam>::K, SimVal, SimBH> = it.collect(); $crate::lib!(self.0 == m) }
                    _ => { let m: hashbrown::HashMap<<$F as Fam>::K, SimVal, SimBH> = it.collect(); $crate::lib!(self.0 == m) }
                }
            }
            fn default_like(&self) -> Box<dyn SimMap> {
                let m = $crate::lib!(<$M>::default());
                Box::new(Self(m))
            }
            fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result {
                go();
                let _g = InLib::enter();
                if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) }
            }
            fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String> {
                go();
                let _g = InLib::enter();
                ser_any(&self.0, to)
            }
            fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool {
                match o.as_any_mut().downcast_mut::<Self>() {
                    Some(o) => { $crate::lib!(std::mem::swap(&mut self.0, &mut o.0)); true }
                    None => false,
                }
            }
            fn as_any(&self) -> &dyn Any { self }
            fn as_any_mut(&mut self) -> &mut dyn Any { self }
        }
    };
}

/// A standard map seen through the library's traits.
macro_rules! std_map {
    ($W:ident, $M:ty, $F:ty, [$($fz:ident)+]) => {
        pub struct $W(pub $M);
        impl SimMap for $W {
            fn len(&self) -> (usize, bool, usize) {
                $crate::lib!((self.0.len(), self.0.is_empty(), Len::len(&self.0)))
            }
            fn get(&self, q: Q) -> Option<u64> {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(MapQuery::<<$F as Fam>::K, SimVal>::get(&self.0, &k)).map(|v| v.get())
            }
            fn contains(&self, q: Q) -> bool {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(MapQuery::<<$F as Fam>::K, SimVal>::contains_key(&self.0, &k))
            }
            fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(MapExtras::<<$F as Fam>::K, SimVal, <$F as Fam>::K>::get_key_value(&self.0, &k)).map(|(k, v)| { let (i, t) = <$F>::id_of(k); (i, t, v.get()) })
            }
            fn index(&self, q: Q) -> u64 {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(&self.0[&k]).get()
            }
            fn set(&mut self, q: Q, new: u64) -> Option<u64> {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(MapQuery::<<$F as Fam>::K, SimVal>::get_mut(&mut self.0, &k)).map(|v| { let o = v.get(); v.set(new); o })
            }
            fn disjoint(&mut self, qs: &[Q], unchecked: bool, f: &mut dyn FnMut(&mut [Option<&mut dyn Val>])) {
                let ks: Vec<<$F as Fam>::K> = qs.iter().map(|q| <$F>::key(q.id, 0)).collect();
                disj_trait!(self, ks, unchecked, f, <$F as Fam>::K, <$F as Fam>::K; 0 1 2 3 4 5 8 17 70)
            }
            fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
                match kind % 7 {
                    0 => Box::new(Cloneable { it: $crate::lib!(self.0.iter()), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    1 => Box::new(Cloneable { it: $crate::lib!(self.0.keys()), f: |k: &'a _| item::<$F>(Some(k), None) }),
                    2 => Box::new(Cloneable { it: $crate::lib!(self.0.values()), f: |v: &'a _| item::<$F>(None, Some(v)) }),
                    3 => Box::new(Cloneable { it: $crate::lib!((&self.0).into_iter()), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    4 => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::iter(&self.0)), f: |(k, v): (&'a _, &'a _)| item::<$F>(Some(k), Some(v)) }),
                    5 => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::keys(&self.0)), f: |k: &'a _| item::<$F>(Some(k), None) }),
                    _ => Box::new(Cloneable { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::values(&self.0)), f: |v: &'a _| item::<$F>(None, Some(v)) }),
                }
            }
            fn iter_mut<'a>(&'a mut self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
                match kind % 5 {
                    0 => Box::new(Plain { it: $crate::lib!(self.0.iter_mut()), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    1 => Box::new(Plain { it: $crate::lib!(self.0.values_mut()), f: |v: &'a mut _| item_mut::<$F>(None, v), dbg: |i| format!("{i:?}") }),
                    2 => Box::new(Plain { it: $crate::lib!((&mut self.0).into_iter()), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    3 => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::iter_mut(&mut self.0)), f: |(k, v): (&'a _, &'a mut _)| item_mut::<$F>(Some(k), v), dbg: |i| format!("{i:?}") }),
                    _ => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::values_mut(&mut self.0)), f: |v: &'a mut _| item_mut::<$F>(None, v), dbg: |i| format!("{i:?}") }),
                }
            }
            fn into_iter(self: Box<Self>, kind: u64) -> Box<dyn SimIter<'static>> {
                let m = self.0;
                match kind % 5 {
                    0 => Box::new(Plain { it: $crate::lib!(IntoIterator::into_iter(m)), f: |(k, v): (<$F as Fam>::K, SimVal)| item::<$F>(Some(&k), Some(&v)), dbg: |i| format!("{i:?}") }),
                    1 => Box::new(Plain { it: $crate::lib!(m.into_keys()), f: |k: <$F as Fam>::K| item::<$F>(Some(&k), None), dbg: |i| format!("{i:?}") }),
                    2 => Box::new(Plain { it: $crate::lib!(m.into_values()), f: |v: SimVal| item::<$F>(None, Some(&v)), dbg: |i| format!("{i:?}") }),
                    3 => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::into_keys(m)), f: |k: <$F as Fam>::K| item::<$F>(Some(&k), None), dbg: |i| format!("{i:?}") }),
                    _ => Box::new(Plain { it: $crate::lib!(MapIteration::<<$F as Fam>::K, SimVal>::into_values(m)), f: |v: SimVal| item::<$F>(None, Some(&v)), dbg: |i| format!("{i:?}") }),
                }
            }
            fn clone_box(&self) -> Box<dyn SimMap> {
                let m = $crate::lib!(self.0.clone());
                Box::new(Self(m))
            }
            fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool {
                match o.as_any().downcast_ref::<Self>() {
                    Some(o) => { $crate::lib!(self.0.clone_from(&o.0)); true }
                    None => false,
                }
            }
            fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
                // the library implements the comparison from the frozen side
                $(if let Some(o) = o.as_any().downcast_ref::<$fz>() {
                    return Some($crate::lib!(o.0 == self.0));
                })+
                None
            }
            fn eq_std(&self, entries: &[(u64, u64)], _: u64) -> bool {
                let m: $M = entries.iter().map(|(i, v)| (<$F>::key(*i, 0), SimVal::new(*v))).collect();
                self.0 == m
            }
            fn default_like(&self) -> Box<dyn SimMap> {
                let m = $crate::lib!(<$M>::default());
                Box::new(Self(m))
            }
            fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result {
                go();
                let _g = InLib::enter();
                if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) }
            }
            fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String> {
                go();
                let _g = InLib::enter();
                ser_any(&self.0, to)
            }
            fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool {
                match o.as_any_mut().downcast_mut::<Self>() {
                    Some(o) => { $crate::lib!(std::mem::swap(&mut self.0, &mut o.0)); true }
                    None => false,
                }
            }
            fn as_any(&self) -> &dyn Any { self }
            fn as_any_mut(&mut self) -> &mut dyn Any { self }
        }
    };
}

macro_rules! disj {
    ($self:ident, $ks:ident, $un:ident, $tr:ident, $f:ident, $K:ty, $Q:ty; $($n:literal)+) => {
        match $ks.len() {
            $($n => {
                let a: [&$Q; $n] = std::array::from_fn(|i| &$ks[i]);
                let mut r = match ($un, $tr) {
                    (false, false) => $crate::lib!($self.0.get_disjoint_mut(a)),
                    (false, true) => $crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_mut(&mut $self.0, a)),
                    // SAFETY: the caller made sure the keys designate different entries
                    (true, false) => unsafe { $crate::lib!($self.0.get_disjoint_unchecked_mut(a)) },
                    // SAFETY: as above
                    (true, true) => unsafe { $crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_unchecked_mut(&mut $self.0, a)) },
                };
                let mut r: Vec<Option<&mut dyn Val>> = r.iter_mut().map(|v| v.as_mut().map(|v| &mut **v as &mut dyn Val)).collect();
                $f(&mut r[..]);
            })+
            _ => unreachable!(),
        }
    };
}

macro_rules! disj_trait {
    ($self:ident, $ks:ident, $un:ident, $f:ident, $K:ty, $Q:ty; $($n:literal)+) => {
        match $ks.len() {
            $($n => {
                let a: [&$Q; $n] = std::array::from_fn(|i| &$ks[i]);
                let mut r = if $un {
                    // SAFETY: the caller made sure the keys designate different entries
                    unsafe { $crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_unchecked_mut(&mut $self.0, a)) }
                } else {
                    $crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_mut(&mut $self.0, a))
                };
                let mut r: Vec<Option<&mut dyn Val>> = r.iter_mut().map(|v| v.as_mut().map(|v| &mut **v as &mut dyn Val)).collect();
                $f(&mut r[..]);
            })+
            _ => unreachable!(),
        }
    };
}



sim_map!(MHashSim, FzHashMap<SimKey, SimVal, SimBH>, FKey, [MHashSim MHashDef MOrd]);
sim_map!(MHashDef, FzHashMap<SimKey, SimVal>, FKey, [MHashSim MHashDef MOrd]);
sim_map!(MOrd, FzOrderedMap<SimKey, SimVal>, FKey, [MHashSim MHashDef MOrd]);
std_map!(MStd, std::collections::HashMap<SimKey, SimVal, SimBH>, FKey, [MHashSim MHashDef MOrd]);
std_map!(MBTree, BTreeMap<SimKey, SimVal>, FKey, [MHashSim MHashDef MOrd]);
std_map!(MHb, hashbrown::HashMap<SimKey, SimVal, SimBH>, FKey, [MHashSim MHashDef MOrd]);
sim_map!(MScSim, FzScalarMap<SimScalar, SimVal>, FScalar<SimScalar>, [MScSim]);
sim_map!(MScU8, FzScalarMap<u8, SimVal>, FScalar<u8>, [MScU8]);
sim_map!(MScI8, FzScalarMap<i8, SimVal>, FScalar<i8>, [MScI8]);
sim_map!(MScU16, FzScalarMap<u16, SimVal>, FScalar<u16>, [MScU16]);
sim_map!(MScI32, FzScalarMap<i32, SimVal>, FScalar<i32>, [MScI32]);
sim_map!(MScU64, FzScalarMap<u64, SimVal>, FScalar<u64>, [MScU64]);
sim_map!(MScI64, FzScalarMap<i64, SimVal>, FScalar<i64>, [MScI64]);
sim_map!(MScI16, FzScalarMap<i16, SimVal>, FScalar<i16>, [MScI16]);
sim_map!(MScU32, FzScalarMap<u32, SimVal>, FScalar<u32>, [MScU32]);
sim_map!(MScUs, FzScalarMap<usize, SimVal>, FScalar<usize>, [MScUs]);
sim_map!(MScIs, FzScalarMap<isize, SimVal>, FScalar<isize>, [MScIs]);
sim_map!(MScNzU8, FzScalarMap<NonZeroU8, SimVal>, FScalar<NonZeroU8>, [MScNzU8]);
sim_map!(MScNzU16, FzScalarMap<NonZeroU16, SimVal>, FScalar<NonZeroU16>, [MScNzU16]);
sim_map!(MScNzU32, FzScalarMap<NonZeroU32, SimVal>, FScalar<NonZeroU32>, [MScNzU32]);
sim_map!(MScNzU64, FzScalarMap<NonZeroU64, SimVal>, FScalar<NonZeroU64>, [MScNzU64]);
sim_map!(MScNzUs, FzScalarMap<NonZeroUsize, SimVal>, FScalar<NonZeroUsize>, [MScNzUs]);
sim_map!(MScNzI8, FzScalarMap<NonZeroI8, SimVal>, FScalar<NonZeroI8>, [MScNzI8]);
sim_map!(MScNzI16, FzScalarMap<NonZeroI16, SimVal>, FScalar<NonZeroI16>, [MScNzI16]);
sim_map!(MScNzI32, FzScalarMap<NonZeroI32, SimVal>, FScalar<NonZeroI32>, [MScNzI32]);
sim_map!(MScNzI64, FzScalarMap<NonZeroI64, SimVal>, FScalar<NonZeroI64>, [MScNzI64]);
sim_map!(MScNzIs, FzScalarMap<NonZeroIsize, SimVal>, FScalar<NonZeroIsize>, [MScNzIs]);
sim_map!(MStrSim, FzStringMap<Box<str>, SimVal, SimBH>, FStr, [MStrSim MStrDef]);
sim_map!(MStrDef, FzStringMap<Box<str>, SimVal>, FStr, [MStrSim MStrDef]);

pub type BuildFn = fn(&Req<'_>) -> Box<dyn SimMap>;
pub type DeFn = fn(&mut DeFrom<'_>) -> Result<Box<dyn SimMap>, String>;

/// One map type under simulation.
pub struct Target {
    pub name: &'static str,
    pub fam: &'static str,
    pub tracked: bool,
    pub canon: fn(u64) -> u64,
    pub build: BuildFn,
    pub de: Option<DeFn>,
    pub is_set: bool,
    /// key type; only collections of one group can be combined
    pub group: &'static str,
    /// a standard collection, present as a partner
    pub std: bool,
    pub elem: fn(u64) -> Elem,
    pub unelem: fn(&Elem) -> Option<u64>,
    pub ref_de: fn(&mut DeFrom<'_>) -> Result<Vec<(u64, u64)>, String>,
    /// reading as collection types outside this group
    pub std_de: fn(&mut DeFrom<'_>, u64) -> Result<Vec<(u64, u64)>, String>,
    pub max_len: u64,
    pub key_size: usize,
    /// default-constructed hash state (no explicit hasher)
    pub default_bh: bool,
    /// the content was settled when the program was compiled
    pub fixed: Option<Fixed>,
    /// the types it can be combined with, when not simply those of the group
    pub peers: &'static [&'static str],
    /// only ever a partner
    pub peer_only: bool,
}

impl Target {
    /// a building block rather than something users name
    pub fn low(&self) -> bool {
        self.name.starts_with("maps::")
    }
    /// a known container of values of an unusual kind
    pub fn odd(&self) -> bool {
        self.group.starts_with("odd")
    }
    /// values without content
    pub fn flat(&self) -> bool {
        self.group.starts_with("odd zero-sized")
    }
}

/// What a compile-time generated collection holds.
#[derive(Clone, Copy)]
pub struct Fixed {
    /// the supplied entries, repeats included
    pub entries: fn() -> Vec<(u64, u64, u64)>,
    /// key numbers worth asking for, given that the collection is the first thing a run builds
    pub ids: fn() -> Vec<u64>,
}

/// Builds through whichever constructor the path selects.
macro_rules! build_fn {
    ($r:ident, $W:ident, $M:ty, $F:ty, $new:expr) => {{
        let v = pairs::<$F>($r);
        let m: $M = match $r.path % 8 {
            0 | 1 => {
                let f = $new;
                $crate::lib!(f(v, $r))
            }
            2 | 3 => from_array!(v, $M, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 33 64),
            4 => $crate::lib!(<$M>::from_iter(v)),
            5 if $r.entries.is_empty() => { drop(v); $crate::lib!(<$M>::default()) }
            6 => $crate::lib!(v.into_iter().collect::<$M>()),
            _ => {
                let it = SimInput { it: v.into_iter(), hint: $r.hint, ended: false, zombie: Some((<$F>::input(9_999_999, 9_999_999), SimVal::new(9_999_999))) };
                $crate::lib!(<$M>::from_iter(it))
            }
        };
        Box::new($W(m)) as Box<dyn SimMap>
    }};
}


macro_rules! target {
    ($name:literal, $fam:literal, $W:ident, $M:ty, $F:ty, $new:expr, $de:expr, $def:expr) => {
        Target {
            name: $name,
            fam: $fam,
            tracked: <$F as Fam>::TRACKED,
            canon: <$F as Fam>::canon,
            build: |r| build_fn!(r, $W, $M, $F, $new),
            de: $de,
            is_set: false,
            group: std::any::type_name::<$F>(),
            std: false,
            elem: <$F as Fam>::elem,
            unelem: <$F as Fam>::unelem,
            ref_de: $crate::maps::ref_map::<$F>,
            std_de: $crate::maps::std_map::<$F>,
            max_len: 1 << 20,
            key_size: std::mem::size_of::<<$F as Fam>::K>(),
            default_bh: $def,
            fixed: None,
            peers: &[],
            peer_only: false,
        }
    };
}

pub fn ref_map<F: Fam>(f: &mut DeFrom<'_>) -> Result<Vec<(u64, u64)>, String> {
    Ok(de_any::<RefMap<F::De, SimVal>>(f)?.0.iter().map(|(k, v)| (F::de_id(k), v.get())).collect())
}
/// The same document read as other map types: standard ones, and frozen ones of the plain key type.
pub fn std_map<F: Fam>(f: &mut DeFrom<'_>, kind: u64) -> Result<Vec<(u64, u64)>, String> {
    let g = |(k, v): (&F::De, &SimVal)| (F::de_id(k), v.get());
    Ok(match kind % 4 {
        0 => de_any::<BTreeMap<F::De, SimVal>>(f)?.iter().map(g).collect(),
        1 => de_any::<std::collections::HashMap<F::De, SimVal, SimBH>>(f)?.iter().map(g).collect(),
        2 => de_any::<FzHashMap<F::De, SimVal>>(f)?.iter().map(g).collect(),
        _ => de_any::<FzOrderedMap<F::De, SimVal>>(f)?.iter().map(g).collect(),
    })
}
pub fn std_set<F: Fam>(f: &mut DeFrom<'_>, kind: u64) -> Result<Vec<(u64, u64)>, String> {
    let g = |k: &F::De| (F::de_id(k), 0);
    Ok(match kind % 4 {
        0 => de_any::<std::collections::BTreeSet<F::De>>(f)?.iter().map(g).collect(),
        1 => de_any::<std::collections::HashSet<F::De, SimBH>>(f)?.iter().map(g).collect(),
        2 => de_any::<frozen_collections::FzHashSet<F::De>>(f)?.iter().map(g).collect(),
        _ => de_any::<frozen_collections::FzOrderedSet<F::De>>(f)?.iter().map(g).collect(),
    })
}
pub fn ref_seq<F: Fam>(f: &mut DeFrom<'_>) -> Result<Vec<(u64, u64)>, String> {
    Ok(de_any::<crate::serde_sim::RefSeq<F::De>>(f)?.0.iter().map(|k| (F::de_id(k), 0)).collect())
}

macro_rules! de_fn {
    ($W:ident, $M:ty) => {
        Some(|f| {
            go();
            let _g = InLib::enter();
            de_any::<$M>(f).map(|m| {
                let _o = OutLib::enter();
                Box::new($W(m)) as Box<dyn SimMap>
            })
        })
    };
}

macro_rules! scalar_target {
    ($name:literal, $W:ident, $T:ty, $de:expr) => {
        target!($name, "scalar", $W, FzScalarMap<$T, SimVal>, FScalar<$T>, |v, _: &Req<'_>| FzScalarMap::new(v), $de, true)
    };
}

macro_rules! std_target {
    ($name:literal, $fam:literal, $W:ident, $M:ty, $F:ty) => {
        Target {
            std: true,
            build: |r| {
                // the last entry must win here too
                let mut m = <$M>::default();
                for (id, tag, val) in r.entries {
                    let k = <$F>::key(*id, *tag);
                    m.remove(&k);
                    m.insert(k, SimVal::new(*val));
                }
                Box::new($W(m)) as Box<dyn SimMap>
            },
            name: $name,
            fam: $fam,
            tracked: <$F as Fam>::TRACKED,
            canon: <$F as Fam>::canon,
            de: None,
            is_set: false,
            group: std::any::type_name::<$F>(),
            elem: <$F as Fam>::elem,
            unelem: <$F as Fam>::unelem,
            ref_de: $crate::maps::ref_map::<$F>,
            std_de: $crate::maps::std_map::<$F>,
            max_len: 1 << 20,
            key_size: std::mem::size_of::<<$F as Fam>::K>(),
            default_bh: false,
            fixed: None,
            peers: &[],
            peer_only: false,
        }
    };
}

pub fn targets() -> Vec<Target> {
    let mut t = vec![
        std_target!("HashMap<SimKey,_,SimBH>", "key", MStd, std::collections::HashMap<SimKey, SimVal, SimBH>, FKey),
        std_target!("BTreeMap<SimKey,_>", "key", MBTree, BTreeMap<SimKey, SimVal>, FKey),
        std_target!("hashbrown::HashMap<SimKey,_,SimBH>", "key", MHb, hashbrown::HashMap<SimKey, SimVal, SimBH>, FKey),
        target!("FzHashMap<SimKey,_,SimBH>", "key", MHashSim, FzHashMap<SimKey, SimVal, SimBH>, FKey,
            |v, r: &Req<'_>| FzHashMap::with_hasher(v, r.bh.clone()), de_fn!(MHashSim, FzHashMap<SimKey, SimVal, SimBH>), false),
        target!("FzHashMap<SimKey,_>", "key", MHashDef, FzHashMap<SimKey, SimVal>, FKey,
            |v, _: &Req<'_>| FzHashMap::new(v), de_fn!(MHashDef, FzHashMap<SimKey, SimVal>), true),
        target!("FzOrderedMap<SimKey,_>", "key", MOrd, FzOrderedMap<SimKey, SimVal>, FKey,
            |v, _: &Req<'_>| FzOrderedMap::new(v), de_fn!(MOrd, FzOrderedMap<SimKey, SimVal>), true),
        scalar_target!("FzScalarMap<SimScalar,_>", MScSim, SimScalar, de_fn!(MScSim, FzScalarMap<SimScalar, SimVal>)),
        target!("FzStringMap<_,_,SimBH>", "str", MStrSim, FzStringMap<Box<str>, SimVal, SimBH>, FStr,
            |v, r: &Req<'_>| FzStringMap::with_hasher(v, r.bh.clone()), None, false),
        target!("FzStringMap<_,_>", "str", MStrDef, FzStringMap<Box<str>, SimVal>, FStr,
            |v, _: &Req<'_>| FzStringMap::new(v), de_fn!(MStrDef, FzStringMap<Box<str>, SimVal>), true),
        scalar_target!("FzScalarMap<u8,_>", MScU8, u8, de_fn!(MScU8, FzScalarMap<u8, SimVal>)),
        scalar_target!("FzScalarMap<i8,_>", MScI8, i8, de_fn!(MScI8, FzScalarMap<i8, SimVal>)),
        scalar_target!("FzScalarMap<u16,_>", MScU16, u16, de_fn!(MScU16, FzScalarMap<u16, SimVal>)),
        scalar_target!("FzScalarMap<i32,_>", MScI32, i32, de_fn!(MScI32, FzScalarMap<i32, SimVal>)),
        scalar_target!("FzScalarMap<u64,_>", MScU64, u64, de_fn!(MScU64, FzScalarMap<u64, SimVal>)),
        scalar_target!("FzScalarMap<i64,_>", MScI64, i64, de_fn!(MScI64, FzScalarMap<i64, SimVal>)),
        scalar_target!("FzScalarMap<i16,_>", MScI16, i16, de_fn!(MScI16, FzScalarMap<i16, SimVal>)),
        scalar_target!("FzScalarMap<u32,_>", MScU32, u32, de_fn!(MScU32, FzScalarMap<u32, SimVal>)),
        scalar_target!("FzScalarMap<usize,_>", MScUs, usize, de_fn!(MScUs, FzScalarMap<usize, SimVal>)),
        scalar_target!("FzScalarMap<isize,_>", MScIs, isize, de_fn!(MScIs, FzScalarMap<isize, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroU8,_>", MScNzU8, NonZeroU8, de_fn!(MScNzU8, FzScalarMap<NonZeroU8, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroU16,_>", MScNzU16, NonZeroU16, de_fn!(MScNzU16, FzScalarMap<NonZeroU16, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroU32,_>", MScNzU32, NonZeroU32, de_fn!(MScNzU32, FzScalarMap<NonZeroU32, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroU64,_>", MScNzU64, NonZeroU64, de_fn!(MScNzU64, FzScalarMap<NonZeroU64, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroUsize,_>", MScNzUs, NonZeroUsize, de_fn!(MScNzUs, FzScalarMap<NonZeroUsize, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroI8,_>", MScNzI8, NonZeroI8, de_fn!(MScNzI8, FzScalarMap<NonZeroI8, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroI16,_>", MScNzI16, NonZeroI16, de_fn!(MScNzI16, FzScalarMap<NonZeroI16, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroI32,_>", MScNzI32, NonZeroI32, de_fn!(MScNzI32, FzScalarMap<NonZeroI32, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroI64,_>", MScNzI64, NonZeroI64, de_fn!(MScNzI64, FzScalarMap<NonZeroI64, SimVal>)),
        scalar_target!("FzScalarMap<NonZeroIsize,_>", MScNzIs, NonZeroIsize, de_fn!(MScNzIs, FzScalarMap<NonZeroIsize, SimVal>)),
    ];
    t.extend(crate::sets::targets());
    t.extend(crate::lowlevel::targets());
    t.extend(crate::oddvals::targets());
    t
}



/// Compile-time proof that the generic trait view is complete for every type (used by nothing at run time).
#[allow(dead_code)]
fn assert_map<M: Map<K, SimVal>, K>() {}
#[allow(dead_code)]
fn assert_scalar<T: Scalar>() {}
