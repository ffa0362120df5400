//! The set types under simulation, and the standard sets they are combined with, behind the same interface as maps.

use crate::alloc::{InLib, OutLib};
use crate::iters::{Cloneable, Inexact, Item, Plain, SimIter};
use crate::maps::{FKey, FScalar, FStr, Fam, Q, Req, SimInput, SimMap, Target, item, ref_seq};
use crate::serde_sim::{SerTo, de_any, ser_any};
use crate::types::{SimBH, SimKey, SimScalar, Val};
use crate::world::go;
use frozen_collections::{
    FzHashMap, FzHashSet, FzOrderedMap, FzOrderedSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet, Len, SetExtras, SetIteration, SetOps,
    SetQuery,
};
use std::any::Any;
use std::collections::{BTreeSet, HashSet};
use std::fmt;

pub fn elems<F: Fam>(r: &Req<'_>) -> Vec<F::Input> {
    let _g = InLib::enter();
    let mut v = Vec::with_capacity(r.entries.len() + if r.path & 64 != 0 { 13 } else { 0 });
    for (id, tag, _) in r.entries {
        v.push(F::input(*id, *tag));
    }
    v
}

fn inexact<'a, I: Iterator + Clone + fmt::Debug + 'a, F: Fn(I::Item) -> Item + Copy + 'a>(it: I, f: F) -> Box<dyn SimIter<'a> + 'a> {
    Box::new(Inexact { it, f })
}

macro_rules! algebra {
    ($F:ty; $($peer:ident)+) => {
        fn pair<'a>(&'a self, op: u64, o: &'a dyn SimMap) -> Option<Box<dyn SimIter<'a> + 'a>> {
            $(if let Some(o) = o.as_any().downcast_ref::<$peer>() {
                let f = |k: &'a _| item::<$F>(Some(k), None);
                return Some(match op % 4 {
                    0 => inexact($crate::lib!(SetOps::union(&self.0, &o.0)), f),
                    1 => inexact($crate::lib!(SetOps::intersection(&self.0, &o.0)), f),
                    2 => inexact($crate::lib!(SetOps::difference(&self.0, &o.0)), f),
                    _ => inexact($crate::lib!(SetOps::symmetric_difference(&self.0, &o.0)), f),
                });
            })+
            None
        }
        fn rel(&self, op: u64, o: &dyn SimMap) -> Option<bool> {
            $(if let Some(o) = o.as_any().downcast_ref::<$peer>() {
                return Some(match op % 3 {
                    0 => $crate::lib!(SetOps::is_subset(&self.0, &o.0)),
                    1 => $crate::lib!(SetOps::is_superset(&self.0, &o.0)),
                    _ => $crate::lib!(SetOps::is_disjoint(&self.0, &o.0)),
                });
            })+
            None
        }
    };
}

macro_rules! set_common {
    ($F:ty) => {
        fn len(&self) -> (usize, bool, usize) {
            $crate::lib!((self.0.len(), self.0.is_empty(), Len::len(&self.0)))
        }
        fn is_set(&self) -> bool {
            true
        }
        fn index(&self, _: Q) -> u64 {
            unreachable!()
        }
        fn set(&mut self, _: Q, _: u64) -> Option<u64> {
            unreachable!()
        }
        fn disjoint(&mut self, _: &[Q], _: bool, _: &mut dyn FnMut(&mut [Option<&mut dyn Val>])) {
            unreachable!()
        }
        fn iter_mut<'a>(&'a mut self, _: u64) -> Box<dyn SimIter<'a> + 'a> {
            unreachable!()
        }
        fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
            match kind % 3 {
                0 => Box::new(Cloneable { it: $crate::lib!(self.0.iter()), f: |k: &'a _| item::<$F>(Some(k), None) }),
                1 => Box::new(Cloneable { it: $crate::lib!((&self.0).into_iter()), f: |k: &'a _| item::<$F>(Some(k), None) }),
                _ => Box::new(Cloneable { it: $crate::lib!(SetIteration::<<$F as Fam>::K>::iter(&self.0)), f: |k: &'a _| item::<$F>(Some(k), None) }),
            }
        }
        fn into_iter(self: Box<Self>, _: u64) -> Box<dyn SimIter<'static>> {
            let m = self.0;
            Box::new(Plain { it: $crate::lib!(IntoIterator::into_iter(m)), f: |k: <$F as Fam>::K| item::<$F>(Some(&k), None), dbg: |_| String::new() })
        }
        fn clone_box(&self) -> Box<dyn SimMap> {
            let m = $crate::lib!(self.0.clone());
            Box::new(Self(m))
        }
        fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool {
            match o.as_any().downcast_ref::<Self>() {
                Some(o) => {
                    $crate::lib!(self.0.clone_from(&o.0));
                    true
                }
                None => false,
            }
        }
        fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result {
            go();
            let _g = InLib::enter();
            if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) }
        }
        fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool {
            match o.as_any_mut().downcast_mut::<Self>() {
                Some(o) => {
                    $crate::lib!(std::mem::swap(&mut self.0, &mut o.0));
                    true
                }
                None => false,
            }
        }
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn as_any_mut(&mut self) -> &mut dyn Any {
            self
        }
    };
}

macro_rules! ser_fn {
    (ser) => {
        fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String> {
            go();
            let _g = InLib::enter();
            ser_any(&self.0, to)
        }
    };
    (noser) => {
        fn ser(&self, _: &mut SerTo<'_>) -> Result<(), String> {
            Err("unsupported".into())
        }
    };
}

macro_rules! sim_set {
    ($W:ident, $S:ty, $F:ty, $ser:ident, [$($peer:ident)+], [$($fz:ident)+]) => {
        pub struct $W(pub $S);
        impl SimMap for $W {
            set_common!($F);
            algebra!($F; $($peer)+);
            ser_fn!($ser);
            fn default_like(&self) -> Box<dyn SimMap> {
                let m = $crate::lib!(<$S>::default());
                Box::new(Self(m))
            }
            fn oper(&self, op: u64, o: &dyn SimMap) -> Option<Vec<(u64, u64)>> {
                $(if let Some(o) = o.as_any().downcast_ref::<$peer>() {
                    let r = match op % 4 {
                        0 => $crate::lib!(&self.0 | &o.0),
                        1 => $crate::lib!(&self.0 & &o.0),
                        2 => $crate::lib!(&self.0 - &o.0),
                        _ => $crate::lib!(&self.0 ^ &o.0),
                    };
                    return Some(r.iter().map(|k| <$F>::id_of(k)).collect());
                })+
                None
            }
            fn get(&self, q: Q) -> Option<u64> {
                self.get_kv(q).map(|_| 0)
            }
            fn contains(&self, q: Q) -> bool {
                if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    if q.mode & 2 == 0 { $crate::lib!(self.0.contains(&k)) } else { $crate::lib!(SetQuery::<<$F as Fam>::Own>::contains(&self.0, &k)) }
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    if q.mode & 2 == 0 { $crate::lib!(self.0.contains(&k)) } else { $crate::lib!(SetQuery::<<$F as Fam>::Alt>::contains(&self.0, &k)) }
                }
            }
            fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
                let r = if q.mode & 1 == 0 {
                    let k = <$F>::own(q.id);
                    $crate::lib!(SetExtras::<<$F as Fam>::K, <$F as Fam>::Own>::get(&self.0, &k)).map(|k| <$F>::id_of(k))
                } else {
                    let k = <$F>::alt(q.id, q.variant);
                    $crate::lib!(SetExtras::<<$F as Fam>::K, <$F as Fam>::Alt>::get(&self.0, &k)).map(|k| <$F>::id_of(k))
                };
                r.map(|(i, t)| (i, t, 0))
            }
            fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
                $(if let Some(o) = o.as_any().downcast_ref::<$peer>() {
                    return Some($crate::lib!(self.0 == o.0));
                })+
                None
            }
            fn eq_std(&self, entries: &[(u64, u64)], kind: u64) -> bool {
                let it = entries.iter().map(|(i, _)| <$F>::key(*i, 0));
                match kind % 3 {
                    0 => { let m: BTreeSet<<$F as Fam>::K> = it.collect(); $crate::lib!(self.0 == m) }
                    1 => { let m: HashSet<<$F as Fam>::K, SimBH> = it.collect(); $crate::lib!(self.0 == m) }
                    _ => { let m: hashbrown::HashSet<<$F as Fam>::K, SimBH> = it.collect(); $crate::lib!(self.0 == m) }
                }
            }
        }
    };
}

macro_rules! std_set {
    ($W:ident, $S:ty, $F:ty, [$($peer:ident)+], [$($fz:ident)+]) => {
        pub struct $W(pub $S);
        impl SimMap for $W {
            set_common!($F);
            algebra!($F; $($peer)+);
            ser_fn!(ser);
            fn default_like(&self) -> Box<dyn SimMap> {
                Box::new(Self(<$S>::default()))
            }
            fn get(&self, q: Q) -> Option<u64> {
                self.get_kv(q).map(|_| 0)
            }
            fn contains(&self, q: Q) -> bool {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(SetQuery::<<$F as Fam>::K>::contains(&self.0, &k))
            }
            fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
                let k = <$F>::key(q.id, 0);
                $crate::lib!(SetExtras::<<$F as Fam>::K>::get(&self.0, &k)).map(|k| <$F>::id_of(k)).map(|(i, t)| (i, t, 0))
            }
            fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
                // the library implements the comparison from the frozen side
                $(if let Some(o) = o.as_any().downcast_ref::<$fz>() {
                    return Some($crate::lib!(o.0 == self.0));
                })+
                None
            }
            fn eq_std(&self, entries: &[(u64, u64)], _: u64) -> bool {
                let m: $S = entries.iter().map(|(i, _)| <$F>::key(*i, 0)).collect();
                self.0 == m
            }
        }
    };
}

macro_rules! set_group {
    ($F:ty; $all:tt $fz:tt; $(fz $W:ident $S:ty, $ser:ident;)* $(std $X:ident $T:ty;)*) => {
        $(sim_set!($W, $S, $F, $ser, $all, $fz);)*
        $(std_set!($X, $T, $F, $all, $fz);)*
    };
}

set_group! { FKey; [SHashSim SHashDef SOrd SStd SBTree SHb] [SHashSim SHashDef SOrd];
    fz SHashSim FzHashSet<SimKey, SimBH>, ser;
    fz SHashDef FzHashSet<SimKey>, ser;
    fz SOrd FzOrderedSet<SimKey>, ser;
    std SStd HashSet<SimKey, SimBH>;
    std SBTree BTreeSet<SimKey>;
    std SHb hashbrown::HashSet<SimKey, SimBH>;
}
set_group! { FScalar<u16>; [SScU16 SHashU16 SOrdU16 SBTreeU16] [SScU16 SHashU16 SOrdU16];
    fz SScU16 FzScalarSet<u16>, ser;
    fz SHashU16 FzHashSet<u16, SimBH>, ser;
    fz SOrdU16 FzOrderedSet<u16>, ser;
    std SBTreeU16 BTreeSet<u16>;
}
set_group! { FScalar<i64>; [SScI64 SBTreeI64] [SScI64];
    fz SScI64 FzScalarSet<i64>, ser;
    std SBTreeI64 BTreeSet<i64>;
}
set_group! { FScalar<u8>; [SScU8 SBTreeU8] [SScU8];
    fz SScU8 FzScalarSet<u8>, ser;
    std SBTreeU8 BTreeSet<u8>;
}
set_group! { FScalar<SimScalar>; [SScSim SOrdSim SBTreeSim] [SScSim SOrdSim];
    fz SScSim FzScalarSet<SimScalar>, ser;
    fz SOrdSim FzOrderedSet<SimScalar>, ser;
    std SBTreeSim BTreeSet<SimScalar>;
}
set_group! { FStr; [SStrSim SStrDef SStrStd SStrBTree] [SStrSim SStrDef];
    fz SStrSim FzStringSet<Box<str>, SimBH>, noser;
    fz SStrDef FzStringSet<Box<str>>, ser;
    std SStrStd HashSet<Box<str>, SimBH>;
    std SStrBTree BTreeSet<Box<str>>;
}

macro_rules! set_target {
    ($name:literal, $fam:literal, $W:ident, $S:ty, $F:ty, $new:expr, $map:expr, $de:expr, $def:expr) => {
        Target {
            name: $name,
            fam: $fam,
            tracked: <$F as Fam>::TRACKED,
            canon: <$F as Fam>::canon,
            build: |r| {
                let v = elems::<$F>(r);
                let m: $S = match r.path % 8 {
                    0 => { let f = $new; $crate::lib!(f(v, r)) }
                    1 => { let f = $map; $crate::lib!(f(v, r)) }
                    2 | 3 => from_array!(v, $S, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 33 64),
                    4 => $crate::lib!(<$S>::from_iter(v)),
                    5 if r.entries.is_empty() => { drop(v); $crate::lib!(<$S>::default()) }
                    6 => $crate::lib!(v.into_iter().collect::<$S>()),
                    _ => {
                        let it = SimInput { it: v.into_iter(), hint: r.hint, ended: false, zombie: Some(<$F>::input(9_999_999, 9_999_999)) };
                        $crate::lib!(<$S>::from_iter(it))
                    }
                };
                Box::new($W(m)) as Box<dyn SimMap>
            },
            de: $de,
            is_set: true,
            group: std::any::type_name::<$F>(),
            std: false,
            elem: <$F as Fam>::elem,
            unelem: <$F as Fam>::unelem,
            ref_de: ref_seq::<$F>,
            std_de: crate::maps::std_set::<$F>,
            max_len: 1 << 20,
            key_size: std::mem::size_of::<<$F as Fam>::K>(),
            default_bh: $def,
            fixed: None,
            peers: &[],
            peer_only: false,
        }
    };
}
macro_rules! std_target {
    ($name:literal, $fam:literal, $W:ident, $S:ty, $F:ty) => {
        Target {
            name: $name,
            fam: $fam,
            tracked: <$F as Fam>::TRACKED,
            canon: <$F as Fam>::canon,
            build: |r| {
                // the last entry must win here too
                let mut s = <$S>::default();
                for (id, tag, _) in r.entries {
                    let k = <$F>::key(*id, *tag);
                    s.replace(k);
                }
                Box::new($W(s)) as Box<dyn SimMap>
            },
            de: None,
            is_set: true,
            group: std::any::type_name::<$F>(),
            std: true,
            elem: <$F as Fam>::elem,
            unelem: <$F as Fam>::unelem,
            ref_de: ref_seq::<$F>,
            std_de: crate::maps::std_set::<$F>,
            max_len: 1 << 20,
            key_size: std::mem::size_of::<<$F as Fam>::K>(),
            default_bh: false,
            fixed: None,
            peers: &[],
            peer_only: false,
        }
    };
}

fn units<T>(v: Vec<T>) -> Vec<(T, ())> {
    v.into_iter().map(|x| (x, ())).collect()
}

pub fn targets() -> Vec<Target> {
    macro_rules! sc {
        ($name:literal, $W:ident, $T:ty) => {
            set_target!($name, "scalar", $W, FzScalarSet<$T>, FScalar<$T>, |v, _: &Req<'_>| FzScalarSet::new(v),
                |v, _: &Req<'_>| FzScalarSet::from(FzScalarMap::new(units(v))), de_fn!($W, FzScalarSet<$T>), true)
        };
    }
    vec![
        set_target!("FzHashSet<SimKey,SimBH>", "key", SHashSim, FzHashSet<SimKey, SimBH>, FKey, |v, r: &Req<'_>| FzHashSet::with_hasher(v, r.bh.clone()),
            |v, r: &Req<'_>| FzHashSet::from(FzHashMap::with_hasher(units(v), r.bh.clone())), de_fn!(SHashSim, FzHashSet<SimKey, SimBH>), false),
        set_target!("FzHashSet<SimKey>", "key", SHashDef, FzHashSet<SimKey>, FKey, |v, _: &Req<'_>| FzHashSet::new(v),
            |v, _: &Req<'_>| FzHashSet::from(FzHashMap::new(units(v))), de_fn!(SHashDef, FzHashSet<SimKey>), true),
        set_target!("FzOrderedSet<SimKey>", "key", SOrd, FzOrderedSet<SimKey>, FKey, |v, _: &Req<'_>| FzOrderedSet::new(v),
            |v, _: &Req<'_>| FzOrderedSet::from(FzOrderedMap::new(units(v))), de_fn!(SOrd, FzOrderedSet<SimKey>), true),
        std_target!("HashSet<SimKey,SimBH>", "key", SStd, HashSet<SimKey, SimBH>, FKey),
        std_target!("BTreeSet<SimKey>", "key", SBTree, BTreeSet<SimKey>, FKey),
        std_target!("hashbrown::HashSet<SimKey,SimBH>", "key", SHb, hashbrown::HashSet<SimKey, SimBH>, FKey),
        sc!("FzScalarSet<u16>", SScU16, u16),
        sc!("FzScalarSet<i64>", SScI64, i64),
        sc!("FzScalarSet<u8>", SScU8, u8),
        sc!("FzScalarSet<SimScalar>", SScSim, SimScalar),
        set_target!("FzHashSet<u16,SimBH>", "scalar", SHashU16, FzHashSet<u16, SimBH>, FScalar<u16>, |v, r: &Req<'_>| FzHashSet::with_hasher(v, r.bh.clone()),
            |v, r: &Req<'_>| FzHashSet::from(FzHashMap::with_hasher(units(v), r.bh.clone())), de_fn!(SHashU16, FzHashSet<u16, SimBH>), false),
        set_target!("FzOrderedSet<u16>", "scalar", SOrdU16, FzOrderedSet<u16>, FScalar<u16>, |v, _: &Req<'_>| FzOrderedSet::new(v),
            |v, _: &Req<'_>| FzOrderedSet::from(FzOrderedMap::new(units(v))), de_fn!(SOrdU16, FzOrderedSet<u16>), true),
        set_target!("FzOrderedSet<SimScalar>", "scalar", SOrdSim, FzOrderedSet<SimScalar>, FScalar<SimScalar>, |v, _: &Req<'_>| FzOrderedSet::new(v),
            |v, _: &Req<'_>| FzOrderedSet::from(FzOrderedMap::new(units(v))), de_fn!(SOrdSim, FzOrderedSet<SimScalar>), true),
        std_target!("BTreeSet<u16>", "scalar", SBTreeU16, BTreeSet<u16>, FScalar<u16>),
        std_target!("BTreeSet<i64>", "scalar", SBTreeI64, BTreeSet<i64>, FScalar<i64>),
        std_target!("BTreeSet<u8>", "scalar", SBTreeU8, BTreeSet<u8>, FScalar<u8>),
        std_target!("BTreeSet<SimScalar>", "scalar", SBTreeSim, BTreeSet<SimScalar>, FScalar<SimScalar>),
        set_target!("FzStringSet<_,SimBH>", "str", SStrSim, FzStringSet<Box<str>, SimBH>, FStr, |v, r: &Req<'_>| FzStringSet::with_hasher(v, r.bh.clone()),
            |v, r: &Req<'_>| FzStringSet::from(FzStringMap::with_hasher(units(v), r.bh.clone())), de_fn!(SStrSim, FzStringSet<Box<str>, SimBH>), false),
        set_target!("FzStringSet<_>", "str", SStrDef, FzStringSet<Box<str>>, FStr, |v, _: &Req<'_>| FzStringSet::new(v),
            |v, _: &Req<'_>| FzStringSet::from(FzStringMap::new(units(v))), de_fn!(SStrDef, FzStringSet<Box<str>>), true),
        std_target!("HashSet<Box<str>>", "str", SStrStd, HashSet<Box<str>, SimBH>, FStr),
        std_target!("BTreeSet<Box<str>>", "str", SStrBTree, BTreeSet<Box<str>>, FStr),
    ]
}
