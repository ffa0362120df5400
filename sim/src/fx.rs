//! Any map or set type behind the simulator's interface, through the library's traits alone. The compile-time generated
//! collections come in through here: each has a type of its own.

use crate::alloc::InLib;
use crate::iters::{Cloneable, Inexact, Plain, SimIter};
use crate::maps::{BuildFn, DeFn, FKey, FScalar, FStr, Fam, Fixed, MHashSim, MStrSim, Q, SimMap, Target, item, item_mut, pairs, ref_map, ref_seq, std_map, std_set};
use crate::serde_sim::{Elem, SerTo, ser_any};
use crate::sets::{SHashSim, SStrSim, elems};
use crate::types::{SimBH, SimKey, SimQ, SimScalar, SimScalarQ, SimStr, SimVal, Val, key_string};
use crate::world::{self, go};
use frozen_collections::{
    FzHashMap, FzHashSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet, Len, Map, MapExtras, MapIteration, MapQuery, Set, SetExtras,
    SetIteration, SetOps, SetQuery,
};
use serde::Serialize;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::ops::{BitAnd, BitOr, BitXor, Index, Sub};

/// A key family together with the two types it can be asked for by, and its plain frozen collections.
pub trait FxFam: Fam<K: Debug + Serialize + equivalent::Equivalent<Self::K>> {
    type Q1: ?Sized + Eq + 'static;
    type Q2: ?Sized + Eq + 'static;
    fn q1(o: &Self::Own) -> &Self::Q1;
    fn q2(a: &Self::Alt) -> &Self::Q2;
    type PM: 'static;
    type PS: 'static;
    fn pm(o: &dyn SimMap) -> Option<&Self::PM>;
    fn ps(o: &dyn SimMap) -> Option<&Self::PS>;
}

impl FxFam for FKey {
    type Q1 = SimKey;
    type Q2 = SimQ;
    fn q1(o: &SimKey) -> &SimKey {
        o
    }
    fn q2(a: &SimQ) -> &SimQ {
        a
    }
    type PM = FzHashMap<SimKey, SimVal, SimBH>;
    type PS = FzHashSet<SimKey, SimBH>;
    fn pm(o: &dyn SimMap) -> Option<&Self::PM> {
        o.as_any().downcast_ref::<MHashSim>().map(|m| &m.0)
    }
    fn ps(o: &dyn SimMap) -> Option<&Self::PS> {
        o.as_any().downcast_ref::<SHashSim>().map(|m| &m.0)
    }
}

impl FxFam for FStr {
    type Q1 = String;
    type Q2 = SimStr;
    fn q1(o: &String) -> &String {
        o
    }
    fn q2(a: &SimStr) -> &SimStr {
        a
    }
    type PM = FzStringMap<Box<str>, SimVal, SimBH>;
    type PS = FzStringSet<Box<str>, SimBH>;
    fn pm(o: &dyn SimMap) -> Option<&Self::PM> {
        o.as_any().downcast_ref::<MStrSim>().map(|m| &m.0)
    }
    fn ps(o: &dyn SimMap) -> Option<&Self::PS> {
        o.as_any().downcast_ref::<SStrSim>().map(|m| &m.0)
    }
}

/// Keys of type `&'static str`.
pub struct FRef;
#[derive(PartialEq, Eq)]
pub struct RefAlt(&'static str);
impl Fam for FRef {
    type K = &'static str;
    type Input = &'static str;
    type Own = String;
    type Alt = RefAlt;
    const TRACKED: bool = false;
    fn canon(id: u64) -> u64 {
        FStr::canon(id)
    }
    fn input(id: u64, _: u64) -> &'static str {
        world::static_str(&key_string(id))
    }
    fn key(id: u64, _: u64) -> &'static str {
        world::static_str(&key_string(id))
    }
    fn own(id: u64) -> String {
        key_string(id)
    }
    fn alt(id: u64, _: u64) -> RefAlt {
        RefAlt(world::static_str(&key_string(id)))
    }
    fn id_of(k: &&'static str) -> (u64, u64) {
        (world::string_id(k), 0)
    }
    fn elem(id: u64) -> Elem {
        FStr::elem(id)
    }
    fn unelem(e: &Elem) -> Option<u64> {
        FStr::unelem(e)
    }
    type De = String;
    fn de_id(k: &String) -> u64 {
        world::intern(k)
    }
}
impl FxFam for FRef {
    type Q1 = str;
    type Q2 = &'static str;
    fn q1(o: &String) -> &str {
        o
    }
    fn q2(a: &RefAlt) -> &&'static str {
        &a.0
    }
    type PM = FzStringMap<Box<str>, SimVal, SimBH>;
    type PS = FzHashSet<&'static str, SimBH>;
    fn pm(o: &dyn SimMap) -> Option<&Self::PM> {
        FStr::pm(o)
    }
    fn ps(o: &dyn SimMap) -> Option<&Self::PS> {
        o.as_any().downcast_ref::<FxSet<Self::PS, Self>>().map(|m| &m.m)
    }
}

/// The family functions of a plain scalar type.
#[macro_export]
macro_rules! fx_scalar {
    ($($t:ty, $alt:ty;)+) => {$(
        impl $crate::fx::FxFam for $crate::maps::FScalar<$t> {
            type Q1 = $t;
            type Q2 = $alt;
            fn q1(o: &$t) -> &$t { o }
            fn q2(a: &$alt) -> &$alt { a }
            type PM = FzScalarMap<$t, SimVal>;
            type PS = FzScalarSet<$t>;
            fn pm(o: &dyn SimMap) -> Option<&Self::PM> {
                o.as_any().downcast_ref::<$crate::fx::FxMap<Self::PM, Self>>().map(|m| &m.m)
            }
            fn ps(o: &dyn SimMap) -> Option<&Self::PS> {
                o.as_any().downcast_ref::<$crate::fx::FxSet<Self::PS, Self>>().map(|m| &m.m)
            }
        }
    )+};
}
fx_scalar! { u8, u8; i8, i8; u16, u16; i16, i16; u32, u32; i32, i32; u64, u64; i64, i64; usize, usize; isize, isize; SimScalar, SimScalarQ; }

pub struct FxMap<M, F> {
    pub m: M,
    f: PhantomData<F>,
}
pub struct FxSet<M, F> {
    pub m: M,
    f: PhantomData<F>,
}

type It<'a, M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::Iterator<'a>;
type Ki<'a, M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::KeyIterator<'a>;
type Vi<'a, M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::ValueIterator<'a>;
type Im<'a, M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::MutIterator<'a>;
type Vm<'a, M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::ValueMutIterator<'a>;
type Ik<M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::IntoKeyIterator;
type Iv<M, F> = <M as MapIteration<<F as Fam>::K, SimVal>>::IntoValueIterator;
type Si<'a, M, F> = <M as SetIteration<<F as Fam>::K>>::Iterator<'a>;

macro_rules! disj {
    ($self:ident, $ks:ident, $un:ident, $f:ident, $K:ty, $Q:ty, $conv:expr; $($n:literal)+) => {
        match $ks.len() {
            $($n => {
                let a: [&$Q; $n] = std::array::from_fn(|i| $conv(&$ks[i]));
                let mut r = match $un {
                    false => crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_mut(&mut $self.m, a)),
                    // SAFETY: the caller made sure the keys designate different entries
                    true => unsafe { crate::lib!(MapExtras::<$K, SimVal, $Q>::get_disjoint_unchecked_mut(&mut $self.m, a)) },
                };
                let mut r: Vec<Option<&mut dyn Val>> = r.iter_mut().map(|v| v.as_mut().map(|v| &mut **v as &mut dyn Val)).collect();
                $f(&mut r[..]);
            })+
            _ => unreachable!(),
        }
    };
}

/// What a generated map must be able to do.
macro_rules! map_impl {
    ($($item:tt)*) => {
        impl<M, F> SimMap for FxMap<M, F>
        where
            F: FxFam,
            M: Map<F::K, SimVal, F::Q1> + Map<F::K, SimVal, F::Q2> + MapIteration<F::K, SimVal> + Len + Clone + Debug + Serialize + 'static,
            M: PartialEq<M> + PartialEq<F::PM> + PartialEq<BTreeMap<F::K, SimVal>>,
            M: PartialEq<std::collections::HashMap<F::K, SimVal, SimBH>> + PartialEq<hashbrown::HashMap<F::K, SimVal, SimBH>>,
            for<'q> M: Index<&'q F::Q1, Output = SimVal>,
            <M as IntoIterator>::IntoIter: ExactSizeIterator + 'static,
            Ik<M, F>: ExactSizeIterator + 'static,
            Iv<M, F>: ExactSizeIterator + 'static,
            for<'a> It<'a, M, F>: ExactSizeIterator + Clone + Debug,
            for<'a> Ki<'a, M, F>: ExactSizeIterator + Clone + Debug,
            for<'a> Vi<'a, M, F>: ExactSizeIterator + Clone + Debug,
            for<'a> Im<'a, M, F>: ExactSizeIterator,
            for<'a> Vm<'a, M, F>: ExactSizeIterator,
            for<'a> &'a M: IntoIterator<Item = (&'a F::K, &'a SimVal), IntoIter: ExactSizeIterator + Clone + Debug>,
            for<'a> &'a mut M: IntoIterator<Item = (&'a F::K, &'a mut SimVal), IntoIter: ExactSizeIterator>,
        { $($item)* }
    };
}

map_impl! {
    fn len(&self) -> (usize, bool, usize) {
        crate::lib!((Len::len(&self.m), Len::is_empty(&self.m), Len::len(&self.m)))
    }
    fn get(&self, q: Q) -> Option<u64> {
        if q.mode & 1 == 0 {
            let k = F::own(q.id);
            crate::lib!(MapQuery::<F::Q1, SimVal>::get(&self.m, F::q1(&k))).map(|v| v.get())
        } else {
            let k = F::alt(q.id, q.variant);
            crate::lib!(MapQuery::<F::Q2, SimVal>::get(&self.m, F::q2(&k))).map(|v| v.get())
        }
    }
    fn contains(&self, q: Q) -> bool {
        if q.mode & 1 == 0 {
            let k = F::own(q.id);
            crate::lib!(MapQuery::<F::Q1, SimVal>::contains_key(&self.m, F::q1(&k)))
        } else {
            let k = F::alt(q.id, q.variant);
            crate::lib!(MapQuery::<F::Q2, SimVal>::contains_key(&self.m, F::q2(&k)))
        }
    }
    fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
        let r = if q.mode & 1 == 0 {
            let k = F::own(q.id);
            crate::lib!(MapExtras::<F::K, SimVal, F::Q1>::get_key_value(&self.m, F::q1(&k)))
        } else {
            let k = F::alt(q.id, q.variant);
            crate::lib!(MapExtras::<F::K, SimVal, F::Q2>::get_key_value(&self.m, F::q2(&k)))
        };
        r.map(|(k, v)| {
            let (i, t) = F::id_of(k);
            (i, t, v.get())
        })
    }
    fn index(&self, q: Q) -> u64 {
        let k = F::own(q.id);
        crate::lib!(&self.m[F::q1(&k)]).get()
    }
    fn set(&mut self, q: Q, new: u64) -> Option<u64> {
        let f = |r: Option<&mut SimVal>| {
            r.map(|v| {
                let o = v.get();
                v.set(new);
                o
            })
        };
        if q.mode & 1 == 0 {
            let k = F::own(q.id);
            f(crate::lib!(MapQuery::<F::Q1, SimVal>::get_mut(&mut self.m, F::q1(&k))))
        } else {
            let k = F::alt(q.id, q.variant);
            f(crate::lib!(MapQuery::<F::Q2, SimVal>::get_mut(&mut self.m, F::q2(&k))))
        }
    }
    fn disjoint(&mut self, qs: &[Q], unchecked: bool, f: &mut dyn FnMut(&mut [Option<&mut dyn Val>])) {
        if qs.first().is_some_and(|q| q.mode & 1 != 0) {
            let ks: Vec<F::Alt> = qs.iter().map(|q| F::alt(q.id, q.variant)).collect();
            disj!(self, ks, unchecked, f, F::K, F::Q2, F::q2; 0 1 2 3 4 5 8 17 70)
        } else {
            let ks: Vec<F::Own> = qs.iter().map(|q| F::own(q.id)).collect();
            disj!(self, ks, unchecked, f, F::K, F::Q1, F::q1; 0 1 2 3 4 5 8 17 70)
        }
    }
    fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
        match kind % 7 {
            0 | 4 => Box::new(Cloneable { it: crate::lib!(MapIteration::<F::K, SimVal>::iter(&self.m)), f: |(k, v): (&'a F::K, &'a SimVal)| item::<F>(Some(k), Some(v)) }),
            1 | 5 => Box::new(Cloneable { it: crate::lib!(MapIteration::<F::K, SimVal>::keys(&self.m)), f: |k: &'a F::K| item::<F>(Some(k), None) }),
            2 | 6 => Box::new(Cloneable { it: crate::lib!(MapIteration::<F::K, SimVal>::values(&self.m)), f: |v: &'a SimVal| item::<F>(None, Some(v)) }),
            _ => Box::new(Cloneable { it: crate::lib!((&self.m).into_iter()), f: |(k, v): (&'a F::K, &'a SimVal)| item::<F>(Some(k), Some(v)) }),
        }
    }
    fn iter_mut<'a>(&'a mut self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
        match kind % 5 {
            0 | 3 => Box::new(Plain { it: crate::lib!(MapIteration::<F::K, SimVal>::iter_mut(&mut self.m)), f: |(k, v): (&'a F::K, &'a mut SimVal)| item_mut::<F>(Some(k), v), dbg: |_| String::new() }),
            1 | 4 => Box::new(Plain { it: crate::lib!(MapIteration::<F::K, SimVal>::values_mut(&mut self.m)), f: |v: &'a mut SimVal| item_mut::<F>(None, v), dbg: |_| String::new() }),
            _ => Box::new(Plain { it: crate::lib!((&mut self.m).into_iter()), f: |(k, v): (&'a F::K, &'a mut SimVal)| item_mut::<F>(Some(k), v), dbg: |_| String::new() }),
        }
    }
    fn into_iter(self: Box<Self>, kind: u64) -> Box<dyn SimIter<'static>> {
        let m = self.m;
        match kind % 5 {
            0 => Box::new(Plain { it: crate::lib!(IntoIterator::into_iter(m)), f: |(k, v): (F::K, SimVal)| item::<F>(Some(&k), Some(&v)), dbg: |_| String::new() }),
            1 | 3 => Box::new(Plain { it: crate::lib!(MapIteration::<F::K, SimVal>::into_keys(m)), f: |k: F::K| item::<F>(Some(&k), None), dbg: |_| String::new() }),
            _ => Box::new(Plain { it: crate::lib!(MapIteration::<F::K, SimVal>::into_values(m)), f: |v: SimVal| item::<F>(None, Some(&v)), dbg: |_| String::new() }),
        }
    }
    fn clone_box(&self) -> Box<dyn SimMap> {
        let m = crate::lib!(self.m.clone());
        Box::new(Self { m, f: PhantomData })
    }
    fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool {
        match o.as_any().downcast_ref::<Self>() {
            Some(o) => {
                crate::lib!(self.m.clone_from(&o.m));
                true
            }
            None => false,
        }
    }
    fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
        if let Some(o) = o.as_any().downcast_ref::<Self>() {
            return Some(crate::lib!(self.m == o.m));
        }
        F::pm(o).map(|o| crate::lib!(self.m == *o))
    }
    fn eq_std(&self, entries: &[(u64, u64)], kind: u64) -> bool {
        let it = entries.iter().map(|(i, v)| (F::key(*i, 0), SimVal::new(*v)));
        match kind % 3 {
            0 => { let m: BTreeMap<F::K, SimVal> = it.collect(); crate::lib!(self.m == m) }
            1 => { let m: std::collections::HashMap<F::K, SimVal, SimBH> = it.collect(); crate::lib!(self.m == m) }
            _ => { let m: hashbrown::HashMap<F::K, SimVal, SimBH> = it.collect(); crate::lib!(self.m == m) }
        }
    }
    fn has_default(&self) -> bool {
        false
    }
    fn default_like(&self) -> Box<dyn SimMap> {
        unreachable!()
    }
    fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result {
        go();
        let _g = InLib::enter();
        if alt { write!(w, "{:#?}", self.m) } else { write!(w, "{:?}", self.m) }
    }
    fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String> {
        go();
        let _g = InLib::enter();
        ser_any(&self.m, to)
    }
    fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool {
        match o.as_any_mut().downcast_mut::<Self>() {
            Some(o) => {
                crate::lib!(std::mem::swap(&mut self.m, &mut o.m));
                true
            }
            None => false,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

macro_rules! ops2 {
    ($a:expr, $b:expr, $op:expr) => {{
        let f = |k: &'a F::K| item::<F>(Some(k), None);
        let r: Box<dyn SimIter<'a> + 'a> = match $op % 4 {
            0 => Box::new(Inexact { it: crate::lib!(SetOps::union($a, $b)), f }),
            1 => Box::new(Inexact { it: crate::lib!(SetOps::intersection($a, $b)), f }),
            2 => Box::new(Inexact { it: crate::lib!(SetOps::difference($a, $b)), f }),
            _ => Box::new(Inexact { it: crate::lib!(SetOps::symmetric_difference($a, $b)), f }),
        };
        r
    }};
}
macro_rules! rel2 {
    ($a:expr, $b:expr, $op:expr) => {
        match $op % 3 {
            0 => crate::lib!(SetOps::is_subset($a, $b)),
            1 => crate::lib!(SetOps::is_superset($a, $b)),
            _ => crate::lib!(SetOps::is_disjoint($a, $b)),
        }
    };
}

impl<M, F> SimMap for FxSet<M, F>
where
    F: FxFam,
    M: Set<F::K> + SetQuery<F::Q1> + SetExtras<F::K, F::Q1> + SetQuery<F::Q2> + SetExtras<F::K, F::Q2> + SetOps<F::K> + Len + Clone + Debug + Serialize + 'static,
    M: PartialEq<M> + PartialEq<F::PS> + PartialEq<BTreeSet<F::K>>,
    M: PartialEq<std::collections::HashSet<F::K, SimBH>> + PartialEq<hashbrown::HashSet<F::K, SimBH>>,
    F::PS: Set<F::K> + SetOps<F::K>,
    <M as IntoIterator>::IntoIter: ExactSizeIterator + 'static,
    for<'a> Si<'a, M, F>: ExactSizeIterator + Clone + Debug,
    for<'a> Si<'a, F::PS, F>: Clone + Debug,
    for<'a> &'a M: IntoIterator<Item = &'a F::K, IntoIter: ExactSizeIterator + Clone + Debug>,
    for<'a, 'b> &'a M: BitOr<&'b M, Output: IntoIterator<Item = F::K>> + BitAnd<&'b M, Output: IntoIterator<Item = F::K>>,
    for<'a, 'b> &'a M: Sub<&'b M, Output: IntoIterator<Item = F::K>> + BitXor<&'b M, Output: IntoIterator<Item = F::K>>,
    for<'a, 'b> &'a M: BitOr<&'b F::PS, Output: IntoIterator<Item = F::K>> + BitAnd<&'b F::PS, Output: IntoIterator<Item = F::K>>,
    for<'a, 'b> &'a M: Sub<&'b F::PS, Output: IntoIterator<Item = F::K>> + BitXor<&'b F::PS, Output: IntoIterator<Item = F::K>>,
{
    fn len(&self) -> (usize, bool, usize) {
        crate::lib!((Len::len(&self.m), Len::is_empty(&self.m), Len::len(&self.m)))
    }
    fn is_set(&self) -> bool {
        true
    }
    fn get(&self, q: Q) -> Option<u64> {
        self.get_kv(q).map(|_| 0)
    }
    fn contains(&self, q: Q) -> bool {
        if q.mode & 1 == 0 {
            let k = F::own(q.id);
            crate::lib!(SetQuery::<F::Q1>::contains(&self.m, F::q1(&k)))
        } else {
            let k = F::alt(q.id, q.variant);
            crate::lib!(SetQuery::<F::Q2>::contains(&self.m, F::q2(&k)))
        }
    }
    fn get_kv(&self, q: Q) -> Option<(u64, u64, u64)> {
        let r = if q.mode & 1 == 0 {
            let k = F::own(q.id);
            crate::lib!(SetExtras::<F::K, F::Q1>::get(&self.m, F::q1(&k)))
        } else {
            let k = F::alt(q.id, q.variant);
            crate::lib!(SetExtras::<F::K, F::Q2>::get(&self.m, F::q2(&k)))
        };
        r.map(|k| {
            let (i, t) = F::id_of(k);
            (i, t, 0)
        })
    }
    fn index(&self, _: Q) -> u64 {
        unreachable!()
    }
    fn set(&mut self, _: Q, _: u64) -> Option<u64> {
        unreachable!()
    }
    fn disjoint(&mut self, _: &[Q], _: bool, _: &mut dyn FnMut(&mut [Option<&mut dyn Val>])) {
        unreachable!()
    }
    fn iter_mut<'a>(&'a mut self, _: u64) -> Box<dyn SimIter<'a> + 'a> {
        unreachable!()
    }
    fn iter<'a>(&'a self, kind: u64) -> Box<dyn SimIter<'a> + 'a> {
        match kind % 2 {
            0 => Box::new(Cloneable { it: crate::lib!(SetIteration::<F::K>::iter(&self.m)), f: |k: &'a F::K| item::<F>(Some(k), None) }),
            _ => Box::new(Cloneable { it: crate::lib!((&self.m).into_iter()), f: |k: &'a F::K| item::<F>(Some(k), None) }),
        }
    }
    fn into_iter(self: Box<Self>, _: u64) -> Box<dyn SimIter<'static>> {
        let m = self.m;
        Box::new(Plain { it: crate::lib!(IntoIterator::into_iter(m)), f: |k: F::K| item::<F>(Some(&k), None), dbg: |_| String::new() })
    }
    fn clone_box(&self) -> Box<dyn SimMap> {
        let m = crate::lib!(self.m.clone());
        Box::new(Self { m, f: PhantomData })
    }
    fn clone_from_dyn(&mut self, o: &dyn SimMap) -> bool {
        match o.as_any().downcast_ref::<Self>() {
            Some(o) => {
                crate::lib!(self.m.clone_from(&o.m));
                true
            }
            None => false,
        }
    }
    fn eq_dyn(&self, o: &dyn SimMap) -> Option<bool> {
        if let Some(o) = o.as_any().downcast_ref::<Self>() {
            return Some(crate::lib!(self.m == o.m));
        }
        F::ps(o).map(|o| crate::lib!(self.m == *o))
    }
    fn eq_std(&self, entries: &[(u64, u64)], kind: u64) -> bool {
        let it = entries.iter().map(|(i, _)| F::key(*i, 0));
        match kind % 3 {
            0 => { let m: BTreeSet<F::K> = it.collect(); crate::lib!(self.m == m) }
            1 => { let m: std::collections::HashSet<F::K, SimBH> = it.collect(); crate::lib!(self.m == m) }
            _ => { let m: hashbrown::HashSet<F::K, SimBH> = it.collect(); crate::lib!(self.m == m) }
        }
    }
    fn pair<'a>(&'a self, op: u64, o: &'a dyn SimMap) -> Option<Box<dyn SimIter<'a> + 'a>> {
        if let Some(o) = o.as_any().downcast_ref::<Self>() {
            return Some(ops2!(&self.m, &o.m, op));
        }
        // the other way around, too
        F::ps(o).map(|o| if op & 0x10 == 0 { ops2!(&self.m, o, op) } else if op % 4 == 2 { ops2!(&self.m, o, op) } else { ops2!(o, &self.m, op) })
    }
    fn rel(&self, op: u64, o: &dyn SimMap) -> Option<bool> {
        if let Some(o) = o.as_any().downcast_ref::<Self>() {
            return Some(rel2!(&self.m, &o.m, op));
        }
        F::ps(o).map(|o| rel2!(&self.m, o, op))
    }
    fn oper(&self, op: u64, o: &dyn SimMap) -> Option<Vec<(u64, u64)>> {
        macro_rules! go2 {
            ($o:expr) => {{
                let o = $o;
                let r: Vec<F::K> = match op % 4 {
                    0 => { let r = crate::lib!(&self.m | o); r.into_iter().collect() }
                    1 => { let r = crate::lib!(&self.m & o); r.into_iter().collect() }
                    2 => { let r = crate::lib!(&self.m - o); r.into_iter().collect() }
                    _ => { let r = crate::lib!(&self.m ^ o); r.into_iter().collect() }
                };
                Some(r.iter().map(|k| F::id_of(k)).collect())
            }};
        }
        if let Some(o) = o.as_any().downcast_ref::<Self>() {
            return go2!(&o.m);
        }
        match F::ps(o) {
            Some(o) => go2!(o),
            None => None,
        }
    }
    fn has_default(&self) -> bool {
        false
    }
    fn default_like(&self) -> Box<dyn SimMap> {
        unreachable!()
    }
    fn debug(&self, w: &mut dyn fmt::Write, alt: bool) -> fmt::Result {
        go();
        let _g = InLib::enter();
        if alt { write!(w, "{:#?}", self.m) } else { write!(w, "{:?}", self.m) }
    }
    fn ser(&self, to: &mut SerTo<'_>) -> Result<(), String> {
        go();
        let _g = InLib::enter();
        ser_any(&self.m, to)
    }
    fn swap_dyn(&mut self, o: &mut dyn SimMap) -> bool {
        match o.as_any_mut().downcast_mut::<Self>() {
            Some(o) => {
                crate::lib!(std::mem::swap(&mut self.m, &mut o.m));
                true
            }
            None => false,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

impl<M, F> FxMap<M, F> {
    pub fn of(m: M) -> Self {
        Self { m, f: PhantomData }
    }
}
impl<M, F> FxSet<M, F> {
    pub fn of(m: M) -> Self {
        Self { m, f: PhantomData }
    }
}

fn blank<F: FxFam>(name: &'static str, fam: &'static str, is_set: bool, build: BuildFn) -> Target {
    Target {
        name,
        fam,
        tracked: F::TRACKED,
        canon: F::canon,
        build,
        de: None,
        is_set,
        group: std::any::type_name::<F>(),
        std: false,
        elem: F::elem,
        unelem: F::unelem,
        ref_de: if is_set { ref_seq::<F> } else { ref_map::<F> },
        std_de: if is_set { std_set::<F> } else { std_map::<F> },
        max_len: 1 << 20,
        key_size: std::mem::size_of::<F::K>(),
        default_bh: true,
        fixed: None,
        peers: &[],
        peer_only: false,
    }
}

/// A compile-time generated collection with keys of a numbered family.
pub fn fixture<F: FxFam>(
    name: &'static str,
    fam: &'static str,
    is_set: bool,
    peers: &'static [&'static str],
    build: BuildFn,
    entries: fn() -> Vec<(u64, u64, u64)>,
) -> Target {
    Target { fixed: Some(Fixed { entries, ids: || Vec::new() }), peers, ..blank::<F>(name, fam, is_set, build) }
}

/// A compile-time generated collection with string keys.
pub fn fixture_str<F: FxFam>(
    name: &'static str,
    is_set: bool,
    build: BuildFn,
    entries: fn() -> Vec<(u64, u64, u64)>,
    ids: fn() -> Vec<u64>,
) -> Target {
    let own = std::any::type_name::<F>() == std::any::type_name::<FStr>();
    let peers: &'static [&'static str] = match (is_set, own) {
        (false, _) => &["FzStringMap<_,_,SimBH>"],
        (true, true) => &["FzStringSet<_,SimBH>"],
        (true, false) => &["peer:FzHashSet<&str,SimBH>"],
    };
    let mut t = blank::<F>(name, "str", is_set, build);
    if !is_set {
        // whatever the keys are, the entries can be read back as a string map
        t.group = std::any::type_name::<FStr>();
    }
    Target { fixed: Some(Fixed { entries, ids }), peers, ..t }
}

/// Numbers for the keys of a string fixture, and for strings that resemble them.
pub fn str_entries(e: &[(&str, u64)]) -> Vec<(u64, u64, u64)> {
    let _g = crate::alloc::OutLib::enter();
    let mut r = Vec::with_capacity(e.len());
    for (i, (s, v)) in e.iter().enumerate() {
        r.push((world::intern(s), 0, *v));
        let c: Vec<char> = s.chars().collect();
        let near: String = match i % 5 {
            0 => c[..c.len().saturating_sub(1)].iter().collect(),
            1 => format!("{s}a"),
            2 => {
                let mut c = c.clone();
                if let Some(x) = c.get_mut(i / 5 % s.len().max(1)) {
                    *x = if *x == 'q' { 'r' } else { 'q' };
                }
                c.iter().collect()
            }
            3 => {
                let mut c = c.clone();
                c.reverse();
                c.iter().collect()
            }
            _ => c[usize::from(!c.is_empty())..].iter().collect(),
        };
        let _ = world::intern(&near);
    }
    r
}
pub fn str_ids(n: usize) -> Vec<u64> {
    (0..n as u64 * 2).map(|i| (1 << 40) + i).collect()
}

macro_rules! peer_de {
    ($boxed:ident, $F:ty, $M:ty) => {
        Some(|f| {
            go();
            let _g = InLib::enter();
            crate::serde_sim::de_any::<$M>(f).map(|m| {
                let _o = crate::alloc::OutLib::enter();
                Box::new($boxed::<$M, $F>::of(m)) as Box<dyn SimMap>
            })
        })
    };
}
macro_rules! scalar_peers {
    ($v:ident; $($t:ty)+) => {$(
        let de: Option<DeFn> = peer_de!(FxMap, FScalar<$t>, FzScalarMap<$t, SimVal>);
        $v.push(Target { de, peer_only: true, ..blank::<FScalar<$t>>(concat!("peer:FzScalarMap<", stringify!($t), ",_>"), "scalar", false, |r| {
            let v = pairs::<FScalar<$t>>(r);
            let m = crate::lib!(FzScalarMap::new(v));
            Box::new(FxMap::<_, FScalar<$t>>::of(m))
        }) });
        let de: Option<DeFn> = peer_de!(FxSet, FScalar<$t>, FzScalarSet<$t>);
        $v.push(Target { de, peer_only: true, ..blank::<FScalar<$t>>(concat!("peer:FzScalarSet<", stringify!($t), ">"), "scalar", true, |r| {
            let v = elems::<FScalar<$t>>(r);
            let m = crate::lib!(FzScalarSet::new(v));
            Box::new(FxSet::<_, FScalar<$t>>::of(m))
        }) });
    )+};
}

/// The plain collections the generated ones are compared and combined with.
pub fn peers() -> Vec<Target> {
    let mut v = Vec::new();
    scalar_peers!(v; u8 i8 u16 i16 u32 i32 u64 i64 usize isize SimScalar);
    v.push(Target {
        peer_only: true,
        ..blank::<FRef>("peer:FzHashSet<&str,SimBH>", "str", true, |r| {
            let v = elems::<FRef>(r);
            let m = crate::lib!(FzHashSet::with_hasher(v, r.bh.clone()));
            Box::new(FxSet::<_, FRef>::of(m))
        })
    });
    v
}
