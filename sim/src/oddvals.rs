//! Maps whose values are of an unusual kind: without size, or with a large alignment.

use crate::alloc::InLib;
use crate::iters::{Cloneable, Item, Plain, SimIter};
use crate::maps::{FKey, FScalar, FStr, Fam, Q, Req, SimInput, SimMap, Target};
use crate::serde_sim::{SerTo, ser_any};
use crate::types::{SimBH, SimBig, SimKey, SimScalar, SimZst, Val};
use crate::world::{self, go};
use frozen_collections::{FzHashMap, FzOrderedMap, FzScalarMap, FzStringMap, Len, MapExtras, MapIteration, MapQuery};
use std::any::Any;
use std::collections::BTreeMap;
use std::fmt;

fn item_of<F: Fam>(k: Option<&F::K>, v: Option<u64>) -> Item {
    Item { k: k.map(|k| F::id_of(k)), v, addr: 0, wrote: 0 }
}
fn item_mut<F: Fam>(k: Option<&F::K>, v: &mut impl Val) -> Item {
    let old = v.get();
    let wrote = world::fresh_val();
    v.set(wrote);
    Item { k: k.map(|k| F::id_of(k)), v: Some(old), addr: v.addr(), wrote }
}

macro_rules! module {
    ($m:ident, $V:ident, $group:literal, $hash:literal $ord:literal $btree:literal $scalar:literal $byte:literal $str:literal) => {
        mod $m {
            use super::*;
            type SimVal = $V;
            fn item<F: Fam>(k: Option<&F::K>, v: Option<&SimVal>) -> Item {
                item_of::<F>(k, v.map(|v| v.get()))
            }
            fn pairs<F: Fam>(r: &Req<'_>) -> Vec<(F::Input, SimVal)> {
                let _g = InLib::enter();
                let mut v = Vec::with_capacity(r.entries.len() + if r.path & 64 != 0 { 13 } else { 0 });
                for (id, tag, val) in r.entries {
                    v.push((F::input(*id, *tag), SimVal::new(*val)));
                }
                v
            }
            sim_map!(Hash, FzHashMap<SimKey, SimVal, SimBH>, FKey, [Hash Ord]);
            sim_map!(Ord, FzOrderedMap<SimKey, SimVal>, FKey, [Hash Ord]);
            std_map!(BTree, BTreeMap<SimKey, SimVal>, FKey, [Hash Ord]);
            sim_map!(Scalar, FzScalarMap<SimScalar, SimVal>, FScalar<SimScalar>, [Scalar]);
            sim_map!(Byte, FzScalarMap<u8, SimVal>, FScalar<u8>, [Byte]);
            sim_map!(Str, FzStringMap<Box<str>, SimVal, SimBH>, FStr, [Str]);
            pub fn targets() -> Vec<Target> {
                let mut t = vec![
                    target!($hash, "key", Hash, FzHashMap<SimKey, SimVal, SimBH>, FKey, |v, r: &Req<'_>| FzHashMap::with_hasher(v, r.bh.clone()), None, false),
                    target!($ord, "key", Ord, FzOrderedMap<SimKey, SimVal>, FKey, |v, _: &Req<'_>| FzOrderedMap::new(v), None, true),
                    std_target!($btree, "key", BTree, BTreeMap<SimKey, SimVal>, FKey),
                    target!($scalar, "scalar", Scalar, FzScalarMap<SimScalar, SimVal>, FScalar<SimScalar>, |v, _: &Req<'_>| FzScalarMap::new(v), None, true),
                    target!($byte, "scalar", Byte, FzScalarMap<u8, SimVal>, FScalar<u8>, |v, _: &Req<'_>| FzScalarMap::new(v), None, true),
                    target!($str, "str", Str, FzStringMap<Box<str>, SimVal, SimBH>, FStr, |v, r: &Req<'_>| FzStringMap::with_hasher(v, r.bh.clone()), None, false),
                ];
                for t in &mut t {
                    t.group = match t.name {
                        $hash | $ord | $btree => concat!("odd ", $group, " FKey"),
                        $scalar => concat!("odd ", $group, " FScalar<SimScalar>"),
                        $byte => concat!("odd ", $group, " FScalar<u8>"),
                        _ => concat!("odd ", $group, " FStr"),
                    };
                }
                t
            }
        }
    };
}

module!(zst, SimZst, "zero-sized", "FzHashMap<SimKey,zst,SimBH>" "FzOrderedMap<SimKey,zst>" "BTreeMap<SimKey,zst>" "FzScalarMap<SimScalar,zst>" "FzScalarMap<u8,zst>" "FzStringMap<_,zst,SimBH>");
module!(big, SimBig, "aligned", "FzHashMap<SimKey,big,SimBH>" "FzOrderedMap<SimKey,big>" "BTreeMap<SimKey,big>" "FzScalarMap<SimScalar,big>" "FzScalarMap<u8,big>" "FzStringMap<_,big,SimBH>");

pub fn targets() -> Vec<Target> {
    let mut t = zst::targets();
    t.extend(big::targets());
    t
}
