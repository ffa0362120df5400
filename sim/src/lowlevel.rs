//! The documented-but-private building blocks (`frozen_collections::maps`), which generated code names directly, built through
//! their own constructors.

use crate::maps::{FKey, FScalar, Fam, MHashDef, MHashSim, MOrd, MScI16, MScSim, MScU8, Q, Req, SimMap, Target, item, item_mut, pairs};
use crate::iters::{Cloneable, Plain, SimIter};
use crate::alloc::InLib;
use crate::serde_sim::{SerTo, ser_any};
use crate::types::{SimBH, SimKey, SimScalar, SimVal, Val};
use crate::world::go;
use frozen_collections::hashers::{BridgeHasher, ScalarHasher};
use frozen_collections::maps::{DenseScalarLookupMap, EytzingerSearchMap, HashMap, ScanMap, SparseScalarLookupMap};
use frozen_collections::{FzHashMap, FzScalarMap, LargeCollection, Len, MapExtras, MapIteration, MapQuery, MediumCollection, SmallCollection};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

sim_map!(LScan, ScanMap<SimKey, SimVal>, FKey, [LScan LEytz LSmall LLarge MHashSim MHashDef MOrd]);
sim_map!(LEytz, EytzingerSearchMap<SimKey, SimVal>, FKey, [LScan LEytz LSmall LLarge MHashSim MHashDef MOrd]);
sim_map!(LSmall, HashMap<SimKey, SimVal, SmallCollection, BridgeHasher<SimBH>>, FKey, [LScan LEytz LSmall LLarge MHashSim MHashDef MOrd]);
sim_map!(LLarge, HashMap<SimKey, SimVal, LargeCollection, BridgeHasher<SimBH>>, FKey, [LScan LEytz LSmall LLarge MHashSim MHashDef MOrd]);
sim_map!(LDense, DenseScalarLookupMap<SimScalar, SimVal>, FScalar<SimScalar>, [LDense MScSim]);
sim_map!(LDenseU8, DenseScalarLookupMap<u8, SimVal>, FScalar<u8>, [LDenseU8 MScU8]);
sim_map!(LSparse, SparseScalarLookupMap<i16, SimVal>, FScalar<i16>, [LSparse LMedium MScI16]);
sim_map!(LMedium, HashMap<i16, SimVal, MediumCollection, ScalarHasher>, FScalar<i16>, [LSparse LMedium MScI16]);

fn distinct<F: Fam>(r: &Req<'_>) -> BTreeSet<u64> {
    r.entries.iter().map(|e| F::canon(e.0)).collect()
}
fn magnitude<F: Fam, M>(r: &Req<'_>, x: &Result<M, String>, most: usize) {
    let n = distinct::<F>(r).len();
    assert!(x.is_ok() == (n <= most), "{n} entries and a capacity of {most} gave {:?}", x.as_ref().err());
}
fn row<F: Fam, M>(r: &Req<'_>, x: &Result<M, String>, key: fn(u64) -> usize) {
    let ks: BTreeSet<usize> = distinct::<F>(r).into_iter().map(key).collect();
    let ok = ks.is_empty() || ks.last().unwrap() - ks.first().unwrap() == ks.len() - 1;
    assert!(x.is_ok() == ok, "{} keys without gaps: {ok}, gave {:?}", ks.len(), x.as_ref().err());
}

macro_rules! low {
    ($name:literal, $fam:literal, $F:ty, $max:literal, $build:expr) => {
        Target {
            name: $name,
            fam: $fam,
            tracked: <$F as Fam>::TRACKED,
            canon: <$F as Fam>::canon,
            build: $build,
            de: None,
            is_set: false,
            group: std::any::type_name::<$F>(),
            std: false,
            elem: <$F as Fam>::elem,
            unelem: <$F as Fam>::unelem,
            ref_de: crate::maps::ref_map::<$F>,
            std_de: crate::maps::std_map::<$F>,
            max_len: $max,
            key_size: std::mem::size_of::<<$F as Fam>::K>(),
            default_bh: false,
            fixed: None,
            peers: &[],
            peer_only: false,
        }
    };
}

/// Inconsistent keys may make a constructor fail where it should not.
fn lying() -> bool {
    crate::world::ctl().byz_mask.get() != 0
}

pub fn targets() -> Vec<Target> {
    vec![
        low!("maps::ScanMap<SimKey,_>", "key", FKey, 60, |r| {
            let v = pairs::<FKey>(r);
            Box::new(LScan(crate::lib!(ScanMap::new(v))))
        }),
        low!("maps::EytzingerSearchMap<SimKey,_>", "key", FKey, 700, |r| {
            let v = pairs::<FKey>(r);
            Box::new(LEytz(crate::lib!(EytzingerSearchMap::new(v))))
        }),
        low!("maps::HashMap<SimKey,_,Small,SimBH>", "key", FKey, 700, |r| {
            let v = pairs::<FKey>(r);
            let x = crate::lib!(HashMap::with_hasher(v, BridgeHasher::new(r.bh.clone())));
            if !lying() {
                magnitude::<FKey, _>(r, &x, 255);
            }
            match x {
                Ok(m) => Box::new(LSmall(m)),
                Err(e) => {
                    { let _g = InLib::enter(); drop(e); }
                    let v = pairs::<FKey>(r);
                    Box::new(MHashSim(crate::lib!(FzHashMap::with_hasher(v, r.bh.clone()))))
                }
            }
        }),
        low!("maps::HashMap<SimKey,_,Large,SimBH>", "key", FKey, 700, |r| {
            let v = pairs::<FKey>(r);
            let x = crate::lib!(HashMap::with_hasher(v, BridgeHasher::new(r.bh.clone())));
            Box::new(LLarge(x.unwrap()))
        }),
        low!("maps::HashMap<i16,_,Medium,ScalarHasher>", "scalar", FScalar<i16>, 700, |r| {
            let v = pairs::<FScalar<i16>>(r);
            let x = crate::lib!(HashMap::with_hasher(v, ScalarHasher::default()));
            Box::new(LMedium(x.unwrap()))
        }),
        low!("maps::SparseScalarLookupMap<i16,_>", "scalar", FScalar<i16>, 700, |r| {
            let v = pairs::<FScalar<i16>>(r);
            Box::new(LSparse(crate::lib!(SparseScalarLookupMap::new(v))))
        }),
        low!("maps::DenseScalarLookupMap<u8,_>", "scalar", FScalar<u8>, 700, |r| {
            let v = pairs::<FScalar<u8>>(r);
            let x = crate::lib!(DenseScalarLookupMap::new(v));
            row::<FScalar<u8>, _>(r, &x, |k| k as usize);
            match x {
                Ok(m) => Box::new(LDenseU8(m)),
                Err(e) => {
                    { let _g = InLib::enter(); drop(e); }
                    let v = pairs::<FScalar<u8>>(r);
                    Box::new(MScU8(crate::lib!(FzScalarMap::new(v))))
                }
            }
        }),
        low!("maps::DenseScalarLookupMap<SimScalar,_>", "scalar", FScalar<SimScalar>, 700, |r| {
            let v = pairs::<FScalar<SimScalar>>(r);
            let x = crate::lib!(DenseScalarLookupMap::new(v));
            if !lying() {
                row::<FScalar<SimScalar>, _>(r, &x, |k| k as usize);
            }
            match x {
                Ok(m) => Box::new(LDense(m)),
                Err(e) => {
                    { let _g = InLib::enter(); drop(e); }
                    let v = pairs::<FScalar<SimScalar>>(r);
                    Box::new(MScSim(crate::lib!(FzScalarMap::new(v))))
                }
            }
        }),
    ]
}
