//! The simulator together with a seeded set of compile-time generated collections.
#![allow(warnings)]

use fcsim::alloc::InLib;
use fcsim::fx::{FRef, FxMap, FxSet, fixture, fixture_str, str_entries, str_ids};
use fcsim::maps::{FKey, FScalar, FStr, Req, SimMap, Target};
use fcsim::types::{SimKey, SimScalar, SimVal};
use frozen_collections::*;

mod enums;
use enums::*;

fn ident(s: &'static str) -> &'static str {
    s
}

mod fixtures {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/fixtures.rs"));
}

fn all() -> Vec<Target> {
    let mut v = fcsim::fx::peers();
    v.extend(fixtures::all());
    v
}

fn main() {
    let _ = fcsim::engine::MORE.set(all);
    let _ = fcsim::driver::FIXTURES.set(env!("FCFIX_ID"));
    // statics that are made on first use are made now, in a world of their own
    fcsim::pin_randomness();
    fcsim::world::reset(1, false);
    fixtures::force();
    fcsim::driver::main()
}
