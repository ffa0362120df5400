//! One plan, one execution.

use crate::engine::{Engine, Stats};
use crate::plan::Plan;
use crate::world::{self, Viol};
use crate::{byz, r#gen};

pub struct Outcome {
    pub viol: Option<Viol>,
    pub stats: Stats,
    pub log: Vec<String>,
    pub log_hash: u64,
}

pub const PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
];

/// The plan of run number `r` of a property under a given seed.
pub fn plan_for(prop: &str, seed: u64, r: u64) -> Plan {
    let s = world::mix(world::mix(seed, crate::engine::hash_str(prop)), r);
    match prop {
        "C09" => crate::threads::gen_threads(prop, s),
        "C17" if s % 8 == 0 => crate::threads::gen_threads(prop, s),
        _ => r#gen::gen_history(prop, s),
    }
}

pub fn execute(p: &Plan, keep_log: bool) -> Outcome {
    // collections in statics are made once per process
    foldhash::sim::pin(p.targets.iter().any(|t| t.contains(" static")));
    world::reset(p.seed, keep_log);
    let (viol, stats) = match p.sim.as_str() {
        "byz" => {
            let mut stats = Stats::default();
            let v = byz::run(p, &mut stats).err();
            (v, stats)
        }
        "threads" => {
            let mut stats = Stats::default();
            let v = crate::threads::run(p, &mut stats).err();
            (v, stats)
        }
        _ => match Engine::new(p) {
            Ok(mut e) => {
                let v = e.run().err();
                if v.is_some() {
                    std::mem::forget(std::mem::take(&mut e.slots));
                }
                (v, std::mem::take(&mut e.stats))
            }
            Err(v) => (Some(v), Stats::default()),
        },
    };
    let log_hash = world::ctl().log_hash.get();
    Outcome { viol, stats, log: world::take_log(), log_hash }
}

/// Whether a violation of this class is a violation of this property. Others end the run, are counted, and are left to
/// the check of the property they belong to.
pub fn relevant(prop: &str, class: &str) -> bool {
    let (op, kind) = class.split_once('/').unwrap_or(("", class));
    let has = |s: &str| kind.contains(s);
    let releases = has("release:keys") || has("release:values") || has("leak");
    let fatal = has("memory") || has("release:twice") || has("release:use-after") || class.starts_with("crash");
    if class.starts_with("harness") {
        return false;
    }
    match prop {
        "C01" => !releases && !has("steps") && !has("peak"),
        "C03" | "C14" => !releases,
        "C05" => op == "disjoint" || class.starts_with("crash"),
        "C06" => matches!(op, "iter" | "itermut" | "intoiter") || class.starts_with("crash"),
        "C07" => releases || fatal,
        "C08" => !releases,
        "C13" => matches!(op, "clone" | "clonefrom") || has("other:") || releases || fatal,
        "C15" => fatal || has("alias"),
        "C16" => has("steps") || has("peak") || has("hang") || class.starts_with("hang"),
        _ => true,
    }
}

/// Properties about faults: a violation that also shows without any fault belongs elsewhere.
pub fn needs_fault(prop: &str) -> bool {
    matches!(prop, "C02" | "C04")
}

/// Whether the run exercised what the property is about.
pub fn nontrivial(prop: &str, s: &Stats) -> bool {
    let fired: u64 = s.fired.values().sum();
    match prop {
        "C02" | "C04" | "C10" | "C11" | "C12" | "C15" => fired > 0,
        "C09" => s.notes.get("switches").copied().unwrap_or(0) > 0,
        _ => s.ops >= 2,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C02" | "C04" => "one case = one simulated run of a generated operation history with faults; non-trivial: at least one injected fault fired inside the library; distinct: different event log",
        "C10" | "C11" | "C12" => "one case = one simulated run of reads/writes through simulated sinks and sources; non-trivial: at least one sink/source/element fault, damage or torn image was delivered; distinct: different event log",
        "C15" => "one case = one simulated run with self-contradicting trait implementations; non-trivial: at least one inconsistent answer was given to the library; distinct: different event log",
        "C09" => "one case = one simulated run of 2-4 reader threads under a seeded schedule; non-trivial: at least one context switch happened inside a library operation; distinct: different event log (operations, results and switches in order)",
        "C17" => "one case = one simulated run of an operation history on compile-time generated collections; non-trivial: at least two operations; distinct: different event log",
        _ => "one case = one simulated run of a generated operation history over up to four live collections with seeded hash randomness and fault points; non-trivial: at least two operations; distinct: different event log",
    }
}
