//! From a seed to a plan.

use crate::engine::all_targets;
use crate::maps::Target;
use crate::plan::{Fault, Op, Plan};
use crate::types::BH_MODES;
use crate::world::Rng;

pub fn pick_size(r: &mut Rng, big: bool) -> u64 {
    if big {
        match r.below(20_000) {
            // around the largest 16-bit number
            0 => return r.range(65_400, 66_500),
            1..=15 => return r.range(1800, 9000),
            _ => {}
        }
    }
    match r.below(if big { 40 } else { 36 }) {
        0..=5 => r.below(4),
        6..=15 => r.range(3, 10),
        16..=26 => r.range(8, 40),
        27..=32 => r.range(30, 140),
        33..=35 => r.range(120, 300),
        36..=38 => r.range(250, 900),
        _ => r.range(900, 1800),
    }
}

/// A list of key numbers with the distribution the seed asks for.
pub fn gen_list(r: &mut Rng, t: &Target, n: u64) -> Vec<u64> {
    let mut v = Vec::new();
    let kind = r.below(10);
    let bits: u32 = match t.fam {
        "str" => 10,
        "key" if n > 60_000 => 63,
        "key" => *r.pick(&[6, 8, 10, 16, 32, 63]),
        _ => 64,
    };
    let top = (t.canon)(u64::MAX);
    let base = match r.below(8) {
        _ if t.fam == "str" => r.below(40),
        0 | 1 => 0,
        2 => 1,
        3 => r.below(2000),
        4 => top / 2 - n.min(top / 2) / 2,
        5 => top - n.min(top),
        // around zero, for signed keys
        6 => top - n.min(top) / 2,
        _ => r.next() & top,
    };
    for i in 0..n {
        let id = match kind {
            // contiguous
            0 | 1 => base.wrapping_add(i),
            // contiguous with holes
            2 => base.wrapping_add(i * 2 + r.below(2)),
            // strided
            3 => base.wrapping_add(i * (1 << (base % 7))),
            // a range about ten times wider than the count
            4 => base.wrapping_add(r.below(n * 9 + 1)),
            5 => base.wrapping_add(r.below(n * 12 + 130)),
            // two clusters
            6 => {
                if i % 2 == 0 {
                    base.wrapping_add(i)
                } else {
                    (if t.fam == "str" { 600 } else { top.wrapping_sub(5) }).wrapping_sub(i)
                }
            }
            // extremes and their neighbours
            7 if t.fam != "str" => {
                let e = [0, 1, top, top.wrapping_sub(1), top / 2, top / 2 + 1, 127, 128, 255, 256];
                *r.pick(&e)
            }
            // anything
            _ => {
                let x = r.next();
                if bits == 64 { x & top } else { x & ((1 << bits) - 1) }
            }
        };
        v.push(id);
    }
    // few repeats among very many keys: each of them is looked for in a list
    let many = n > 1800;
    if many {
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert((t.canon)(*x)));
    }
    // repeats
    let dup = *r.pick(if many { &[0, 1, 3, 6] } else { &[0, 0, 0, 1, 3, 6] });
    if dup > 0 && !v.is_empty() {
        let k = v.len();
        for _ in 0..if many { dup * 20 } else { k as u64 * dup / 10 + 1 } {
            // among very many, sometimes what comes first comes again as the last
            let far = n > 60_000 && r.chance(1, 2);
            let x = if far { v[r.below(400) as usize % k] } else { *r.pick(&v[..k]) };
            let at = if far { v.len() } else { r.below(v.len() as u64 + 1) as usize };
            v.insert(at, x);
        }
    }
    // order
    match r.below(4) {
        0 => v.sort_unstable(),
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

/// A list related to another one: overlapping, contained, containing, disjoint or reordered.
pub fn gen_related(r: &mut Rng, t: &Target, l: &[u64]) -> Vec<u64> {
    let mut v = l.to_vec();
    match r.below(7) {
        0 => {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        1 => {
            if !v.is_empty() {
                let x = r.below(v.len() as u64) as usize;
                v.remove(x);
            }
        }
        2 => v.push(r.next() & (t.canon)(u64::MAX) & if t.fam == "str" { 1023 } else { u64::MAX }),
        3 if v.len() <= 1800 => {
            for x in &mut v {
                if r.chance(1, 2) {
                    *x = x.wrapping_add(1 + r.below(3));
                }
            }
        }
        4 => v.truncate(r.below(v.len() as u64 + 1) as usize),
        5 => {
            let n = r.below(12);
            v.extend(gen_list(r, t, n));
        }
        _ => {
            let n = pick_size(r, false);
            v = gen_list(r, t, n);
        }
    }
    v
}

pub fn gen_script(r: &mut Rng, n: u64) -> Vec<u64> {
    let len = r.range(0, n.min(24) + 6);
    (0..len)
        .map(|_| {
            let action = match r.below(20) {
                0..=8 => 0,
                9 | 10 => 6,
                11 | 12 => 7,
                13 => 8,
                14 => 13,
                15 => 14,
                16 => 12,
                17 => r.below(16),
                18 => 11,
                _ => 15,
            };
            (r.below(4096) << 16) | (action << 8) | r.below(6)
        })
        .collect()
}

type Mix = &'static [(&'static str, u64)];

fn mix_for(prop: &str) -> Mix {
    match prop {
        "C01" => &[("build", 10), ("audit", 2), ("drop", 1)],
        "C02" => &[("build", 10), ("get", 2), ("drop", 1)],
        "C03" => &[
            ("build", 3), ("get", 6), ("contains", 3), ("getkv", 4), ("index", 3), ("set", 6), ("disjoint", 3), ("iter", 3), ("itermut", 3),
            ("clone", 2), ("eq", 2), ("eqstd", 2), ("default", 1), ("swap", 1), ("intoiter", 1), ("debug", 1), ("ser", 1), ("drop", 1), ("audit", 2),
        ],
        "C04" => &[
            ("build", 2), ("get", 4), ("contains", 3), ("getkv", 3), ("index", 2), ("set", 4), ("disjoint", 3), ("iter", 2), ("itermut", 3),
            ("eq", 4), ("eqstd", 4), ("debug", 3), ("ser", 3), ("pair", 4), ("rel", 4), ("oper", 3),
        ],
        "C05" => &[("build", 2), ("disjoint", 12), ("set", 1), ("get", 1)],
        "C06" => &[("build", 2), ("iter", 8), ("itermut", 5), ("intoiter", 3), ("clone", 1)],
        "C07" => &[
            ("build", 5), ("clone", 5), ("clonefrom", 2), ("set", 2), ("itermut", 2), ("intoiter", 6), ("drop", 5), ("default", 3), ("swap", 1),
            ("disjoint", 1), ("oper", 1), ("eqstd", 1),
        ],
        "C08" => &[("build", 4), ("contains", 3), ("getkv", 1), ("pair", 10), ("rel", 6), ("oper", 4), ("eq", 3), ("eqstd", 2), ("iter", 1), ("clone", 1)],
        "C13" => &[
            ("build", 2), ("clone", 6), ("clonefrom", 2), ("set", 5), ("itermut", 2), ("intoiter", 2), ("drop", 3), ("default", 1), ("eq", 3), ("swap", 1),
            ("getkv", 1), ("disjoint", 1),
        ],
        "C14" => &[
            ("build", 6), ("get", 3), ("contains", 2), ("getkv", 2), ("eq", 8), ("eqstd", 6), ("rel", 2), ("oper", 1), ("audit", 3), ("iter", 1),
            ("set", 1), ("clone", 1),
        ],
        "C15" => &[
            ("build", 6), ("get", 5), ("contains", 2), ("getkv", 2), ("index", 1), ("set", 4), ("disjoint", 6), ("itermut", 1), ("iter", 1),
            ("clone", 2), ("eq", 2), ("eqstd", 1), ("rel", 2), ("oper", 2), ("pair", 3), ("intoiter", 2), ("drop", 1), ("debug", 1), ("ser", 1),
        ],
        "C10" => &[("build", 3), ("sink", 14), ("set", 1), ("clone", 1)],
        "C11" => &[("source", 14), ("get", 2), ("eq", 1), ("iter", 1)],
        "C12" => &[("build", 3), ("store", 12), ("set", 2), ("eq", 2), ("get", 1)],
        "C17" => &[
            ("build", 3), ("get", 6), ("contains", 3), ("getkv", 4), ("index", 3), ("set", 5), ("disjoint", 4), ("iter", 4), ("itermut", 3),
            ("intoiter", 2), ("clone", 3), ("clonefrom", 1), ("eq", 3), ("eqstd", 3), ("swap", 1), ("debug", 1), ("ser", 1), ("sink", 1), ("store", 2),
            ("pair", 4), ("rel", 3), ("oper", 2), ("drop", 1), ("audit", 2),
        ],
        _ => &[("build", 8), ("get", 4), ("contains", 2), ("getkv", 2), ("set", 2), ("index", 1), ("drop", 1)],
    }
}

/// Chance of a fault per operation, in percent.
fn fault_pct(prop: &str) -> u64 {
    match prop {
        "C02" => 85,
        "C04" => 70,
        "C05" => 20,
        "C10" => 25,
        "C11" => 25,
        "C06" => 15,
        "C07" => 45,
        "C08" => 25,
        "C13" => 45,
        "C17" => 20,
        _ => 0,
    }
}

pub fn gen_ops(r: &mut Rng, prop: &str, p: &mut Plan, count: u64, sizes: u64) {
    let m = mix_for(prop);
    let nt = p.targets.len() as u64;
    let build = |r: &mut Rng, slot: u64, p: &Plan| Op {
        op: "build".into(),
        a: r.below(p.lists.len() as u64),
        b: r.below(128),
        // an input that announces more than it holds makes Vec reserve, which is not the library's doing
        c: slot * 16 + if prop == "C16" { *r.pick(&[0, 1, 2, 5]) } else { r.below(16) },
        d: bh(r, p) | (r.below(nt) << 8),
        ..Op::default()
    };
    let first = if prop == "C11" { r.below(2) } else { r.range(1, 3) };
    for s in 0..first {
        let mut o = build(r, s, p);
        o.a = s;
        if s == 1 {
            // partners of different types as early as possible
            o.d = (o.d & 0xff) | ((nt - 1) << 8);
        }
        if matches!(prop, "C02") && r.chance(1, 2) {
            o.fault = Some(fault(r));
        }
        p.ops.push(o);
    }
    for _ in 0..count {
        let name = r.weighted(m);
        let mut o = if name == "build" {
            let s = r.below(4);
            build(r, s, p)
        } else {
            Op { op: name.into(), a: r.below(8), b: r.next() >> 16, c: r.next(), d: r.below(16), ..Op::default() }
        };
        match name {
            "sink" => {
                o.b = r.below(5);
                o.d = r.below(16);
            }
            "source" => {
                o.a = r.below(p.lists.len() as u64);
                o.b = r.weighted(&[(0, 3), (1, 1), (2, 2), (3, 4)]);
                o.d = r.weighted(&[(0, 3), (1, 2), (2, 2), (3, 3)]) // size announcement
                    | (r.weighted(&[(0, 8), (1, 4), (2, 3), (3, 3), (4, 2), (5, 2), (6, 1)]) << 2)
                    | (r.below(2) << 5)
                    | (r.below(2) << 7)
                    | (r.below(8) << 8)
                    | (r.below(nt) << 16);
            }
            "store" => {
                o.b = r.below(3);
                o.d = r.below(64);
            }
            "clone" | "clonefrom" | "swap" | "eq" | "rel" | "oper" | "pair" => {
                o.b = r.below(8);
                o.c = r.below(12);
            }
            _ => {}
        }
        match name {
            "iter" | "itermut" | "intoiter" | "pair" => o.script = gen_script(r, sizes),
            "disjoint" => {
                let k = r.weighted(&[(0, 1), (1, 1), (2, 6), (3, 6), (4, 4), (5, 3)]);
                let k = if r.chance(1, 12) { *r.pick(&[8, 17, 70, 70]) } else { k };
                let pool: Vec<u64> = (0..4).map(|_| r.next()).collect();
                // neighbours: no repeats, if there are enough keys
                let (row, start) = (k > 5 && r.chance(3, 4), r.next());
                let odd = if r.chance(1, 2) { r.below(k.max(1)) } else { u64::MAX };
                o.script = (0..k)
                    .map(|i| {
                        if row && i != odd {
                            return (start.wrapping_add(i) << 8) | (r.below(4) << 4);
                        }
                        let x = if r.chance(1, 3) { *r.pick(&pool) } else { r.next() };
                        let how = r.weighted(&[(0, 6), (5, 2), (6, 1), (7, 1)]);
                        ((x >> 8) << 8) | (r.below(4) << 4) | how
                    })
                    .collect();
            }
            "iter2" => {}
            _ => {}
        }
        if r.below(100) < fault_pct(prop) {
            o.fault = Some(fault(r));
        }
        p.ops.push(o);
    }
}

pub fn bh(r: &mut Rng, p: &Plan) -> u64 {
    // bad hashers are quadratic, so only for small collections
    let big = p.lists.iter().map(Vec::len).max().unwrap_or(0);
    if big > 150 {
        let strings = p.targets.iter().any(|x| x.contains("String"));
        *r.pick(if big > 1800 && strings { &[0, 1] } else if big > 1800 { &[0, 1, 6] } else { &[0, 1, 6, 5] })
    } else {
        r.below(u64::from(BH_MODES))
    }
}

pub fn fault(r: &mut Rng) -> Fault {
    Fault { pick: r.below(60), sel: if r.chance(1, 3) { r.below(4) } else { r.below(1 << 20) }, err: r.chance(1, 3), class: None }
}

/// The types a collection of this type can meet.
pub fn peers_of(t: &Target, std: bool, low: bool) -> Vec<&'static Target> {
    if t.peers.is_empty() {
        all_targets().iter().filter(|x| x.group == t.group && (!x.low() || low) && x.is_set == t.is_set && (!x.std || std) && x.fixed.is_none() && !x.peer_only).collect()
    } else {
        all_targets().iter().filter(|x| x.name == t.name || t.peers.contains(&x.name)).collect()
    }
}

/// The keys a run is about: anything, or those of the generated collection it uses.
pub fn first_list(r: &mut Rng, t: &Target, n: u64) -> Vec<u64> {
    let Some(f) = t.fixed else { return gen_list(r, t, n) };
    let mut ids = (f.ids)();
    if ids.is_empty() {
        // numbered families: the entries are the same in every run
        ids = (f.entries)().iter().map(|e| e.0).collect();
    }
    let keep = r.below(4);
    ids.retain(|_| keep == 0 || r.below(4) != 0);
    if r.chance(1, 2) {
        for i in (1..ids.len()).rev() {
            ids.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    ids
}

/// A plan for the history engine.
pub fn gen_history(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let ts = all_targets();
    let want_sets = match prop {
        "C08" => true,
        "C03" => r.chance(1, 6),
        "C05" => false,
        "C01" | "C02" | "C07" | "C13" | "C14" | "C10" | "C11" | "C12" => r.chance(2, 5),
        "C04" | "C06" | "C15" => r.chance(1, 3),
        _ => r.chance(1, 3),
    };
    // properties that hold for generated collections as for any other
    let generated = prop == "C17" || !matches!(prop, "C11" | "C16") && r.chance(1, 6);
    let fixed: Vec<&Target> = ts.iter().filter(|t| t.fixed.is_some() && t.is_set == want_sets && (prop != "C12" || !t.group.contains("FRef"))).collect();
    let generated = generated && !fixed.is_empty();
    let cands: Vec<&Target> = if generated {
        fixed
    } else {
        ts.iter()
            .filter(|t| !t.std && !t.peer_only && t.fixed.is_none() && t.is_set == want_sets && (prop != "C11" || t.de.is_some()) && (prop != "C16" || !t.low() && !t.odd()) && (prop != "C12" || !t.odd()))
            .collect()
    };
    if cands.is_empty() {
        return Plan { prop: prop.into(), seed, sim: "history".into(), ..Plan::default() };
    }
    // user-defined keys matter most where callbacks can fail
    let mut t = *r.pick(&cands);
    if !generated && t.fam == "scalar" && !t.group.contains("Sim") && r.chance(if fault_pct(prop) > 0 { 3 } else { 2 }, 4) {
        t = *r.pick(&cands);
    }
    if (t.low() || t.odd()) && r.chance(if t.low() { 2 } else { 1 }, 3) {
        t = *r.pick(&cands);
    }
    if matches!(prop, "C03" | "C05") && !generated && !want_sets && r.chance(1, 10) {
        // the library's traits are implemented for the standard maps too
        let std: Vec<&Target> = ts.iter().filter(|t| t.std && !t.is_set).collect();
        t = *r.pick(&std);
    }
    let huge = matches!(prop, "C01" | "C16") && r.chance(1, 2500);
    if huge && r.chance(2, 3) {
        let keyed: Vec<&Target> = cands.iter().copied().filter(|t| t.fam == "key").collect();
        if !keyed.is_empty() {
            t = *r.pick(&keyed);
        }
    }
    if prop == "C15" {
        // only user-defined key types can lie
        for _ in 0..1000 {
            if t.fam != "scalar" || t.group.contains("Sim") {
                break;
            }
            t = *r.pick(&cands);
        }
    }
    let sim = if prop == "C15" { "byz" } else { "history" };
    let mut p = Plan { prop: prop.into(), seed, sim: sim.into(), ..Plan::default() };
    p.targets.push(t.name.into());
    let peers = peers_of(t, matches!(prop, "C08" | "C03" | "C04" | "C14" | "C17"), prop != "C16");
    let extra = match prop {
        "C08" | "C14" => r.range(1, 3),
        "C03" | "C04" | "C07" | "C13" | "C12" | "C15" | "C17" => r.below(3),
        _ => 0,
    };
    for _ in 0..extra {
        p.targets.push(r.pick(&peers).name.into());
    }
    p.knobs.insert("shape".into(), r.below(10));
    p.knobs.insert("bhseed".into(), r.next() >> 8);
    let big = matches!(prop, "C01" | "C16" | "C14" | "C03" | "C08" | "C13");
    let stored = matches!(prop, "C10" | "C11" | "C12") && r.chance(1, if prop == "C11" { 50 } else { 120 });
    // more entries than sixteen bits can count
    let vast = stored && prop != "C11" && t.fam != "str" && t.fixed.is_none() && (t.canon)(u64::MAX) > 100_000 && r.chance(1, if prop == "C10" { 7 } else { 15 });
    let n = if huge || vast { r.range(if vast { 65_537 } else { 65_000 }, 70_000) } else if stored { *r.pick(&[1000, 1100, 1800, 2100, 4050, 4200, 5000, 8300]) + r.below(100) } else { pick_size(&mut r, big) };
    let l = first_list(&mut r, t, n);
    p.lists.push(l);
    for _ in 0..if n > 5000 { 1 } else { r.range(1, 3) } {
        let l = gen_related(&mut r, t, &p.lists[0]);
        p.lists.push(l);
    }
    let bhm = bh(&mut r, &p);
    p.knobs.insert("bh".into(), bhm);
    let biggest = p.lists.iter().map(Vec::len).max().unwrap_or(0) as u64;
    if t.fam == "str" && t.fixed.is_none() && biggest <= 60 && prop != "C16" && r.chance(1, 6) {
        // long strings
        p.knobs.insert("shape".into(), 10 + r.below(5));
    }
    let count = match (prop, biggest) {
        ("C10" | "C12", 60_000..) => 1,
        ("C10" | "C11" | "C12", 900..) => r.range(1, 4),
        (_, 5000..) => r.range(0, 2),
        ("C01" | "C16", 300..) => r.range(0, 3),
        ("C01" | "C16" | "C02", _) => r.range(1, 8),
        (_, 300..) => r.range(2, 8),
        (_, 100..) => r.range(3, 14),
        _ => r.range(4, 30),
    };
    gen_ops(&mut r, prop, &mut p, count, biggest);
    if stored {
        // mostly undamaged: damage is found out about in small documents
        for o in &mut p.ops {
            if o.op == "source" && r.chance(2, 3) {
                o.d = o.d & !(7 << 2) | 1 << 8;
            }
        }
    }
    if prop == "C15" {
        let mut m = 0u64;
        while m == 0 {
            for c in crate::byz::MASKS {
                if r.chance(2, 5) {
                    m |= 1 << c as u64;
                }
            }
        }
        p.knobs.insert("byz".into(), m);
        for o in &mut p.ops {
            if r.chance(1, 3) {
                o.d |= 0x40;
            }
        }
    }
    p
}
