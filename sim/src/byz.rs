//! Histories over keys whose trait implementations contradict themselves. No answer is right or wrong here; what counts
//! is that nothing outside the collections is touched, nothing is destroyed twice or used afterwards, and no two mutable
//! references to one value exist at the same time.

use crate::engine::{NSLOT, Stats, all_targets, drop_lib, hash_str, size_class, target_index};
use crate::maps::{Q, Req, SimMap};
use crate::plan::{Op, Plan};
use crate::serde_sim::{FmtSink, SerTo, SimWriter};
use crate::types::SimBH;
use crate::world::{self, Cb, Out, Res, Viol, attempt, begin_op, ctl, fresh_val, mix};
use crate::{alloc as simalloc, ensure};
use std::collections::BTreeSet;

/// Only these count; everything else is the user's own fault.
fn fatal(v: Viol) -> Res {
    if v.class.starts_with("memory") || v.class.starts_with("release") || v.class == "alias" {
        Err(v)
    } else {
        world::clear_pending();
        Ok(())
    }
}

fn tolerate<T>(r: Res<Out<T>>) -> Res<Option<T>> {
    match r {
        Ok(Out::Ok(v)) => Ok(Some(v)),
        Ok(_) => Ok(None),
        Err(v) => fatal(v).map(|()| None),
    }
}

fn memory() -> Res {
    if let Err(v) = world::check_pending() {
        fatal(v)?;
    }
    match simalloc::corruption() {
        Some(c) => Err(Viol::new("memory", c)),
        None => Ok(()),
    }
}

struct S {
    m: Box<dyn SimMap>,
    t: usize,
}

fn walk(m: &dyn SimMap) -> Res {
    let cap = 100_000;
    tolerate(attempt(|| {
        let mut it = m.iter(0);
        let mut n = 0;
        while it.next().is_some() && n < cap {
            n += 1;
        }
    }))?;
    memory()
}

pub fn run(plan: &Plan, stats: &mut Stats) -> Res {
    let mut ts = Vec::new();
    for n in &plan.targets {
        ts.push(target_index(n).ok_or_else(|| Viol::new("harness", format!("unknown target {n}")))?);
    }
    let c = ctl();
    c.shape.set(plan.knob("shape"));
    c.bh_mode.set(plan.knob("bh") as u8);
    c.bh_seed.set(plan.knob("bhseed"));
    let mask = plan.knob("byz");
    let mut slots: Vec<Option<S>> = (0..NSLOT).map(|_| None).collect();
    for (i, op) in plan.ops.iter().enumerate() {
        stats.ops += 1;
        begin_op();
        c.budget.set(200_000);
        // some operations run under honest answers, so that later lies meet well-formed structures
        c.byz_mask.set(if op.d & 0x40 == 0 { mask } else { 0 });
        let r = exec(plan, i, op, &ts, &mut slots, stats);
        stats.callbacks += c.total.get();
        let r = match r {
            Ok(()) => memory(),
            Err(v) => fatal(v),
        };
        c.byz_mask.set(0);
        if let Err(v) = r {
            std::mem::forget(slots);
            return Err(crate::engine::prefix(&op.op, v));
        }
        for s in slots.iter().flatten() {
            begin_op();
            if let Err(v) = walk(s.m.as_ref()) {
                std::mem::forget(slots);
                return Err(crate::engine::prefix(&op.op, v));
            }
        }
    }
    begin_op();
    for s in &mut slots {
        if let Some(s) = s.take() {
            tolerate(attempt(move || drop_lib(s.m))).map_err(|v| crate::engine::prefix("end", v))?;
        }
    }
    simalloc::flush();
    let n = c.run_byz.get();
    if n > 0 {
        *stats.fired.entry("inconsistent-answer".into()).or_default() += n;
    }
    memory().map_err(|v| crate::engine::prefix("end", v))
}

fn exec(plan: &Plan, i: usize, op: &Op, ts: &[usize], slots: &mut [Option<S>], stats: &mut Stats) -> Res {
    let all = all_targets();
    let name = op.op.as_str();
    if name == "build" {
        let t = ts[(op.d >> 8) as usize % ts.len()];
        let tg = &all[t];
        let list = if plan.lists.is_empty() { &[][..] } else { &plan.lists[op.a as usize % plan.lists.len()][..] };
        let e: Vec<(u64, u64, u64)> = if let Some(f) = tg.fixed { (f.entries)() } else { list.iter().map(|k| ((tg.canon)(*k), 0, if tg.is_set { 0 } else { fresh_val() })).collect() };
        let bh = SimBH { mode: (op.d & 0x3f) as u8 % crate::types::BH_MODES, seed: mix(op.d, op.b) };
        let req = Req { entries: &e, path: op.b, hint: op.c % 16, bh };
        let slot = op.c as usize / 16 % NSLOT;
        if let Some(o) = slots[slot].take() {
            tolerate(attempt(move || drop_lib(o.m)))?;
        }
        let r = attempt(|| (tg.build)(&req));
        let kind = r.as_ref().map_or("violation", |o| o.kind());
        world::log(|| format!("{i} build slot{slot} {} from {} entries -> {kind}", tg.name, e.len()));
        stats.cov(&[81, t as u64, size_class(e.len()), op.b % 8, hash_str(kind)]);
        slots[slot] = tolerate(r)?.map(|m| S { m, t });
        return Ok(());
    }
    let live: Vec<usize> = (0..slots.len()).filter(|x| slots[*x].is_some()).collect();
    if live.is_empty() {
        return Ok(());
    }
    let s = live[op.a as usize % live.len()];
    let s2 = live[op.b as usize % live.len()];
    let t = slots[s].as_ref().unwrap().t;
    let tg = &all[t];
    let list = if plan.lists.is_empty() { &[7][..] } else { &plan.lists[op.c as usize % plan.lists.len()][..] };
    let key = |x: u64| (tg.canon)(if list.is_empty() || x % 5 == 4 { x >> 8 } else { list[(x >> 3) as usize % list.len()].wrapping_add((x % 5) / 3) });
    let q = Q { id: key(op.b >> 8), mode: (op.d & 3) as u8, variant: op.c % 3 };
    stats.cov(&[82, hash_str(name), t as u64, size_class(list.len()), op.d & 3]);
    world::log(|| format!("{i} {name} slot{s} {q:?}"));
    let is_set = tg.is_set;
    match name {
        "get" => drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.get(q)))?),
        "contains" => drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.contains(q)))?),
        "getkv" => drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.get_kv(q)))?),
        "index" if !is_set => drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.index(q)))?),
        "set" if !is_set => {
            let v = fresh_val();
            tolerate(attempt(|| slots[s].as_mut().unwrap().m.set(q, v)))?;
        }
        "disjoint" if !is_set => {
            let qs: Vec<Q> = op.script.iter().take(crate::maps::width(op.script.len())).map(|w| Q { id: key(*w), mode: q.mode, variant: (w >> 4) % 3 }).collect();
            let mut twice = None;
            let m = &mut slots[s].as_mut().unwrap().m;
            tolerate(attempt(|| {
                m.disjoint(&qs, false, &mut |r| {
                    let mut addrs = BTreeSet::new();
                    for (k, x) in r.iter_mut().enumerate() {
                        if let Some(v) = x {
                            let _ = v.get();
                            if v.addr() != 0 && !addrs.insert(v.addr()) {
                                twice = Some(k);
                            }
                        }
                    }
                });
            }))?;
            ensure!(twice.is_none(), "alias", "two mutable references to one value were handed out (position {twice:?})");
        }
        "itermut" if !is_set => {
            let m = &mut slots[s].as_mut().unwrap().m;
            let mut twice = false;
            tolerate(attempt(|| {
                let mut it = m.iter_mut(op.b);
                let mut addrs = BTreeSet::new();
                while let Some(x) = it.next() {
                    twice |= x.addr != 0 && !addrs.insert(x.addr);
                }
            }))?;
            ensure!(!twice, "alias", "iter_mut handed out one value twice");
        }
        "clone" => {
            let c = tolerate(attempt(|| slots[s].as_ref().unwrap().m.clone_box()))?;
            let d = op.b as usize % NSLOT;
            if let Some(m) = c {
                if let Some(o) = slots[d].replace(S { m, t }) {
                    tolerate(attempt(move || drop_lib(o.m)))?;
                }
            }
        }
        "eq" => drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.eq_dyn(slots[s2].as_ref().unwrap().m.as_ref())))?),
        "eqstd" => {
            let e: Vec<(u64, u64)> = list.iter().take(50).map(|k| ((tg.canon)(*k), 0)).collect();
            tolerate(attempt(|| slots[s].as_ref().unwrap().m.eq_std(&e, op.d)))?;
        }
        "rel" | "oper" | "pair" if is_set => {
            let (a, b) = (slots[s].as_ref().unwrap(), slots[s2].as_ref().unwrap());
            if all[a.t].group == all[b.t].group && all[b.t].is_set {
                match name {
                    "rel" => drop(tolerate(attempt(|| a.m.rel(op.c, b.m.as_ref())))?),
                    "oper" => drop(tolerate(attempt(|| a.m.oper(op.c, b.m.as_ref())))?),
                    _ => {
                        tolerate(attempt(|| {
                            if let Some(mut it) = a.m.pair(op.c, b.m.as_ref()) {
                                for _ in 0..(op.script.len()) {
                                    it.next();
                                    it.hint();
                                }
                                if let Some(c) = it.clone_box() {
                                    c.count();
                                }
                                let mut n = 0;
                                it.fold(&mut |_| n += 1);
                            }
                        }))?;
                    }
                }
            }
        }
        "intoiter" => {
            let m = slots[s].take().unwrap().m;
            tolerate(attempt(|| {
                let mut it = m.into_iter(op.b);
                for _ in 0..op.script.len() {
                    it.next();
                }
                it.hint();
            }))?;
        }
        "drop" => {
            let m = slots[s].take().unwrap().m;
            tolerate(attempt(|| drop_lib(m)))?;
        }
        "debug" => {
            let mut k = FmtSink::default();
            let _ = tolerate(attempt(|| slots[s].as_ref().unwrap().m.debug(&mut k, op.b & 1 != 0)))?;
        }
        "ser" if crate::engine::can_ser(tg) => {
            let mut w = SimWriter::default();
            drop(tolerate(attempt(|| slots[s].as_ref().unwrap().m.ser(&mut SerTo { fmt: (op.b % 3) as u8, w: &mut w })))?);
        }
        "iter" => walk(slots[s].as_ref().unwrap().m.as_ref())?,
        _ => {}
    }
    Ok(())
}

pub const MASKS: [Cb; 6] = [Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Clone];
