//! The history engine: several live collections, any operation on any of them, any callback as a fault point; a plain
//! reference model decides what every operation must return and what every collection must contain afterwards.

use crate::ensure;
use crate::iters::{Driven, Expect, Item, drive};
use crate::maps::{Q, Req, SimMap, Target, targets};
use crate::plan::{Op, Plan};
use crate::serde_sim::{FmtSink, SerTo, SimWriter, parse_doc};
use crate::types::SimBH;
use crate::world::{self, CB_NAMES, Cb, NCB, Out, Res, Viol, attempt, begin_op, counts, ctl, fresh_val, mix, must};
use crate::alloc as simalloc;
use std::collections::{BTreeMap, BTreeSet};

pub type Model = BTreeMap<u64, (u64, u64)>;

pub struct Slot {
    pub m: Box<dyn SimMap>,
    pub model: Model,
    pub t: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: u64,
    pub fired: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub notes: BTreeMap<String, u64>,
    pub callbacks: u64,
}

impl Stats {
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n;
    }
    pub fn cov(&mut self, parts: &[u64]) {
        let mut h = 7;
        for p in parts {
            h = mix(h, *p);
        }
        self.cover.insert(h);
    }
}

pub const NSLOT: usize = 4;

pub fn all_targets() -> &'static [Target] {
    use std::sync::OnceLock;
    struct W(Vec<Target>);
    // SAFETY: targets hold only function pointers and static strings
    unsafe impl Sync for W {}
    unsafe impl Send for W {}
    static T: OnceLock<W> = OnceLock::new();
    &T.get_or_init(|| {
        let mut t = targets();
        if let Some(f) = MORE.get() {
            t.extend(f());
        }
        W(t)
    })
    .0
}

/// Further types under simulation, named before the first run: the compile-time generated collections.
pub static MORE: std::sync::OnceLock<fn() -> Vec<Target>> = std::sync::OnceLock::new();

pub fn target_index(name: &str) -> Option<usize> {
    all_targets().iter().position(|t| t.name == name)
}

pub struct Engine<'p> {
    pub plan: &'p Plan,
    pub slots: Vec<Option<Slot>>,
    pub stats: Stats,
    pub ts: Vec<usize>,
    /// some injected fault has fired in this run
    pub faulted: bool,
    pub check_bounds: bool,
    pub next_tag: u64,
    /// keys and values lost to a destructor that panicked while a function was returning (a compiler limitation)
    pub lost: (i64, i64),
    pub tolerate: bool,
    /// allocations that may have gone the same way
    pub lost_blocks: i64,
    /// the first so many slots are shared with other threads and only read
    pub shared: usize,
}

pub fn size_class(n: usize) -> u64 {
    match n {
        0..=3 => n as u64,
        4..=7 => 4,
        8..=16 => 5,
        17..=64 => 6,
        65..=128 => 7,
        129..=256 => 8,
        257..=1000 => 9,
        _ => 10,
    }
}

/// The fault classes that make sense for an operation.
pub fn applicable(op: &str, prop: &str) -> &'static [Cb] {
    match op {
        "build" if prop == "C09" => &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Next, Cb::Build],
        "oper" if prop == "C09" => &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::Build, Cb::Clone],
        "clone" | "clonefrom" if prop == "C09" => &[Cb::Clone],
        "intoiter" | "drop" | "default" if prop == "C09" => &[],
        "build" if prop == "C07" => {
            &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Next, Cb::Build, Cb::Alloc, Cb::Clone, Cb::Drop]
        }
        "build" => &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Next, Cb::Build, Cb::Alloc, Cb::Clone],
        "get" | "contains" | "getkv" | "index" | "set" | "disjoint" | "eq" | "eqstd" | "rel" => {
            &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Build]
        }
        "iter" | "itermut" => &[Cb::Fmt],
        "pair" => &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::Build, Cb::Fmt],
        "oper" => &[Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::Build, Cb::Clone, Cb::Alloc],
        "clone" | "clonefrom" if prop == "C07" => &[Cb::Clone, Cb::Alloc, Cb::Drop],
        "clone" | "clonefrom" => &[Cb::Clone, Cb::Alloc],
        "intoiter" | "drop" | "default" => &[Cb::Drop],
        "debug" => &[Cb::Fmt],
        "ser" => &[Cb::Ser],
        "sink" => &[Cb::Fmt, Cb::Ser],
        "source" => &[Cb::De, Cb::Hash, Cb::Eq, Cb::Cmp, Cb::Index, Cb::AsRef, Cb::Build, Cb::Alloc],
        _ => &[],
    }
}

impl<'p> Engine<'p> {
    pub fn new(plan: &'p Plan) -> Res<Self> {
        let mut ts = Vec::new();
        for n in &plan.targets {
            match target_index(n) {
                Some(i) => ts.push(i),
                None => return Err(Viol::new("harness", format!("unknown target {n}"))),
            }
        }
        ctl().flat_vals.set(ts.first().is_some_and(|t| all_targets()[*t].flat()));
        ctl().shape.set(plan.knob("shape"));
        ctl().bh_mode.set(plan.knob("bh") as u8);
        ctl().bh_seed.set(plan.knob("bhseed"));
        Ok(Self {
            plan,
            slots: (0..NSLOT).map(|_| None).collect(),
            stats: Stats::default(),
            ts,
            faulted: false,
            check_bounds: plan.prop == "C16",
            next_tag: 1,
            lost: (0, 0),
            tolerate: false,
            lost_blocks: 0,
            shared: 0,
        })
    }

    pub fn target(&self, i: usize) -> &'static Target {
        &all_targets()[i]
    }

    /// The entries a list stands for: key number, entry number, value.
    pub fn entries(&mut self, list: u64, t: usize) -> Vec<(u64, u64, u64)> {
        let tg = self.target(t);
        if let Some(f) = tg.fixed {
            return (f.entries)();
        }
        if self.plan.lists.is_empty() {
            return Vec::new();
        }
        let plan = self.plan;
        self.entries_of(&plan.lists[list as usize % plan.lists.len()], t)
    }

    fn entries_of(&mut self, l: &[u64], t: usize) -> Vec<(u64, u64, u64)> {
        let tg = self.target(t);
        let mut v = Vec::with_capacity(l.len());
        for id in l.iter().take(tg.max_len as usize) {
            self.next_tag += 1;
            v.push(((tg.canon)(*id), if tg.tracked { self.next_tag } else { 0 }, if tg.is_set { 0 } else { fresh_val() }));
        }
        v
    }

    pub fn model_of(e: &[(u64, u64, u64)]) -> Model {
        e.iter().map(|(k, t, v)| (*k, (*v, *t))).collect()
    }

    /// Runs the whole plan.
    pub fn run(&mut self) -> Res {
        let plan = self.plan;
        for (i, op) in plan.ops.iter().enumerate() {
            self.exec(i, op).map_err(|v| prefix(&op.op, v))?;
        }
        self.finish().map_err(|v| prefix("end", v))
    }

    pub fn finish(&mut self) -> Res {
        begin_op();
        for i in 0..self.slots.len() {
            let s = self.slots[i].take();
            if let Some(s) = s {
                must("drop", attempt(move || drop_lib(s.m))?)?;
            }
        }
        self.ledger()?;
        let (blocks, bytes) = simalloc::live();
        ensure!(blocks <= self.lost_blocks || self.tolerate, "leak", "{blocks} allocations ({bytes} bytes) made by the library were never released");
        simalloc::flush();
        if let Some(c) = simalloc::corruption() {
            return Err(Viol::new("memory", c));
        }
        Ok(())
    }

    /// Every key and value alive must be owned by a live collection.
    pub fn ledger(&self) -> Res {
        world::check_pending()?;
        if let Some(c) = simalloc::corruption() {
            return Err(Viol::new("memory", c));
        }
        if self.shared > 0 || !crate::run::relevant(&self.plan.prop, "any/release:keys") {
            // other threads own keys and values, too; the books are balanced at the end. Or the books are no matter of
            // this property, and the run goes on to what is
            return Ok(());
        }
        let mut k = 0;
        let mut v = 0;
        for s in self.slots.iter().flatten() {
            let t = self.target(s.t);
            if t.tracked {
                k += s.model.len() as i64;
            }
            if !t.is_set {
                v += s.model.len() as i64;
            }
        }
        let c = ctl();
        k += self.lost.0;
        v += self.lost.1;
        ensure!(c.live_keys.get() == k, "release:keys", "{} keys are alive, but the live collections own {k}", c.live_keys.get());
        ensure!(c.live_vals.get() == v, "release:values", "{} values are alive, but the live collections own {v}", c.live_vals.get());
        Ok(())
    }

    /// After a destructor panicked inside a larger function, what is missing may be the compiler's loss; what was
    /// destroyed twice never is.
    fn resync(&mut self) {
        if ctl().run_fired[Cb::Drop as usize].get() == 0 {
            return;
        }
        self.tolerate = true;
        self.lost = (0, 0);
        let c = ctl();
        let (mut k, mut v) = (0, 0);
        for s in self.slots.iter().flatten() {
            let t = self.target(s.t);
            k += if t.tracked { s.model.len() as i64 } else { 0 };
            v += if t.is_set { 0 } else { s.model.len() as i64 };
        }
        self.lost = ((c.live_keys.get() - k).max(0), (c.live_vals.get() - v).max(0));
    }

    /// The same for a consuming iterator over one half of the entries: when the destructor of the other half panics,
    /// the compiler loses the one item that was about to be returned.
    fn resync_one(&mut self) {
        if !world::fired() || ctl().run_fired[Cb::Drop as usize].get() == 0 {
            return;
        }
        self.lost_blocks += 1;
        let c = ctl();
        let (mut k, mut v) = self.lost;
        for s in self.slots.iter().flatten() {
            let t = self.target(s.t);
            k += if t.tracked { s.model.len() as i64 } else { 0 };
            v += if t.is_set { 0 } else { s.model.len() as i64 };
        }
        self.lost.0 += i64::from(c.live_keys.get() == k + 1);
        self.lost.1 += i64::from(c.live_vals.get() == v + 1);
    }

    pub fn pick_slot(&self, x: u64) -> Option<usize> {
        let live: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
        if live.is_empty() { None } else { Some(live[x as usize % live.len()]) }
    }

    /// A live collection that may be changed.
    fn pick_own(&self, x: u64) -> Option<usize> {
        let live: Vec<usize> = (self.shared..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
        if live.is_empty() { None } else { Some(live[x as usize % live.len()]) }
    }

    /// A slot that may be filled.
    fn dest(&self, x: u64) -> usize {
        self.shared + x as usize % (NSLOT - self.shared)
    }

    /// Compares everything observable about a collection with the model.
    pub fn audit(&self, i: usize, full: bool) -> Res {
        let Some(s) = &self.slots[i] else { return Ok(()) };
        audit(s.m.as_ref(), &s.model, self.target(s.t), full, ctl().steps.get())
    }

    fn audit_after(&mut self, touched: &[usize], i: usize) -> Res {
        begin_op();
        self.ledger()?;
        let all = if self.shared > 0 { ctl().fired.get() } else { total_fired() > 0 || i % 4 == 3 };
        for s in 0..self.slots.len() {
            if touched.contains(&s) {
                self.audit(s, false).map_err(|v| sub("content", v))?;
            } else if all {
                self.audit(s, false).map_err(|v| sub("other", v))?;
            }
        }
        Ok(())
    }

    pub fn exec(&mut self, i: usize, op: &Op) -> Res {
        self.stats.ops += 1;
        begin_op();
        let name = op.op.as_str();
        let mut armed = None;
        let plain = match name {
            "build" => self.target(self.ts[(op.d >> 8) as usize % self.ts.len()]).std,
            "clonefrom" | "drop" | "default" | "intoiter" => {
                self.pick_own(op.a).is_some_and(|s| self.target(self.slots[s].as_ref().unwrap().t).std)
            }
            "clone" => {
                self.pick_slot(op.a).is_some_and(|s| self.target(self.slots[s].as_ref().unwrap().t).std)
            }
            _ => false,
        };
        // the standard collections are partners here, not subjects
        if let Some(f) = op.fault.as_ref().filter(|_| !plain) {
            // rehearse without the fault to learn how often each callback is invoked
            let saved_tag = self.next_tag;
            let n = self.perform(op, true, i)?;
            self.next_tag = saved_tag;
            begin_op();
            self.ledger().map_err(|v| sub("rehearsal", v))?;
            if let Some(n) = n {
                let cl: Vec<Cb> = applicable(name, if self.plan.sim == "threads" { "C09" } else { &self.plan.prop })
                    .iter()
                    .copied()
                    .filter(|c| n[*c as usize] > 0 && f.class.as_ref().is_none_or(|x| x == CB_NAMES[*c as usize]))
                    .collect();
                if !cl.is_empty() {
                    let c = cl[f.pick as usize % cl.len()];
                    let nth = f.sel % n[c as usize];
                    armed = Some((c, nth, f.err && matches!(c, Cb::Fmt | Cb::Ser | Cb::De)));
                }
            }
        }
        begin_op();
        if let Some((c, nth, err)) = armed {
            ctl().pend.set(Some((c, nth)));
            ctl().fault_err.set(err);
            world::log(|| format!("   fault: {} number {nth}{}", CB_NAMES[c as usize], if err { " returns an error" } else { " fails" }));
        }
        let before = total_fired();
        let r = self.perform(op, false, i);
        world::disarm();
        ctl().pend.set(None);
        if total_fired() > before {
            self.faulted = true;
            if let Some((c, _, _)) = armed {
                *self.stats.fired.entry(CB_NAMES[c as usize].into()).or_default() += 1;
                let n = self.plan.lists.first().map_or(0, Vec::len);
                self.stats.cov(&[99, c as u64, hash_str(name), self.ts[0] as u64, size_class(n)]);
            }
        }
        self.stats.callbacks += ctl().total.get();
        r.map(|_| ())
    }

    /// What a fault outcome means. Returns true if the operation completed normally.
    fn completed<T>(&self, what: &str, out: Out<T>) -> Res<Option<T>> {
        let fired = world::fired();
        match out {
            Out::Ok(v) => {
                if fired && ctl().run_fired[Cb::Alloc as usize].get() == 0 && !ctl().fault_err.get() {
                    return Err(Viol::new("swallowed", format!("{what} reported success although user code it called panicked")));
                }
                Ok(Some(v))
            }
            Out::Fault | Out::Panic(_) if fired => Ok(None),
            o => must(what, o).map(Some),
        }
    }

    fn steps(&self, what: &str, n: usize, t: usize, build: bool) -> Res {
        if !self.check_bounds || world::fired() {
            return Ok(());
        }
        let c = counts();
        let n = n as u64;
        let g = |x: Cb| c[x as usize];
        if build {
            let total = ctl().total.get();
            let max = 8 * n * n + 1024 * n + 16384;
            ensure!(total <= max, "steps", "{what} of {n} entries made {total} callbacks");
        } else {
            let log = 64 - (n + 1).leading_zeros() as u64;
            ensure!(g(Cb::Eq) <= 2 * n + 4, "steps", "{what} in {n} entries made {} equality tests", g(Cb::Eq));
            ensure!(g(Cb::Hash) <= 2 * n + 8 && g(Cb::Build) <= 2 * n + 8, "steps", "{what} in {n} entries hashed {} times", g(Cb::Hash));
            ensure!(g(Cb::Index) <= 2 * n + 8, "steps", "{what} in {n} entries took {} scalar indexes", g(Cb::Index));
            ensure!(g(Cb::AsRef) <= 2 * n + 16, "steps", "{what} in {n} entries converted its key {} times", g(Cb::AsRef));
            let _ = t;
            ensure!(g(Cb::Cmp) <= (2 * log + 8).max(if n <= 16 { 2 * n + 8 } else { 0 }), "steps", "{what} in {n} entries made {} comparisons", g(Cb::Cmp));
        }
        Ok(())
    }

    fn q(&self, s: usize, op: &Op) -> Q {
        let sl = self.slots[s].as_ref().unwrap();
        let canon = self.target(sl.t).canon;
        Q { id: canon(pick_key(&sl.model, op.b, op.c)), mode: (op.d & 3) as u8, variant: op.d >> 2 }
    }

    /// Performs one operation; in a rehearsal nothing may change and the callback counts are returned.
    #[allow(clippy::too_many_lines)]
    fn perform(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let name = op.op.as_str();
        match name {
            "build" => return self.op_build(op, dry, i),
            "drop" | "intoiter" | "default" => return self.op_consume(op, dry, i),
            "sink" => return self.op_sink(op, dry, i),
            "source" => return self.op_source(op, dry, i),
            "store" => return if dry { Ok(None) } else { self.op_store(op, i).map(|()| None) },
            "set" | "disjoint" | "itermut" | "clonefrom" => return self.op_mutate(op, dry, i),
            "swap" => {
                if dry {
                    return Ok(None);
                }
                let (Some(x), Some(y)) = (self.pick_own(op.a), self.pick_own(op.b)) else { return Ok(None) };
                if x == y {
                    return Ok(None);
                }
                let mut sy = self.slots[y].take().unwrap();
                let sx = self.slots[x].as_mut().unwrap();
                let out = attempt(|| sx.m.swap_dyn(sy.m.as_mut()))?;
                if must("swap", out)? {
                    std::mem::swap(&mut sx.model, &mut sy.model);
                }
                self.slots[y] = Some(sy);
                self.audit_after(&[x, y], i)?;
                return Ok(None);
            }
            _ => {}
        }
        // operations that read
        let Some(s) = self.pick_slot(op.a) else { return Ok(None) };
        let n = self.slots[s].as_ref().unwrap().model.len();
        let t = self.slots[s].as_ref().unwrap().t;
        self.stats.cov(&[hash_str(name), t as u64, size_class(n), op.d & 3]);
        let mut touched = vec![s];
        match name {
            "get" | "contains" | "getkv" | "index" => {
                let q = self.q(s, op);
                let sl = self.slots[s].as_ref().unwrap();
                let want = sl.model.get(&q.id).copied();
                match name {
                    "get" => {
                        let out = attempt(|| sl.m.get(q))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        self.steps("a lookup", n, t, false)?;
                        if let Some(got) = self.completed("get", out)? {
                            world::log(|| format!("{i} get slot{s} {q:?} -> {got:?}"));
                            ensure!(got == want.map(|w| w.0), "result", "get({}) = {got:?}, expected {:?}", q.id, want.map(|w| w.0));
                        }
                    }
                    "contains" => {
                        let out = attempt(|| sl.m.contains(q))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        self.steps("a membership test", n, t, false)?;
                        if let Some(got) = self.completed("contains", out)? {
                            world::log(|| format!("{i} contains slot{s} {q:?} -> {got}"));
                            ensure!(got == want.is_some(), "result", "contains({}) = {got}, expected {}", q.id, want.is_some());
                        }
                    }
                    "getkv" => {
                        let out = attempt(|| sl.m.get_kv(q))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        self.steps("a lookup", n, t, false)?;
                        if let Some(got) = self.completed("get_key_value", out)? {
                            world::log(|| format!("{i} getkv slot{s} {q:?} -> {got:?}"));
                            let want = want.map(|w| (q.id, w.1, w.0));
                            ensure!(got == want, "result", "the entry for {} is {got:?} (key, entry, value), expected {want:?}", q.id);
                        }
                    }
                    _ => {
                        if sl.m.is_set() {
                            return Ok(None);
                        }
                        let out = attempt(|| sl.m.index(q))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        world::log(|| format!("{i} index slot{s} {} -> {}", q.id, out.kind()));
                        match (want, out) {
                            (None, Out::Panic(_)) => {}
                            (None, Out::Ok(v)) => return Err(Viol::new("result", format!("indexing the absent key {} gave {v}", q.id))),
                            (w, out) => {
                                if let Some(got) = self.completed("index", out)? {
                                    ensure!(Some(got) == w.map(|x| x.0), "result", "indexing {} gave {got}, expected {w:?}", q.id);
                                }
                            }
                        }
                    }
                }
            }
            "iter" => {
                let sl = self.slots[s].as_ref().unwrap();
                let mut its = Vec::new();
                for k in 0..(1 + op.c % 3) {
                    let kind = op.b.wrapping_add(k * 3);
                    let (keys, vals) = yields(kind, sl.m.is_set());
                    let ex = expect(&sl.model, keys, vals, self.target(t).tracked);
                    let out = attempt(|| sl.m.iter(kind))?;
                    its.push(Driven { it: Some(must("iter", out)?), ex, name: format!("iter{kind}"), writes: vec![] });
                }
                for d in &its {
                    d.ex.size(&d.name, d.it.as_ref().unwrap().hint(), d.it.as_ref().unwrap().exact_len()).map_err(|v| sub("iter", v))?;
                }
                let out = attempt(|| drive(&mut its, &op.script, 6))?;
                if dry {
                    return Ok(Some(counts()));
                }
                world::log(|| format!("{i} iter slot{s} -> {}", out.kind()));
                if let Some(r) = self.completed("iteration", out)? {
                    r?;
                    drain(&mut its)?;
                }
            }
            "clone" => {
                let sl = self.slots[s].as_ref().unwrap();
                let d = self.dest(op.b);
                let model = sl.model.clone();
                let out = attempt(|| sl.m.clone_box())?;
                if dry {
                    let c = counts();
                    world::disarm();
                    if let Out::Ok(m) = out {
                        must("drop", attempt(|| drop_lib(m))?)?;
                    } else {
                        must("clone", out.map_unit())?;
                    }
                    return Ok(Some(c));
                }
                let done = self.completed("clone", out)?;
                world::log(|| format!("{i} clone slot{s} -> slot{d} {}", done.is_some()));
                if let Some(m) = done {
                    // drop faults are for the old occupant of the destination
                    let old = self.slots[d].take();
                    self.slots[d] = Some(Slot { m, model, t });
                    if let Some(o) = old {
                        let out = attempt(move || drop_lib(o.m))?;
                        self.completed("drop", out)?;
                        self.resync();
                    }
                    touched.push(d);
                    self.stats.note("clones", 1);
                }
            }
            "eq" | "rel" | "oper" | "pair" => {
                let Some(s2) = self.pick_slot(op.b) else { return Ok(None) };
                let (a, b) = (self.slots[s].as_ref().unwrap(), self.slots[s2].as_ref().unwrap());
                if self.target(a.t).group != self.target(b.t).group || a.m.is_set() != b.m.is_set() {
                    return Ok(None);
                }
                self.stats.cov(&[hash_str(name), a.t as u64, b.t as u64, op.c % 4, overlap_class(&a.model, &b.model)]);
                match name {
                    "eq" => {
                        let want = same(&a.model, &b.model);
                        let out = attempt(|| a.m.eq_dyn(b.m.as_ref()))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        if let Some(Some(got)) = self.completed("eq", out)? {
                            world::log(|| format!("{i} slot{s} == slot{s2} -> {got}"));
                            ensure!(got == want, "result", "comparing {} with {} gives {got}, expected {want}", self.target(a.t).name, self.target(b.t).name);
                        }
                    }
                    "rel" => {
                        let want = match op.c % 3 {
                            0 => a.model.keys().all(|k| b.model.contains_key(k)),
                            1 => b.model.keys().all(|k| a.model.contains_key(k)),
                            _ => !a.model.keys().any(|k| b.model.contains_key(k)),
                        };
                        let out = attempt(|| a.m.rel(op.c, b.m.as_ref()))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        if let Some(Some(got)) = self.completed("rel", out)? {
                            let w = ["is_subset", "is_superset", "is_disjoint"][(op.c % 3) as usize];
                            world::log(|| format!("{i} slot{s} {w} slot{s2} -> {got}"));
                            ensure!(got == want, "result", "{w} gives {got}, expected {want}");
                        }
                    }
                    "oper" => {
                        let want = algebra(op.c, &a.model, &b.model);
                        let out = attempt(|| a.m.oper(op.c, b.m.as_ref()))?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        if let Some(Some(mut got)) = self.completed("oper", out)? {
                            got.sort_unstable();
                            let w = ["|", "&", "-", "^"][(op.c % 4) as usize];
                            world::log(|| format!("{i} slot{s} {w} slot{s2} -> {} elements", got.len()));
                            let ids: Vec<u64> = got.iter().map(|g| g.0).collect();
                            let wids: Vec<u64> = want.keys().copied().collect();
                            ensure!(ids == wids, "result", "operator {w} gives {ids:?}, expected {wids:?}");
                        }
                    }
                    _ => {
                        let want = algebra(op.c, &a.model, &b.model);
                        let w = ["union", "intersection", "difference", "symmetric_difference"][(op.c % 4) as usize];
                        let mut ex = Expect::default();
                        for k in want.keys() {
                            ex.add(Some(*k), None);
                        }
                        let out = attempt(|| a.m.pair(op.c, b.m.as_ref()))?;
                        let mut its = match out {
                            Out::Ok(Some(it)) => vec![Driven { it: Some(it), ex, name: w.into(), writes: vec![] }],
                            Out::Ok(None) => return Ok(None),
                            o => {
                                let _ = self.completed(w, o)?;
                                vec![]
                            }
                        };
                        let out = attempt(|| -> Res<u64> {
                            for d in &its {
                                d.ex.size(&d.name, d.it.as_ref().unwrap().hint(), None)?;
                            }
                            let mut n = drive(&mut its, &op.script, 5)?;
                            n += drain(&mut its)?;
                            Ok(n)
                        })?;
                        if dry {
                            return Ok(Some(counts()));
                        }
                        world::log(|| format!("{i} slot{s} {w} slot{s2} -> {}", out.kind()));
                        if let Some(r) = self.completed(w, out)? {
                            r?;
                        }
                    }
                }
                touched.push(s2);
            }
            "eqstd" => {
                let sl = self.slots[s].as_ref().unwrap();
                let mut e: Vec<(u64, u64)> = sl.model.iter().map(|(k, v)| (*k, v.0)).collect();
                let mut want = true;
                let x = op.c as usize;
                let canon = self.target(t).canon;
                match op.b % 5 {
                    1 if !e.is_empty() && !sl.m.is_set() && !ctl().flat_vals.get() => {
                        let l = e.len();
                        e[x % l].1 = 7;
                        want = false;
                    }
                    2 if !e.is_empty() => {
                        e.remove(x % e.len());
                        want = false;
                    }
                    3 if !e.is_empty() => {
                        let l = e.len();
                        let nk = canon(e[x % l].0.wrapping_add(1 + op.c % 5));
                        if !sl.model.contains_key(&nk) {
                            e[x % l].0 = nk;
                            want = false;
                        }
                    }
                    4 => {
                        let nk = canon(op.c);
                        if !sl.model.contains_key(&nk) {
                            e.push((nk, fresh_val()));
                            want = false;
                        }
                    }
                    _ => {}
                }
                let out = attempt(|| sl.m.eq_std(&e, op.d))?;
                if dry {
                    return Ok(Some(counts()));
                }
                if let Some(got) = self.completed("eq", out)? {
                    world::log(|| format!("{i} slot{s} == standard ({} entries) -> {got}", e.len()));
                    ensure!(got == want, "result", "comparing with a standard collection gives {got}, expected {want}");
                }
            }
            "debug" => {
                let sl = self.slots[s].as_ref().unwrap();
                let mut sink = FmtSink::default();
                let out = attempt(|| sl.m.debug(&mut sink, op.b & 1 != 0))?;
                if dry {
                    return Ok(Some(counts()));
                }
                world::log(|| format!("{i} debug slot{s} -> {}", out.kind()));
                match self.completed("debug", out)? {
                    Some(Ok(())) => {
                        ensure!(!world::fired(), "swallowed", "formatting reported success although an element refused");
                        check_debug(&sink.text, &sl.model, self.target(t), op.b & 1 != 0)?;
                    }
                    Some(Err(_)) => ensure!(world::fired(), "result", "formatting failed for no reason"),
                    None => {}
                }
            }
            "ser" => {
                let sl = self.slots[s].as_ref().unwrap();
                if !can_ser(self.target(t)) {
                    return Ok(None);
                }
                let mut w = SimWriter::default();
                let fmt = (op.b % 3) as u8;
                let out = attempt(|| sl.m.ser(&mut SerTo { fmt, w: &mut w }))?;
                if dry {
                    return Ok(Some(counts()));
                }
                world::log(|| format!("{i} serialize slot{s} -> {}", out.kind()));
                match self.completed("serialize", out)? {
                    Some(Ok(())) => {
                        ensure!(!world::fired(), "swallowed", "serialization reported success although an element refused");
                        check_doc(fmt, &w.buf, &sl.model, self.target(t))?;
                    }
                    Some(Err(e)) => ensure!(world::fired(), "result", "serialization failed for no reason: {e}"),
                    None => {}
                }
            }
            "audit" => {
                if dry {
                    return Ok(None);
                }
                begin_op();
                self.audit(s, true).map_err(|v| sub("content", v))?;
            }
            _ => return Err(Viol::new("harness", format!("unknown operation {name}"))),
        }
        world::disarm();
        self.audit_after(&touched, i)?;
        Ok(None)
    }

    fn op_build(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let t = self.ts[(op.d >> 8) as usize % self.ts.len()];
        let tg = self.target(t);
        let e = self.entries(op.a, t);
        let bh = SimBH { mode: (op.d & 0xff) as u8 % crate::types::BH_MODES, seed: mix(op.d, op.b) };
        let req = Req { entries: &e, path: op.b, hint: op.c % 16, bh };
        if !dry {
            // the slot is vacated first
            let d = self.dest(op.c / 16);
            if let Some(o) = self.slots[d].take() {
                let p = ctl().pend.take();
                must("drop", attempt(move || drop_lib(o.m))?)?;
                begin_op_keep(p);
            }
            self.ledger()?;
        }
        let base = simalloc::live();
        simalloc::reset_peak();
        let out = attempt(|| (tg.build)(&req))?;
        if dry {
            let c = counts();
            world::disarm();
            match out {
                Out::Ok(m) => must("drop", attempt(|| drop_lib(m))?)?,
                o => must("construction", o.map_unit())?,
            }
            return Ok(Some(c));
        }
        let model = Self::model_of(&e);
        self.stats.cov(&[1, t as u64, size_class(model.len()), op.b % 8, (e.len() != model.len()) as u64, spread_class(&model)]);
        let slot = self.dest(op.c / 16);
        match self.completed("construction", out)? {
            Some(m) => {
                self.steps("construction", e.len(), t, true)?;
                if self.check_bounds {
                    let peak = simalloc::peak() - base.1;
                    let now = simalloc::live().1 - base.1;
                    let max = mem_bound(e.len());
                    self.stats.note("max_peak_bytes_per_entry", 0);
                    let r = (peak as u64).saturating_sub(4096) / (e.len() as u64).max(1);
                    let cur = self.stats.notes.entry("max_peak_bytes_per_entry".into()).or_default();
                    *cur = (*cur).max(r);
                    ensure!(peak <= max, "peak", "building a collection of {} entries took {peak} bytes at its peak", e.len());
                    ensure!(now <= keep_bound(e.len()), "peak", "a collection of {} entries keeps {now} bytes", e.len());
                }
                world::log(|| format!("{i} build slot{slot} {} path {} from {} entries ({} distinct)", tg.name, op.b % 8, e.len(), model.len()));
                self.slots[slot] = Some(Slot { m, model, t });
                world::disarm();
                begin_op();
                self.ledger()?;
                self.audit(slot, true).map_err(|v| sub("content", v))?;
            }
            None => {
                world::log(|| format!("{i} build slot{slot} {} interrupted", tg.name));
                world::disarm();
                let kept = ctl().fired.get();
                begin_op();
                self.resync();
                self.ledger()?;
                let now = simalloc::live();
                let cares = crate::run::relevant(&self.plan.prop, "build/leak");
                ensure!(now.0 == base.0 || self.tolerate || self.shared > 0 || !cares, "leak", "the interrupted construction left {} allocations behind", now.0 - base.0);
                // and again, without the fault: the same entries, or others that repeat keys at other places
                let which = mix(op.c, op.b) % 4;
                let mut e = self.entries(op.a + u64::from(which == 1), t);
                if which >= 2 && tg.fixed.is_none() && !e.is_empty() {
                    let mut ids: Vec<u64> = e.iter().map(|x| x.0).collect();
                    if which == 2 {
                        ids.reverse();
                    } else {
                        let mid = ids.len() / 2;
                        ids.rotate_left(mid);
                    }
                    let again = ids[mix(op.b, op.c) as usize % ids.len()];
                    if ids.len() < tg.max_len as usize {
                        ids.push(again);
                    }
                    e = self.entries_of(&ids, t);
                }
                let req = Req { entries: &e, path: op.b, hint: op.c % 16, bh: SimBH { mode: (op.d & 0xff) as u8 % crate::types::BH_MODES, seed: mix(op.d, op.b) } };
                let m = must("construction after an interrupted one", attempt(|| (tg.build)(&req))?)?;
                self.slots[slot] = Some(Slot { m, model: Self::model_of(&e), t });
                begin_op();
                self.ledger()?;
                self.audit(slot, true).map_err(|v| sub("content", v))?;
                ctl().fired.set(kept);
            }
        }
        let f = ctl().fired.get();
        for s in 0..self.slots.len() {
            if s != slot && (f || i % 4 == 3) {
                self.audit(s, false).map_err(|v| sub("other", v))?;
            }
        }
        Ok(None)
    }

    fn op_consume(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let Some(s) = self.pick_own(op.a) else { return Ok(None) };
        let name = op.op.as_str();
        if name == "default" && !self.slots[s].as_ref().unwrap().m.has_default() {
            return Ok(None);
        }
        let mut sl = if dry {
            let o = self.slots[s].as_ref().unwrap();
            let m = must("clone", attempt(|| o.m.clone_box())?)?;
            begin_op();
            Slot { m, model: o.model.clone(), t: o.t }
        } else {
            self.slots[s].take().unwrap()
        };
        let t = sl.t;
        self.stats.cov(&[hash_str(name), t as u64, size_class(sl.model.len()), op.b % 5]);
        let c;
        match name {
            "drop" => {
                let m = sl.m;
                let out = attempt(|| {
                    world::go();
                    drop_lib(m);
                })?;
                c = counts();
                if !dry {
                    world::log(|| format!("{i} drop slot{s} -> {}", out.kind()));
                    self.completed("drop", out)?;
                }
            }
            "default" => {
                let pend = ctl().pend.take();
                let mut empty = must("default", attempt(|| sl.m.default_like())?)?;
                // replaced in place, the way mem::take does it
                must("swap", attempt(|| sl.m.swap_dyn(empty.as_mut()))?)?;
                begin_op_keep(pend);
                let out = attempt(|| {
                    world::go();
                    drop_lib(empty);
                })?;
                c = counts();
                sl.model.clear();
                if dry {
                    must("drop", attempt(|| drop_lib(sl.m))?)?;
                } else {
                    world::log(|| format!("{i} take slot{s} -> {}", out.kind()));
                    self.completed("drop", out)?;
                    self.slots[s] = Some(sl);
                }
            }
            _ => {
                let is_set = sl.m.is_set();
                let (keys, vals) = match (is_set, op.b % 5) {
                    (true, _) | (_, 1 | 3) => (true, false),
                    (_, 0) => (true, true),
                    _ => (false, true),
                };
                let mut ex = expect(&sl.model, keys, vals, self.target(t).tracked);
                ex.exact = true;
                let m = sl.m;
                let out = attempt(|| m.into_iter(op.b))?;
                let mut its = Vec::new();
                match out {
                    Out::Ok(it) => its.push(Driven { it: Some(it), ex, name: format!("into_iter{}", op.b % 5), writes: vec![] }),
                    o => {
                        self.completed("into_iter", o)?;
                    }
                }
                let mut res = Ok(0);
                let out = attempt(|| {
                    let mut r = (|| -> Res<u64> {
                        for d in &its {
                            d.ex.size(&d.name, d.it.as_ref().unwrap().hint(), d.it.as_ref().unwrap().exact_len())?;
                        }
                        let mut n = drive(&mut its, &op.script, 3)?;
                        if op.c & 1 == 0 {
                            n += drain(&mut its)?;
                        }
                        Ok(n)
                    })();
                    std::mem::swap(&mut res, &mut r);
                    let left = std::mem::take(&mut its);
                    let _g = simalloc::InLib::enter();
                    drop(left);
                })?;
                c = counts();
                let cleanup = attempt(move || {
                    let _g = simalloc::InLib::enter();
                    drop(its);
                })?;
                if !dry {
                    world::log(|| format!("{i} consume slot{s} -> {}", out.kind()));
                    self.completed("into_iter", out)?;
                    res?;
                    if !is_set && op.b % 5 != 0 {
                        self.resync_one();
                    }
                    // an interrupted consumption may leave the rest to be dropped here
                    match cleanup {
                        Out::Ok(()) => {}
                        o => {
                            self.completed("drop", o)?;
                        }
                    }
                }
            }
        }
        world::disarm();
        if dry {
            return Ok(Some(c));
        }
        self.audit_after(&[s], i)?;
        Ok(None)
    }

    /// Serializing or formatting into a sink that fails at a given byte, or with an element that refuses.
    fn op_sink(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let Some(s) = self.pick_slot(op.a) else { return Ok(None) };
        let t = self.slots[s].as_ref().unwrap().t;
        let tg = self.target(t);
        let debug = op.b % 5 >= 3 || !can_ser(tg);
        let alt = op.b % 5 == 4;
        let fmt = (op.b % 5 % 3) as u8;
        let kind = op.d & 7;
        let sl = self.slots[s].as_ref().unwrap();
        self.stats.cov(&[71, t as u64, size_class(sl.model.len()), op.b % 5, kind]);
        // the fault-free output
        let pend = ctl().pend.take();
        let err = ctl().fault_err.get();
        ctl().primed.set(false);
        let full: Vec<u8> = if debug {
            let mut k = FmtSink::default();
            let r = must("formatting", attempt(|| sl.m.debug(&mut k, alt))?)?;
            ensure!(r.is_ok(), "result", "formatting failed for no reason");
            check_debug(&k.text, &sl.model, tg, alt)?;
            k.text.into_bytes()
        } else {
            let mut w = SimWriter::default();
            let r = must("serialization", attempt(|| sl.m.ser(&mut SerTo { fmt, w: &mut w }))?)?;
            ensure!(r.is_ok(), "result", "serialization failed for no reason: {r:?}");
            check_doc(fmt, &w.buf, &sl.model, tg)?;
            w.buf
        };
        begin_op();
        ctl().pend.set(pend);
        ctl().fault_err.set(err);
        let at = match op.c % 8 {
            0 => 0,
            1 => full.len().saturating_sub(1),
            2 => full.len(),
            _ => (op.c >> 8) as usize % (full.len() + 1),
        };
        let mut d_sink = FmtSink::default();
        let mut s_sink = SimWriter::default();
        if kind & 4 != 0 {
            s_sink.rng = Some(world::Rng::new(op.c));
        }
        let faulty = op.d & 8 != 0 && !dry && op.fault.is_none();
        if faulty {
            d_sink.fail_at = Some(at);
            s_sink.fail_at = Some((at, (kind & 3) as u8));
        }
        let out = if debug {
            attempt(|| sl.m.debug(&mut d_sink, alt).map_err(|e| e.to_string()))?
        } else {
            attempt(|| sl.m.ser(&mut SerTo { fmt, w: &mut s_sink }))?
        };
        if dry {
            return Ok(Some(counts()));
        }
        world::disarm();
        let (got, failed, after) =
            if debug { (d_sink.text.as_bytes(), d_sink.failed, d_sink.after_fail) } else { (&s_sink.buf[..], s_sink.failed, s_sink.after_fail) };
        world::log(|| format!("{i} sink slot{s} format {} fails at {at}/{} ({faulty}, kind {kind}) -> {} {failed} {after}", op.b % 5, full.len(), out.kind()));
        self.stats.note("bytes_written", got.len() as u64);
        self.stats.note("interrupted_writes", s_sink.interrupts);
        self.stats.note("short_writes", s_sink.short);
        if failed {
            let k = if debug { "sink:refusal" } else { ["sink:error", "sink:full", "sink:zero", "sink:panic"][(kind & 3) as usize] };
            *self.stats.fired.entry(k.into()).or_default() += 1;
        }
        let refused = world::fired();
        ensure!(after == 0, "after", "{after} more writes were sent to the sink after it had failed");
        ensure!(full.starts_with(got), "prefix", "what the sink accepted is no prefix of the fault-free output");
        match out {
            Out::Ok(Ok(())) => {
                ensure!(!refused, "swallowed", "success was reported although the {} failed", if failed { "sink" } else { "element" });
                ensure!(got.len() == full.len(), "truncated", "success was reported after {} of {} bytes", got.len(), full.len());
            }
            Out::Ok(Err(e)) => ensure!(refused, "result", "failure was reported for no reason: {e}"),
            Out::Fault if refused => {}
            o => {
                must("writing", o.map_unit())?;
            }
        }
        self.audit_after(&[s], i)?;
        Ok(None)
    }

    /// Reading a collection from a source that may be damaged, chopped up, failing, or lying about its size.
    fn op_source(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let t = self.ts[(op.d >> 16) as usize % self.ts.len()];
        let tg = self.target(t);
        let Some(de) = tg.de else { return Ok(None) };
        let fmt = (op.b % 4) as u8;
        let mut r = world::Rng::new(op.c);
        let (items, n) = {
            let e = self.entries(op.a, t);
            let items: Vec<_> =
                e.iter().map(|(k, _, v)| ((tg.elem)(*k), (!tg.is_set).then_some(crate::serde_sim::Elem::U(*v)))).collect();
            let n = items.len();
            (items, n)
        };
        let lie = op.d & 3;
        let announce = match lie {
            0 => n as u64,
            1 => u64::MAX,
            2 => r.below(n as u64 + 1),
            _ => 1u64 << r.range(20, 62),
        };
        let mut data = crate::serde_sim::write_doc(fmt, !tg.is_set, announce, &items, &mut r);
        let damage = (op.d >> 2) & 7;
        for _ in 0..=((op.d >> 5) & 1) {
            mangle(&mut data, damage, &mut r, &items, tg);
        }
        let chunk = op.d & 0x80 != 0;
        let (fa, fk) = (r.below(data.len() as u64 + 1) as usize, r.below(3) as u8);
        let fail = ((op.d >> 8) & 7 == 0 && !dry).then_some((fa, fk));
        let rs = r.next();
        let reader = || crate::serde_sim::SimReader { data: data.clone(), rng: chunk.then(|| world::Rng::new(rs)), fail_at: fail, ..Default::default() };
        // what a plain reader makes of the same bytes
        let pend = ctl().pend.take();
        let err = ctl().fault_err.get();
        let mut rr = reader();
        let want = must("reference", attempt(|| (tg.ref_de)(&mut crate::serde_sim::DeFrom { fmt, r: &mut rr }))?)?;
        let ref_failed = rr.failed;
        begin_op();
        ctl().pend.set(pend);
        ctl().fault_err.set(err);
        let mut lr = reader();
        let base = simalloc::live();
        simalloc::reset_peak();
        let out = attempt(|| de(&mut crate::serde_sim::DeFrom { fmt, r: &mut lr }))?;
        let c = counts();
        let fired = world::fired();
        world::disarm();
        if dry {
            match out {
                Out::Ok(Ok(m)) => must("drop", attempt(|| drop_lib(m))?)?,
                Out::Ok(Err(_)) => {}
                // a huge reservation fails here; the real attempt will report it
                Out::Fault if fired => {}
                o => must("deserialization", o.map_unit())?,
            }
            return Ok(Some(c));
        }
        self.stats.cov(&[72, t as u64, size_class(n), u64::from(fmt), lie, damage, u64::from(fail.is_some()), u64::from(chunk), u64::from(want.is_ok())]);
        self.stats.note("bytes_read", lr.pos as u64);
        self.stats.note("short_reads", lr.short);
        self.stats.note("interrupted_reads", lr.interrupts);
        for (k, on) in [
            ("source:io-error", lr.failed),
            ("source:damaged", damage > 0),
            ("source:false-size", fmt == 3 && lie >= 2),
            ("source:invalid", want.is_err()),
        ] {
            if on {
                *self.stats.fired.entry(k.into()).or_default() += 1;
            }
        }
        let peak = simalloc::peak() - base.1;
        let huge = simalloc::huge_seen();
        world::log(|| {
            format!(
                "{i} read {} format {fmt} {} bytes, announcing {announce} of {n}, damage {damage}, failure {fail:?} -> {} (reference {})",
                tg.name,
                data.len(),
                match &out {
                    Out::Ok(Ok(_)) => "value",
                    Out::Ok(Err(_)) => "error",
                    o => o.kind(),
                },
                if want.is_ok() { "value" } else { "error" }
            )
        });
        ensure!(huge == 0, "reserve", "{huge} bytes were requested in one piece while reading {} bytes", data.len());
        let max = 256 * data.len() as i64 + 2048 * n as i64 + (2 << 20);
        ensure!(peak <= max, "reserve", "reading {} bytes took {peak} bytes of memory at its peak", data.len());
        let _ = ref_failed;
        match out {
            Out::Ok(Ok(m)) => {
                let alloc_only = fired && ctl().run_fired[Cb::Alloc as usize].get() > 0 && !ctl().fault_err.get();
                ensure!(!fired || alloc_only || lr.failed, "swallowed", "a collection was returned although an element could not be read");
                match want {
                    Ok(v) => {
                        let model: Model = v.iter().map(|(k, v)| (*k, (*v, 0))).collect();
                        let slot = op.c as usize % NSLOT;
                        let old = self.slots[slot].take();
                        self.slots[slot] = Some(Slot { m, model, t });
                        if let Some(o) = old {
                            must("drop", attempt(move || drop_lib(o.m))?)?;
                        }
                        begin_op();
                        self.ledger()?;
                        self.audit(slot, true).map_err(|v| sub("content", v))?;
                        self.stats.note("collections_read", 1);
                    }
                    Err(e) => {
                        let l = must("len", attempt(|| m.len())?)?;
                        must("drop", attempt(|| drop_lib(m))?)?;
                        return Err(Viol::new("accepted", format!("a collection of {} entries was returned although the document is not valid: {e}", l.0)));
                    }
                }
            }
            Out::Ok(Err(e)) => {
                let tolerated = fired || want.is_err() || (fmt == 3 && lie >= 2);
                ensure!(tolerated, "rejected", "a valid document was rejected: {e}");
            }
            Out::Fault if fired => {}
            o => must("deserialization", o.map_unit())?,
        }
        let kept = ctl().fired.get();
        begin_op();
        self.ledger()?;
        let now = simalloc::live();
        let owned: i64 = self.slots.iter().flatten().count() as i64;
        ensure!(owned > 0 || now.0 == 0, "leak", "{} allocations were left behind", now.0);
        for s in 0..self.slots.len() {
            if kept || i % 4 == 3 {
                self.audit(s, false).map_err(|v| sub("other", v))?;
            }
        }
        Ok(None)
    }

    /// Writing a collection to storage, a crash, a restart with new hash randomness, and reading it back.
    fn op_store(&mut self, op: &Op, i: usize) -> Res {
        use crate::serde_sim::{DeFrom, SimReader};
        let Some(s) = self.pick_slot(op.a) else { return Ok(()) };
        let t = self.slots[s].as_ref().unwrap().t;
        let tg = self.target(t);
        if !can_ser(tg) {
            return Ok(());
        }
        let sl = self.slots[s].as_ref().unwrap();
        let wf = (op.b % 3) as u8;
        let mut r = world::Rng::new(op.c);
        let mut w = SimWriter { rng: (op.d & 1 != 0).then(|| world::Rng::new(op.c ^ 1)), ..SimWriter::default() };
        let out = must("serialization", attempt(|| sl.m.ser(&mut SerTo { fmt: wf, w: &mut w }))?)?;
        ensure!(out.is_ok(), "result", "serialization failed for no reason: {out:?}");
        let image = w.buf;
        let model: Model = sl.model.iter().map(|(k, v)| (*k, (v.0, 0))).collect();
        // crash and restart
        let restart = op.d & 4 != 0;
        if restart {
            // the process is gone, and every collection in it
            for x in 0..self.slots.len() {
                if let Some(o) = self.slots[x].take() {
                    must("drop", attempt(move || drop_lib(o.m))?)?;
                }
            }
            self.ledger()?;
            foldhash::sim::set(op.c ^ 0x7777);
        } else {
            foldhash::sim::set_instances(op.c ^ 0x7777);
        }
        ctl().bh_seed.set(r.next());
        let mode = r.below(u64::from(crate::types::BH_MODES)) as u8;
        // a bad hasher is quadratic: not for a large collection
        ctl().bh_mode.set(if self.plan.lists.iter().any(|l| l.len() > 300) { mode & 1 } else { mode });
        let peers: Vec<usize> = (0..all_targets().len())
            .filter(|x| {
                let p = self.target(*x);
                p.group == tg.group && p.is_set == tg.is_set && p.de.is_some()
            })
            .collect();
        if peers.is_empty() {
            return Ok(());
        }
        let fmts: &[u8] = if wf == 2 { &[3] } else { &[0, 1, 2] };
        let chunk = op.d & 2 != 0;
        let rd = |cut: usize, seed: u64| SimReader { data: image[..cut].to_vec(), rng: chunk.then(|| world::Rng::new(seed)), ..SimReader::default() };
        self.stats.note("images", 1);
        self.stats.note("image_bytes", image.len() as u64);
        // complete image
        let p = *r.pick(&peers);
        let pt = self.target(p);
        let fmt = *r.pick(fmts);
        let seed = r.next();
        self.stats.cov(&[73, t as u64, p as u64, u64::from(wf), u64::from(fmt), size_class(model.len())]);
        let mut reader = rd(image.len(), seed);
        let out = must("deserialization", attempt(|| (pt.de.unwrap())(&mut DeFrom { fmt, r: &mut reader }))?)?;
        let m = match out {
            Ok(m) => m,
            Err(e) => return Err(Viol::new("rejected", format!("{} could not be read back as {}: {e}", tg.name, pt.name))),
        };
        audit(m.as_ref(), &model, pt, true, op.c % 977).map_err(|v| sub("restored", v))?;
        // compared with the original, or, after a restart, with another one restored from the same image
        let p2 = *r.pick(&peers);
        let other = if restart {
            let mut reader = rd(image.len(), seed);
            let out = must("deserialization", attempt(|| (self.target(p2).de.unwrap())(&mut DeFrom { fmt, r: &mut reader }))?)?;
            match out {
                Ok(m) => Slot { m, model: model.clone(), t: p2 },
                Err(e) => return Err(Viol::new("rejected", format!("{} could not be read back as {}: {e}", tg.name, self.target(p2).name))),
            }
        } else {
            self.slots[s].take().unwrap()
        };
        if let Some(eq) = must("eq", attempt(|| m.eq_dyn(other.m.as_ref()))?)? {
            ensure!(eq, "restored:eq", "the restored collection differs from the original");
        }
        if let Some(eq) = must("eq", attempt(|| other.m.eq_dyn(m.as_ref()))?)? {
            ensure!(eq, "restored:eq", "the original differs from the restored collection");
        }
        self.slots[s] = Some(other);
        // as a standard collection
        let kind = r.below(4);
        let mut reader = rd(image.len(), seed);
        let got = must("deserialization", attempt(|| (tg.std_de)(&mut DeFrom { fmt, r: &mut reader }, kind))?)?;
        match got {
            Ok(v) => {
                let back: Model = v.iter().map(|(k, v)| (*k, (*v, 0))).collect();
                ensure!(v.len() == model.len() && back == model, "restored:std", "another collection type read back {} entries, expected {}", v.len(), model.len());
            }
            Err(e) => return Err(Viol::new("rejected", format!("the image could not be read back as another collection type: {e}"))),
        }
        world::log(|| format!("{i} store slot{s} {} bytes as format {wf}, restored as {} from format {fmt}", image.len(), pt.name));
        // torn images
        let mut cuts = vec![0, image.len() - 1];
        for _ in 0..(2 + op.d % 5) {
            cuts.push(r.below(image.len() as u64) as usize);
        }
        for (j, cut) in cuts.into_iter().enumerate() {
            let p = peers[j % peers.len()];
            let pt = self.target(p);
            let fmt = *r.pick(fmts);
            if fmt == 2 && std::str::from_utf8(&image[..cut]).is_err() {
                continue;
            }
            let mut reader = rd(cut, r.next());
            let out = must("deserialization", attempt(|| (pt.de.unwrap())(&mut DeFrom { fmt, r: &mut reader }))?)?;
            *self.stats.fired.entry("crash:torn-image".into()).or_default() += 1;
            if let Ok(m) = out {
                let n = m.len().0;
                must("drop", attempt(|| drop_lib(m))?)?;
                return Err(Viol::new("torn", format!("{} of {} bytes of a stored {} were read back as a {} of {n} entries", cut, image.len(), tg.name, pt.name)));
            }
        }
        if restart {
            *self.stats.fired.entry("crash:restart".into()).or_default() += 1;
        }
        let dst = (op.c >> 20) as usize % NSLOT;
        let was = self.slots[dst].take();
        self.slots[dst] = Some(Slot { m, model, t: p });
        if let Some(o) = was {
            must("drop", attempt(move || drop_lib(o.m))?)?;
        }
        self.audit_after(&[s, dst], i)
    }

    fn op_mutate(&mut self, op: &Op, dry: bool, i: usize) -> Res<Option<[u64; NCB]>> {
        let Some(s) = self.pick_own(op.a) else { return Ok(None) };
        let name = op.op.as_str();
        if self.slots[s].as_ref().unwrap().m.is_set() && name != "clonefrom" {
            return Ok(None);
        }
        let q = if name == "set" { Some(self.q(s, op)) } else { None };
        let qs: Vec<Q> = if name == "disjoint" { self.disjoint_qs(s, op) } else { vec![] };
        let mut sl = if dry {
            let o = self.slots[s].as_ref().unwrap();
            let m = must("clone", attempt(|| o.m.clone_box())?)?;
            begin_op();
            Slot { m, model: o.model.clone(), t: o.t }
        } else {
            self.slots[s].take().unwrap()
        };
        let t = sl.t;
        let n = sl.model.len();
        self.stats.cov(&[hash_str(name), t as u64, size_class(n), op.b % 8]);
        let mut keep = true;
        let mut resync = false;
        let r: Res = (|| {
            match name {
                "set" => {
                    let q = q.unwrap();
                    let v = fresh_val();
                    let out = attempt(|| sl.m.set(q, v))?;
                    if dry {
                        return Ok(());
                    }
                    self.steps("a lookup", n, t, false)?;
                    if let Some(got) = self.completed("get_mut", out)? {
                        world::log(|| format!("{i} set slot{s} {q:?} {v} -> {got:?}"));
                        let want = sl.model.get(&q.id).map(|x| x.0);
                        ensure!(got == want, "result", "get_mut({}) found {got:?}, expected {want:?}", q.id);
                        if let Some(e) = sl.model.get_mut(&q.id) {
                            e.0 = v;
                        }
                    }
                }
                "disjoint" => {
                    let present: Vec<u64> = qs.iter().map(|q| q.id).filter(|k| sl.model.contains_key(k)).collect();
                    let must_panic = present.iter().collect::<BTreeSet<_>>().len() != present.len();
                    let may_panic = qs.iter().map(|q| q.id).collect::<BTreeSet<_>>().len() != qs.len();
                    let unchecked = op.c % 4 == 1 && !may_panic;
                    let vs: Vec<u64> = qs.iter().map(|_| fresh_val()).collect();
                    let mut seen: Vec<Option<(u64, usize)>> = Vec::new();
                    let out = attempt(|| {
                        sl.m.disjoint(&qs, unchecked, &mut |r| {
                            for (k, x) in r.iter_mut().enumerate() {
                                seen.push(x.as_mut().map(|v| {
                                    let o = v.get();
                                    v.set(vs[k]);
                                    (o, v.addr())
                                }));
                            }
                        });
                    })?;
                    if dry {
                        return Ok(());
                    }
                    world::log(|| format!("{i} disjoint slot{s} {:?} -> {} {:?}", qs.iter().map(|q| (q.id, q.variant)).collect::<Vec<_>>(), out.kind(), seen.iter().map(|x| x.map(|y| y.0)).collect::<Vec<_>>()));
                    if matches!(&out, Out::Panic(_)) && may_panic {
                        ensure!(seen.is_empty(), "alias", "references were handed out before the panic");
                        return Ok(());
                    }
                    if let Some(()) = self.completed("get_disjoint_mut", out)? {
                        let mut addrs = BTreeSet::new();
                        for (k, x) in seen.iter().enumerate() {
                            if let Some((_, a)) = x {
                                ensure!(*a == 0 || addrs.insert(*a), "alias", "two references to the same value were handed out (key {})", qs[k].id);
                            }
                        }
                        ensure!(!must_panic, "alias", "keys {:?} name one entry twice, but the call went through", qs.iter().map(|q| q.id).collect::<Vec<_>>());
                        for (k, x) in seen.iter().enumerate() {
                            let want = sl.model.get(&qs[k].id).map(|e| e.0);
                            ensure!(x.map(|y| y.0) == want, "result", "position {k} (key {}) got {:?}, expected {want:?}", qs[k].id, x.map(|y| y.0));
                        }
                        for (k, q) in qs.iter().enumerate() {
                            if let Some(e) = sl.model.get_mut(&q.id) {
                                e.0 = vs[k];
                            }
                        }
                    } else {
                        ensure!(seen.is_empty(), "alias", "references were handed out before the panic");
                    }
                }
                "itermut" => {
                    let tracked = self.target(t).tracked;
                    let keys = matches!(op.b % 5, 0 | 2 | 3);
                    let mut ex = expect(&sl.model, keys, true, tracked);
                    ex.exact = true;
                    let out = attempt(|| sl.m.iter_mut(op.b))?;
                    let it = must("iter_mut", out)?;
                    let mut its = vec![Driven { it: Some(it), ex, name: format!("iter_mut{}", op.b % 5), writes: vec![] }];
                    for d in &its {
                        d.ex.size(&d.name, d.it.as_ref().unwrap().hint(), d.it.as_ref().unwrap().exact_len())?;
                    }
                    let out = attempt(|| drive(&mut its, &op.script, 3))?;
                    let dried = if dry || world::fired() { Ok(0) } else { drain(&mut its) };
                    let mut writes = Vec::new();
                    for d in &mut its {
                        writes.append(&mut d.writes);
                    }
                    drop(its);
                    if dry {
                        return Ok(());
                    }
                    world::log(|| format!("{i} iter_mut slot{s} -> {} wrote {}", out.kind(), writes.len()));
                    apply(&mut sl.model, &writes);
                    if let Some(r) = self.completed("iter_mut", out)? {
                        r?;
                        dried?;
                    }
                }
                _ => {
                    // clone_from
                    let Some(src) = self.pick_slot(op.b) else { return Ok(()) };
                    let o = self.slots[src].as_ref().unwrap();
                    let out = attempt(|| sl.m.clone_from_dyn(o.m.as_ref()))?;
                    if dry {
                        return Ok(());
                    }
                    world::log(|| format!("{i} slot{s}.clone_from(slot{src}) -> {}", out.kind()));
                    match self.completed("clone_from", out)? {
                        Some(true) => sl.model = o.model.clone(),
                        Some(false) => {}
                        // the destination may hold anything valid now
                        None => keep = false,
                    }
                    resync = true;
                }
            }
            Ok(())
        })();
        let c = counts();
        world::disarm();
        if dry || !keep || r.is_err() {
            let fired = ctl().fired.get();
            let d = attempt(|| drop_lib(sl.m));
            ctl().fired.set(fired);
            r?;
            must("drop", d?)?;
            if dry {
                return Ok(Some(c));
            }
        } else {
            self.slots[s] = Some(sl);
        }
        if resync {
            self.resync();
        }
        self.audit_after(&[s], i)?;
        Ok(None)
    }

    fn disjoint_qs(&self, s: usize, op: &Op) -> Vec<Q> {
        let sl = self.slots[s].as_ref().unwrap();
        let canon = self.target(sl.t).canon;
        let mode = (op.d & 3) as u8;
        op.script
            .iter()
            .take(crate::maps::width(op.script.len()))
            .map(|w| Q { id: canon(pick_key(&sl.model, w & 0xff, w >> 8)), mode, variant: (w >> 4) & 3 })
            .collect()
    }
}

pub fn total_fired() -> u64 {
    ctl().run_fired.iter().map(std::cell::Cell::get).sum()
}

fn begin_op_keep(p: Option<(Cb, u64)>) {
    let e = ctl().fault_err.get();
    begin_op();
    ctl().pend.set(p);
    ctl().fault_err.set(e);
}


pub fn drop_lib(m: Box<dyn SimMap>) {
    let _g = simalloc::InLib::enter();
    drop(m);
}

pub fn prefix(op: &str, v: Viol) -> Viol {
    Viol::new(format!("{op}/{}", v.class), v.msg)
}
pub fn sub(what: &str, v: Viol) -> Viol {
    Viol::new(format!("{what}:{}", v.class), v.msg)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Which memory building a collection of `n` supplied entries may take at most (measured: below 700 n + 1500).
pub fn mem_bound(n: usize) -> i64 {
    (n as i64) * 3072 + 16384
}
/// What a collection of `n` supplied entries may keep at most (measured: below 470 n).
pub fn keep_bound(n: usize) -> i64 {
    (n as i64) * 1536 + 4096
}

fn spread_class(m: &Model) -> u64 {
    match (m.keys().next(), m.keys().next_back()) {
        (Some(a), Some(b)) => {
            let r = b - a;
            let n = m.len() as u64;
            if r < n {
                0
            } else if r < 128 {
                1
            } else if r / 10 < n {
                2
            } else if r < 1 << 32 {
                3
            } else {
                4
            }
        }
        _ => 5,
    }
}

fn overlap_class(a: &Model, b: &Model) -> u64 {
    let i = a.keys().filter(|k| b.contains_key(k)).count();
    let c = |x: usize| match x {
        0 => 0,
        1 => 1,
        _ => 2,
    };
    c(i) * 27 + c(a.len() - i) * 9 + c(b.len() - i) * 3 + (a.len().cmp(&b.len()) as i8 + 1) as u64
}

pub fn same(a: &Model, b: &Model) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.0 == y.1.0)
}

fn algebra(op: u64, a: &Model, b: &Model) -> Model {
    let mut r = Model::new();
    for (k, v) in a {
        let inb = b.contains_key(k);
        if match op % 4 {
            0 => true,
            1 => inb,
            _ => !inb,
        } {
            r.insert(*k, *v);
        }
    }
    if matches!(op % 4, 0 | 3) {
        for (k, v) in b {
            if !a.contains_key(k) {
                r.insert(*k, *v);
            }
        }
    }
    r
}

/// A key to ask for: mostly present ones and their neighbours.
pub fn pick_key(m: &Model, how: u64, x: u64) -> u64 {
    let nth = |x: u64| m.keys().nth(x as usize % m.len()).copied().unwrap();
    match how % 8 {
        0..=4 if !m.is_empty() => nth(x),
        5 if !m.is_empty() => nth(x).wrapping_add(1 + (x >> 32) % 3),
        6 if !m.is_empty() => match (x >> 32) % 4 {
            0 => m.keys().next().unwrap().wrapping_sub(1),
            1 => m.keys().next_back().unwrap().wrapping_add(1),
            2 => nth(x).wrapping_add(1 << 32),
            _ => nth(x) ^ (1 << 63),
        },
        _ => match x % 5 {
            0 => 0,
            1 => u64::MAX,
            2 => (x >> 8) % 1000,
            3 => 1 << 63,
            _ => x >> 8,
        },
    }
}

pub fn yields(kind: u64, is_set: bool) -> (bool, bool) {
    if is_set {
        return (true, false);
    }
    match kind % 7 {
        0 | 3 | 4 => (true, true),
        1 | 5 => (true, false),
        _ => (false, true),
    }
}

pub fn expect(m: &Model, keys: bool, vals: bool, tracked: bool) -> Expect {
    let mut ex = Expect::default();
    ex.exact = true;
    for (k, (v, _)) in m {
        ex.add(keys.then_some(*k), vals.then_some(*v));
    }
    if keys && tracked {
        ex.tags = Some(m.iter().map(|(k, (_, t))| (*k, *t)).collect());
    }
    ex
}

/// Runs every iterator that is still alive to its end.
pub fn drain(its: &mut [Driven<'_>]) -> Res<u64> {
    let mut n = 0;
    for d in its {
        if let Some(it) = &mut d.it {
            let name = d.name.clone();
            let mut left = d.ex.total() + 2;
            loop {
                let x = it.next();
                n += 1;
                if let Some(y) = &x {
                    if y.addr != 0 {
                        d.writes.push((*y, y.wrote));
                    }
                }
                d.ex.yielded(&name, x)?;
                if d.ex.done || left == 0 {
                    break;
                }
                left -= 1;
            }
            let x = it.next();
            d.ex.yielded(&name, x)?;
            d.ex.size(&name, it.hint(), it.exact_len())?;
        }
    }
    Ok(n)
}

fn apply(m: &mut Model, writes: &[(Item, u64)]) {
    for (it, new) in writes {
        let key = match it.k {
            Some((k, _)) => Some(k),
            None => m.iter().find(|(_, v)| Some(v.0) == it.v).map(|(k, _)| *k),
        };
        if let Some(e) = key.and_then(|k| m.get_mut(&k)) {
            e.0 = *new;
        }
    }
}

pub fn audit(m: &dyn SimMap, model: &Model, t: &Target, full: bool, salt: u64) -> Res {
    let n = model.len();
    let l = must("len", attempt(|| m.len())?)?;
    ensure!(l == (n, n == 0, n), "len", "the size is reported as {l:?} (len, is_empty, Len::len), expected {n}");
    // contents by iteration
    let r = attempt(|| -> Res {
        let mut seen = BTreeSet::new();
        let mut it = m.iter(0);
        loop {
            let Some(x) = it.next() else { break };
            let (k, tag) = x.k.unwrap();
            ensure!(seen.insert(k), "iter", "key {k} appears twice");
            let Some(w) = model.get(&k) else {
                return Err(Viol::new("iter", format!("key {k} was never supplied")));
            };
            if let Some(v) = x.v {
                ensure!(v == w.0, "iter", "key {k} carries value {v}, expected {}", w.0);
            }
            ensure!(tag == w.1 || !t.tracked, "stale", "key {k} is the one of entry {tag}, not of the last entry ({}) supplied for it", w.1);
        }
        ensure!(seen.len() == n, "iter", "{} of {n} keys present", seen.len());
        Ok(())
    })?;
    must("iteration", r)??;
    // contents by lookup
    let stride = if full || n <= 40 { 1 } else { n / 24 };
    let mut c = 0u64;
    for (j, (k, w)) in model.iter().enumerate() {
        if stride > 1 && !(j + salt as usize).is_multiple_of(stride) && j != 0 && j != n - 1 {
            continue;
        }
        c += 1;
        let q = Q { id: *k, mode: ((c + salt) % 4) as u8, variant: c % 3 };
        let got = must("get", attempt(|| m.get(q))?)?;
        ensure!(got == Some(w.0), "lookup", "get({k}) = {got:?}, expected {}", w.0);
        if full || c % 3 == 0 {
            let got = must("get_key_value", attempt(|| m.get_kv(q))?)?;
            ensure!(got == Some((*k, w.1, w.0)), "lookup", "the entry for {k} is {got:?} (key, entry, value), expected {:?}", (k, w.1, w.0));
            let got = must("contains", attempt(|| m.contains(q))?)?;
            ensure!(got, "lookup", "contains({k}) is false");
        }
    }
    // absent keys
    let mut absent = vec![0, u64::MAX, 1 << 63, (1 << 63) - 1, salt % 977];
    if let (Some(a), Some(b)) = (model.keys().next(), model.keys().next_back()) {
        absent.extend([a.wrapping_sub(1), b.wrapping_add(1), a.wrapping_add(b.wrapping_sub(*a) / 2)]);
        if full {
            absent.extend(model.keys().take(40).flat_map(|k| [k.wrapping_add(1), k.wrapping_sub(1), k.wrapping_add(256), k ^ 0x8000]));
            absent.extend(model.keys().rev().take(8).map(|k| k.wrapping_add(2)));
        }
    }
    for (j, a) in absent.iter().enumerate() {
        let a = (t.canon)(*a);
        if model.contains_key(&a) {
            continue;
        }
        let q = Q { id: a, mode: ((j as u64 + salt) % 4) as u8, variant: 0 };
        let got = must("get", attempt(|| m.get(q))?)?;
        ensure!(got.is_none(), "phantom", "get({a}) = {got:?}, but that key was never supplied");
        if full {
            let got = must("contains", attempt(|| m.contains(q))?)?;
            ensure!(!got, "phantom", "contains({a}) is true, but that key was never supplied");
        }
    }
    Ok(())
}

/// Damages a document the way storage and networks do.
fn mangle(d: &mut Vec<u8>, kind: u64, r: &mut world::Rng, items: &[(crate::serde_sim::Elem, Option<crate::serde_sim::Elem>)], t: &Target) {
    if d.is_empty() {
        return;
    }
    let at = r.below(d.len() as u64) as usize;
    match kind {
        1 => d.truncate(at),
        2 => d[at] ^= 1 << r.below(8),
        3 => d[at] = *r.pick(b"0123456789\"\\,:{}[]MQEZUIS \x00\xff"),
        4 => {
            d.remove(at);
        }
        5 => {
            let n = (1 + r.below(24) as usize).min(d.len() - at);
            let part = d[at..at + n].to_vec();
            let to = r.below(d.len() as u64 + 1) as usize;
            d.splice(to..to, part);
        }
        6 => {
            // a second document, or garbage, after the first
            if r.chance(1, 2) {
                let more = crate::serde_sim::write_doc(0, !t.is_set, 0, items, r);
                d.extend_from_slice(&more);
            } else {
                d.push(*r.pick(b"x}],0 \n"));
            }
        }
        _ => {}
    }
}

pub fn can_ser(t: &Target) -> bool {
    t.name != "FzStringSet<_,SimBH>"
}

/// A complete document must declare the right size and hold every entry exactly once.
pub fn check_doc(fmt: u8, data: &[u8], model: &Model, t: &Target) -> Res {
    let doc = match parse_doc(fmt, data, !t.is_set) {
        Ok(d) => d,
        Err(e) => return Err(Viol::new("document", format!("the document cannot be read back: {e}"))),
    };
    if let Some(d) = doc.declared {
        ensure!(d == u64::MAX || d == model.len() as u64, "declared", "the document declares {d} entries, the collection has {}", model.len());
        ensure!(d != u64::MAX, "declared", "the document does not declare its size");
    }
    let mut seen = BTreeMap::new();
    for (k, v) in &doc.items {
        let Some(id) = (t.unelem)(k) else { return Err(Viol::new("document", format!("{k:?} is not a key"))) };
        let val = match v {
            Some(crate::serde_sim::Elem::U(n)) => *n,
            None => 0,
            Some(o) => return Err(Viol::new("document", format!("{o:?} is not a value"))),
        };
        ensure!(seen.insert(id, val).is_none(), "document", "key {id} was written twice");
    }
    let want: BTreeMap<u64, u64> = model.iter().map(|(k, v)| (*k, v.0)).collect();
    ensure!(seen == want, "document", "the document holds {seen:?}, expected {want:?}");
    Ok(())
}

pub fn check_debug(text: &str, model: &Model, t: &Target, alt: bool) -> Res {
    ensure!(text.starts_with('{') && text.ends_with('}'), "text", "the text is not a set or map: {text:.80}");
    let mut len = 2;
    for (i, (k, v)) in model.iter().enumerate() {
        let key = match t.fam {
            "str" => format!("{:?}", crate::types::key_string(*k)),
            "key" => format!("<K{k}>"),
            _ if t.group.contains("SimScalar") => format!("<K{k}>"),
            _ => match (t.elem)(*k) {
                crate::serde_sim::Elem::U(n) => n.to_string(),
                crate::serde_sim::Elem::I(n) => n.to_string(),
                crate::serde_sim::Elem::S(s) => s,
            },
        };
        let e = if t.is_set { key } else { format!("{key}: <V{}>", v.0) };
        // looking for each of thousands of entries takes too long
        if model.len() <= 600 || (i + model.len()) % (model.len() / 60) == 0 {
            ensure!(text.contains(&e), "text", "the text lacks {e}");
        }
        len += e.len() + if i > 0 { 2 } else { 0 };
    }
    if !alt {
        ensure!(text.len() == len, "text", "the text has {} characters, expected {len}", text.len());
    }
    Ok(())
}
