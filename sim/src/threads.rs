//! Reader threads under a scheduler the simulator owns.
//!
//! The threads are real, but only one runs at any instant: it holds the baton and gives it away at a callback, between
//! operations, or after a chosen number of machine instructions inside the library (the thread is single-stepped with
//! the processor's trap flag). Who runs next is read from the plan.

use crate::alloc::{self as simalloc, OutLib};
use fcbase::step::{NoPre, nopre, set_in_trap, set_stepping, set_tf, stepping};
use crate::engine::{Engine, Model, Slot, Stats, all_targets, audit, drop_lib, pick_key, prefix, sub};
use crate::r#gen;
use crate::maps::{Q, SimMap, Target};
use crate::plan::{Op, Plan};
use crate::world::{self, Cb, NCB, Res, Rng, Single, Viol, attempt, begin_op, ctl, must};
use std::cell::{Cell, UnsafeCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::thread::Thread;
use std::time::{Duration, Instant};

const MAIN: usize = usize::MAX;
const NSHARED: usize = 2;
const HANG: u64 = 15;

// ---------------------------------------------------------------- state

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAIN) };
    static NESTED: Cell<bool> = const { Cell::new(false) };
    // single-stepping
    static STEP_LEFT: Cell<u64> = const { Cell::new(0) };
    static STEP_STALL: Cell<bool> = const { Cell::new(false) };
    static STEP_RAW: Cell<u64> = const { Cell::new(0) };
    static STEP_POS: Cell<usize> = const { Cell::new(0) };
}

static TURN: AtomicUsize = AtomicUsize::new(MAIN);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static ABORT: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, PartialEq)]
enum State {
    Ready,
    Stalled,
    Done,
}

struct Sched {
    states: Vec<State>,
    handles: Vec<Thread>,
    main: Option<Thread>,
    sched: Vec<u64>,
    pos: usize,
    cbn: Vec<u64>,
    stall: Vec<u64>,
    reent: Vec<u64>,
    gaps: Vec<Vec<u64>>,
    shared: Vec<(*const dyn SimMap, Model, &'static Target)>,
    switches: u64,
    instr_switches: u64,
    stalls: u64,
    reentries: u64,
    instrs: u64,
}

static SCHED: Single<UnsafeCell<Option<Sched>>> = Single(UnsafeCell::new(None));

/// SAFETY: only the thread that holds the baton calls this, and never keeps the reference across a switch.
#[allow(clippy::mut_from_ref)]
fn sched() -> &'static mut Sched {
    unsafe { (*SCHED.0.get()).as_mut().unwrap() }
}

// ---------------------------------------------------------------- switching

struct Saved {
    counts: [u64; NCB],
    cells: [u64; 4],
    fault_class: usize,
    flags: [bool; 3],
    pend: Option<(Cb, u64)>,
}

fn save() -> Saved {
    let c = ctl();
    let mut counts = [0; NCB];
    for (i, x) in c.counts.iter().enumerate() {
        counts[i] = x.get();
    }
    Saved {
        counts,
        cells: [c.total.get(), c.budget.get(), c.fault_nth.get(), c.steps.get()],
        fault_class: c.fault_class.get(),
        flags: [c.fired.get(), c.fault_err.get(), c.primed.get()],
        pend: c.pend.get(),
    }
}

fn restore(s: &Saved) {
    let c = ctl();
    for (i, x) in c.counts.iter().enumerate() {
        x.set(s.counts[i]);
    }
    c.total.set(s.cells[0]);
    c.budget.set(s.cells[1]);
    c.fault_nth.set(s.cells[2]);
    c.steps.set(s.cells[3]);
    c.fault_class.set(s.fault_class);
    c.fired.set(s.flags[0]);
    c.fault_err.set(s.flags[1]);
    c.primed.set(s.flags[2]);
    c.pend.set(s.pend);
}

fn wait_for_turn(me: usize) {
    while TURN.load(SeqCst) != me {
        std::thread::park();
    }
}

fn pass(to: usize) {
    let h = if to == MAIN { sched().main.clone().unwrap() } else { sched().handles[to].clone() };
    TURN.store(to, SeqCst);
    h.unpark();
}

/// The next decision of the plan; 0 once it is used up.
fn decide() -> u64 {
    let s = sched();
    let x = s.sched.get(s.pos).copied().unwrap_or(0);
    s.pos += 1;
    x
}

/// Others that could run, in order, starting behind the given thread.
fn others(me: usize) -> Vec<usize> {
    let s = sched();
    let n = s.states.len();
    (1..n).map(|d| (me + d) % n).filter(|t| s.states[*t] == State::Ready).collect()
}

fn switch_to(me: usize, to: usize, why: &str) {
    let s = sched();
    s.switches += 1;
    world::log(|| format!("      t{me} -> t{to} at {why}"));
    let saved = save();
    pass(to);
    wait_for_turn(me);
    restore(&saved);
}

/// Gives up the baton for good or until everybody else is done.
fn leave(me: usize) -> Option<usize> {
    let s = sched();
    let o = others(me);
    if !o.is_empty() {
        let d = decide();
        return Some(o[(d.saturating_sub(1)) as usize % o.len()]);
    }
    // nobody is ready: the stalled ones come back
    let n = s.states.len();
    (1..n).map(|d| (me + d) % n).find(|t| s.states[*t] == State::Stalled)
}

/// Called at every callback of the library while threads run.
pub fn yield_point(class: Cb) {
    let me = ME.get();
    if me == MAIN || ABORT.load(SeqCst) {
        return;
    }
    PROGRESS.fetch_add(1, SeqCst);
    let _o = OutLib::enter();
    let _n = NoPre::enter();
    let s = sched();
    s.cbn[me] += 1;
    let n = s.cbn[me];
    if s.stall[me] == n && !NESTED.get() {
        stall(me, world::CB_NAMES[class as usize]);
    }
    let r = sched().reent[me];
    if r > 0 && n >= r && !NESTED.get() && n < r + 12 {
        reenter(me, n);
    }
    let d = decide();
    if d > 0 {
        let o = others(me);
        if !o.is_empty() {
            switch_to(me, o[(d - 1) as usize % o.len()], world::CB_NAMES[class as usize]);
        }
    }
}

fn stall(me: usize, at: &str) {
    let s = sched();
    s.states[me] = State::Stalled;
    s.stalls += 1;
    if let Some(to) = leave(me) {
        world::log(|| format!("      t{me} stalls"));
        switch_to(me, to, at);
    }
    sched().states[me] = State::Ready;
}

/// A reader whose callback itself reads a shared collection.
fn reenter(me: usize, n: u64) {
    NESTED.set(true);
    let s = sched();
    s.reentries += 1;
    let k = (n as usize + me) % s.shared.len();
    let (m, model, t) = &s.shared[k];
    // SAFETY: the shared collections outlive the threads
    let m: &dyn SimMap = unsafe { &**m };
    let id = (t.canon)(pick_key(model, n, n.wrapping_mul(0x9e37_79b9)));
    let want = model.get(&id).map(|w| w.0);
    // a fault meant for the operation must not strike in here
    let saved = save();
    begin_op();
    let r = catch_unwind(AssertUnwindSafe(|| m.get(Q { id, mode: (n % 4) as u8, variant: 0 })));
    restore(&saved);
    NESTED.set(false);
    match r {
        Ok(got) => {
            if got != want {
                world::violate_now("result:reentrant", format!("get({id}) from inside a callback gave {got:?}, expected {want:?}"));
            }
        }
        Err(p) => match p.downcast::<world::SimPanic>() {
            Ok(p) => std::panic::panic_any(*p),
            Err(p) => {
                let m = world::payload(p).unwrap_err();
                world::violate_now("panic:reentrant", format!("a lookup from inside a callback panicked: {m}"));
            }
        },
    }
}

/// Between operations.
fn op_point(me: usize) {
    PROGRESS.fetch_add(1, SeqCst);
    let d = decide();
    if d > 0 {
        let o = others(me);
        if !o.is_empty() {
            switch_to(me, o[(d - 1) as usize % o.len()], "end of operation");
        }
    }
}

// ---------------------------------------------------------------- single-stepping

static TEXT: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static CAN_STEP: AtomicU64 = AtomicU64::new(0);
const TF: i64 = 0x100;
/// A stepped operation runs on at full speed after so many traps.
const RAW_MAX: u64 = 60_000;

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    // SAFETY: the kernel passes a valid context
    let uc = unsafe { &mut *uc.cast::<libc::ucontext_t>() };
    let regs = &mut uc.uc_mcontext.gregs;
    if !stepping() {
        regs[libc::REG_EFL as usize] &= !TF;
        return;
    }
    let raw = STEP_RAW.get() + 1;
    STEP_RAW.set(raw);
    if raw > RAW_MAX {
        set_stepping(false);
        regs[libc::REG_EFL as usize] &= !TF;
        return;
    }
    if raw % 1024 == 0 {
        PROGRESS.fetch_add(1, SeqCst);
    }
    let ip = regs[libc::REG_RIP as usize] as usize;
    if !simalloc::lib_flag() || nopre() != 0 || std::thread::panicking() {
        // the simulator's own code runs at full speed
        if ME.get() != MAIN {
            regs[libc::REG_EFL as usize] &= !TF;
        }
        return;
    }
    if ip < TEXT[0].load(SeqCst) || ip >= TEXT[1].load(SeqCst) {
        return;
    }
    let left = STEP_LEFT.get();
    if left > 1 {
        STEP_LEFT.set(left - 1);
        return;
    }
    // the count is up: somebody else runs now
    let me = ME.get();
    if me == MAIN {
        return;
    }
    set_in_trap(true);
    let o = OutLib::enter();
    let n = NoPre::enter();
    if !ABORT.load(SeqCst) {
        let o = others(me);
        if !o.is_empty() && STEP_STALL.get() {
            sched().instr_switches += 1;
            stall(me, "an instruction");
        } else if !o.is_empty() {
            let d = decide();
            let s = sched();
            s.instr_switches += 1;
            switch_to(me, o[d.saturating_sub(1) as usize % o.len()], "an instruction");
        }
    }
    arm_next(me);
    drop(n);
    drop(o);
    set_in_trap(false);
    if !stepping() {
        regs[libc::REG_EFL as usize] &= !TF;
    }
}

fn arm_next(me: usize) {
    let k = STEP_POS.get();
    STEP_POS.set(k + 1);
    match sched().gaps[me].get(k) {
        Some(g) => {
            STEP_LEFT.set((*g & 0xffff_ffff).max(1));
            STEP_STALL.set(*g >> 32 != 0);
        }
        None => set_stepping(false),
    }
}

/// Prepares single-stepping; 1 if the processor and the sandbox allow it.
fn can_step() -> bool {
    match CAN_STEP.load(SeqCst) {
        0 => {
            let ok = setup_step();
            CAN_STEP.store(if ok { 1 } else { 2 }, SeqCst);
            ok
        }
        x => x == 1,
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn setup_step() -> bool {
    false
}

#[cfg(target_arch = "x86_64")]
fn setup_step() -> bool {
    let here = on_trap as *const () as usize;
    for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
        let mut p = l.split_whitespace();
        let (Some(r), Some(perm)) = (p.next(), p.next()) else { continue };
        let Some((a, b)) = r.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
        if perm.contains('x') && here >= a && here < b {
            TEXT[0].store(a, SeqCst);
            TEXT[1].store(b, SeqCst);
        }
    }
    if TEXT[1].load(SeqCst) == 0 {
        return false;
    }
    // SAFETY: a plain handler for SIGTRAP, which nothing else here uses
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        if libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) != 0 {
            return false;
        }
    }
    // try it
    STEP_RAW.set(0);
    set_stepping(true);
    STEP_LEFT.set(u64::MAX);
    set_tf();
    let mut x = 1u64;
    for i in 0..10 {
        x = std::hint::black_box(x.wrapping_mul(3) + i);
    }
    set_stepping(false);
    std::hint::black_box(x);
    STEP_RAW.get() > 10
}

// ---------------------------------------------------------------- can it be shared at all

struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T> NotSend for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> Probe<T> {
    fn send(&self) -> bool {
        true
    }
}

fn probe() -> Res {
    use crate::types::{SimBH, SimKey, SimVal};
    use frozen_collections::{FzHashMap, FzHashSet, FzOrderedMap, FzOrderedSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet};
    use std::rc::Rc;
    macro_rules! yes {
        ($($t:ty),+) => {$({
            let p = Probe::<$t>(std::marker::PhantomData);
            crate::ensure!((&p).send(), "probe/send", "{} cannot be moved to another thread", stringify!($t));
            crate::ensure!((&p).sync(), "probe/sync", "{} cannot be shared between threads", stringify!($t));
        })+};
    }
    macro_rules! no {
        ($($t:ty),+) => {$({
            let p = Probe::<$t>(std::marker::PhantomData);
            crate::ensure!(!(&p).send(), "probe/send", "{} can be moved to another thread although its contents cannot", stringify!($t));
            crate::ensure!(!(&p).sync(), "probe/sync", "{} can be shared between threads although its contents cannot", stringify!($t));
        })+};
    }
    yes!(FzHashMap<SimKey, SimVal, SimBH>, FzHashMap<SimKey, SimVal>, FzOrderedMap<SimKey, SimVal>, FzScalarMap<u32, SimVal>, FzStringMap<Box<str>, SimVal>);
    yes!(FzHashSet<SimKey, SimBH>, FzHashSet<SimKey>, FzOrderedSet<SimKey>, FzScalarSet<u32>, FzStringSet<Box<str>>, FzHashMap<String, Vec<u8>>);
    no!(FzHashMap<Rc<u8>, SimVal>, FzHashMap<SimKey, Rc<u8>>, FzOrderedMap<Rc<u8>, SimVal>, FzOrderedMap<SimKey, Rc<u8>>, FzScalarMap<u32, Rc<u8>>);
    no!(FzStringMap<Box<str>, Rc<u8>>, FzHashSet<Rc<u8>>, FzOrderedSet<Rc<u8>>);
    Ok(())
}

// ---------------------------------------------------------------- a run

struct Lane<'p> {
    e: Engine<'p>,
    viol: Option<Viol>,
}
struct SendPtr<T>(*mut T);
// SAFETY: the baton orders all accesses
unsafe impl<T> Send for SendPtr<T> {}

fn alias(s: &Slot) -> Slot {
    // SAFETY: the copy is only read from and is forgotten, never dropped
    Slot { m: unsafe { std::ptr::read(&s.m) }, model: s.model.clone(), t: s.t }
}

fn body(me: usize, lane: &mut Lane<'_>, plan: &Plan) {
    for (i, op) in plan.ops.iter().enumerate() {
        if op.t != me as u64 + 1 || op.op == "pre" {
            continue;
        }
        if ABORT.load(SeqCst) {
            return;
        }
        {
            let s = sched();
            s.cbn[me] = 0;
            s.stall[me] = op.stall;
            s.reent[me] = op.reent;
            s.gaps[me].clear();
            s.gaps[me].extend(&op.gaps);
        }
        let step = !op.gaps.is_empty() && can_step();
        world::log(|| format!("t{me} starts {}", op.op));
        if step {
            STEP_RAW.set(0);
            STEP_POS.set(0);
            set_stepping(true);
            arm_next(me);
        }
        let r = catch_unwind(AssertUnwindSafe(|| lane.e.exec(i, op)));
        if step {
            set_stepping(false);
            sched().instrs += STEP_RAW.get();
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => {
                lane.viol = Some(prefix(&op.op, v));
                ABORT.store(true, SeqCst);
                return;
            }
            Err(p) => {
                let m = world::payload(p).unwrap_err();
                lane.viol = Some(Viol::new("harness", format!("t{me} {}: {m}", op.op)));
                ABORT.store(true, SeqCst);
                return;
            }
        }
        op_point(me);
    }
}

pub fn run(p: &Plan, stats: &mut Stats) -> Res {
    probe()?;
    let _ = fcbase::step::YIELD.set(yield_point);
    can_step();
    let n = (p.knob("threads").max(1) as usize).min(4);
    let mut main = Engine::new(p)?;
    // set up
    for (i, op) in p.ops.iter().enumerate() {
        if op.t == 0 && op.op == "build" {
            main.exec(i, op).map_err(|v| prefix("build", v))?;
        }
    }
    let shared: Vec<usize> = (0..NSHARED).filter(|i| main.slots[*i].is_some()).collect();
    if shared.len() < NSHARED {
        return main.finish();
    }
    let mut lanes: Vec<Lane<'_>> = Vec::new();
    for me in 0..n {
        let mut e = Engine::new(p)?;
        e.shared = NSHARED;
        e.next_tag = (me as u64 + 1) << 32;
        for i in 0..NSHARED {
            e.slots[i] = Some(alias(main.slots[i].as_ref().unwrap()));
        }
        // a collection of its own, built here and moved over
        for (i, op) in p.ops.iter().enumerate() {
            if op.t == me as u64 + 1 && op.op == "pre" {
                let mut b = op.clone();
                b.op = "build".into();
                e.exec(i, &b).map_err(|v| prefix("build", v))?;
            }
        }
        lanes.push(Lane { e, viol: None });
    }
    ABORT.store(false, SeqCst);
    unsafe {
        *SCHED.0.get() = Some(Sched {
            states: vec![State::Ready; n],
            handles: vec![],
            main: Some(std::thread::current()),
            sched: p.sched.clone(),
            pos: 0,
            cbn: vec![0; n],
            stall: vec![0; n],
            reent: vec![0; n],
            gaps: vec![Vec::with_capacity(16); n],
            shared: (0..NSHARED)
                .map(|i| {
                    let s = main.slots[i].as_ref().unwrap();
                    (std::ptr::from_ref::<dyn SimMap>(s.m.as_ref()), s.model.clone(), main.target(s.t))
                })
                .collect(),
            switches: 0,
            instr_switches: 0,
            stalls: 0,
            reentries: 0,
            instrs: 0,
        });
    }
    TURN.store(MAIN, SeqCst);
    ctl().sched.set(true);
    std::thread::scope(|sc| {
        for (me, lane) in lanes.iter_mut().enumerate() {
            let l = SendPtr(std::ptr::from_mut(lane).cast::<()>());
            let pp = SendPtr(std::ptr::from_ref(p).cast_mut());
            let h = sc.spawn(move || {
                let (l, pp) = (l, pp);
                ME.set(me);
                wait_for_turn(me);
                begin_op();
                // SAFETY: lane and plan outlive the scope; the baton orders accesses
                let (lane, plan) = unsafe { (&mut *l.0.cast::<Lane<'_>>(), &*pp.0) };
                body(me, lane, plan);
                sched().states[me] = State::Done;
                world::log(|| format!("t{me} ends"));
                let next = leave(me).unwrap_or(MAIN);
                pass(next);
            });
            sched().handles.push(h.thread().clone());
        }
        // start
        let first = decide() as usize % n;
        pass(first);
        let mut seen = (PROGRESS.load(SeqCst), Instant::now());
        while TURN.load(SeqCst) != MAIN {
            std::thread::park_timeout(Duration::from_millis(200));
            let now = PROGRESS.load(SeqCst);
            if now != seen.0 {
                seen = (now, Instant::now());
            } else if seen.1.elapsed().as_secs() >= HANG {
                hung();
            }
        }
    });
    ctl().sched.set(false);
    begin_op();
    // account
    {
        let s = sched();
        stats.note("switches", s.switches);
        stats.note("switches_at_instructions", s.instr_switches);
        stats.note("instructions_stepped", s.instrs);
        *stats.fired.entry("stall".into()).or_default() += s.stalls;
        *stats.fired.entry("re-entry".into()).or_default() += s.reentries;
        *stats.fired.entry("context switch".into()).or_default() += s.switches;
    }
    let mut viol = None;
    for l in &mut lanes {
        stats.ops += l.e.stats.ops;
        stats.callbacks += l.e.stats.callbacks;
        for (k, v) in &l.e.stats.fired {
            *stats.fired.entry(format!("panic in {k}")).or_default() += v;
        }
        for (k, v) in &l.e.stats.notes {
            stats.note(k, *v);
        }
        stats.cover.append(&mut l.e.stats.cover);
        if viol.is_none() {
            viol = l.viol.take();
        }
        for i in 0..NSHARED {
            if let Some(Slot { m, model, .. }) = l.e.slots[i].take() {
                std::mem::forget(m);
                drop(model);
            }
        }
    }
    if let Some(v) = viol {
        // nothing is touched any more
        for l in lanes {
            std::mem::forget(l.e.slots);
        }
        std::mem::forget(std::mem::take(&mut main.slots));
        return Err(v);
    }
    world::check_pending()?;
    // everything comes home
    for l in &mut lanes {
        for i in NSHARED..l.e.slots.len() {
            if let Some(s) = l.e.slots[i].take() {
                audit(s.m.as_ref(), &s.model, l.e.target(s.t), false, 1).map_err(|v| prefix("end", sub("content", v)))?;
                must("drop", attempt(move || drop_lib(s.m))?)?;
            }
        }
    }
    for i in 0..main.slots.len() {
        main.audit(i, true).map_err(|v| prefix("end", sub("content", v)))?;
    }
    main.finish().map_err(|v| prefix("end", v))
}

fn hung() -> ! {
    let log = world::take_log();
    println!("{}", serde_json::json!({"class": "hang/threads", "msg": "a thread waits for another one that is stalled, preempted or inside a callback: no progress", "log": log, "log_hash": format!("{:016x}", ctl().log_hash.get())}));
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(7) }
}

// ---------------------------------------------------------------- plans

const MIX: &[(&str, u64)] = &[
    ("get", 8), ("contains", 5), ("getkv", 5), ("index", 2), ("iter", 4), ("eq", 4), ("eqstd", 2), ("debug", 1), ("ser", 1), ("clone", 4), ("pair", 4),
    ("rel", 4), ("oper", 3), ("build", 3), ("set", 2), ("itermut", 1), ("intoiter", 1), ("drop", 1), ("disjoint", 1), ("audit", 1),
];

pub fn gen_threads(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let ts = all_targets();
    let sets = r.chance(2, 5);
    let generated = prop == "C17" || r.chance(1, 6);
    let fixed: Vec<&Target> = ts.iter().filter(|t| t.fixed.is_some() && t.is_set == sets).collect();
    let cands: Vec<&Target> =
        if generated && !fixed.is_empty() { fixed } else { ts.iter().filter(|t| !t.std && !t.peer_only && t.fixed.is_none() && t.is_set == sets).collect() };
    let t = *r.pick(&cands);
    let mut p = Plan { prop: prop.into(), seed, sim: "threads".into(), ..Plan::default() };
    p.targets.push(t.name.into());
    let peers = r#gen::peers_of(t, false, true);
    for _ in 0..r.below(2) {
        p.targets.push(r.pick(&peers).name.into());
    }
    let nt = p.targets.len() as u64;
    p.knobs.insert("shape".into(), r.below(10));
    p.knobs.insert("bhseed".into(), r.next() >> 8);
    let threads = r.weighted(&[(2u64, 10), (3, 6), (4, 3), (6, 2), (9, 1)]);
    // all of them at the same thing, most of them stuck in the middle of it
    let stampede = r.chance(1, 4);
    let mut common: Option<Op> = None;
    p.knobs.insert("threads".into(), threads);
    let n = match r.below(10) {
        0 => r.below(4),
        1..=4 => r.range(3, 12),
        5..=8 => r.range(8, 40),
        _ => r.range(30, 200),
    };
    p.lists.push(r#gen::first_list(&mut r, t, n));
    for _ in 0..2 {
        let l = r#gen::gen_related(&mut r, t, &p.lists[0]);
        p.lists.push(l);
    }
    let bhm = r#gen::bh(&mut r, &p);
    p.knobs.insert("bh".into(), bhm);
    let stepping = r.chance(1, 2);
    for s in 0..2u64 {
        let d = r#gen::bh(&mut r, &p) | (if s == 1 { nt - 1 } else { 0 } << 8);
        p.ops.push(Op { op: "build".into(), a: s, b: r.below(128), c: s * 16 + r.below(16), d, ..Op::default() });
    }
    for th in 1..=threads {
        if r.chance(1, 2) {
            let d = r#gen::bh(&mut r, &p) | (r.below(nt) << 8);
            p.ops.push(Op { op: "pre".into(), a: r.below(3), b: r.below(128), c: r.below(16), d, t: th, ..Op::default() });
        }
        let count = if stepping { r.range(1, 4) } else { r.range(1, 7) };
        for _ in 0..count {
            let name = r.weighted(MIX);
            if matches!(name, "pair" | "rel" | "oper") && !sets || matches!(name, "set" | "index" | "itermut" | "disjoint") && sets {
                continue;
            }
            let mut o = Op { op: name.into(), a: r.below(8), b: r.next() >> 16, c: r.next(), d: r.below(16), t: th, ..Op::default() };
            match name {
                "build" => {
                    o.a = r.below(3);
                    o.b = r.below(128);
                    o.c = r.below(2) * 16 + r.below(16);
                    o.d = r#gen::bh(&mut r, &p) | (r.below(nt) << 8);
                }
                "clone" | "eq" | "rel" | "oper" | "pair" => {
                    o.b = r.below(8);
                    o.c = r.below(12);
                }
                _ => {}
            }
            match name {
                "iter" | "itermut" | "intoiter" | "pair" => o.script = r#gen::gen_script(&mut r, n),
                "disjoint" => o.script = (0..r.range(1, 4)).map(|_| (r.next() >> 8 << 8) | r.below(6)).collect(),
                _ => {}
            }
            if r.chance(1, 4) {
                o.fault = Some(r#gen::fault(&mut r));
            }
            if r.chance(1, 6) {
                o.stall = r.range(1, 8);
            }
            if r.chance(1, 4) {
                o.reent = r.range(1, 6);
            }
            if stepping && matches!(name, "get" | "contains" | "getkv" | "index" | "iter" | "eq" | "rel" | "pair" | "clone") && r.chance(2, 3) {
                for _ in 0..r.range(1, 4) {
                    let w = r.below(12);
                    let stall = if r.chance(1, 8) { 1 << 32 } else { 0 };
                    o.gaps.push(r.range(1, 1 << w) | stall);
                }
            }
            if stampede {
                let same = common.get_or_insert_with(|| Op { gaps: Vec::new(), fault: None, ..o.clone() }).clone();
                if p.ops.iter().all(|x| x.t != th || x.op == "pre") {
                    let stall = if r.chance(3, 4) { r.range(1, 4) } else { 0 };
                    p.ops.push(Op { t: th, stall, ..same });
                }
            }
            p.ops.push(o);
        }
    }
    let (num, den) = *r.pick(&[(1u64, 2u64), (1, 4), (1, 8), (1, 20), (1, 60)]);
    let len = r.range(10, 800);
    p.sched = (0..len).map(|_| if r.chance(num, den) { r.range(1, 3) } else { 0 }).collect();
    p
}
