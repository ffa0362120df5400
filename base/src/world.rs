//! The simulated world: every callback the library makes into user code goes through here.
//!
//! One run executes at a time per process and at most one simulated thread runs at any instant, so all state is
//! plain cells behind a `Sync` wrapper.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};

pub struct Single<T>(pub T);
// SAFETY: the simulator lets exactly one thread run at any instant and hands over with full synchronisation.
unsafe impl<T> Sync for Single<T> {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(usize)]
pub enum Cb {
    Hash,
    Eq,
    Cmp,
    Clone,
    Drop,
    Index,
    AsRef,
    Ser,
    De,
    Next,
    Fmt,
    Build,
    Closure,
    Alloc,
    Sink,
}
pub const NCB: usize = 15;
pub const CB_NAMES: [&str; NCB] = [
    "hash", "eq", "cmp", "clone", "drop", "index", "as_ref", "serialize", "deserialize", "iter_next", "fmt", "build_hasher", "closure",
    "alloc", "sink",
];

/// The payload of every panic the simulator itself raises.
#[derive(Debug)]
pub enum SimPanic {
    Fault(usize),
    Budget,
    Violation,
    Stop,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

impl Viol {
    #[inline(never)]
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { class: class.into(), msg: msg.into() }
    }
}

pub type Res<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !$c {
            return Err($crate::world::Viol::new($class, format!($($arg)*)));
        }
    };
}

pub struct Ctl {
    pub counts: [Cell<u64>; NCB],
    pub total: Cell<u64>,
    pub budget: Cell<u64>,
    pub fault_class: Cell<usize>,
    pub fault_nth: Cell<u64>,
    pub fired: Cell<bool>,
    pub byz: Cell<u64>,
    pub byz_mask: Cell<u64>,
    pub sched: Cell<bool>,
    pub reent: Cell<bool>,
    pub run_fired: [Cell<u64>; NCB],
    pub run_total: Cell<u64>,
    pub run_byz: Cell<u64>,
    pub fault_err: Cell<bool>,
    pub primed: Cell<bool>,
    pub pend: Cell<Option<(Cb, u64)>>,
    // ledger
    pub epoch: Cell<u64>,
    pub next_inst: Cell<u64>,
    pub live_keys: Cell<i64>,
    pub live_vals: Cell<i64>,
    pub created: Cell<u64>,
    pub next_val: Cell<u64>,
    /// the values of this run have no content
    pub flat_vals: Cell<bool>,
    pub delta_on: Cell<bool>,
    // default hasher for SimBH::default()
    pub bh_mode: Cell<u8>,
    pub bh_seed: Cell<u64>,
    pub shape: Cell<u64>,
    // event log hash
    pub log_hash: Cell<u64>,
    pub steps: Cell<u64>,
}

const Z: Cell<u64> = Cell::new(0);

pub static CTL: Single<Ctl> = Single(Ctl {
    counts: [Z; NCB],
    total: Cell::new(0),
    budget: Cell::new(u64::MAX),
    fault_class: Cell::new(usize::MAX),
    fault_nth: Cell::new(0),
    fired: Cell::new(false),
    byz: Cell::new(0),
    byz_mask: Cell::new(0),
    sched: Cell::new(false),
    reent: Cell::new(false),
    run_fired: [Z; NCB],
    run_total: Cell::new(0),
    run_byz: Cell::new(0),
    fault_err: Cell::new(false),
    primed: Cell::new(false),
    pend: Cell::new(None),
    epoch: Cell::new(0),
    next_inst: Cell::new(0),
    live_keys: Cell::new(0),
    live_vals: Cell::new(0),
    created: Cell::new(0),
    next_val: Cell::new(0),
    flat_vals: Cell::new(false),
    delta_on: Cell::new(false),
    bh_mode: Cell::new(0),
    bh_seed: Cell::new(0),
    shape: Cell::new(0),
    log_hash: Cell::new(0),
    steps: Cell::new(0),
});

struct Shared {
    ledger: Vec<u8>,
    viol: Option<Viol>,
    strings: BTreeMap<Box<str>, u64>,
    interned: Vec<String>,
    statics: BTreeSet<Box<str>>,
    log: Vec<String>,
    keep_log: bool,
}

static SHARED: Single<RefCell<Option<Shared>>> = Single(RefCell::new(None));

fn shared<R>(f: impl FnOnce(&mut Shared) -> R) -> R {
    let _n = crate::step::NoPre::enter();
    let _g = crate::alloc::OutLib::enter();
    let mut b = SHARED.0.borrow_mut();
    f(b.get_or_insert_with(|| Shared { ledger: Vec::new(), viol: None, strings: BTreeMap::new(), interned: Vec::new(), statics: BTreeSet::new(), log: Vec::new(), keep_log: false }))
}

#[inline]
pub fn ctl() -> &'static Ctl {
    &CTL.0
}

/// Starts a fresh run.
#[inline(never)]
pub fn reset(seed: u64, keep_log: bool) {
    let c = ctl();
    shared(|s| {
        s.ledger.clear();
        s.viol = None;
        s.strings.clear();
        s.interned.clear();
        s.statics.clear();
        s.log.clear();
        s.keep_log = keep_log;
    });
    c.epoch.set(c.epoch.get() + 1);
    c.next_inst.set(0);
    c.live_keys.set(0);
    c.live_vals.set(0);
    c.created.set(0);
    c.next_val.set(1000);
    c.flat_vals.set(false);
    c.delta_on.set(false);
    c.sched.set(false);
    c.reent.set(false);
    c.byz_mask.set(0);
    c.byz.set(seed);
    for x in &c.run_fired {
        x.set(0);
    }
    c.run_total.set(0);
    c.run_byz.set(0);
    c.bh_mode.set(0);
    c.bh_seed.set(seed);
    c.shape.set(0);
    c.log_hash.set(0xcbf2_9ce4_8422_2325);
    c.steps.set(0);
    foldhash::sim::set(seed ^ 0x5151_7171_3131_1313);
    begin_op();
    crate::alloc::start_run(mix(seed, 0x2e05e) % 4 == 0);
}

/// Forgets the counters and the fault of the previous operation.
#[inline(never)]
pub fn begin_op() {
    let c = ctl();
    for x in &c.counts {
        x.set(0);
    }
    c.total.set(0);
    c.budget.set(20_000_000);
    c.fault_class.set(usize::MAX);
    c.fault_err.set(false);
    c.fired.set(false);
    c.steps.set(c.steps.get() + 1);
    c.primed.set(true);
    c.pend.set(None);
    crate::alloc::disarm();
}

/// Called right before the first call into the library of an operation, when its arguments are ready.
#[inline(never)]
pub fn go() {
    let c = ctl();
    if c.primed.replace(false) {
        for x in &c.counts {
            x.set(0);
        }
        c.total.set(0);
        crate::alloc::mark();
        if let Some((cl, n)) = c.pend.take() {
            arm(cl, n);
        }
    }
}

/// How many callbacks of each class the operation made so far.
#[inline(never)]
pub fn counts() -> [u64; NCB] {
    let c = ctl();
    let mut r = [0; NCB];
    for (i, x) in c.counts.iter().enumerate() {
        r[i] = x.get();
    }
    r[Cb::Alloc as usize] = crate::alloc::since_mark();
    r
}

/// Arms a fault: the `nth` (0-based) callback of that class from now on.
#[inline(never)]
pub fn arm(class: Cb, nth: u64) {
    let c = ctl();
    c.fired.set(false);
    if class == Cb::Alloc {
        crate::alloc::arm(nth);
    } else {
        c.fault_class.set(class as usize);
        c.fault_nth.set(c.counts[class as usize].get() + nth);
    }
}

#[inline(never)]
pub fn disarm() {
    ctl().fault_class.set(usize::MAX);
    crate::alloc::disarm();
}

#[inline(never)]
pub fn fired() -> bool {
    ctl().fired.get()
}

#[inline(never)]
pub fn mark_fired(class: Cb) {
    let c = ctl();
    let _n = crate::step::NoPre::enter();
    c.fired.set(true);
    c.run_fired[class as usize].set(c.run_fired[class as usize].get() + 1);
}

#[inline(never)]
fn raise(p: SimPanic) -> ! {
    let g = crate::alloc::OutLib::enter();
    std::mem::forget(g); // the catch site restores the flag
    panic_any(p)
}

/// Every callback of the library into user code starts here.
#[inline(never)]
pub fn cb(class: Cb) {
    let c = ctl();
    let i = class as usize;
    let n = c.counts[i].get();
    c.counts[i].set(n + 1);
    let t = c.total.get() + 1;
    c.total.set(t);
    if c.sched.get() && class != Cb::Drop && !std::thread::panicking() {
        crate::step::yield_point(class);
    }
    if c.fault_class.get() == i && n == c.fault_nth.get() && !c.fault_err.get() {
        if class == Cb::Drop && std::thread::panicking() {
            return;
        }
        c.fault_class.set(usize::MAX);
        mark_fired(class);
        raise(SimPanic::Fault(i));
    }
    if t > c.budget.get() && !std::thread::panicking() {
        c.budget.set(u64::MAX);
        raise(SimPanic::Budget);
    }
}

/// A callback that reports its fault as an error value instead of panicking.
#[inline(never)]
pub fn cb_err(class: Cb) -> bool {
    let c = ctl();
    let i = class as usize;
    let n = c.counts[i].get();
    if c.fault_err.get() && c.fault_class.get() == i && n == c.fault_nth.get() {
        c.counts[i].set(n + 1);
        c.total.set(c.total.get() + 1);
        c.fault_class.set(usize::MAX);
        mark_fired(class);
        return true;
    }
    cb(class);
    false
}

/// An adversarial answer, if the run has such answers for this class.
#[inline(never)]
pub fn byz(class: Cb) -> Option<u64> {
    let c = ctl();
    if c.byz_mask.get() & (1 << class as usize) == 0 {
        return None;
    }
    let mut z = c.byz.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
    c.byz.set(z);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 31;
    // three quarters of the answers stay honest, so that structures of some size come into being
    if z & 0x3_0000 != 0 {
        return None;
    }
    c.run_byz.set(c.run_byz.get() + 1);
    Some(z)
}

// ---------------------------------------------------------------- ledger

const LIVE: u8 = 1;
const DEAD: u8 = 2;

#[inline(never)]
pub fn birth(is_key: bool) -> u64 {
    let _n = crate::step::NoPre::enter();
    let c = ctl();
    let i = c.next_inst.get();
    c.next_inst.set(i + 1);
    shared(|s| s.ledger.push(LIVE));
    c.created.set(c.created.get() + 1);
    let l = if is_key { &c.live_keys } else { &c.live_vals };
    l.set(l.get() + 1);
    i
}

#[inline(never)]
pub fn canary(inst: u64, is_key: bool) -> u64 {
    let k = if is_key { 0x4b45_595f_4b45_595f } else { 0x5641_4c5f_5641_4c5f };
    (inst.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ k).wrapping_add(ctl().epoch.get().wrapping_mul(0xd6e8_feb8_6659_fd93))
}

/// The canary of keys and values that live in static collections.
pub const FIXED: u64 = 0x5374_6174_6963_2121;

/// Called by the destructor of every tracked object.
#[inline(never)]
pub fn death(inst: u64, can: u64, is_key: bool) {
    if inst == u64::MAX && can == FIXED {
        violate("memory:drop-of-static", format!("a destructor ran on a {} of a static collection", what(is_key)));
        return;
    }
    let _n = crate::step::NoPre::enter();
    if can != canary(inst, is_key) {
        violate("memory:drop-of-garbage", format!("a destructor ran on memory that holds no {}", what(is_key)));
        return;
    }
    let again = shared(|s| {
        let e = &mut s.ledger[inst as usize];
        let again = *e == DEAD;
        *e = DEAD;
        again
    });
    if again {
        violate("release:twice", format!("{} instance {inst} was destroyed twice", what(is_key)));
    } else {
        let c = ctl();
        let l = if is_key { &c.live_keys } else { &c.live_vals };
        l.set(l.get() - 1);
    }
}

/// Values without content can only be counted.
#[inline(never)]
pub fn zst_birth() {
    let _n = crate::step::NoPre::enter();
    let c = ctl();
    c.created.set(c.created.get() + 1);
    c.live_vals.set(c.live_vals.get() + 1);
}
#[inline(never)]
pub fn zst_death() {
    let _n = crate::step::NoPre::enter();
    let c = ctl();
    if c.live_vals.get() <= 0 {
        violate("release:twice", "more values were destroyed than were ever made".into());
    } else {
        c.live_vals.set(c.live_vals.get() - 1);
    }
}

#[inline(never)]
fn what(is_key: bool) -> &'static str {
    if is_key { "key" } else { "value" }
}

/// Called on every use of a tracked object.
#[inline(never)]
pub fn touch(inst: u64, can: u64, is_key: bool) {
    if inst == u64::MAX && can == FIXED {
        return;
    }
    if can != canary(inst, is_key) {
        violate_now("memory:garbage", format!("the library handed out memory that holds no {}", what(is_key)));
    }
    if shared(|s| s.ledger[inst as usize]) == DEAD {
        violate_now("release:use-after", format!("{} instance {inst} was used after its destruction", what(is_key)));
    }
}

// ---------------------------------------------------------------- violations and log

#[inline(never)]
pub fn violate(class: &str, msg: String) {
    shared(|s| {
        if s.viol.is_none() {
            s.viol = Some(Viol::new(class, msg));
        }
    });
}

#[inline(never)]
pub fn violate_now(class: &str, msg: String) {
    violate(class, msg);
    if !std::thread::panicking() {
        raise(SimPanic::Violation);
    }
}

#[inline(never)]
pub fn pending() -> Option<Viol> {
    shared(|s| s.viol.clone())
}

#[inline(never)]
pub fn clear_pending() {
    shared(|s| s.viol = None);
}

#[inline(never)]
pub fn check_pending() -> Res {
    match pending() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

#[inline(never)]
pub fn fresh_val() -> u64 {
    let _n = crate::step::NoPre::enter();
    let c = ctl();
    let v = c.next_val.get();
    c.next_val.set(v + 1);
    if c.flat_vals.get() { 0 } else { v }
}

#[inline(never)]
pub fn log(f: impl FnOnce() -> String) {
    let _n = crate::step::NoPre::enter();
    let _g = crate::alloc::OutLib::enter();
    let s = f();
    let c = ctl();
    let mut h = c.log_hash.get();
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    c.log_hash.set(h);
    shared(|sh| {
        if sh.keep_log && sh.log.len() < 2000 {
            sh.log.push(s);
        }
    });
}

#[inline(never)]
pub fn take_log() -> Vec<String> {
    shared(|s| std::mem::take(&mut s.log))
}

#[inline(never)]
pub fn register_string(s: &str, id: u64) {
    shared(|sh| {
        if !sh.strings.contains_key(s) {
            sh.strings.insert(s.into(), id);
        }
    });
}

/// The number of a string that may come from outside; unknown strings get numbers of their own.
#[inline(never)]
pub fn intern(s: &str) -> u64 {
    shared(|sh| {
        if let Some(i) = sh.strings.get(s) {
            return *i;
        }
        let id = (1 << 40) + sh.interned.len() as u64;
        sh.interned.push(s.to_string());
        sh.strings.insert(s.into(), id);
        id
    })
}

/// A string that lives as long as the run.
#[inline(never)]
pub fn static_str(s: &str) -> &'static str {
    shared(|sh| {
        if !sh.statics.contains(s) {
            sh.statics.insert(s.into());
        }
        let r: &str = sh.statics.get(s).unwrap();
        // SAFETY: the text stays where it is until the next run begins, when nothing of this run is left
        unsafe { &*std::ptr::from_ref(r) }
    })
}

#[inline(never)]
pub fn interned(id: u64) -> Option<String> {
    shared(|sh| sh.interned.get((id - (1 << 40)) as usize).cloned())
}

#[inline(never)]
pub fn string_id(s: &str) -> u64 {
    match shared(|sh| sh.strings.get(s).copied()) {
        Some(i) => i,
        None => {
            violate_now("content:foreign-key", format!("a key was handed out that was never supplied: {s:?}"));
            u64::MAX
        }
    }
}

// ---------------------------------------------------------------- outcomes

#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    /// an injected fault surfaced
    Fault,
    Budget,
    /// some other panic, with its message
    Panic(String),
}

#[inline(never)]
pub fn payload(p: Box<dyn Any + Send>) -> Result<(), String> {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        Err((*s).to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Err(s.clone())
    } else {
        Err("(a panic without a message)".into())
    }
}

/// Runs `f`, classifying how it ended. `Err` means a property violation was noticed on the way.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Res<Out<T>> {
    let saved = crate::alloc::lib_flag();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::set_lib_flag(saved);
    let out = match r {
        Ok(v) => Out::Ok(v),
        Err(p) => match p.downcast::<SimPanic>() {
            Ok(sp) => match *sp {
                SimPanic::Fault(_) => Out::Fault,
                SimPanic::Budget => Out::Budget,
                SimPanic::Violation => Out::Fault,
                SimPanic::Stop => std::panic::resume_unwind(Box::new(SimPanic::Stop)),
            },
            Err(p) => Out::Panic(payload(p).unwrap_err()),
        },
    };
    check_pending()?;
    Ok(out)
}

impl<T> Out<T> {
    #[inline(never)]
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Fault => "fault",
            Out::Budget => "budget",
            Out::Panic(_) => "panic",
        }
    }
}

impl<T> Out<T> {
    pub fn map_unit(self) -> Out<()> {
        match self {
            Out::Ok(_) => Out::Ok(()),
            Out::Fault => Out::Fault,
            Out::Budget => Out::Budget,
            Out::Panic(m) => Out::Panic(m),
        }
    }
}

/// For operations without an armed fault: anything but success is a violation.
pub fn must<T>(what: &str, o: Out<T>) -> Res<T> {
    match o {
        Out::Ok(v) => Ok(v),
        Out::Panic(m) => Err(Viol::new(format!("panic:{what}"), format!("{what} panicked: {m}"))),
        Out::Budget => Err(Viol::new(format!("hang:{what}"), format!("{what} did not finish within the step budget"))),
        Out::Fault => Err(Viol::new(format!("panic:{what}"), format!("{what} raised a fault that was not armed"))),
    }
}

// ---------------------------------------------------------------- rng

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    #[inline(never)]
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x1bad_cafe_0dd5_eed5);
        r.next();
        r.next();
        r
    }
    #[inline(never)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    #[inline(never)]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    #[inline(never)]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    #[inline(never)]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted<T: Copy>(&mut self, v: &[(T, u64)]) -> T {
        let total: u64 = v.iter().map(|x| x.1).sum();
        let mut r = self.below(total);
        for (x, w) in v {
            if r < *w {
                return *x;
            }
            r -= w;
        }
        v[0].0
    }
}

#[inline(never)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31));
    r.next();
    r.next()
}
