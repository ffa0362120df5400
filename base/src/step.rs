//! Per-thread state of the single-stepping scheduler (see `threads` in fcsim).

use crate::alloc::lib_flag;
use crate::world::Cb;
use std::cell::Cell;
use std::sync::OnceLock;
use std::sync::atomic::{Ordering::SeqCst, compiler_fence};

thread_local! {
    /// while positive, the thread must not be preempted by an instruction count
    static NOPRE: Cell<i64> = const { Cell::new(0) };
    static IN_TRAP: Cell<bool> = const { Cell::new(false) };
    static STEP: Cell<bool> = const { Cell::new(false) };
}

#[inline(never)]
pub fn nopre() -> i64 {
    NOPRE.get()
}
#[inline(never)]
pub fn stepping() -> bool {
    STEP.get()
}
#[inline(never)]
pub fn set_stepping(v: bool) {
    STEP.set(v);
    compiler_fence(SeqCst);
}
#[inline(never)]
pub fn set_in_trap(v: bool) {
    IN_TRAP.set(v);
    compiler_fence(SeqCst);
}

pub struct NoPre(());
impl NoPre {
    #[inline(never)]
    pub fn enter() -> Self {
        NOPRE.set(NOPRE.get() + 1);
        compiler_fence(SeqCst);
        Self(())
    }
}
impl Drop for NoPre {
    #[inline(never)]
    fn drop(&mut self) {
        compiler_fence(SeqCst);
        NOPRE.set(NOPRE.get() - 1);
        resume_step();
    }
}

/// Called wherever control comes (back) into library code.
#[inline(never)]
pub fn resume_step() {
    compiler_fence(SeqCst);
    if STEP.get() && !IN_TRAP.get() && lib_flag() && NOPRE.get() == 0 && !std::thread::panicking() {
        set_tf();
    }
}

#[inline(never)]
pub fn set_tf() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}

/// What a callback does while threads run.
pub static YIELD: OnceLock<fn(Cb)> = OnceLock::new();

pub fn yield_point(class: Cb) {
    if let Some(f) = YIELD.get() {
        f(class);
    }
}
