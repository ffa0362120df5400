//! The allocator seam: tags what the library allocates, poisons, guards with redzones, quarantines, and fails on demand.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst, compiler_fence};

pub struct SimAlloc;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

#[inline(never)]
pub fn lib_flag() -> bool {
    IN_LIB.with(Cell::get)
}
#[inline(never)]
pub fn set_lib_flag(v: bool) {
    compiler_fence(SeqCst);
    IN_LIB.with(|c| c.set(v));
    compiler_fence(SeqCst);
}

/// While alive, allocations are the library's.
pub struct InLib(bool);
impl InLib {
    #[inline(never)]
    pub fn enter() -> Self {
        let p = lib_flag();
        set_lib_flag(true);
        crate::step::resume_step();
        Self(p)
    }
}
impl Drop for InLib {
    #[inline(never)]
    fn drop(&mut self) {
        set_lib_flag(self.0);
    }
}

/// While alive, allocations are the simulator's.
pub struct OutLib(bool);
impl OutLib {
    #[inline(never)]
    pub fn enter() -> Self {
        let p = lib_flag();
        set_lib_flag(false);
        Self(p)
    }
}
impl Drop for OutLib {
    #[inline(never)]
    fn drop(&mut self) {
        set_lib_flag(self.0);
        crate::step::resume_step();
    }
}

const HDR: usize = 32;
const RED: usize = 32;
const M_LIB: u64 = 0x11b0_11b0_a110_c8ed;
const M_USER: u64 = 0x05e2_05e2_a110_c8ed;
const M_FREE: u64 = 0xf4ee_f4ee_f4ee_f4ee;
const RED_BYTE: u8 = 0xFD;
const NEW_BYTE: u8 = 0xA5;
const FREE_BYTE: u8 = 0xDD;
/// What no simulated workload legitimately needs in one piece.
pub const HUGE: usize = 1 << 30;

static ENABLED: AtomicBool = AtomicBool::new(false);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicU64 = AtomicU64::new(u64::MAX);
static RUN: AtomicU64 = AtomicU64::new(0);
static HUGE_SEEN: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicBool = AtomicBool::new(false);
static REUSE: AtomicBool = AtomicBool::new(false);
static CORRUPT: AtomicU64 = AtomicU64::new(0);

const Q: usize = 256;
struct Quarantine {
    lock: AtomicBool,
    ring: std::cell::UnsafeCell<[(usize, usize, usize); Q]>,
    pos: std::cell::UnsafeCell<usize>,
}
unsafe impl Sync for Quarantine {}
static QUAR: Quarantine =
    Quarantine { lock: AtomicBool::new(false), ring: std::cell::UnsafeCell::new([(0, 0, 0); Q]), pos: std::cell::UnsafeCell::new(0) };

fn head(align: usize) -> usize {
    HDR.max(align)
}
fn block(layout: Layout) -> Layout {
    let a = layout.align().max(16);
    // SAFETY: sizes far below isize::MAX, checked by the caller
    unsafe { Layout::from_size_align_unchecked(head(layout.align()) + layout.size() + RED, a) }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _n = crate::step::NoPre::enter();
        unsafe {
            if !ENABLED.load(SeqCst) {
                // still carries a header, so that blocks may outlive the switch
                return raw_alloc(layout, M_USER);
            }
            let lib = lib_flag();
            if lib {
                let n = COUNT.fetch_add(1, SeqCst);
                if n == ARMED.load(SeqCst) {
                    ARMED.store(u64::MAX, SeqCst);
                    FAILED.store(true, SeqCst);
                    return std::ptr::null_mut();
                }
                if layout.size() > HUGE {
                    HUGE_SEEN.fetch_max(layout.size() as u64, SeqCst);
                    FAILED.store(true, SeqCst);
                    return std::ptr::null_mut();
                }
            }
            let p = match if lib && REUSE.load(SeqCst) { again(layout) } else { 0 } {
                0 => raw_alloc(layout, if lib { M_LIB } else { M_USER }),
                p => p as *mut u8,
            };
            if lib && !p.is_null() {
                LIVE_BLOCKS.fetch_add(1, SeqCst);
                let b = LIVE_BYTES.fetch_add(layout.size() as i64, SeqCst) + layout.size() as i64;
                PEAK.fetch_max(b, SeqCst);
                if layout.size() <= 1 << 20 {
                    std::ptr::write_bytes(p, NEW_BYTE, layout.size());
                }
            }
            p
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _n = crate::step::NoPre::enter();
        unsafe {
            let h = p.sub(HDR).cast::<u64>();
            let magic = h.read();
            if magic == M_USER {
                System.dealloc(p.sub(head(layout.align())), block(layout));
                return;
            }
            if magic != M_LIB {
                // double free or a wild pointer: leave the memory alone
                CORRUPT.fetch_or(if magic == M_FREE { 1 } else { 2 }, SeqCst);
                return;
            }
            if h.add(1).read() != layout.size() as u64 || h.add(2).read() != layout.align() as u64 {
                CORRUPT.fetch_or(4, SeqCst);
                return;
            }
            let red = p.add(layout.size());
            for i in 0..RED {
                if red.add(i).read() != RED_BYTE {
                    CORRUPT.fetch_or(8, SeqCst);
                }
            }
            if h.add(3).read() == RUN.load(SeqCst) {
                LIVE_BLOCKS.fetch_sub(1, SeqCst);
                LIVE_BYTES.fetch_sub(layout.size() as i64, SeqCst);
            }
            if layout.size() <= 1 << 20 {
                std::ptr::write_bytes(p, FREE_BYTE, layout.size());
            }
            h.write(M_FREE);
            if layout.size() > 1 << 16 {
                System.dealloc(p.sub(head(layout.align())), block(layout));
                return;
            }
            quarantine(p as usize, layout.size(), layout.align());
        }
    }
}

unsafe fn raw_alloc(layout: Layout, magic: u64) -> *mut u8 {
    unsafe {
        if layout.size() > isize::MAX as usize - 4096 {
            return std::ptr::null_mut();
        }
        let b = System.alloc(block(layout));
        if b.is_null() {
            return b;
        }
        let p = b.add(head(layout.align()));
        let h = p.sub(HDR).cast::<u64>();
        h.write(magic);
        h.add(1).write(layout.size() as u64);
        h.add(2).write(layout.align() as u64);
        h.add(3).write(RUN.load(SeqCst));
        if magic == M_LIB {
            std::ptr::write_bytes(p.add(layout.size()), RED_BYTE, RED);
        }
        p
    }
}

unsafe fn quarantine(p: usize, size: usize, align: usize) {
    unsafe {
        while QUAR.lock.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        let ring = &mut *QUAR.ring.get();
        let pos = &mut *QUAR.pos.get();
        let old = std::mem::replace(&mut ring[*pos], (p, size, align));
        *pos = (*pos + 1) % Q;
        if old.0 != 0 {
            evict(old);
        }
        QUAR.lock.store(false, SeqCst);
    }
}

/// The block of this size that was freed last, if it is still in quarantine.
unsafe fn again(layout: Layout) -> usize {
    unsafe {
        while QUAR.lock.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        let ring = &mut *QUAR.ring.get();
        let pos = *QUAR.pos.get();
        let hit = (1..=Q).map(|i| (pos + Q - i) % Q).find(|i| ring[*i].0 != 0 && ring[*i].1 == layout.size() && ring[*i].2 == layout.align());
        let p = hit.map_or(0, |i| std::mem::replace(&mut ring[i], (0, 0, 0)).0);
        QUAR.lock.store(false, SeqCst);
        if p != 0 {
            unwritten(p, layout.size());
            let h = (p as *mut u8).sub(HDR).cast::<u64>();
            h.write(M_LIB);
            h.add(3).write(RUN.load(SeqCst));
        }
        p
    }
}

unsafe fn unwritten(p: usize, size: usize) {
    for i in 0..size {
        if unsafe { (p as *mut u8).add(i).read() } != FREE_BYTE {
            CORRUPT.fetch_or(16, SeqCst);
            break;
        }
    }
}

unsafe fn evict((p, size, align): (usize, usize, usize)) {
    unsafe {
        let ptr = p as *mut u8;
        unwritten(p, size);
        System.dealloc(ptr.sub(head(align)), block(Layout::from_size_align_unchecked(size, align)));
    }
}

/// Checks everything in quarantine and lets it go.
pub fn flush() {
    unsafe {
        let ring = &mut *QUAR.ring.get();
        for e in ring.iter_mut() {
            if e.0 != 0 {
                evict(std::mem::replace(e, (0, 0, 0)));
            }
        }
    }
}

pub fn enable() {
    ENABLED.store(true, SeqCst);
    std::alloc::set_alloc_error_hook(|l| {
        if FAILED.swap(false, SeqCst) {
            set_lib_flag(false);
            crate::world::mark_fired(crate::world::Cb::Alloc);
            std::panic::panic_any(crate::world::SimPanic::Fault(crate::world::Cb::Alloc as usize));
        }
        eprintln!("out of memory: {l:?}");
        std::process::exit(2);
    });
}

/// `reuse`: whether memory freed by the library is handed out again at once where the size fits.
pub fn start_run(reuse: bool) {
    flush();
    REUSE.store(reuse, SeqCst);
    RUN.fetch_add(1, SeqCst);
    LIVE_BLOCKS.store(0, SeqCst);
    LIVE_BYTES.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    COUNT.store(0, SeqCst);
    MARK.store(0, SeqCst);
    CORRUPT.store(0, SeqCst);
    HUGE_SEEN.store(0, SeqCst);
    disarm();
}

pub fn arm(nth: u64) {
    ARMED.store(COUNT.load(SeqCst) + nth, SeqCst);
}
pub fn disarm() {
    ARMED.store(u64::MAX, SeqCst);
    FAILED.store(false, SeqCst);
}
static MARK: AtomicU64 = AtomicU64::new(0);
pub fn mark() {
    MARK.store(COUNT.load(SeqCst), SeqCst);
}
pub fn since_mark() -> u64 {
    COUNT.load(SeqCst) - MARK.load(SeqCst)
}
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst))
}
pub fn reset_peak() {
    PEAK.store(LIVE_BYTES.load(SeqCst), SeqCst);
}
pub fn peak() -> i64 {
    PEAK.load(SeqCst)
}
pub fn huge_seen() -> u64 {
    HUGE_SEEN.load(SeqCst)
}

pub fn corruption() -> Option<String> {
    let c = CORRUPT.swap(0, SeqCst);
    if c == 0 {
        return None;
    }
    let mut v = Vec::new();
    for (bit, s) in [
        (1, "memory freed twice"),
        (2, "a pointer freed that was never allocated"),
        (4, "memory freed with the wrong size"),
        (8, "write past the end of an allocation"),
        (16, "write to freed memory"),
    ] {
        if c & bit != 0 {
            v.push(s);
        }
    }
    Some(v.join(", "))
}
