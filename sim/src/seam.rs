//! Seams: compiler callbacks from the crate under test, and the futex system call.
use std::cell::Cell;
use std::os::raw::c_long;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub struct Tk {
    /// true while library code runs as part of a simulated operation
    pub on: Cell<bool>,
    /// executed blocks/loads/stores in the current operation
    pub n: Cell<u64>,
    /// tick at which the scheduler wants control
    pub next: Cell<u64>,
    /// deepest stack address seen in the current operation
    pub low: Cell<usize>,
}
thread_local! {
    pub static TK: Tk = const { Tk { on: Cell::new(false), n: Cell::new(0), next: Cell::new(u64::MAX), low: Cell::new(usize::MAX) } };
}
pub const MAXB: usize = 16384;
/// block-reached bitmap, in memory shared by all simulator processes
pub static mut COV: *mut u8 = std::ptr::null_mut();
static NBLOCKS: AtomicU32 = AtomicU32::new(0);
pub fn blocks_total() -> usize {
    NBLOCKS.load(Ordering::Relaxed) as usize
}

#[inline(always)]
fn tick() {
    TK.with(|t| {
        if t.on.get() {
            let sp: usize;
            unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
            if sp < t.low.get() {
                t.low.set(sp);
            }
            let n = t.n.get() + 1;
            t.n.set(n);
            if n >= t.next.get() {
                slow();
            }
        }
    });
}
#[cold]
#[inline(never)]
fn slow() {
    TK.with(|t| {
        t.on.set(false);
        let nx = crate::sched::on_tick(t.n.get());
        t.next.set(nx);
        t.on.set(true);
    });
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = NBLOCKS.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAXB && !COV.is_null() && *COV.add(i) == 0 {
        *COV.add(i) = 1;
    }
    tick();
}
/// Draft runs note at which ticks a call reaches memory that is neither its calculator nor its stack: there, and
/// only there, can callers meet.  Suspensions are then placed around these ticks.
pub static PROBE: AtomicBool = AtomicBool::new(false);
pub struct Hot {
    /// the calculator of the current call, and the top of its stack
    pub object: (usize, usize),
    pub top: usize,
    pub n: usize,
    pub at: [u64; HOTS],
}
pub const HOTS: usize = 192;
pub static mut HOT: Hot = Hot { object: (0, 0), top: 0, n: 0, at: [0; HOTS] };
extern "C" {
    static __executable_start: u8;
    static __data_start: u8;
}
#[inline(always)]
fn probe(a: *const u8) {
    if PROBE.load(Ordering::Relaxed) && TK.with(|t| t.on.get()) {
        found(a as usize);
    }
}
#[cold]
fn found(a: usize) {
    unsafe {
        let h = &mut *(&raw mut HOT);
        let sp: usize;
        std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        let fixed = (&raw const __executable_start as usize)..(&raw const __data_start as usize);
        if (a >= h.object.0 && a < h.object.1) || (a >= sp && a <= h.top) || fixed.contains(&a) {
            return;
        }
        // the first and the latest ones are kept
        let i = if h.n < HOTS { h.n } else { HOTS / 2 + h.n % (HOTS / 2) };
        h.at[i] = TK.with(|t| t.n.get());
        h.n += 1;
    }
}
macro_rules! access {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: *const u8) { tick(); probe(a); })* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// std's locks reach the kernel through `syscall(SYS_futex, ..)`.  A simulated thread never really sleeps:
/// a futex wait becomes a scheduling decision followed by a (legal) spurious wake-up.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a1: c_long, a2: c_long, a3: c_long, a4: c_long, a5: c_long, a6: c_long) -> c_long {
    if num == 202 && TK.with(|t| t.on.get()) {
        let op = a2 & 0x7f;
        if op == 0 || op == 9 {
            let v = (*(a1 as *const AtomicU32)).load(Ordering::SeqCst);
            if v != a3 as u32 {
                *crate::sys::__errno_location() = 11;
                return -1;
            }
            TK.with(|t| t.on.set(false));
            crate::sched::on_block();
            TK.with(|t| t.on.set(true));
            return 0;
        }
    }
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a1, in("rsi") a2, in("rdx") a3,
        in("r10") a4, in("r8") a5, in("r9") a6, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *crate::sys::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
