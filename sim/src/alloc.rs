//! Simulated allocator seam: dirty memory, recycled memory, red zones, use-after-free detection,
//! ledger of live blocks and injected exhaustion.  Applies to allocations made by library code inside simulated
//! operations; everything else goes straight to the system allocator.
use crate::seam::TK;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
/// 0 = quarantine freed blocks, 1 = recycle freed blocks at once, last-in first-out
pub static RECYCLE: AtomicU8 = AtomicU8::new(0);
/// every block has pages of its own; the pages around it, and its own once it is freed, cannot be touched
pub static FENCE: AtomicBool = AtomicBool::new(false);
pub static FILL: AtomicU8 = AtomicU8::new(0xA5);
/// fail the n-th allocation from now (1 = next); 0 = never
pub static FAIL_AT: AtomicI64 = AtomicI64::new(0);
/// every allocation fails
pub static DRY: AtomicBool = AtomicBool::new(false);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static RECYCLED: AtomicU64 = AtomicU64::new(0);
/// first memory fault seen: 0 none, 1 red zone, 2 double free, 3 bad layout, 4 write after free, 5 table full, 6 null returned to the allocator
pub static FAULT: AtomicU8 = AtomicU8::new(0);

const N: usize = 4096;
const RZ: usize = 256;
#[derive(Clone, Copy)]
struct B {
    p: usize,
    size: usize,
    align: usize,
    state: u8, // 1 live, 2 freed
    /// the mapping it sits at the end of, if it has one of its own
    map: (usize, usize),
}
static mut TAB: [B; N] = [B { p: 0, size: 0, align: 0, state: 0, map: (0, 0) }; N];
static CURSOR: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);

fn lay(size: usize, align: usize) -> Layout {
    Layout::from_size_align(size + 2 * RZ, align.max(16)).unwrap()
}
fn fault(c: u8) {
    let _ = FAULT.compare_exchange(0, c, Relaxed, Relaxed);
}
unsafe fn tab() -> &'static mut [B; N] {
    &mut *(&raw mut TAB)
}
const PAGE: usize = 4096;
/// Memory of its own between pages nobody may touch, ending right before one (or as near as the alignment lets it).
/// Returns (mapping, place).
pub unsafe fn fenced(size: usize, align: usize) -> Option<((usize, usize), usize)> {
    let rw = size.div_ceil(PAGE).max(1) * PAGE;
    let len = rw + 2 * PAGE;
    let m = crate::sys::mmap(std::ptr::null_mut(), len, 0, 0x22, -1, 0) as usize;
    if m == usize::MAX || crate::sys::mprotect((m + PAGE) as *mut _, rw, 3) != 0 {
        return None;
    }
    Some(((m, len), (m + PAGE + rw - size) & !(align - 1)))
}
pub unsafe fn protect(map: (usize, usize), prot: i32) {
    crate::sys::mprotect((map.0 + PAGE) as *mut _, map.1 - 2 * PAGE, prot);
}
pub unsafe fn unmap(map: (usize, usize)) {
    crate::sys::munmap(map.0 as *mut _, map.1);
}
unsafe fn zones_ok(b: &B) -> bool {
    if b.map.0 != 0 {
        return true;
    }
    let base = b.p as *const u8;
    (1..=RZ).all(|i| *base.sub(i) == 0xC3) && (0..RZ).all(|i| *base.add(b.size + i) == 0xC3)
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let on = TK.with(|t| t.on.get());
        if !on {
            return System.alloc(l);
        }
        if DRY.load(Relaxed) {
            FAILED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        if FAIL_AT.load(Relaxed) > 0 && FAIL_AT.fetch_sub(1, Relaxed) == 1 {
            FAILED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        if !ACTIVE.load(Relaxed) {
            return System.alloc(l);
        }
        ALLOCS.fetch_add(1, Relaxed);
        let n = LEN.load(Relaxed);
        if RECYCLE.load(Relaxed) == 1 {
            for k in (0..n).rev() {
                let b = &mut tab()[k];
                if b.state == 2 && b.size == l.size() && b.align == l.align() {
                    b.state = 1;
                    RECYCLED.fetch_add(1, Relaxed);
                    return b.p as *mut u8; // dirty: still holds what the previous owner left there
                }
            }
        }
        let fence = if FENCE.load(Relaxed) { fenced(l.size(), l.align()) } else { None };
        let r = match fence {
            Some((_, p)) => (p as *mut u8).sub(RZ),
            None => System.alloc(lay(l.size(), l.align())),
        };
        if r.is_null() {
            return r;
        }
        // a full table forgets the freed block that was freed longest ago (or least recently reused)
        let mut at = n;
        if n >= N {
            let c = CURSOR.load(Relaxed);
            if let Some(k) = (0..N).map(|i| (c + i) % N).find(|k| tab()[*k].state == 2) {
                let b = &tab()[k];
                if b.map.0 == 0 && RECYCLE.load(Relaxed) == 0 && (0..b.size).any(|i| *(b.p as *const u8).add(i) != 0xDD) {
                    fault(4);
                }
                if b.map.0 != 0 {
                    unmap(b.map);
                } else {
                    System.dealloc((b.p as *mut u8).sub(RZ), lay(b.size, b.align));
                }
                CURSOR.store((k + 1) % N, Relaxed);
                at = k;
            }
        }
        let p = r.add(RZ);
        std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        if fence.is_none() {
            std::ptr::write_bytes(r, 0xC3, RZ);
            std::ptr::write_bytes(p.add(l.size()), 0xC3, RZ);
        }
        if at >= N {
            fault(5);
            return p;
        }
        tab()[at] = B { p: p as usize, size: l.size(), align: l.align(), state: 1, map: fence.map_or((0, 0), |f| f.0) };
        LEN.store(n.max(at + 1), Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // the caller may have promised the compiler that p is not null: test it all the same
        if std::hint::black_box(p as usize) == 0 {
            return fault(6);
        }
        if ACTIVE.load(Relaxed) {
            let n = LEN.load(Relaxed);
            for k in (0..n).rev() {
                let b = &mut tab()[k];
                if b.p == p as usize {
                    if b.state == 2 {
                        fault(2);
                        return;
                    }
                    if b.size != l.size() || b.align != l.align() {
                        fault(3);
                    }
                    if !zones_ok(b) {
                        fault(1);
                    }
                    FREES.fetch_add(1, Relaxed);
                    b.state = 2;
                    if RECYCLE.load(Relaxed) == 0 {
                        if b.map.0 != 0 {
                            protect(b.map, 0); // whoever touches it now is stopped
                        } else {
                            std::ptr::write_bytes(p, 0xDD, b.size);
                        }
                    }
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
}
/// (live blocks, live bytes); also checks red zones and freed memory
pub fn audit() -> (usize, usize) {
    let (mut c, mut s) = (0, 0);
    unsafe {
        for b in tab().iter().take(LEN.load(Relaxed)) {
            if !zones_ok(b) {
                fault(1);
            }
            if b.state == 1 {
                c += 1;
                s += b.size;
            } else if b.map.0 == 0 && RECYCLE.load(Relaxed) == 0 && (0..b.size).any(|i| *(b.p as *const u8).add(i) != 0xDD) {
                fault(4);
            }
        }
    }
    (c, s)
}
