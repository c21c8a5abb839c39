//! The host's surroundings as the library could see them: clock, random numbers, environment variables, files,
//! console, threads, and the floating-point control word.  The simulator owns the libc entry points; while library
//! code runs they are answered from the scenario, and every use is noted.
use crate::ops::Scenario;
use crate::rng::mix;
use crate::seam::TK;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

pub const OUTPUT: u32 = 1;
pub const FILE: u32 = 2;
pub const GETENV: u32 = 4;
pub const CLOCK: u32 = 8;
pub const RANDOM: u32 = 16;
pub const SLEEP: u32 = 32;
pub const THREAD: u32 = 64;
pub const FPU: u32 = 128;
pub const MACHINE: u32 = 256;
pub const NAMES: [&str; 9] = ["prints something", "opens or reads a file", "reads an environment variable", "reads the clock", "asks for random numbers", "sleeps", "starts a thread", "leaves the floating-point control word changed", "asks how many processors there are"];

static FX: AtomicU32 = AtomicU32::new(0);
static HOSTILE: AtomicU8 = AtomicU8::new(0);
static NOW: AtomicU64 = AtomicU64::new(0);
static KEY: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);

pub fn note(b: u32) {
    FX.fetch_or(b, Relaxed);
}
pub fn take() -> u32 {
    FX.swap(0, Relaxed)
}
/// the surroundings in which step k runs
pub fn at(sc: &Scenario, k: usize) {
    HOSTILE.store(sc.env, Relaxed);
    NOW.store((sc.steps[k].at * 1e9) as u64, Relaxed);
    KEY.store(mix(sc.seed ^ mix(sc.run ^ mix(k as u64))), Relaxed);
}
fn lib() -> bool {
    TK.try_with(|t| t.on.get()).unwrap_or(false)
}
fn hostile() -> bool {
    HOSTILE.load(Relaxed) != 0
}
fn fail(e: i32) -> c_long {
    unsafe { *crate::sys::__errno_location() = e };
    -1
}
pub fn fp_control() -> u32 {
    let mut v = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v & 0xffc0
}
pub fn set_fp_control(c: u32) {
    let v = c;
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
}
unsafe fn sys(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        return fail((-r) as i32);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if lib() {
        note(OUTPUT);
        // a full disk or a console that is gone; otherwise swallowed
        return if hostile() { fail(if KEY.load(Relaxed) & 1 == 0 { 28 } else { 5 }) as isize } else { n as isize };
    }
    sys(1, fd as c_long, b as c_long, n as c_long, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const c_void, n: c_int) -> isize {
    if lib() {
        note(OUTPUT);
        if hostile() {
            return fail(28) as isize;
        }
        let mut t = 0;
        for i in 0..n as usize {
            t += *(v as *const usize).add(2 * i + 1);
        }
        return t as isize;
    }
    sys(20, fd as c_long, v as c_long, n as c_long, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if lib() {
        note(FILE);
        if hostile() && fd as u32 != FOUND.load(Relaxed) {
            return fail(5) as isize;
        }
    }
    sys(0, fd as c_long, b as c_long, n as c_long, 0) as isize
}
/// settings a host might have somewhere
const VALUES: [&std::ffi::CStr; 8] = [c"1", c"0", c"", c"true", c"0.001", c"250", c"off", c"aga8"];
fn value() -> &'static std::ffi::CStr {
    VALUES[(KEY.load(Relaxed) >> 8) as usize % VALUES.len()]
}
/// a file the library finds in hostile surroundings
static FOUND: AtomicU32 = AtomicU32::new(u32::MAX);
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if lib() {
        note(FILE);
        if hostile() {
            if flags & 0o1103 != 0 || KEY.load(Relaxed) & 2 == 0 {
                return fail(24) as c_int;
            }
            // where there was no file there is one now, and where there was one it says something else
            let fd = sys(319, c"found".as_ptr() as c_long, 0, 0, 0);
            let v = value().to_bytes();
            sys(1, fd, v.as_ptr() as c_long, v.len() as c_long, 0);
            sys(8, fd, 0, 0, 0);
            FOUND.store(fd as u32, Relaxed);
            return fd as c_int;
        }
        if flags & 0o1103 != 0 {
            return fail(30) as c_int; // the library writes no real file
        }
    }
    sys(257, dir as c_long, p as c_long, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, b: *mut u8) -> c_int {
    if lib() && *p != 0 {
        note(FILE);
        if hostile() {
            if KEY.load(Relaxed) & 2 == 0 {
                return fail(13) as c_int;
            }
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x7ff;
            *(b.add(28) as *mut u16) = 0o100644;
            *(b.add(40) as *mut u64) = value().to_bytes().len() as u64;
            return 0;
        }
    }
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") 332 as c_long => r, in("rdi") d as c_long, in("rsi") p, in("rdx") flags as c_long,
        in("r10") mask as c_long, in("r8") b, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        return fail((-r) as i32) as c_int;
    }
    r as c_int
}
/// a machine with eight processors; hostile: one, or very many
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: c_int, n: usize, m: *mut u8) -> c_int {
    note(MACHINE);
    std::ptr::write_bytes(m, 0, n);
    *m = if !hostile() { 0xff } else if KEY.load(Relaxed) & 1 == 0 { 1 } else { 0xff };
    if hostile() && KEY.load(Relaxed) & 1 == 1 {
        std::ptr::write_bytes(m, 0xff, n.min(16));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(k: c_int) -> c_long {
    extern "C" {
        fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    }
    if (k == 83 || k == 84) && lib() {
        note(MACHINE);
        return if !hostile() { 8 } else if KEY.load(Relaxed) & 1 == 0 { 1 } else { 128 };
    }
    let f: unsafe extern "C" fn(c_int) -> c_long = std::mem::transmute(dlsym(usize::MAX as *mut c_void, c"sysconf".as_ptr()));
    f(k)
}
#[no_mangle]
pub unsafe extern "C" fn socket(_: c_int, _: c_int, _: c_int) -> c_int {
    if lib() {
        note(FILE);
    }
    fail(1) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    extern "C" {
        static environ: *const *mut c_char;
    }
    if lib() {
        note(GETENV);
        return if hostile() { value().as_ptr() as *mut c_char } else { std::ptr::null_mut() };
    }
    let name = std::ffi::CStr::from_ptr(n).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > name.len() && s.starts_with(name) && s[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
/// simulated time: what the scenario says, a microsecond per reading; hostile: jumps (the monotonic clock forward only)
fn clock(id: c_int) -> u64 {
    let n = READS.fetch_add(1, Relaxed);
    let t = NOW.load(Relaxed) + n * 1000;
    if id == 1 || id == 6 || id == 7 {
        if hostile() {
            return 1_000_000_000_000 + t + n * 40_000_000_000_000;
        }
        return 1_000_000_000_000 + t;
    }
    let base = 1_700_000_000_000_000_000u64;
    if hostile() {
        let j = mix(KEY.load(Relaxed) ^ n) % 4_000_000_000_000_000;
        return base + t + j - 2_000_000_000_000_000;
    }
    base + t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if lib() {
        note(CLOCK);
        let t = clock(id);
        *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    sys(228, id as c_long, ts as c_long, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _z: *mut c_void) -> c_int {
    if lib() {
        note(CLOCK);
        let t = clock(0);
        *tv = [(t / 1_000_000_000) as i64, (t % 1_000_000_000 / 1000) as i64];
        return 0;
    }
    sys(96, tv as c_long, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let v = if lib() {
        note(CLOCK);
        (clock(0) / 1_000_000_000) as i64
    } else {
        sys(201, 0, 0, 0, 0)
    };
    if !p.is_null() {
        *p = v;
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    if lib() {
        note(SLEEP);
        let d = *a;
        NOW.fetch_add(d[0] as u64 * 1_000_000_000 + d[1] as u64, Relaxed);
        return 0;
    }
    sys(35, a as c_long, b as c_long, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const [i64; 2], b: *mut [i64; 2]) -> c_int {
    if lib() {
        note(SLEEP);
        return 0;
    }
    if sys(230, c as c_long, f as c_long, a as c_long, b as c_long) < 0 {
        return *crate::sys::__errno_location();
    }
    0
}
/// the same "random" numbers in every process of a simulation, others in hostile surroundings
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, _f: c_uint) -> isize {
    if lib() {
        note(RANDOM);
    }
    let k = if hostile() { KEY.load(Relaxed) } else { 7 };
    for i in 0..n {
        *(b as *mut u8).add(i) = (mix(k ^ (i as u64 / 8 + 1)) >> (8 * (i % 8))) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut c_void, a: *const c_void, f: *const c_void, x: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut c_void, *const c_void, *const c_void, *mut c_void) -> c_int;
    extern "C" {
        fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    }
    if lib() {
        note(THREAD);
        if hostile() {
            return 11;
        }
    }
    static REAL: AtomicU64 = AtomicU64::new(0);
    let mut r = REAL.load(Relaxed);
    if r == 0 {
        r = dlsym(usize::MAX as *mut c_void, c"pthread_create".as_ptr()) as u64;
        REAL.store(r, Relaxed);
    }
    let f0: F = std::mem::transmute(r as usize);
    f0(t, a, f, x)
}
