//! The executor: runs a scenario against the real library in a fresh forked process.
//!
//! Simulated caller threads are real OS threads, but exactly one of them runs at any instant (it "holds the
//! baton"), and who runs next is decided here and nowhere else: by the scenario's `pre` (tick offsets at which a
//! call is suspended), `stall` and `sched` (who continues).  One scenario is one exactly repeatable execution.
use crate::alloc;
use crate::ops::*;
use crate::rng::mix;
use crate::seam::TK;
use crate::sys::{self, End};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};

/// ticks after which an unfinished call counts as a hang
pub const LIMIT: u64 = 40_000_000;
/// a call that runs this long lets others run, too (so a caller spinning on something makes no deadlock)
const ROTATE: u64 = 400_000;

#[derive(Clone, Debug)]
pub struct Rec {
    pub step: usize,
    #[allow(dead_code)]
    pub th: usize,
    /// global event numbers of call and return
    pub t0: u32,
    pub t1: u32,
    pub out: Out,
    pub ticks: u64,
    pub panicked: bool,
    /// the operation had no live calculator to act on
    pub skipped: bool,
    pub before: Option<Snap>,
    pub after: Option<Snap>,
    /// live blocks and bytes of the simulated allocator after the call (C08)
    pub live: (u32, u32),
    /// what the call did to its surroundings (see host.rs)
    pub fx: u32,
    /// bytes of stack the call used
    pub stack: u32,
    /// ticks at which the call reached memory it might share (drafts only)
    pub hot: Vec<u64>,
}
#[derive(Clone, Debug)]
pub struct RunLog {
    pub recs: Vec<Rec>,
    /// steps started but not finished when the run ended
    pub open: Vec<usize>,
    pub end: End,
    pub hang: bool,
    pub deadlock: bool,
    /// the process was lost on purpose (crash scenario)
    pub killed: bool,
    /// every handle still alive at the end
    pub finals: Vec<(usize, Snap)>,
    pub mem_fault: u8,
    pub oom_fired: u32,
    pub recycled: u32,
    pub switches: u32,
    pub suspends: u32,
    pub stalls: u32,
    pub blocks: u32,
    pub irqs: u32,
    pub il_hash: u64,
    pub complete: bool,
}
impl RunLog {
    /// Did the library misbehave outright?  (class, message)
    pub fn broken(&self, sc: &Scenario) -> Option<(String, String)> {
        let at = |i: usize| sc.steps.get(i).map(|s| format!("step {} ({})", i, s.op.name())).unwrap_or_default();
        if let Some(r) = self.recs.iter().find(|r| r.panicked) {
            return Some(("panic".into(), format!("the call panicked at {}", at(r.step))));
        }
        let open = self.open.iter().map(|i| at(*i)).collect::<Vec<_>>().join(", ");
        if self.hang {
            return Some(("hang".into(), format!("no return after {} simulated steps: {}", LIMIT, open)));
        }
        if self.deadlock {
            return Some(("deadlock".into(), format!("every caller is blocked: {}", open)));
        }
        if self.killed {
            return None;
        }
        match &self.end {
            End::Signal(s) => Some((format!("signal{}", s), format!("the process died with signal {} during {}", s, open))),
            End::Exit(0) if self.complete => None,
            End::Exit(c) => Some(("exit".into(), format!("the process exited with {} during {}", c, open))),
            End::Timeout => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Ready,
    Blocked,
    Stalled,
    Forever,
}
struct Th {
    st: St,
    step: usize,
    pre: usize,
    tick: u64,
}
struct Sim<'a> {
    sc: &'a Scenario,
    fd: i32,
    th: Vec<Th>,
    cur: usize,
    started: Vec<bool>,
    done: Vec<bool>,
    ndone: usize,
    handles: [Option<H>; NSLOT],
    dec: usize,
    seq: u32,
    switches: u32,
    suspends: u32,
    stalls: u32,
    blocks: u32,
    streak: u32,
    irqs: u32,
    depth: u32,
    il: u64,
    ledger: bool,
}
static mut SIM: *mut Sim<'static> = std::ptr::null_mut();
fn sim() -> &'static mut Sim<'static> {
    unsafe { &mut *SIM }
}
static BATON: Mutex<usize> = Mutex::new(usize::MAX);
static CV: [Condvar; 9] = [const { Condvar::new() }; 9];
const MAIN: usize = 8;

fn pass(to: usize) {
    let mut b = BATON.lock().unwrap();
    *b = to;
    CV[to].notify_one();
}
fn wait(me: usize) {
    let mut b = BATON.lock().unwrap();
    while *b != me {
        b = CV[me].wait(b).unwrap();
    }
}
fn put_snap(b: &mut Vec<u8>, s: &Option<Snap>) {
    match s {
        None => b.push(0),
        Some(s) => {
            b.push(1);
            for v in s.f.iter().chain(s.x.iter()) {
                b.extend_from_slice(&v.to_bits().to_le_bytes());
            }
        }
    }
}
enum Pick {
    Run(usize),
    Finish,
    Deadlock,
}
impl Sim<'_> {
    fn head(&self, t: usize) -> Option<usize> {
        (0..self.sc.steps.len()).find(|&k| self.sc.steps[k].th == t && !self.started[k])
    }
    fn startable(&self, k: usize) -> bool {
        let lost = |j: usize| self.th.iter().any(|t| t.st == St::Forever && t.step == j);
        for j in 0..k {
            if self.done[j] || (self.started[j] && lost(j)) {
                continue;
            }
            if self.sc.strict {
                return false;
            }
            let (a, b) = (&self.sc.steps[j].op, &self.sc.steps[k].op);
            match (a.handle(), b.handle()) {
                (Some(x), Some(y)) if x != y => {}
                _ => {
                    if !(matches!(a, Op::Read { .. }) && matches!(b, Op::Read { .. })) {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// `last`: the current thread only continues if nobody else is chosen first by default
    fn pick(&mut self, last: bool) -> Pick {
        let n = self.th.len();
        let mut c: Vec<usize> = vec![];
        for t in (0..n).map(|i| (self.cur + i) % n) {
            let ok = match self.th[t].st {
                St::Ready => true,
                St::Idle => self.head(t).map(|k| self.startable(k)).unwrap_or(false),
                _ => false,
            };
            if ok {
                c.push(t);
            }
        }
        if c.is_empty() {
            c = (0..n).filter(|&t| self.th[t].st == St::Stalled).collect();
        }
        if c.is_empty() {
            c = (0..n).map(|i| (self.cur + 1 + i) % n).filter(|&t| self.th[t].st == St::Blocked).collect();
            if c.is_empty() {
                return Pick::Finish;
            }
            self.streak += 1;
            if self.streak > 300 {
                return Pick::Deadlock;
            }
        } else {
            self.streak = 0;
        }
        if last && c.len() > 1 && c[0] == self.cur {
            c.rotate_left(1);
        }
        let mut t = c[0];
        if c.len() > 1 {
            if let Some(b) = self.sc.sched.get(self.dec) {
                t = c[*b as usize % c.len()];
            }
            self.dec += 1;
        }
        Pick::Run(t)
    }
    fn emit_start(&mut self, k: usize) {
        let mut b = vec![b'S'];
        b.extend_from_slice(&(k as u32).to_le_bytes());
        sys::write_all(self.fd, &b);
    }
    fn end(&mut self, tag: u8) -> ! {
        let mut b = vec![];
        if tag == b'T' {
            for h in 0..NSLOT {
                if let Some(c) = &self.handles[h] {
                    // a call that never returned (lost caller) owns its calculator
                    let busy = self.th.iter().any(|t| t.st == St::Forever && self.sc.steps[t.step].op.handle() == Some(h));
                    if !busy && !c.is_null() {
                        b.push(b'F');
                        b.push(h as u8);
                        put_snap(&mut b, &Some(c.snap()));
                    }
                }
            }
        }
        if self.ledger {
            alloc::audit();
        }
        b.push(b'M');
        b.push(alloc::FAULT.load(std::sync::atomic::Ordering::Relaxed));
        for v in [
            alloc::FAILED.load(std::sync::atomic::Ordering::Relaxed) as u32,
            alloc::RECYCLED.load(std::sync::atomic::Ordering::Relaxed) as u32,
            self.switches,
            self.suspends,
            self.stalls,
            self.blocks,
            self.irqs,
        ] {
            b.extend_from_slice(&v.to_le_bytes());
        }
        b.extend_from_slice(&self.il.to_le_bytes());
        b.push(tag);
        sys::write_all(self.fd, &b);
        unsafe { sys::_exit(0) }
    }
    fn resume(&mut self, t: usize) {
        if t != self.cur {
            self.switches += 1;
            let k = self.th[t].step as u64;
            self.il = mix(self.il ^ mix((t as u64) << 40 | k) ^ self.th[self.cur].tick ^ (self.th[t].tick << 20));
            self.cur = t;
        }
        if matches!(self.th[t].st, St::Idle) {
            let k = self.head(t).unwrap();
            self.th[t].step = k;
            self.th[t].pre = 0;
            self.th[t].tick = 0;
            self.started[k] = true;
        }
        self.th[t].st = St::Ready;
    }
}
/// Gives up control; returns when this thread is chosen again.
fn reschedule(me: usize, last: bool) {
    let s = sim();
    match s.pick(last) {
        Pick::Run(t) => {
            s.resume(t);
            if t != me {
                pass(t);
                wait(me);
            }
        }
        Pick::Finish => s.end(b'T'),
        Pick::Deadlock => s.end(b'D'),
    }
}
fn next_event(s: &Sim, me: usize, n: u64) -> u64 {
    let t = &s.th[me];
    let step = &s.sc.steps[t.step];
    let mut nx = LIMIT.min((n / ROTATE + 1) * ROTATE);
    if let Some(p) = step.pre.get(t.pre) {
        nx = nx.min((*p).max(n + 1));
    }
    if let Some((k, at)) = s.sc.crash {
        if k == t.step && at > n {
            nx = nx.min(at);
        }
    }
    nx
}
pub fn on_tick(n: u64) -> u64 {
    let s = sim();
    let me = s.cur;
    s.th[me].tick = n;
    if n >= LIMIT {
        s.end(b'G');
    }
    let step = &s.sc.steps[s.th[me].step];
    if let Some((k, at)) = s.sc.crash {
        if k == s.th[me].step && n >= at {
            if s.sc.crash_mode == 1 {
                s.end(b'K');
            }
            s.th[me].st = St::Forever;
            s.stalls += 1;
            reschedule(me, true);
            unreachable!();
        }
    }
    let mut hit = false;
    while s.th[me].pre < step.pre.len() && step.pre[s.th[me].pre] <= n {
        s.th[me].pre += 1;
        hit = true;
    }
    if hit && step.irq && s.depth < 3 {
        interrupt(me, n);
    } else if s.th.len() > 1 {
        if hit {
            s.suspends += 1;
            if step.stall && s.th[me].pre == 1 {
                s.th[me].st = St::Stalled;
                s.stalls += 1;
            }
            reschedule(me, true);
        } else if n % ROTATE == 0 {
            reschedule(me, true);
        }
    }
    next_event(sim(), me, n)
}
/// Another call runs to completion here and now, on this thread, in the middle of the current one.
fn interrupt(me: usize, n: u64) {
    let s = sim();
    let t = s.th.len();
    let c: Vec<usize> = (0..t)
        .map(|i| (me + i) % t)
        .filter(|&i| i == me || s.th[i].st == St::Idle)
        .filter_map(|i| s.head(i))
        .filter(|&k| s.startable(k))
        .collect();
    if c.is_empty() {
        return;
    }
    let mut k = c[0];
    if c.len() > 1 {
        if let Some(b) = s.sc.sched.get(s.dec) {
            k = c[*b as usize % c.len()];
        }
        s.dec += 1;
    }
    s.irqs += 1;
    s.il = mix(s.il ^ mix(0x1a9 << 32 | k as u64) ^ (n << 20) ^ s.th[me].step as u64);
    let (step, pre, low) = (s.th[me].step, s.th[me].pre, TK.with(|t| t.low.get()));
    s.th[me].step = k;
    s.th[me].pre = 0;
    s.th[me].tick = 0;
    s.started[k] = true;
    s.depth += 1;
    exec(me);
    let s = sim();
    s.depth -= 1;
    s.th[me].st = St::Ready;
    s.th[me].step = step;
    s.th[me].pre = pre;
    s.th[me].tick = n;
    TK.with(|t| {
        t.n.set(n);
        t.low.set(low);
    });
    crate::host::at(s.sc, step);
}
pub fn on_block() {
    let s = sim();
    let me = s.cur;
    s.blocks += 1;
    s.th[me].tick = TK.with(|t| t.n.get());
    s.th[me].st = St::Blocked;
    reschedule(me, true);
}

/// What earlier calls left on the stack is arbitrary.
fn dirty_stack(sc: &Scenario, k: usize, deep: bool) {
    #[inline(never)]
    fn fill<const N: usize>(v: u8) {
        let mut a = std::mem::MaybeUninit::<[u8; N]>::uninit();
        unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, v, N) };
        std::hint::black_box(&a);
    }
    let v = [0x00, 0xff, 0x3f, 0x40, 0xbf][(mix(sc.seed ^ mix(sc.run ^ mix(k as u64 ^ 0x57ac))) % 5) as usize];
    if deep {
        fill::<{ 400 << 10 }>(v)
    } else {
        fill::<{ 12 << 10 }>(v)
    }
}
fn exec(me: usize) {
    let s = sim();
    let k = s.th[me].step;
    let st = &s.sc.steps[k];
    s.emit_start(k);
    let t0 = s.seq;
    s.seq += 1;
    if let Some((c, 0)) = s.sc.crash {
        if c == k {
            if s.sc.crash_mode == 1 {
                s.end(b'K');
            }
            s.th[me].st = St::Forever;
            reschedule(me, true);
            unreachable!();
        }
    }
    let slot = st.op.handle();
    let live = slot.map(|h| s.handles[h].as_ref().map(|c| !c.is_null()).unwrap_or(false)).unwrap_or(false);
    let before = if live { slot.and_then(|h| s.handles[h].as_ref().map(|c| c.snap())) } else { None };
    let mut skipped = false;
    let mut panicked = false;
    let mut out = Out::default();
    TK.with(|t| {
        t.n.set(0);
        t.low.set(usize::MAX);
        t.next.set(next_event(sim(), me, 0));
    });
    let sp: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
    crate::host::at(s.sc, k);
    let object = slot.and_then(|h| s.handles[h].as_ref()).map(|c| c.extent()).unwrap_or((0, 0));
    unsafe {
        let h = &mut *(&raw mut crate::seam::HOT);
        h.object = object;
        h.top = sp;
        h.n = 0;
    }
    let fx0 = crate::host::take();
    let fp = crate::host::fp_control();
    // library code runs between on and off; no memory is left while a step carries this fault
    let dry = st.fault == "oom" && !matches!(st.op, Op::NewOom { .. });
    macro_rules! lib {
        ($e:expr) => {{
            alloc::DRY.store(dry, std::sync::atomic::Ordering::Relaxed);
            TK.with(|t| t.on.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| $e));
            TK.with(|t| t.on.set(false));
            alloc::DRY.store(false, std::sync::atomic::Ordering::Relaxed);
            match r {
                Ok(v) => Some(v),
                Err(_) => {
                    panicked = true;
                    None
                }
            }
        }};
    }
    match &st.op {
        Op::New { h, kind, api } => {
            if live {
                skipped = true;
            } else if let Some(c) = lib!(H::new(*kind, *api, st.fault == "made-by-default")) {
                s.handles[*h] = Some(c);
            }
        }
        Op::Free { h } => match s.handles[*h].take() {
            Some(c) if live => {
                lib!(c.free());
            }
            _ => skipped = true,
        },
        Op::Abandon { h } => {
            if s.handles[*h].take().is_none() {
                skipped = true;
            }
        }
        Op::Restart { h } => match s.handles[*h].take() {
            Some(c) if live => {
                let (kind, api) = (c.kind(), c.api());
                let b = before.unwrap();
                lib!(c.free());
                if let Some(mut c) = lib!(H::new(kind, api, st.fault == "made-by-default")) {
                    if !c.is_null() {
                        c.set_x(&b.x);
                        c.set_v('p', b.p());
                        c.set_v('t', b.t());
                        c.set_v('d', b.d());
                    }
                    s.handles[*h] = Some(c);
                }
            }
            _ => skipped = true,
        },
        Op::NewOom { kind, k } => {
            alloc::FAIL_AT.store(*k as i64, std::sync::atomic::Ordering::Relaxed);
            let c = lib!(H::new(*kind, Api::Ffi, false));
            alloc::FAIL_AT.store(0, std::sync::atomic::Ordering::Relaxed);
            if let Some(c) = c {
                out.code = c.is_null() as u8;
                if !c.is_null() {
                    lib!(c.free());
                }
            }
        }
        Op::Null { kind, f } => {
            let mut c = H::null(*kind);
            lib!(c.call_c(*f));
        }
        op => {
            // the calculator stays in its slot (others may read it meanwhile); only this thread changes it
            let p: *mut Option<H> = &mut s.handles[slot.unwrap()];
            match unsafe { &mut *p } {
                Some(c) if live => {
                    if let Some(o) = lib!(c.apply(op)) {
                        out = o;
                    }
                }
                _ => skipped = true,
            }
        }
    }
    let s = sim();
    if fp != crate::host::fp_control() {
        crate::host::note(crate::host::FPU);
        crate::host::set_fp_control(fp);
    }
    let fx = crate::host::take();
    crate::host::note(fx0);
    let ticks = TK.with(|t| t.n.get());
    let stack = sp.saturating_sub(TK.with(|t| t.low.get())) as u32;
    let after = slot.and_then(|h| s.handles[h].as_ref().filter(|c| !c.is_null()).map(|c| c.snap()));
    let liveb = if s.ledger { alloc::audit() } else { (0, 0) };
    let t1 = s.seq;
    s.seq += 1;
    let mut b = vec![b'E'];
    for v in [k as u32, me as u32, t0, t1, liveb.0 as u32, liveb.1 as u32, fx, stack] {
        b.extend_from_slice(&v.to_le_bytes());
    }
    b.extend_from_slice(&out.ret.to_bits().to_le_bytes());
    b.extend_from_slice(&ticks.to_le_bytes());
    b.extend_from_slice(&[out.code, panicked as u8, skipped as u8]);
    put_snap(&mut b, &before);
    put_snap(&mut b, &after);
    let hot = unsafe { &*(&raw const crate::seam::HOT) };
    let n = hot.n.min(crate::seam::HOTS);
    b.push(n as u8);
    for v in &hot.at[..n] {
        b.extend_from_slice(&v.to_le_bytes());
    }
    sys::write_all(s.fd, &b);
    s.done[k] = true;
    s.ndone += 1;
    s.streak = 0;
    s.th[me].st = St::Idle;
    s.th[me].tick = 0;
}
fn worker(me: usize) {
    wait(me);
    loop {
        exec(me);
        let s = sim();
        match s.pick(false) {
            Pick::Run(t) => {
                s.resume(t);
                if t != me {
                    pass(t);
                    wait(me);
                }
            }
            Pick::Finish => s.end(b'T'),
            Pick::Deadlock => s.end(b'D'),
        }
    }
}

fn child(sc: &Scenario, fd: i32) -> ! {
    sys::stderr_to_null();
    std::panic::set_hook(Box::new(|_| TK.with(|t| t.on.set(false))));
    let n = sc.threads.clamp(1, 8);
    let ledger = sc.prop == "C08" || sc.prop == "C16";
    let mut steps = sc.clone();
    for s in &mut steps.steps {
        s.th %= n;
    }
    let sc: &'static Scenario = Box::leak(Box::new(steps));
    let m = sc.steps.len();
    let s = Box::new(Sim {
        sc,
        fd,
        th: (0..n).map(|_| Th { st: St::Idle, step: 0, pre: 0, tick: 0 }).collect(),
        cur: 0,
        started: vec![false; m],
        done: vec![false; m],
        ndone: 0,
        handles: [const { None }; NSLOT],
        dec: 0,
        seq: 0,
        switches: 0,
        suspends: 0,
        stalls: 0,
        blocks: 0,
        streak: 0,
        irqs: 0,
        depth: 0,
        il: 0,
        ledger,
    });
    unsafe { SIM = Box::into_raw(s) };
    alloc::FENCE.store(sc.fence, std::sync::atomic::Ordering::Relaxed);
    if ledger {
        alloc::FILL.store(sc.fill, std::sync::atomic::Ordering::Relaxed);
        alloc::RECYCLE.store(sc.recycle as u8, std::sync::atomic::Ordering::Relaxed);
        alloc::ACTIVE.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    if sc.env != 0 {
        let _ = std::env::set_current_dir("/");
    }
    if WARM.load(std::sync::atomic::Ordering::Relaxed) {
        warm_up();
    }
    let s = sim();
    for t in 0..n {
        let mut b = std::thread::Builder::new().stack_size(1 << 20);
        if sc.env != 0 {
            b = b.name(["loop", "worker", "control", "ui"][(sc.run as usize + t) % 4].into());
        }
        b.spawn(move || worker(t)).expect("spawn");
    }
    match s.pick(false) {
        Pick::Run(t) => {
            s.resume(t);
            pass(t);
            wait(MAIN); // never: the run ends the process
            unreachable!()
        }
        _ => s.end(b'T'),
    }
}

struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn u8(&mut self) -> u8 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    fn u32(&mut self) -> u32 {
        let v = u32::from_le_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        v
    }
    fn u64(&mut self) -> u64 {
        let v = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        v
    }
    fn snap(&mut self) -> Option<Snap> {
        if self.u8() == 0 {
            return None;
        }
        let mut s = Snap { f: [0.0; 18], x: [0.0; 21] };
        for v in s.f.iter_mut() {
            *v = f64::from_bits(self.u64());
        }
        for v in s.x.iter_mut() {
            *v = f64::from_bits(self.u64());
        }
        Some(s)
    }
}
static WARM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// One use of everything, so that whatever the library sets up once is set up.
fn warm_up() {
    use crate::refmodel::Kind;
    for kind in [Kind::Detail, Kind::Gerg] {
        let mut c = H::new(kind, Api::Native, false);
        let mut x = [0.0; 21];
        x[..4].copy_from_slice(&[0.9, 0.05, 0.03, 0.02]);
        for op in [
            Op::Comp { h: 0, x },
            Op::T { h: 0, v: 300.0 },
            Op::P { h: 0, v: 5000.0 },
            Op::Dens { h: 0, flag: 0 },
            Op::Pres { h: 0 },
            Op::Props { h: 0 },
            Op::Mm { h: 0 },
        ] {
            c.apply(&op);
        }
        c.free();
    }
}
/// Executes the scenario in a process that has used the library before.
pub fn in_service(sc: &Scenario) -> RunLog {
    WARM.store(true, std::sync::atomic::Ordering::Relaxed);
    let l = execute(sc);
    WARM.store(false, std::sync::atomic::Ordering::Relaxed);
    l
}
/// Executes the scenario to find out where suspensions are worth placing.
pub fn draft(sc: &Scenario) -> RunLog {
    crate::seam::PROBE.store(true, std::sync::atomic::Ordering::Relaxed);
    let l = execute(sc);
    crate::seam::PROBE.store(false, std::sync::atomic::Ordering::Relaxed);
    l
}
/// Executes the scenario in a fresh process and returns its recorded history.
pub fn execute(sc: &Scenario) -> RunLog {
    let c = sys::in_child(|fd| child(sc, fd));
    let mut l = RunLog {
        recs: vec![],
        open: vec![],
        end: c.end.clone(),
        hang: false,
        deadlock: false,
        killed: false,
        finals: vec![],
        mem_fault: 0,
        oom_fired: 0,
        recycled: 0,
        switches: 0,
        suspends: 0,
        stalls: 0,
        blocks: 0,
        irqs: 0,
        il_hash: 0,
        complete: false,
    };
    if c.end == End::Timeout {
        eprintln!("harness error: simulator process made no progress within the wall-clock backstop");
        eprintln!("{}", sc.text());
        std::process::exit(2);
    }
    let mut r = Rd(&c.out);
    while !r.0.is_empty() {
        match r.u8() {
            b'S' => {
                let k = r.u32() as usize;
                l.open.push(k);
            }
            b'E' => {
                let step = r.u32() as usize;
                let th = r.u32() as usize;
                let (t0, t1, lb, ls, fx, stack) = (r.u32(), r.u32(), r.u32(), r.u32(), r.u32(), r.u32());
                let ret = f64::from_bits(r.u64());
                let ticks = r.u64();
                let (code, p, sk) = (r.u8(), r.u8(), r.u8());
                let before = r.snap();
                let after = r.snap();
                let hot = (0..r.u8()).map(|_| r.u64()).collect();
                l.open.retain(|k| *k != step);
                l.recs.push(Rec {
                    step,
                    th,
                    t0,
                    t1,
                    out: Out { ret, code },
                    ticks,
                    panicked: p == 1,
                    skipped: sk == 1,
                    before,
                    after,
                    live: (lb, ls),
                    fx,
                    stack,
                    hot,
                });
            }
            b'F' => {
                let h = r.u8() as usize;
                let s = r.snap().unwrap();
                l.finals.push((h, s));
            }
            b'M' => {
                l.mem_fault = r.u8();
                l.oom_fired = r.u32();
                l.recycled = r.u32();
                l.switches = r.u32();
                l.suspends = r.u32();
                l.stalls = r.u32();
                l.blocks = r.u32();
                l.irqs = r.u32();
                l.il_hash = r.u64();
            }
            b'G' => l.hang = true,
            b'D' => l.deadlock = true,
            b'K' => l.killed = true,
            b'T' => l.complete = true,
            t => panic!("bad record tag {}", t),
        }
    }
    l
}
