//! Long service: thousands of host cycles compressed into one operation of a scenario.
use crate::gen;
use crate::ops::*;
use crate::oracle::{sane_x, DTOL};
use crate::refmodel::Kind;
use crate::rng::Rng;
use crate::seam::TK;

pub const KINDS: [&str; 19] = ["mm", "pressure", "cycle", "analysis", "failing", "garbage", "handles", "threads", "read", "drift", "updates", "setting", "crowd", "twins", "solves", "props", "refused", "churn", "teardown"];

/// the kinds that create calculators
pub fn makes(what: usize) -> bool {
    matches!(KINDS[what % KINDS.len()], "handles" | "crowd" | "twins" | "churn")
}
fn off<T>(f: impl FnOnce() -> T) -> T {
    TK.with(|t| t.on.set(false));
    let r = f();
    TK.with(|t| t.on.set(true));
    r
}
struct Meter {
    max: u64,
}
impl Meter {
    /// one library call: its own work budget
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T {
        TK.with(|t| {
            t.n.set(0);
            t.next.set(crate::sched::LIMIT);
        });
        let r = f();
        self.max = self.max.max(TK.with(|t| t.n.get()));
        r
    }
}
struct Inp {
    x: X,
    t: f64,
    p: f64,
    d: f64,
}
/// kept by a thread until it ends; its last cycle is made while the thread's own storage is being taken down
struct Last {
    h: *mut H,
    i: *const Inp,
    max: *mut u64,
}
impl Drop for Last {
    fn drop(&mut self) {
        let mut m = Meter { max: 0 };
        TK.with(|t| t.on.set(true));
        // SAFETY: whoever made the thread waits for it, and leaves all three alone meanwhile
        unsafe {
            cycle(&mut *self.h, &*self.i, 0, &mut m);
            TK.with(|t| t.on.set(false));
            *self.max = (*self.max).max(m.max);
        }
    }
}
thread_local! {
    static LAST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
}
fn cycle(h: &mut H, i: &Inp, flag: i32, m: &mut Meter) -> u8 {
    m.call(|| h.set_v('t', i.t));
    m.call(|| h.set_v('p', i.p));
    let code = m.call(|| h.density(flag));
    m.call(|| h.props());
    code
}
/// what the same inputs gave the first time
struct Diary {
    seen: Vec<Option<[f64; 3]>>,
    bad: usize,
}
impl Diary {
    /// three numbers and how large an error in each would be nothing
    fn same(&mut self, k: usize, v: [f64; 3], tol: [f64; 3]) {
        let w = *self.seen[k].get_or_insert(v);
        let near = |i: usize| v[i].to_bits() == w[i].to_bits() || (v[i] - w[i]).abs() <= tol[i] || (v[i].is_nan() && w[i].is_nan());
        self.bad += !(0..3).all(near) as usize;
    }
}
/// Many handles alive at the same time, used and freed in any order: every one is new, and keeps to itself.
/// Returns how many did not.
fn crowd(kind: Kind, api: Api, n: usize, r: &mut Rng, x: &X, m: &mut Meter) -> usize {
    let api = if api == Api::Native { Api::Ffi } else { api };
    let mut bad = 0;
    let mut v: Vec<(H, usize)> = off(Vec::new);
    let mut first: [Option<Snap>; 2] = [None, None];
    let inp = |k: usize| (200.0 + 0.03 * k as f64, 50.0 + k as f64, 0.5 + 0.01 * k as f64);
    let mut next = 0;
    for round in 0..2 {
        for _ in 0..if round == 0 { n } else { n / 3 } {
            let kd = if next % 5 == 4 { other(kind) } else { kind };
            let mut c = m.call(|| H::new(kd, api, false));
            if c.is_null() {
                continue;
            }
            let (i, s) = (next, c.snap());
            next += 1;
            off(|| {
                bad += v.iter().any(|(o, _)| o.extent() == c.extent()) as usize;
                let f = first[(kd == Kind::Gerg) as usize].get_or_insert(s);
                bad += !s.diff(f).is_empty() as usize;
            });
            let (t, p, d) = inp(i);
            m.call(|| c.set_v('t', t));
            m.call(|| c.set_v('p', p));
            m.call(|| c.set_v('d', d));
            if i % 16 == 0 {
                m.call(|| c.set_comp(x));
                m.call(|| c.pressure());
            }
            off(|| v.push((c, i)));
        }
        // some leave, in no order
        for _ in 0..v.len() / 2 {
            let (c, _) = off(|| v.swap_remove(r.below(v.len())));
            m.call(|| c.free());
        }
        for (c, i) in &v {
            let s = c.snap();
            let (t, p, d) = inp(*i);
            bad += (s.t() != t || s.p() != p || s.d() != d || (i % 16 != 0 && s.x.iter().any(|v| *v != 0.0))) as usize;
        }
    }
    for (c, _) in &v {
        m.call(|| c.free());
    }
    off(|| drop(v));
    bad
}
/// Runs inside a simulated operation (library instrumentation on).  Leaves the inputs as they were.
/// Returns how often something went wrong on the way.
pub fn soak(h: &mut H, what: usize, n: usize, seed: u64) -> usize {
    let b = h.snap();
    let kind = h.kind();
    let mut r = Rng::new(seed, "soak", n as u64);
    let mut m = Meter { max: 0 };
    let pool: Vec<Inp> = off(|| {
        let x0 = if sane_x(&b.x) { b.x } else { gen::pipeline_comp(&mut r) };
        (0..13)
            .map(|k| Inp {
                x: match k % 3 {
                    0 => x0,
                    1 => gen::change_comp(&mut r, &x0, &[]),
                    _ => gen::pipeline_comp(&mut r),
                },
                t: gen::temp(&mut r),
                p: gen::press(&mut r),
                d: r.log(-4.0, 1.2),
            })
            .collect()
    });
    let sound = sane_x(&b.x);
    if !sound {
        h.set_x(&pool[0].x);
    }
    let pure = matches!(KINDS[what % KINDS.len()], "solves" | "props" | "refused");
    if pure {
        // cheap, so that there can be many
        let mut x = [0.0; 21];
        x[[0, 1, 20][r.below(3)]] = 1.0;
        m.call(|| h.set_comp(&x));
        m.call(|| h.set_v('t', 300.0));
        m.call(|| h.set_v('d', 1.0));
    }
    let mut diary = Diary { seen: off(|| vec![None; pool.len()]), bad: 0 };
    let mut bad = 0;
    let mut born: Option<Snap> = None;
    for k in 0..n {
        let q = k % pool.len();
        let i = &pool[q];
        match KINDS[what % KINDS.len()] {
            "mm" => {
                m.call(|| h.mm());
            }
            "solves" => {
                // one solve after the other, now and then of another pressure
                let p = 2000.0 + 500.0 * q as f64;
                m.call(|| h.set_v('p', p));
                let code = m.call(|| h.density(0));
                let d = h.snap().d();
                diary.same(q, [code as f64, d, 0.0], [0.0, DTOL * d, 0.0]);
            }
            "props" => {
                m.call(|| h.props());
                let s = h.snap();
                diary.same(0, [s.get("w"), s.get("cp"), s.get("z")], [1e-5; 3]);
            }
            "refused" => {
                if k % 2 == 0 {
                    let c = m.call(|| h.set_comp(&[0.3; 21]));
                    diary.same(0, [c as f64, 0.0, 0.0], [0.0; 3]);
                } else {
                    m.call(|| h.set_v('p', if kind == Kind::Detail { 0.0 } else { f64::NAN }));
                    let c = m.call(|| h.density(0));
                    diary.same(1, [c as f64, 0.0, 0.0], [0.0; 3]);
                }
            }
            "pressure" => {
                m.call(|| h.set_v('t', i.t));
                m.call(|| h.set_v('d', i.d));
                let p = m.call(|| h.pressure());
                diary.same(q, [p, 0.0, 0.0], [1e-7 * (p.abs() + 8.3 * i.d * i.t), 0.0, 0.0]);
            }
            "cycle" => {
                let code = cycle(h, i, 0, &mut m);
                let d = h.snap().d();
                diary.same(q, [code as f64, d, 0.0], [0.0, DTOL * d, 0.0]);
            }
            "analysis" => {
                m.call(|| h.set_comp(&i.x));
                m.call(|| h.set_v('d', i.d));
                if k % 4 == 0 {
                    m.call(|| h.pressure());
                }
            }
            "failing" => {
                // readings without a solution
                let (t, p) = match r.below(4) {
                    0 => (f64::NAN, i.p),
                    1 => (i.t, -i.p),
                    2 => (i.t, 0.0),
                    _ => (r.uni(60.0, 150.0), r.log(3.0, 6.0)),
                };
                m.call(|| h.set_v('t', t));
                m.call(|| h.set_v('p', p));
                m.call(|| h.density(0));
            }
            "garbage" => {
                let v = gen::bad(&mut r).1;
                let w = *r.pick(&['t', 'p', 'd']);
                m.call(|| h.set_v(w, v));
                let x = off(|| gen::bad_comp(&mut r, &i.x).1);
                if r.chance(0.5) {
                    m.call(|| h.set_comp(&x));
                } else if r.chance(0.3) {
                    h.set_x(&x);
                }
                match r.below(4) {
                    0 => {
                        m.call(|| h.density(0));
                    }
                    1 => {
                        m.call(|| h.props());
                    }
                    2 => {
                        m.call(|| h.pressure());
                    }
                    _ => {
                        m.call(|| h.mm());
                    }
                }
            }
            "handles" => {
                // other calculators come and go, up to a few dozen at a time
                let mut v: Vec<H> = off(Vec::new);
                for j in 0..1 + (k * 7) % 24 {
                    let kd = if (j + k) % 3 == 0 { other(kind) } else { kind };
                    let c = m.call(|| H::new(kd, if h.api() == Api::Native { Api::Ffi } else { h.api() }, false));
                    if !c.is_null() {
                        off(|| v.push(c));
                    }
                }
                for c in v.iter_mut().take(2) {
                    c.set_x(&i.x);
                    cycle(c, i, 0, &mut m);
                }
                for c in &v {
                    m.call(|| c.free());
                }
                off(|| drop(v));
            }
            "churn" => {
                // calculators that are made and never used; small numbers handed out to them wrap
                let api = if h.api() == Api::Native { Api::Ffi } else { h.api() };
                let c = m.call(|| H::new(kind, api, false));
                if !c.is_null() {
                    let s = c.snap();
                    off(|| bad += !s.diff(born.get_or_insert(s)).is_empty() as usize);
                    m.call(|| c.free());
                }
            }
            "threads" | "teardown" => {
                // every cycle on a thread of its own, which then ends
                struct Ship<'a>(&'a mut H, Option<Last>);
                unsafe impl Send for Ship<'_> {}
                let mut late = 0;
                let last = (KINDS[what % KINDS.len()] == "teardown").then(|| Last { h: &mut *h, i, max: &mut late });
                let s = Ship(&mut *h, last);
                let flag = 0;
                let mx = off(|| {
                    std::thread::scope(|sc| {
                        std::thread::Builder::new()
                            .stack_size(1 << 20)
                            .spawn_scoped(sc, move || {
                                let s = s;
                                LAST.with(|l| *l.borrow_mut() = s.1);
                                TK.with(|t| t.on.set(true));
                                let mut m = Meter { max: 0 };
                                cycle(s.0, i, flag, &mut m);
                                TK.with(|t| t.on.set(false));
                                m.max
                            })
                            .expect("spawn")
                            .join()
                    })
                });
                match mx {
                    Ok(v) => m.max = m.max.max(v).max(late),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
            "read" => {
                m.call(|| h.read());
            }
            "updates" => {
                // analyses arrive, nobody calculates; now and then one is refused
                let x = if k % 8 == 5 { i.x.map(|v| 2.0 * v) } else { i.x };
                m.call(|| h.set_comp(&x));
            }
            "crowd" => {
                bad = crowd(kind, h.api(), n, &mut r, &pool[0].x, &mut m);
                break;
            }
            "twins" => {
                // two calculators with the same work, any number of others made between them (small identifiers wrap)
                let api = if h.api() == Api::Native { Api::Ffi } else { h.api() };
                let gap = *r.pick(&[0, 1, 2, 7, 15, 31, 63, 126, 127, 128, 254, 255, 255, 256, 510, 511]) as usize;
                let mut a = m.call(|| H::new(kind, api, false));
                if a.is_null() {
                    continue;
                }
                m.call(|| a.set_comp(&i.x));
                cycle(&mut a, i, 0, &mut m);
                let s = a.snap();
                let keep = k % 2 == 0;
                if !keep {
                    m.call(|| a.free());
                }
                for j in 0..gap {
                    let c = m.call(|| H::new(if j % 64 == 63 && k % 3 == 0 { other(kind) } else { kind }, api, false));
                    m.call(|| c.free());
                }
                let mut b = m.call(|| H::new(kind, api, false));
                if b.is_null() {
                    continue;
                }
                m.call(|| b.set_comp(&i.x));
                cycle(&mut b, i, 0, &mut m);
                bad += off(|| !b.snap().diff(&s).is_empty()) as usize;
                if keep {
                    m.call(|| a.free());
                }
                m.call(|| b.free());
            }
            "setting" => {
                m.call(|| h.set_v(['t', 'p', 'd'][k % 3], [i.t, i.p, i.d][k % 3]));
            }
            _ => {
                // readings that move a little at a time
                let t = 300.0 + 1e-3 * k as f64;
                m.call(|| h.set_v('t', t));
                m.call(|| h.set_v('d', 1.0 + 1e-6 * k as f64));
                m.call(|| h.pressure());
            }
        }
    }
    bad += diary.bad;
    off(|| drop(diary));
    h.set_x(&b.x);
    m.call(|| h.set_v('t', b.t()));
    m.call(|| h.set_v('p', b.p()));
    m.call(|| h.set_v('d', b.d()));
    off(|| drop(pool));
    TK.with(|t| t.n.set(m.max));
    bad
}
fn other(k: Kind) -> Kind {
    match k {
        Kind::Detail => Kind::Gerg,
        Kind::Gerg => Kind::Detail,
    }
}
