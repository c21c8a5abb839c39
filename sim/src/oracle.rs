//! Oracles shared by the properties: reference-model comparison, root check, brand-new calculators.
use crate::ops::*;
use crate::refmodel::{self, Kind, V};
use crate::sched::{self, RunLog};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), msg })
}

/// tolerance in units of the rounding scale (sum of the absolute values of the terms)
pub const TOL: f64 = 2e-11;
/// relative density difference that counts as the same root (the solver stops at 1e-7)
pub const DTOL: f64 = 3e-7;

pub fn sane_x(x: &X) -> bool {
    x.iter().all(|v| v.is_finite() && *v >= 0.0) && (x.iter().sum::<f64>() - 1.0).abs() <= 0.01 + 1e-9
}
/// physically meaningful inputs
pub fn good(x: &X, t: f64, p: f64) -> bool {
    sane_x(x) && (60.0..=2500.0).contains(&t) && (1e-6..=1e6).contains(&p)
}
pub fn physical(s: &Snap) -> bool {
    sane_x(&s.x) && (60.0..=2500.0).contains(&s.t()) && (s.d() == 0.0 || (1e-12..=45.0).contains(&s.d()))
}
/// ordinary single-phase pipeline gas
pub fn pipeline(x: &X, t: f64, p: f64) -> bool {
    sane_x(x) && x[0] >= 0.80 && x[5..14].iter().sum::<f64>() <= 0.02 && x[17] == 0.0 && x[18] == 0.0
        && (275.0..=350.0).contains(&t) && (50.0..=15_000.0).contains(&p)
}

#[derive(Default)]
pub struct Calib {
    pub max: f64,
    pub field: &'static str,
}
/// Compares what a calculation left behind with the reference model at exactly the current state.
pub fn ref_check(kind: Kind, op: &Op, o: &Out, api: Api, s: &Snap, cal: &mut Calib) -> Result<bool, Viol> {
    if !physical(s) {
        return Ok(false);
    }
    let r = refmodel::eval(kind, &s.x, s.t(), s.d());
    if !r.p.v.is_finite() || !r.d2p_dd2.v.is_finite() || r.p.s > 1e12 {
        return Ok(false);
    }
    let name = if kind == Kind::Detail { "DETAIL" } else { "GERG" };
    let mut cmp = |f: &'static str, obs: f64, e: V, tol: f64| -> Result<(), Viol> {
        let err = (obs - e.v).abs();
        let lim = tol * e.s + 1e-300;
        if err.is_finite() && err / (e.s + 1e-300) > cal.max * tol / TOL {
            cal.max = err / (e.s + 1e-300) * TOL / tol;
            cal.field = f;
        }
        if err <= lim {
            Ok(())
        } else {
            viol(
                "wrong-result",
                format!("{} {}: {} = {:e}, the equation at this state gives {:e} (T={} d={} x={:?})", name, op.name(), f, obs, e.v, s.t(), s.d(), s.x),
            )
        }
    };
    let native = api == Api::Native;
    match op {
        Op::Mm { .. } => {
            cmp("molar mass", o.ret, r.mm, TOL)?;
            cmp("mm", s.get("mm"), r.mm, TOL)?;
        }
        Op::Pres { .. } | Op::CreepX { .. } | Op::CreepT { .. } => {
            cmp("pressure", o.ret, r.p, TOL)?;
            cmp("z", s.get("z"), r.z, TOL)?;
        }
        Op::Props { .. } => {
            if native || kind == Kind::Detail {
                cmp("pressure", o.ret, r.p, TOL)?;
            }
            if kind == Kind::Detail {
                cmp("p", s.p(), r.p, TOL)?;
            }
            for (f, v) in [
                ("mm", r.mm), ("z", r.z), ("dp_dd", r.dp_dd), ("dp_dt", r.dp_dt), ("d2p_dd2", r.d2p_dd2), ("d2p_dtd", r.d2p_dtd),
                ("u", r.u), ("h", r.h), ("s", r.s), ("cv", r.cv), ("g", r.g),
            ] {
                cmp(f, s.get(f), v, TOL)?;
            }
            if s.d() > 1e-12 {
                // from the primitives just verified
                let g = |f| s.get(f);
                let (t, d) = (s.t(), s.d());
                let q = t * (g("dp_dt") / d).powi(2) / g("dp_dd");
                let v = |v: f64, s: f64| V { v, s: s.abs() };
                const DT: f64 = 1e-11;
                if g("dp_dd") != 0.0 && g("cv") != 0.0 {
                    let cp = g("cv") + q;
                    cmp("cp", g("cp"), v(cp, g("cv").abs() + q.abs()), DT)?;
                    let k = t / d * g("dp_dt") / g("dp_dd");
                    if g("cp") != 0.0 {
                        cmp("jt", g("jt"), v((k - 1.0) / g("cp") / d, (k.abs() + 1.0) / g("cp") / d), DT)?;
                    }
                    let w2 = 1000.0 * g("cp") / g("cv") * g("dp_dd") / g("mm");
                    let w = w2.max(0.0).sqrt();
                    cmp("w", g("w"), v(w, w.max(1e-9)), DT)?;
                    let ka = w * w * g("mm") / (kind.r() * t * 1000.0 * g("z"));
                    cmp("kappa", g("kappa"), v(ka, ka.abs().max(1e-9)), DT)?;
                }
            }
        }
        _ => return Ok(false),
    }
    Ok(true)
}

/// What a brand-new calculator does with these inputs.
#[derive(Clone, Debug)]
pub struct Fresh {
    pub code: u8,
    pub snap: Snap,
}
#[derive(Clone, Debug)]
pub struct Query {
    pub kind: Kind,
    pub x: X,
    pub t: f64,
    pub p: f64,
    pub flag: i32,
    pub guess: Option<f64>,
}
/// Each query on its own new calculator; `apart`: each in its own process too.
pub fn fresh(qs: &[Query], apart: bool, children: &mut u64) -> Result<Vec<Fresh>, Viol> {
    let mut res = vec![];
    for ch in qs.chunks(if apart { 1 } else { 1000 }) {
        let mut sc = Scenario::new("fresh", 0, 0);
        let mut push = |op| sc.steps.push(Step { th: 0, at: 0.0, op, pre: vec![], stall: false, irq: false, fault: "" });
        for q in ch {
            let h = 0;
            push(Op::New { h, kind: q.kind, api: Api::Native });
            push(Op::RawX { h, x: q.x });
            push(Op::T { h, v: q.t });
            push(Op::P { h, v: q.p });
            if let Some(v) = q.guess {
                push(Op::D { h, v });
            }
            push(Op::Dens { h, flag: q.flag });
            push(Op::Free { h });
        }
        *children += 1;
        let l = sched::execute(&sc);
        if let Some((c, m)) = l.broken(&sc) {
            return viol(&c, format!("on a brand-new calculator: {}", m));
        }
        for r in &l.recs {
            if matches!(sc.steps[r.step].op, Op::Dens { .. }) {
                res.push(Fresh { code: r.out.code, snap: r.after.unwrap() });
            }
        }
    }
    Ok(res)
}
pub fn rel_close(a: f64, b: f64, tol: f64) -> bool {
    same(a, b) || (a - b).abs() <= tol * a.abs().max(b.abs())
}
/// Is the reported outcome of a density solve true?  Returns whether anything substantial could be decided.
pub fn dens_check(kind: Kind, before: &Snap, after: &Snap, code: u8) -> Result<bool, Viol> {
    let (p, t) = (before.p(), before.t());
    let d = after.d();
    if code > 2 {
        return viol("bad-code", format!("density reported code {}", code));
    }
    if code == 0 {
        if !(d > 0.0) || !d.is_finite() {
            return viol("false-success", format!("density reported success with d = {:e} (T={} p={} x={:?})", d, t, p, before.x));
        }
        if !(t > 0.0 && t.is_finite() && p > 0.0 && p.is_finite()) {
            return viol("false-success", format!("density reported success for T={} p={} (d={:e})", t, p, d));
        }
        if !sane_x(&before.x) || !(40.0..=4000.0).contains(&t) {
            return Ok(false);
        }
        let r = refmodel::eval(kind, &before.x, t, d);
        if !r.p.v.is_finite() {
            return Ok(false);
        }
        let tol = 2e-7 * d * r.dp_dd.v.abs() + 1e-10 * r.p.s + 1e-10 * p;
        if !((r.p.v - p).abs() <= tol) {
            return viol(
                "not-a-root",
                format!("density reported success at d = {:e}, where the pressure is {:e} and not {:e} (T={} x={:?})", d, r.p.v, p, t, before.x),
            );
        }
        if r.dp_dd.v < -1e-6 * r.dp_dd.s {
            return viol("unstable-root", format!("density reported success at d = {:e} where dp/dd = {:e} (T={} p={} x={:?})", d, r.dp_dd.v, t, p, before.x));
        }
        return Ok(true);
    }
    if kind.r() * t == f64::INFINITY || (kind.r() * t).abs() < 1e-290 || (p.abs() * kind.r()).abs() > 1e300 {
        return Ok(false); // a formula for the ideal-gas density may overflow here, depending on how it is written
    }
    let e = p / kind.r() / t;
    let e = if e > 0.0 { e } else { 0.0 };
    let ok = rel_close(d, e, 1e-12) || (d - e).abs() < 1e-300 || (d == 0.0 && p.abs() < 1e-12);
    if !ok {
        return viol("leftover-density", format!("failed density solve left d = {:e}; the ideal-gas density is {:e} (T={} p={} x={:?})", d, e, t, p, before.x));
    }
    Ok(good(&before.x, t, p))
}

/// natural gas, lean to moderately rich: what both solvers are made for
pub fn lean(x: &X) -> bool {
    const CAP: [f64; 21] = [1.0, 0.12, 0.12, 0.12, 0.06, 0.01, 0.01, 0.005, 0.005, 0.003, 0.002, 0.001, 0.0005, 0.0003, 0.02, 0.02, 0.02, 0.0, 0.0, 0.02, 0.02];
    sane_x(x) && x[0] >= 0.7 && x.iter().zip(CAP).all(|(x, c)| *x <= c)
}
/// A false alarm by the solver: no density was found though one is there to find, because
/// the pressure rises steadily with density all the way to the requested pressure (any composition, GERG-2008 only:
/// DETAIL does miss some mostly cold, heavy mixtures, see DESIGN.md), or because it is natural gas
/// with exactly one density that gives this pressure, and pressure is not flat there.
pub fn findable(kind: Kind, x: &X, t: f64, p: f64) -> Option<f64> {
    if !sane_x(x) || !(1.0..=1e5).contains(&p) {
        return None;
    }
    let steady = kind == Kind::Gerg && (150.0..=600.0).contains(&t);
    let gas = lean(x) && (if kind == Kind::Gerg { 150.0 } else { 260.0 }..=500.0).contains(&t);
    if !steady && !gas {
        return None;
    }
    let (mut d, mut last, mut under) = (1e-6f64, 0.0, true);
    let mut rising = steady;
    let mut root = None;
    while d < 60.0 {
        let e = refmodel::eval(kind, x, t, d);
        if !(e.dp_dd.v > 0.05 * kind.r() * t) {
            rising = false;
        }
        if !rising && !gas {
            return None;
        }
        if !e.p.v.is_finite() || (e.p.v - p).abs() < 1e-3 * p && e.dp_dd.v < 0.3 * kind.r() * t {
            return None;
        }
        if (e.p.v < p) != under {
            if root.is_some() || e.dp_dd.v < 0.3 * kind.r() * t && !rising {
                return None;
            }
            root = Some(0.5 * (d + last));
            if rising {
                return root;
            }
            under = !under;
        }
        last = d;
        d = (d * 1.03).min(d + 0.05);
    }
    root
}
/// per handle: was the current negative density put there by the user as a starting value?
#[derive(Clone, Default)]
pub struct Model {
    pub guess: [bool; NSLOT],
    pub kind: [Option<Kind>; NSLOT],
    pub api: [Option<Api>; NSLOT],
}
impl Model {
    pub fn step(&mut self, sc: &Scenario, r: &sched::Rec) {
        match &sc.steps[r.step].op {
            Op::New { h, kind, api } if !r.skipped => {
                self.kind[*h] = Some(*kind);
                self.api[*h] = Some(*api);
                self.guess[*h] = false;
            }
            Op::D { h, v } => self.guess[*h] = *v < 0.0,
            Op::Dens { h, .. } => self.guess[*h] = false,
            _ => {}
        }
    }
}
/// every density solve without a starting value, from good inputs
pub fn fresh_queries(sc: &Scenario, l: &RunLog, want: impl Fn(usize, Kind) -> bool) -> Vec<(usize, Query)> {
    let mut m = Model::default();
    let mut v = vec![];
    for (i, r) in l.recs.iter().enumerate() {
        if let (Op::Dens { h, flag }, Some(b)) = (&sc.steps[r.step].op, &r.before) {
            if let Some(kind) = m.kind[*h] {
                if !m.guess[*h] && good(&b.x, b.t(), b.p()) && want(i, kind) {
                    v.push((i, Query { kind, x: b.x, t: b.t(), p: b.p(), flag: *flag, guess: None }));
                }
            }
        }
        m.step(sc, r);
    }
    v
}
pub fn same_as_fresh(q: &Query, f: &Fresh, code: u8, after: &Snap) -> Result<(), Viol> {
    let at = format!("(T={} p={} flag={} x={:?})", q.t, q.p, q.flag, q.x);
    if code != f.code {
        return viol("differs-from-new", format!("density solve gave code {} with d = {:e}; a brand-new calculator gives code {} with d = {:e} {}", code, after.d(), f.code, f.snap.d(), at));
    }
    if !rel_close(after.d(), f.snap.d(), DTOL) {
        return viol("differs-from-new", format!("density solve gave d = {:e}; a brand-new calculator gives {:e} {}", after.d(), f.snap.d(), at));
    }
    Ok(())
}
