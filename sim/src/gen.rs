//! Scenario generators: a simulated metering host with several streams, analysers and faults.
use crate::ops::*;
use crate::refmodel::Kind;
use crate::rng::Rng;

pub fn normed(mut x: X) -> X {
    let s: f64 = x.iter().sum();
    for v in x.iter_mut() {
        *v /= s;
    }
    x
}
pub fn pipeline_comp(r: &mut Rng) -> X {
    let mut x = [0.0; 21];
    x[0] = r.uni(0.82, 0.98);
    x[1] = r.uni(0.0, 0.05);
    x[2] = r.uni(0.0, 0.04);
    x[3] = r.uni(0.0, 0.08);
    x[4] = r.uni(0.0, 0.02);
    if r.chance(0.7) {
        x[5] = r.uni(0.0, 0.004);
        x[6] = r.uni(0.0, 0.004);
        x[7] = r.uni(0.0, 0.001);
        x[8] = r.uni(0.0, 0.001);
    }
    if r.chance(0.4) {
        x[14] = r.uni(0.0, 0.02);
        x[19] = r.uni(0.0, 0.003);
    }
    let s: f64 = x[1..].iter().sum();
    if s > 0.18 {
        for v in x[1..].iter_mut() {
            *v *= 0.18 / s;
        }
    }
    let s: f64 = x[1..].iter().sum();
    x[0] = 1.0 - s;
    x
}
pub fn comp(r: &mut Rng) -> X {
    let mut x = [0.0; 21];
    match r.weighted(&[1.0, 2.0, 2.0, 3.0, 1.5, 2.0, 1.5]) {
        0 => x[r.below(21)] = 1.0,
        1 => {
            let (i, j) = (r.below(21), r.below(21));
            let f = if r.chance(0.5) { r.f() } else { r.log(-9.0, -0.3) };
            x[i] += f;
            x[j] += 1.0 - f;
        }
        2 => {
            for _ in 0..r.range(3, 6) {
                x[r.below(21)] += r.f();
            }
            x = normed(x);
        }
        3 => return pipeline_comp(r),
        4 => {
            for v in x.iter_mut() {
                *v = r.f() + 1e-3;
            }
            x[0] += 8.0 * r.f();
            x = normed(x);
        }
        5 => {
            // rich or sour gas
            x[0] = r.uni(0.3, 0.9);
            for _ in 0..r.range(2, 10) {
                x[r.range(1, 20)] += r.log(-5.0, -0.6);
            }
            x = normed(x);
        }
        _ => {
            x = pipeline_comp(r);
            for _ in 0..r.range(1, 5) {
                let i = r.range(1, 20);
                let t = r.log(-15.5, -4.0);
                if x[i] == 0.0 {
                    x[i] = t;
                }
            }
        }
    }
    x
}
/// a new analysis of the same gas: anything from an invisible change to a different gas
pub fn change_comp(r: &mut Rng, x: &X, hist: &[X]) -> X {
    let mut y = *x;
    let present: Vec<usize> = (0..21).filter(|&i| x[i] > 0.0).collect();
    let i = if present.is_empty() { 0 } else { *r.pick(&present) };
    match r.weighted(&[3.0, 3.0, 1.0, 2.0, 2.0, 2.0, 1.0, 0.7, 1.0]) {
        8 => {
            // three components move so that the sum and one weighted sum (molar mass, position, ...) stay as they were
            let w = |i: usize, m: usize| match m {
                0 => crate::tab_gerg::MM[i + 1],
                1 => (i + 1) as f64,
                2 => ((i + 1) * (i + 1)) as f64,
                _ => (i as f64 * 0.7).sin(),
            };
            let m = r.below(4);
            let (j, k) = (r.below(21), r.below(21));
            let v = [(i, w(j, m) - w(k, m)), (j, w(k, m) - w(i, m)), (k, w(i, m) - w(j, m))];
            let big = v.iter().fold(0.0, |a: f64, b| a.max(b.1.abs()));
            if i != j && j != k && i != k && big > 0.0 {
                let s = r.sign();
                let room = v.iter().fold(f64::INFINITY, |a: f64, b| if b.1 * s < 0.0 { a.min(x[b.0] / b.1.abs()) } else { a });
                let f = s * room * if r.chance(0.3) { 1.0 } else { r.f() };
                if f.is_finite() {
                    for (i, d) in v {
                        y[i] = (y[i] + f * d).max(0.0);
                    }
                }
            }
        }
        0 => {
            // one component alone, inside the tolerance on the sum
            let s: f64 = x.iter().sum();
            let room = (0.0099 - (s - 1.0).abs()).max(0.0);
            let d = r.log(-10.0, -2.05).min(room);
            let j = if r.chance(0.5) { i } else { r.below(21) };
            y[j] += if r.chance(0.5) && y[j] > d { -d } else { d };
        }
        1 => {
            let j = r.below(21);
            let d = r.log(-10.0, -0.5).min(y[i]);
            y[i] -= d;
            y[j] += d;
        }
        2 => {
            let j = if present.is_empty() { 1 } else { *r.pick(&present) };
            y.swap(i, j);
        }
        3 => y = comp(r),
        4 => {
            if !hist.is_empty() {
                y = *r.pick(hist);
            }
        }
        5 => {
            // a component disappears into, or appears from, another
            if present.len() > 1 && r.chance(0.5) {
                let j = *r.pick(&present);
                if j != i {
                    y[j] += y[i];
                    y[i] = 0.0;
                }
            } else {
                let j = r.below(21);
                if y[j] == 0.0 {
                    let d = (y[i] * 0.5).min(r.log(-12.0, -1.0));
                    y[j] = d;
                    y[i] -= d;
                }
            }
        }
        6 => {
            let s: f64 = x.iter().sum();
            let k = (1.0 + r.sign() * r.log(-10.0, -2.1)) / if r.chance(0.5) { s } else { 1.0 };
            for v in y.iter_mut() {
                *v *= k;
            }
            let s: f64 = y.iter().sum();
            if (s - 1.0).abs() > 0.0099 {
                y = *x;
            }
        }
        _ => {
            let j = r.below(21);
            y[i] = f64::from_bits(y[i].to_bits() + r.below(4) as u64);
            if j != i && y[j] > 0.0 {
                y[j] = f64::from_bits(y[j].to_bits().saturating_sub(r.below(4) as u64));
            }
        }
    }
    y
}
pub fn temp(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => r.log(1.95, 3.2),
        1 | 2 => r.uni(150.0, 600.0),
        3 => (r.uni(260.0, 340.0)).round(),
        4 => *r.pick(&[273.15, 288.15, 293.15, 298.15, 300.0, 288.7055555555556, 288.706, 298.0, 250.0, 400.0, 200.0, 283.15, 303.15]),
        _ => r.uni(250.0, 400.0),
    }
}
pub fn press(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => r.log(-3.0, 5.3),
        1 | 2 => r.log(1.5, 5.0),
        3 => r.uni(100.0, 12000.0).round(),
        4 => *r.pick(&[101.325, 100.0, 101.56, 101.3, 101.0, 1000.0, 5000.0, 10000.0, 8000.0, 7000.0, 101.325e1, 50000.0, 1.0]),
        _ => r.uni(100.0, 30000.0),
    }
}
/// a temperature or density with a meaning of its own for this gas: at, or just beside, where the models' scaled
/// variables are one
pub fn special(r: &mut Rng, x: &X) -> (f64, f64) {
    let mut y = *x;
    match r.below(4) {
        0 => {
            // that of one of the gases in it
            let there: Vec<usize> = (0..21).filter(|&i| x[i] > 0.0).collect();
            if !there.is_empty() {
                y = [0.0; 21];
                y[*r.pick(&there)] = 1.0;
            }
        }
        1 => {
            // that of the mole-fraction average
            let (mut v, mut t) = (0.0, 0.0);
            for i in 0..21 {
                let mut p = [0.0; 21];
                p[i] = 1.0;
                let (vi, ti) = crate::refmodel::gerg_reducing(&p);
                v += x[i] * vi;
                t += x[i] * ti;
            }
            return beside(r, t, 1.0 / v);
        }
        _ => {}
    }
    let (v, t) = crate::refmodel::gerg_reducing(&y);
    beside(r, t, 1.0 / v)
}
fn beside(r: &mut Rng, t: f64, d: f64) -> (f64, f64) {
    let mut near = |v: f64| match r.below(6) {
        0 | 1 => v,
        2 => f64::from_bits(v.to_bits().wrapping_add(r.below(5) as u64).wrapping_sub(2)),
        _ => v * (1.0 + r.sign() * r.log(-14.0, -2.0)),
    };
    (near(t), near(d))
}
/// a density where a solver is easily led astray: pressure just above zero on a branch that rises, or a spinodal
pub fn trap(r: &mut Rng, kind: Kind, x: &X, t: f64) -> Option<f64> {
    use crate::refmodel::eval;
    let (mut last, mut spots) = (eval(kind, x, t, 1e-6), vec![]);
    for k in 1..150 {
        let d = k as f64 * 0.2;
        let e = eval(kind, x, t, d);
        if last.p.v <= 0.0 && e.p.v > 0.0 {
            spots.push((d, true));
        }
        if (last.dp_dd.v > 0.0) != (e.dp_dd.v > 0.0) {
            spots.push((d, false));
        }
        last = e;
    }
    if spots.is_empty() {
        return None;
    }
    let (d, zero) = *r.pick(&spots);
    let (mut a, mut b) = (d - 0.2, d);
    let small = r.log(-8.0, 0.5);
    let up = eval(kind, x, t, b).dp_dd.v > 0.0;
    for _ in 0..60 {
        let m = 0.5 * (a + b);
        let e = eval(kind, x, t, m);
        if if zero { e.p.v > small } else { (e.dp_dd.v > 0.0) == up } {
            b = m;
        } else {
            a = m;
        }
    }
    Some(if r.chance(0.7) { b } else { b * (1.0 + r.sign() * r.log(-9.0, -3.0)) })
}
/// a new pair of values with the same quotient, product, sum, difference, or the same two values exchanged
pub fn coupled(r: &mut Rng, a: f64, b: f64) -> (f64, f64) {
    let how = r.below(6);
    for _ in 0..40 {
        let f = match r.below(3) {
            0 => *r.pick(&[0.5, 2.0, 1.25, 0.75, 1.5]),
            1 => 1.0 + r.sign() * r.log(-6.0, -0.3),
            _ => r.uni(0.6, 1.6),
        };
        let d = a * (f - 1.0);
        let (x, y) = match how {
            0 | 1 => (a * f, b * f),
            2 => (a * f, b / f),
            3 => (a + d, b - d),
            4 => (a + d, b + d),
            _ => (b, a),
        };
        // the same to the last bit, when that can be had
        let same = match how {
            0 | 1 => y / x == b / a,
            2 => x * y == a * b,
            3 => x + y == a + b,
            4 => x - y == a - b,
            _ => true,
        };
        if same || r.chance(0.02) {
            return (x, y);
        }
    }
    (a, b)
}
pub fn step_val(r: &mut Rng, v: f64, hist: &[f64], fresh: f64) -> f64 {
    match r.weighted(&[3.0, 3.0, 1.0, 2.0]) {
        0 => fresh,
        1 => {
            let w = v + r.sign() * v * r.log(-13.0, -0.5);
            if w > 0.0 {
                w
            } else {
                fresh
            }
        }
        2 => f64::from_bits(v.to_bits().wrapping_add(r.below(9) as u64).wrapping_sub(4)),
        _ => {
            if hist.is_empty() {
                fresh
            } else {
                *r.pick(hist)
            }
        }
    }
}
pub const BAD: [(&str, f64); 16] = [
    ("nan", f64::NAN),
    ("inf", f64::INFINITY),
    ("neg-inf", f64::NEG_INFINITY),
    ("zero", 0.0),
    ("zero", -0.0),
    ("negative", -1.0),
    ("negative", -273.15),
    ("sentinel", -999.25),
    ("sentinel", -9999.0),
    ("sentinel", 65535.0),
    ("huge", 1e30),
    ("huge", f64::MAX),
    ("subnormal", 5e-324),
    ("subnormal", 2.2e-308),
    ("tiny", 1e-12),
    ("negative", -1e-300),
];
pub fn bad(r: &mut Rng) -> (&'static str, f64) {
    if r.chance(0.75) {
        *r.pick(&BAD)
    } else if r.chance(0.5) {
        ("huge", r.log(5.0, 300.0))
    } else if r.chance(0.5) {
        ("negative", -r.log(-6.0, 8.0))
    } else {
        ("tiny", r.log(-300.0, -6.0))
    }
}
/// an analysis that went wrong
pub fn bad_comp(r: &mut Rng, good: &X) -> (&'static str, X) {
    let mut x = *good;
    let i = r.below(21);
    match r.below(10) {
        0 => ("comp-empty", [0.0; 21]),
        1 => {
            x[i] += r.sign() * r.log(-1.9, 0.0);
            ("comp-badsum", x)
        }
        2 => {
            for v in x.iter_mut() {
                *v *= 100.0;
            }
            ("comp-percent", x)
        }
        3 => {
            x[i] = f64::NAN;
            ("comp-nan", x)
        }
        4 => {
            x[i] = if r.chance(0.5) { f64::INFINITY } else { f64::NEG_INFINITY };
            if r.chance(0.3) {
                x[(i + 1) % 21] = f64::NEG_INFINITY;
            }
            ("comp-inf", x)
        }
        5 => {
            // negative fraction, sum still one
            let d = r.log(-6.0, 0.0);
            x[i] -= d;
            x[(i + r.range(1, 20)) % 21] += d;
            ("comp-negative", x)
        }
        6 => {
            let m = (0..21).fold(0, |a, b| if x[b] > x[a] { b } else { a });
            x[m] = 0.0;
            ("comp-dropped", x)
        }
        7 => {
            // just outside (or just inside) the tolerance
            let s: f64 = x.iter().sum();
            let d = 0.01 + r.sign() * r.log(-7.0, -3.0);
            x[i] += 1.0 - s + r.sign() * d;
            ("comp-badsum", x)
        }
        8 => {
            let k = r.log(-12.0, 12.0);
            for v in x.iter_mut() {
                *v *= k;
            }
            ("comp-badsum", x)
        }
        _ => {
            for v in x.iter_mut() {
                *v = if r.chance(0.3) { bad(r).1 } else { 0.0 };
            }
            ("comp-nan", x)
        }
    }
}

/// one metering stream on the simulated host
pub struct Stream {
    pub h: usize,
    pub kind: Kind,
    pub x: X,
    pub t: f64,
    pub p: f64,
    pub xs: Vec<X>,
    pub ts: Vec<f64>,
    pub ps: Vec<f64>,
}
/// swarm configuration: every run uses a random subset of everything
pub struct Cfg {
    pub w_change: [f64; 8],
    pub w_calc: [f64; 7],
    pub flags: bool,
    pub guess: f64,
    pub direct_d: f64,
    pub raw: f64,
    pub wide: bool,
    pub creep: f64,
    pub restart: f64,
    /// chance per cycle that the host moves the calculator in memory
    pub moves: f64,
    /// chance that a new temperature is one that means something to the models
    pub special: f64,
    /// chance per cycle of a long quiet service in between
    pub soak: f64,
}
impl Cfg {
    pub fn swarm(r: &mut Rng) -> Cfg {
        let mut on = |p: f64, w: f64| if r.chance(p) { w } else { 0.0 };
        let w_change = [on(0.8, 1.0), on(0.8, 2.0), on(0.7, 1.5), on(0.3, 1.0), on(0.3, 1.0), on(0.2, 1.0), 0.3, on(0.3, 1.5)];
        let w_calc = [on(0.9, 4.0), on(0.6, 2.0), on(0.5, 1.5), on(0.3, 0.5), on(0.3, 0.7), on(0.3, 1.0), 0.3];
        Cfg {
            w_change,
            w_calc,
            flags: r.chance(0.4),
            guess: if r.chance(0.3) { 0.3 } else { 0.0 },
            direct_d: if r.chance(0.4) { 0.4 } else { 0.05 },
            raw: if r.chance(0.3) { 0.5 } else { 0.0 },
            wide: r.chance(0.3),
            creep: if r.chance(0.2) { 0.3 } else { 0.0 },
            restart: if r.chance(0.1) { 0.1 } else { 0.0 },
            moves: if r.chance(0.15) { 0.3 } else { 0.0 },
            special: if r.chance(0.15) { 0.5 } else { 0.02 },
            soak: 0.0,
        }
    }
}
pub fn flag(r: &mut Rng, c: &Cfg, k: Kind) -> i32 {
    if k == Kind::Gerg && c.flags {
        if r.chance(0.03) {
            *r.pick(&[3, -1, -2, 10, 256, 257, 65536, i32::MAX, i32::MIN])
        } else {
            *r.pick(&[0, 1, 2, 1, 2])
        }
    } else {
        0
    }
}
impl Stream {
    pub fn open(r: &mut Rng, h: usize, kind: Kind, api: Api, out: &mut Vec<Op>) -> Stream {
        let s = Stream { h, kind, x: comp(r), t: temp(r), p: press(r), xs: vec![], ts: vec![], ps: vec![] };
        out.push(Op::New { h, kind, api });
        s.inputs(out);
        s
    }
    pub fn inputs(&self, out: &mut Vec<Op>) {
        let h = self.h;
        out.push(Op::Comp { h, x: self.x });
        out.push(Op::T { h, v: self.t });
        out.push(Op::P { h, v: self.p });
    }
    /// one cycle of the host's loop: some readings change, then some calculations
    pub fn cycle(&mut self, r: &mut Rng, c: &Cfg, out: &mut Vec<Op>) {
        let h = self.h;
        if r.chance(c.restart) {
            out.push(Op::Restart { h });
        }
        if r.chance(c.moves) {
            out.push(Op::Move { h });
        }
        if r.chance(c.soak) {
            let what = r.below(crate::soak::KINDS.len());
            let top = match crate::soak::KINDS[what] {
                "handles" => 8.0,
                "crowd" => 30.0,
                "twins" => 4.0,
                "threads" | "teardown" => 40.0,
                "churn" => 60.0,
                "mm" | "read" | "pressure" | "analysis" | "drift" | "updates" | "setting" => 3_000.0,
                _ => 400.0,
            };
            out.push(Op::Soak { h, what, n: r.log(0.5, f64::log10(top)) as usize, seed: r.u64() >> 32 });
        }
        for _ in 0..r.range(0, 2) {
            match r.weighted(&c.w_change) {
                0 => {
                    let y = change_comp(r, &self.x, &self.xs);
                    self.xs.push(self.x);
                    self.x = y;
                    out.push(if r.chance(c.raw) { Op::RawX { h, x: y } } else { Op::Comp { h, x: y } });
                }
                1 => {
                    let f = if c.wide { r.log(1.9, 3.2) } else { temp(r) };
                    let v = if c.special > 0.0 && r.chance(c.special) { special(r, &self.x).0 } else { step_val(r, self.t, &self.ts, f) };
                    self.ts.push(self.t);
                    self.t = v.clamp(80.0, 2000.0);
                    out.push(Op::T { h, v: self.t });
                }
                2 => {
                    let f = if c.wide { r.log(-4.0, 5.5) } else { press(r) };
                    let v = step_val(r, self.p, &self.ps, f);
                    self.ps.push(self.p);
                    self.p = v;
                    out.push(Op::P { h, v });
                }
                3 => {
                    // composition there and back again with something in between
                    let a = self.x;
                    let y = change_comp(r, &self.x, &self.xs);
                    out.push(Op::Comp { h, x: y });
                    self.calc(r, c, out);
                    out.push(Op::Comp { h, x: a });
                }
                4 => {
                    let a = self.t;
                    let v = temp(r);
                    out.push(Op::T { h, v });
                    self.calc(r, c, out);
                    out.push(Op::T { h, v: a });
                }
                5 => {
                    let mut x = self.x;
                    let k = r.log(-1.0, 2.0);
                    for v in x.iter_mut() {
                        *v *= k;
                    }
                    out.push(Op::Norm { h, x });
                }
                7 => {
                    // both readings change, and something computed from them does not
                    let (t, p) = coupled(r, self.t, self.p);
                    if (80.0..2000.0).contains(&t) && p > 0.0 {
                        self.ts.push(self.t);
                        self.ps.push(self.p);
                        (self.t, self.p) = (t, p);
                        let mut two = [Op::T { h, v: t }, Op::P { h, v: p }];
                        if r.chance(0.5) {
                            two.swap(0, 1);
                        }
                        out.extend(two);
                    }
                }
                _ => {}
            }
        }
        if r.chance(c.creep) {
            if r.chance(0.5) {
                let d = r.sign() * r.log(-10.0, -6.8);
                let n = r.range(20, 400);
                self.t += d * n as f64;
                out.push(Op::CreepT { h, d, n });
            } else {
                let present: Vec<usize> = (0..21).filter(|&i| self.x[i] > 1e-3).collect();
                if present.len() > 1 {
                    let (i, j) = (r.below(present.len()), r.below(present.len()));
                    if i != j {
                        let d = r.log(-10.0, -6.8);
                        let n = r.range(20, 400);
                        let (i, j) = (present[i], present[j]);
                        self.x[i] += d * n as f64;
                        self.x[j] -= d * n as f64;
                        out.push(Op::CreepX { h, i, j, d, n });
                    }
                }
            }
        }
        self.calc(r, c, out);
    }
    pub fn density(&self, r: &mut Rng) -> f64 {
        if r.chance(0.04) {
            let d = special(r, &self.x).1;
            if d > 0.0 && d < 30.0 {
                return d;
            }
        }
        if r.chance(0.5) {
            (self.p / 8.314 / self.t).clamp(1e-9, 25.0) * r.uni(0.8, 1.3)
        } else {
            r.log(-6.0, 1.4)
        }
    }
    pub fn calc(&mut self, r: &mut Rng, c: &Cfg, out: &mut Vec<Op>) {
        let h = self.h;
        if r.chance(c.guess) {
            let v = -self.density(r);
            out.push(Op::D { h, v });
        }
        let fl = flag(r, c, self.kind);
        match r.weighted(&c.w_calc) {
            0 => out.extend([Op::Dens { h, flag: fl }, Op::Props { h }]),
            1 => out.push(Op::Pres { h }),
            2 => out.push(Op::Props { h }),
            3 => out.push(Op::Mm { h }),
            4 => out.extend([Op::Dens { h, flag: fl }, Op::Pres { h }, Op::Mm { h }, Op::Props { h }]),
            5 => out.push(Op::Dens { h, flag: fl }),
            _ => out.extend([Op::Props { h }, Op::Pres { h }]),
        }
        if r.chance(c.direct_d) {
            let v = self.density(r);
            out.push(Op::D { h, v });
            if r.chance(0.2) {
                out.push(Op::Pres { h });
                let (t, d) = coupled(r, self.t, v);
                if (80.0..2000.0).contains(&t) && (1e-9..30.0).contains(&d) {
                    self.t = t;
                    out.extend([Op::T { h, v: t }, Op::D { h, v: d }]);
                }
            }
            if r.chance(0.7) {
                out.push(if r.chance(0.5) { Op::Props { h } } else { Op::Pres { h } });
            }
        }
    }
    /// a faulty reading, with whatever the host attempts on it
    pub fn fault(&mut self, r: &mut Rng, c: &Cfg, out: &mut Vec<(Op, &'static str)>) {
        let h = self.h;
        match r.weighted(&[3.0, 3.0, 1.5, 3.0, 1.0]) {
            0 => {
                let (f, v) = bad(r);
                out.push((Op::P { h, v }, f));
            }
            1 => {
                let (f, v) = bad(r);
                out.push((Op::T { h, v }, f));
            }
            2 => {
                let v = match r.below(4) {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => r.log(1.5, 300.0),
                    _ => 0.0,
                };
                out.push((Op::D { h, v }, "bad-density"));
            }
            3 => {
                let (f, x) = bad_comp(r, &self.x);
                out.push((if r.chance(0.5) { Op::RawX { h, x } } else { Op::Comp { h, x } }, f));
            }
            _ => {
                // physically fine, but the solver finds no root (or the wrong phase)
                out.push((Op::T { h, v: r.uni(60.0, 200.0) }, "solve-fails"));
                out.push((Op::P { h, v: r.log(3.0, 6.0) }, ""));
            }
        }
        let n = r.range(0, 3);
        for _ in 0..n {
            match r.below(4) {
                0 => out.push((Op::Dens { h, flag: flag(r, c, self.kind) }, "")),
                1 => out.push((Op::Props { h }, "")),
                2 => out.push((Op::Pres { h }, "")),
                _ => out.push((Op::Mm { h }, "")),
            }
        }
    }
}
pub fn kind(r: &mut Rng) -> Kind {
    if r.chance(0.5) {
        Kind::Detail
    } else {
        Kind::Gerg
    }
}
pub fn api(r: &mut Rng) -> Api {
    if r.chance(0.6) {
        Api::Native
    } else {
        Api::Ffi
    }
}
/// Discrete-event host: merges the streams' operations on simulated time; calls migrate between threads.
/// Groups of operations of one stream stay in order.
pub fn merge(r: &mut Rng, sc: &mut Scenario, streams: Vec<Vec<(Op, &'static str)>>, sticky: f64) {
    let n = streams.len();
    let mut idx = vec![0usize; n];
    let period: Vec<f64> = (0..n).map(|_| *r.pick(&[0.25, 1.0, 1.0, 5.0])).collect();
    let mut due: Vec<f64> = (0..n).map(|_| r.f()).collect();
    let mut th: Vec<usize> = (0..n).map(|i| i % sc.threads.max(1)).collect();
    loop {
        let next = (0..n).filter(|&i| idx[i] < streams[i].len()).min_by(|&a, &b| due[a].partial_cmp(&due[b]).unwrap().then(a.cmp(&b)));
        let Some(i) = next else { break };
        let (op, f) = &streams[i][idx[i]];
        if !r.chance(sticky) {
            th[i] = r.below(sc.threads);
        }
        let calc = op.is_calc();
        sc.steps.push(Step { th: th[i], at: due[i], op: op.clone(), pre: vec![], stall: false, irq: false, fault: f });
        idx[i] += 1;
        due[i] += if calc {
            period[i] * r.uni(0.9, 1.1)
        } else if r.chance(0.02) {
            300.0 // waiting for the next analysis
        } else {
            0.001
        };
    }
}
pub fn plain(v: Vec<Op>) -> Vec<(Op, &'static str)> {
    v.into_iter().map(|o| (o, "")).collect()
}
