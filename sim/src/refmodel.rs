//! Stateless executable reference model of both equations of state.
//!
//! Only the Helmholtz energy itself is written down; every derivative comes from truncated Taylor
//! arithmetic (`Tay`), so there is no state, no cache and no hand-derived derivative in here.
//! Next to each sum the sum of absolute values is carried: it is the natural rounding scale of the result.
use crate::{tab_detail as td, tab_gerg as tg};
use std::sync::OnceLock;

pub const EPS: f64 = 1.0e-15;
pub const R_DETAIL: f64 = 8.31451;
pub const R_GERG: f64 = 8.314_472;

/// Truncated Taylor expansion f(v0 + h) = sum c[k] h^k.
#[derive(Clone, Copy)]
struct Tay([f64; 4]);
impl Tay {
    fn var(v: f64) -> Tay {
        Tay([v, 1.0, 0.0, 0.0])
    }
    fn con(v: f64) -> Tay {
        Tay([v, 0.0, 0.0, 0.0])
    }
    fn mul(self, o: Tay) -> Tay {
        let mut r = [0.0; 4];
        for i in 0..4 {
            for j in 0..4 - i {
                r[i + j] += self.0[i] * o.0[j];
            }
        }
        Tay(r)
    }
    fn add(self, o: Tay) -> Tay {
        let mut r = self.0;
        for (a, b) in r.iter_mut().zip(o.0.iter()) {
            *a += b;
        }
        Tay(r)
    }
    fn sc(self, k: f64) -> Tay {
        Tay(self.0.map(|v| v * k))
    }
    /// f(self) given the Taylor coefficients of f at self.0[0]
    fn compose(self, f: [f64; 4]) -> Tay {
        let h = Tay([0.0, self.0[1], self.0[2], self.0[3]]);
        let h2 = h.mul(h);
        let h3 = h2.mul(h);
        Tay::con(f[0]).add(h.sc(f[1])).add(h2.sc(f[2])).add(h3.sc(f[3]))
    }
    fn exp(self) -> Tay {
        let e = self.0[0].exp();
        self.compose([e, e, e / 2.0, e / 6.0])
    }
    fn ln(self) -> Tay {
        let v = self.0[0];
        self.compose([v.ln(), 1.0 / v, -0.5 / (v * v), 1.0 / (3.0 * v * v * v)])
    }
    fn powf(self, a: f64) -> Tay {
        let v = self.0[0];
        let b = v.powf(a);
        self.compose([b, a * b / v, a * (a - 1.0) / 2.0 * b / (v * v), a * (a - 1.0) * (a - 2.0) / 6.0 * b / (v * v * v)])
    }
    /// integer power by repeated multiplication (valid at 0)
    fn powi(self, n: usize) -> Tay {
        let mut r = Tay::con(1.0);
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    /// ln sinh(y) and ln cosh(y) for y > 0
    fn lnsinh(self) -> Tay {
        let em = self.sc(-2.0).exp().sc(-1.0);
        self.add(Tay::con(1.0).add(em).ln()).add(Tay::con(-std::f64::consts::LN_2))
    }
    fn lncosh(self) -> Tay {
        let em = self.sc(-2.0).exp();
        self.add(Tay::con(1.0).add(em).ln()).add(Tay::con(-std::f64::consts::LN_2))
    }
}

/// Bivariate accumulator: Taylor coefficients [T order 0..=2][D order 0..=3] and their absolute sums.
#[derive(Clone, Copy)]
struct Acc {
    a: [[f64; 4]; 3],
    s: [[f64; 4]; 3],
}
impl Acc {
    fn new() -> Acc {
        Acc { a: [[0.0; 4]; 3], s: [[0.0; 4]; 3] }
    }
    fn term(&mut self, t: Tay, d: Tay, k: f64) {
        for i in 0..3 {
            for j in 0..4 {
                let v = k * t.0[i] * d.0[j];
                self.a[i][j] += v;
                self.s[i][j] += v.abs();
            }
        }
    }
    /// multiply by r*T
    fn times_rt(&self, r: f64, t: f64) -> Acc {
        let mut o = Acc::new();
        for i in 0..3 {
            for j in 0..4 {
                o.a[i][j] = r * t * self.a[i][j] + if i > 0 { r * self.a[i - 1][j] } else { 0.0 };
                o.s[i][j] = r * t * self.s[i][j] + if i > 0 { r * self.s[i - 1][j] } else { 0.0 };
            }
        }
        o
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct V {
    pub v: f64,
    /// rounding scale
    pub s: f64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Props {
    pub mm: V,
    pub p: V,
    pub z: V,
    pub dp_dd: V,
    pub d2p_dd2: V,
    pub d2p_dtd: V,
    pub dp_dt: V,
    pub u: V,
    pub h: V,
    pub s: V,
    pub cv: V,
    pub g: V,
    /// Helmholtz energy
    pub a: V,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Detail,
    Gerg,
}
impl Kind {
    pub fn r(self) -> f64 {
        match self {
            Kind::Detail => R_DETAIL,
            Kind::Gerg => R_GERG,
        }
    }
}

/// x: 21 mole fractions in the canonical order (methane .. argon)
pub fn eval(kind: Kind, x: &[f64; 21], t: f64, d: f64) -> Props {
    let (id, res, mm, mms) = match kind {
        Kind::Detail => detail(x, t, d),
        Kind::Gerg => gerg(x, t, d),
    };
    let r = kind.r();
    let rt = r * t;
    let i = id.times_rt(r, t);
    let q = res.times_rt(r, t);
    let (ard, sard) = (q.a[0][1], q.s[0][1]);
    let (ardd, sardd) = (2.0 * q.a[0][2], 2.0 * q.s[0][2]);
    let (arddd, sarddd) = (6.0 * q.a[0][3], 6.0 * q.s[0][3]);
    let (artd, sartd) = (q.a[1][1], q.s[1][1]);
    let (artdd, sartdd) = (2.0 * q.a[1][2], 2.0 * q.s[1][2]);
    let d2 = d * d;
    let v = |v: f64, s: f64| V { v, s: s.abs() };
    let mut o = Props { mm: v(mm, mms), ..Default::default() };
    o.z = v(1.0 + d * ard / rt, 1.0 + d * sard / rt);
    o.p = v(d * rt + d2 * ard, d * rt + d2 * sard);
    o.dp_dd = v(rt + 2.0 * d * ard + d2 * ardd, rt + 2.0 * d * sard + d2 * sardd);
    o.dp_dt = v(d * r + d2 * artd, d * r + d2 * sartd);
    o.d2p_dd2 = if d > EPS {
        v(2.0 * ard + 4.0 * d * ardd + d2 * arddd, 2.0 * sard + 4.0 * d * sardd + d2 * sarddd)
    } else {
        v(0.0, 0.0)
    };
    o.d2p_dtd = match kind {
        Kind::Detail => v(0.0, 0.0),
        Kind::Gerg => v(r + 2.0 * d * artd + d2 * artdd, r + 2.0 * d * sartd + d2 * sartdd),
    };
    let a = i.a[0][0] + q.a[0][0];
    let sa = i.s[0][0] + q.s[0][0];
    let at = i.a[1][0] + q.a[1][0];
    let sat = i.s[1][0] + q.s[1][0];
    o.a = v(a, sa);
    o.s = v(-at, sat);
    o.u = v(a - t * at, sa + t * sat);
    o.cv = v(-t * 2.0 * (i.a[2][0] + q.a[2][0]), t * 2.0 * (i.s[2][0] + q.s[2][0]));
    o.h = v(o.u.v + rt * o.z.v, o.u.s + rt * o.z.s);
    o.g = v(a + rt * o.z.v, sa + rt * o.z.s);
    o
}

fn ideal(acc: &mut Acc, x: f64, t: Tay, d: f64, n: [f64; 3], hyp: &[(bool, f64, f64)]) {
    let one = Tay::con(1.0);
    let logd = if d > EPS { d.ln() } else { EPS.ln() };
    // the density enters the ideal part as ln(d) only: its density derivatives are added analytically in eval()
    acc.term(one, one, x * (logd + x.ln() + n[0]));
    acc.term(t.powf(-1.0), one, x * n[1]);
    acc.term(t.ln(), one, -x * n[2]);
    for &(sinh, nk, th) in hyp {
        let y = t.powf(-1.0).sc(th);
        if sinh {
            acc.term(y.lnsinh(), one, x * nk);
        } else {
            acc.term(y.lncosh(), one, -x * nk);
        }
    }
}

struct DetailPre {
    b: Vec<[[f64; 18]; 21]>, // b[i][j][n]
}
fn detail_pre() -> &'static DetailPre {
    static P: OnceLock<DetailPre> = OnceLock::new();
    P.get_or_init(|| {
        let mut b = vec![[[0.0; 18]; 21]; 21];
        for i in 0..21 {
            for j in 0..21 {
                for n in 0..18 {
                    let mut f = td::AN[n];
                    if td::GN[n] == 1 {
                        f *= td::GIJ[i][j] * (td::GI[i] + td::GI[j]) / 2.0;
                    }
                    if td::QN[n] == 1 {
                        f *= td::QI[i] * td::QI[j];
                    }
                    if td::FN[n] == 1 {
                        f *= td::FI[i] * td::FI[j];
                    }
                    if td::SN[n] == 1 {
                        f *= td::SI[i] * td::SI[j];
                    }
                    if td::WN[n] == 1 {
                        f *= td::WI[i] * td::WI[j];
                    }
                    let e = td::EIJ[i][j] * (td::EI[i] * td::EI[j]).sqrt();
                    b[i][j][n] = f * e.powf(td::UN[n]) * (td::KI[i] * td::KI[j]).powf(1.5);
                }
            }
        }
        DetailPre { b }
    })
}

fn detail(x: &[f64; 21], t: f64, d: f64) -> (Acc, Acc, f64, f64) {
    let tj = Tay::var(t);
    let dj = Tay::var(d);
    let mut id = Acc::new();
    let mut res = Acc::new();
    let mut mm = 0.0;
    let mut mms = 0.0;
    let pre = detail_pre();
    let (mut k0, mut u0, mut g, mut q, mut f) = (0.0, 0.0, 0.0, 0.0, 0.0);
    let (mut kp, mut up) = (0.0, 0.0);
    let mut b = [0.0; 18];
    for i in 0..21 {
        mm += x[i] * td::MM[i];
        mms += (x[i] * td::MM[i]).abs();
        if !(x[i] > 0.0) {
            continue;
        }
        k0 += x[i] * td::KI[i].powf(2.5);
        u0 += x[i] * td::EI[i].powf(2.5);
        g += x[i] * td::GI[i];
        q += x[i] * td::QI[i];
        f += x[i] * x[i] * td::FI[i];
        for n in 0..18 {
            b[n] += x[i] * x[i] * pre.b[i][i][n];
        }
        for j in i + 1..21 {
            if !(x[j] > 0.0) {
                continue;
            }
            let xx = 2.0 * x[i] * x[j];
            kp += xx * (td::KIJ[i][j].powi(5) - 1.0) * (td::KI[i] * td::KI[j]).powf(2.5);
            up += xx * (td::UIJ[i][j].powi(5) - 1.0) * (td::EI[i] * td::EI[j]).powf(2.5);
            g += xx * (td::GIJ[i][j] - 1.0) * (td::GI[i] + td::GI[j]) / 2.0;
            for n in 0..18 {
                b[n] += xx * pre.b[i][j][n];
            }
        }
        let hyp: Vec<(bool, f64, f64)> = (3..7)
            .filter(|&k| td::TH0I[i][k] > 0.0)
            .map(|k| (k == 3 || k == 5, td::N0I[i][k], td::TH0I[i][k]))
            .collect();
        ideal(&mut id, x[i], tj, d, [td::N0I[i][0], td::N0I[i][1], td::N0I[i][2]], &hyp);
    }
    // K^3 and U of the mixture
    let k3 = (k0 * k0 + kp).powf(0.6);
    let u = (u0 * u0 + up).powf(0.2);
    let dred = dj.sc(k3);
    let dpow: Vec<Tay> = (0..10).map(|n| dred.powi(n)).collect();
    for n in 0..58 {
        let tt = tj.powf(-td::UN[n]);
        let mut c = 0.0;
        if n >= 12 {
            c = td::AN[n] * u.powf(td::UN[n]);
            if td::GN[n] == 1 {
                c *= g;
            }
            if td::QN[n] == 1 {
                c *= q * q;
            }
            if td::FN[n] == 1 {
                c *= f;
            }
        }
        if n < 18 {
            res.term(tt, dj, b[n]);
            if n >= 12 {
                res.term(tt, dred, -c);
            }
        }
        if n >= 12 {
            let mut dd = dpow[td::BN[n]];
            if td::KN[n] > 0 {
                dd = dd.mul(dpow[td::KN[n]].sc(-1.0).exp());
            }
            res.term(tt, dd, c);
        }
    }
    (id, res, mm, mms)
}

fn gerg(x21: &[f64; 21], t: f64, d: f64) -> (Acc, Acc, f64, f64) {
    let mut x = [0.0; 22];
    x[1..].copy_from_slice(x21);
    let mut id = Acc::new();
    let mut res = Acc::new();
    let (mut mm, mut mms) = (0.0, 0.0);
    for i in 1..=21 {
        mm += x[i] * tg::MM[i];
        mms += (x[i] * tg::MM[i]).abs();
    }
    let (vr, tr) = gerg_reducing(x21);
    let tj = Tay::var(t);
    let del = Tay::var(d).sc(vr);
    let tau = tj.powf(-1.0).sc(tr);
    let dp: Vec<Tay> = (0..8).map(|n| del.powi(n)).collect();
    let de: Vec<Tay> = (0..8).map(|n| if n == 0 { Tay::con(1.0) } else { dp[n].sc(-1.0).exp() }).collect();
    for i in 1..=21 {
        if !(x[i] > EPS) {
            continue;
        }
        let hyp: Vec<(bool, f64, f64)> = (4..8)
            .filter(|&k| tg::TH0I[i][k] > EPS)
            .map(|k| (k == 4 || k == 6, tg::N0I[i][k], tg::TH0I[i][k]))
            .collect();
        ideal(&mut id, x[i], tj, d, [tg::N0I[i][1], tg::N0I[i][2], tg::N0I[i][3]], &hyp);
        for k in 1..=tg::KPOL[i] + tg::KEXP[i] {
            let mut dd = dp[tg::DOIK[i][k]];
            if k > tg::KPOL[i] {
                dd = dd.mul(de[tg::COIK[i][k]]);
            }
            res.term(tau.powf(tg::TOIK[i][k]), dd, x[i] * tg::NOIK[i][k]);
        }
        for j in i + 1..=21 {
            let mn = tg::MNUMB[i][j];
            if !(x[j] > EPS) || mn == 0 {
                continue;
            }
            let xf = x[i] * x[j] * tg::FIJ[i][j];
            for k in 1..=tg::KPOLIJ[mn] + tg::KEXPIJ[mn] {
                let mut dd = dp[tg::DIJK[mn][k]];
                if k > tg::KPOLIJ[mn] {
                    let e = dp[2].sc(tg::CIJK[mn][k]).add(del.sc(tg::EIJK[mn][k])).add(Tay::con(tg::GIJK[mn][k]));
                    dd = dd.mul(e.exp());
                }
                res.term(tau.powf(tg::TIJK[mn][k]), dd, xf * tg::NIJK[mn][k]);
            }
        }
    }
    (id, res, mm, mms)
}

/// Reducing volume and reducing temperature of a mixture.
pub fn gerg_reducing(x21: &[f64; 21]) -> (f64, f64) {
    let x = |i: usize| x21[i - 1];
    let (mut vr, mut tr) = (0.0, 0.0);
    for i in 1..=21 {
        if !(x(i) > EPS) {
            continue;
        }
        for j in i..=21 {
            if !(x(j) > EPS) {
                continue;
            }
            let f = if j == i { 1.0 } else { 2.0 };
            let w = f * (x(i) * x(j)) * (x(i) + x(j));
            vr += w * tg::GVIJ[i][j] / (tg::BVIJ[i][j] * x(i) + x(j));
            tr += w * tg::GTIJ[i][j] / (tg::BTIJ[i][j] * x(i) + x(j));
        }
    }
    (vr, tr)
}

/// Pseudo-critical density used by the GERG solver for its starting values.
pub fn gerg_dcx(x: &[f64; 21]) -> f64 {
    let mut v = 0.0;
    for i in 0..21 {
        v += x[i] / tg::DC[i + 1];
    }
    if v > EPS {
        1.0 / v
    } else {
        0.0
    }
}
