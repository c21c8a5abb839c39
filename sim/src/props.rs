//! The properties: how their scenarios are generated and how their histories are judged.
use crate::gen::{self, Cfg, Stream};
use crate::ops::*;
use crate::oracle::*;
use crate::refmodel::{self, Kind};
use crate::rng::{hash_str, mix, Rng};
use crate::sched::{self, draft, execute, Rec, RunLog};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub ops: u64,
    pub calcs: u64,
    pub children: u64,
    pub judged: u64,
    pub sim_time: f64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub opmix: BTreeMap<String, u64>,
    pub switches: u64,
    pub suspends: u64,
    pub stalls: u64,
    pub blocks: u64,
    pub il: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub cal_max: f64,
    pub cal_field: String,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    fn log(&mut self, sc: &Scenario, l: &RunLog) {
        self.ops += l.recs.len() as u64;
        self.children += 1;
        for r in &l.recs {
            let s = &sc.steps[r.step];
            if s.op.is_calc() {
                self.calcs += 1;
            }
            if !r.skipped {
                *self.opmix.entry(s.op.name().to_string()).or_default() += 1;
                if !s.fault.is_empty() {
                    *self.faults.entry(s.fault.to_string()).or_default() += 1;
                }
                if let (Op::Dens { .. }, true) = (&s.op, r.out.code != 0) {
                    *self.faults.entry("solve-failed".to_string()).or_default() += 1;
                }
                match s.op {
                    Op::Restart { .. } => *self.faults.entry("restart".into()).or_default() += 1,
                    Op::Soak { n, .. } => *self.probes.entry("calls or cycles in long service".into()).or_default() += n as u64,
                    Op::Abandon { .. } => *self.faults.entry("abandoned-handle".into()).or_default() += 1,
                    _ => {}
                }
            }
        }
        if l.killed {
            *self.faults.entry("process-killed-mid-call".into()).or_default() += 1;
        }
        self.switches += l.switches as u64;
        self.suspends += l.suspends as u64;
        self.stalls += l.stalls as u64;
        self.blocks += l.blocks as u64;
        if l.irqs > 0 {
            *self.faults.entry("call-interrupted-on-its-own-thread".into()).or_default() += l.irqs as u64;
        }
        if l.switches > 0 || l.irqs > 0 {
            self.il.insert(l.il_hash);
        }
    }
    fn cal(&mut self, c: &Calib) {
        if c.max > self.cal_max {
            self.cal_max = c.max;
            self.cal_field = c.field.to_string();
        }
    }
    fn nontrivial(&mut self, sc: &Scenario) {
        self.nontrivial += 1;
        let mut h = mix(sc.threads as u64 ^ (sc.fill as u64) << 8);
        for s in &sc.steps {
            h = mix(h ^ hash_str(&s.text()));
        }
        if let Some((i, t)) = sc.crash {
            h = mix(h ^ i as u64 ^ t << 16);
        }
        self.distinct.insert(mix(h ^ sc.sched.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))));
    }
}
fn run(sc: &Scenario, st: &mut Stats) -> Result<RunLog, Viol> {
    let mut l = execute(sc);
    if (l.irqs > 0 || sc.crash.is_some()) && l.broken(sc).is_some() {
        // a call interrupted or lost during one-time initialisation stays there: judge the library in service
        l = sched::in_service(sc);
    }
    st.log(sc, &l);
    match l.broken(sc) {
        Some((c, m)) => viol(&c, m),
        None => Ok(l),
    }
}

// ---------------------------------------------------------------- generation

pub fn generate(prop: &str, seed: u64, run: u64) -> Scenario {
    let mut r = Rng::new(seed, prop, run);
    let mut sc = Scenario::new(prop, seed, run);
    match prop {
        "C01" => history(&mut r, &mut sc, Kind::Detail),
        "C02" => history(&mut r, &mut sc, Kind::Gerg),
        "C03" => overlap(&mut r, &mut sc),
        "C04" => solves(&mut r, &mut sc),
        "C05" => recovery(&mut r, &mut sc),
        "C06" => updates(&mut r, &mut sc),
        "C07" => c_calls(&mut r, &mut sc),
        "C08" if run % 8000 == 100 => many(&mut r, &mut sc, Kind::Detail),
        "C08" if run % 2000 == 50 => many(&mut r, &mut sc, Kind::Gerg),
        "C08" => lifecycle(&mut r, &mut sc),
        "C09" => garbage(&mut r, &mut sc),
        "C10" => frames(&mut r, &mut sc),
        "C11" => restart(&mut r, &mut sc),
        "C16" => service(&mut r, &mut sc),
        "C17" => exhausted(&mut r, &mut sc),
        "C18" => surroundings(&mut r, &mut sc),
        _ => panic!("unknown property {}", prop),
    }
    for s in &mut sc.steps {
        if matches!(s.op, Op::New { api: Api::Native, .. }) && s.fault.is_empty() && r.chance(0.2) {
            s.fault = "made-by-default";
        }
    }
    sc
}
fn history(r: &mut Rng, sc: &mut Scenario, kind: Kind) {
    sc.threads = if r.chance(0.3) { r.range(2, 4) } else { 1 };
    let n = if r.chance(0.3) { r.range(2, 3) } else { 1 };
    let mut all = vec![];
    for h in 0..n {
        let k = if h == 0 || r.chance(0.5) { kind } else { gen::kind(r) };
        let mut c = Cfg::swarm(r);
        c.soak = if r.chance(0.03) { 0.2 } else { 0.0 };
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, k, a, &mut v);
        for _ in 0..r.range(3, if h == 0 { 16 } else { 5 }) {
            s.cycle(r, &c, &mut v);
        }
        all.push(gen::plain(v));
    }
    if r.chance(if n > 1 { 0.4 } else { 0.05 }) {
        one_site(r, &mut all);
    }
    gen::merge(r, sc, all, 0.5);
}
/// The streams of one site: the same few temperatures, pressures, densities and gases turn up on all of them.
fn one_site(r: &mut Rng, all: &mut [Vec<(Op, &'static str)>]) {
    let (mut ts, mut ps, mut ds, mut xs) = (vec![], vec![], vec![], vec![]);
    let m = r.range(1, 3);
    for (op, f) in all.iter().flatten().filter(|s| s.1.is_empty()) {
        debug_assert!(f.is_empty());
        match op {
            Op::T { v, .. } => ts.push(*v),
            Op::P { v, .. } => ps.push(*v),
            Op::D { v, .. } => ds.push(*v),
            Op::Comp { x, .. } => xs.push(*x),
            _ => {}
        }
    }
    fn few<T: Copy>(r: &mut Rng, v: Vec<T>, m: usize) -> Vec<T> {
        (0..m.min(v.len())).map(|_| *r.pick(&v)).collect()
    }
    let (ts, ps, ds, xs) = (few(r, ts, m), few(r, ps, m), few(r, ds, m), few(r, xs, m));
    let q: Vec<f64> = (0..4).map(|_| *r.pick(&[0.0, 0.5, 0.9, 1.0])).collect();
    for (op, _) in all.iter_mut().flatten().filter(|s| s.1.is_empty()) {
        match op {
            Op::T { v, .. } if r.chance(q[0]) => *v = *r.pick(&ts),
            Op::P { v, .. } if r.chance(q[1]) => *v = *r.pick(&ps),
            Op::D { v, .. } if r.chance(q[2]) => *v = *r.pick(&ds),
            Op::Comp { x, .. } if r.chance(q[3]) => *x = *r.pick(&xs),
            _ => {}
        }
    }
}
fn overlap(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = r.range(2, 5);
    sc.strict = false;
    let n = r.range(2, 5);
    let same = r.chance(0.6);
    let k0 = gen::kind(r);
    let mut all = vec![];
    let shared = if r.chance(0.4) { Some(gen::comp(r)) } else { None };
    for h in 0..n {
        let kind = if same { k0 } else { gen::kind(r) };
        let mut c = Cfg::swarm(r);
        c.creep = 0.0;
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, kind, a, &mut v);
        if let Some(x) = shared {
            // same gas on several streams, different temperatures
            s.x = x;
            v.push(Op::Comp { h, x });
        }
        let mut w = gen::plain(v);
        for _ in 0..r.range(1, 4) {
            let mut v = vec![];
            s.cycle(r, &c, &mut v);
            w.extend(gen::plain(v));
            if r.chance(0.1) {
                s.fault(r, &c, &mut w);
                let mut v = vec![];
                s.inputs(&mut v);
                w.extend(gen::plain(v));
            }
        }
        all.push(w);
    }
    let sticky = if r.chance(0.5) { 0.95 } else { 0.5 };
    if r.chance(0.5) {
        one_site(r, &mut all);
    }
    gen::merge(r, sc, all, sticky);
    // concurrent readers of an idle calculator
    for h in 0..n {
        if r.chance(0.4) {
            let pos = r.range(sc.steps.len() / 2, sc.steps.len());
            for i in 0..r.range(2, 4) {
                sc.steps.insert(pos, Step { th: i % sc.threads, at: sc.steps[pos - 1].at, op: Op::Read { h }, pre: vec![], stall: false, irq: false, fault: "" });
            }
        }
    }
    // suspension points inside calls, placed with the help of a run without any
    let draft = draft(sc);
    let hot: BTreeMap<usize, &Vec<u64>> = draft.recs.iter().filter(|x| !x.hot.is_empty()).map(|x| (x.step, &x.hot)).collect();
    let ticks: BTreeMap<usize, u64> = draft.recs.iter().map(|x| (x.step, x.ticks)).collect();
    let rate = *r.pick(&[0.15, 0.4, 0.8]);
    for (i, s) in sc.steps.iter_mut().enumerate() {
        let t = *ticks.get(&i).unwrap_or(&0);
        if t < 2 || !r.chance(rate) {
            continue;
        }
        let m = if r.chance(0.15) { r.range(5, 30) } else { r.range(1, 4) };
        let shared = hot.get(&i);
        let mut p: Vec<u64> = (0..m)
            .map(|_| match r.below(4) {
                _ if shared.is_some() && r.chance(0.7) => *r.pick(shared.unwrap()) + r.below(3) as u64 / 2,
                0 => (t as f64 * (1.0 - r.log(-4.0, 0.0))) as u64,
                1 => (t as f64 * r.log(-4.0, 0.0)) as u64,
                _ => (t as f64 * r.f()) as u64,
            })
            .map(|v| v.max(1))
            .collect();
        p.sort();
        p.dedup();
        s.pre = p;
        s.stall = r.chance(0.15);
        s.irq = r.chance(0.25);
    }
    if r.chance(0.7) {
        sc.sched = (0..r.range(1, 80)).map(|_| r.below(6) as u8).collect();
    }
}
fn solves(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = if r.chance(0.2) { 2 } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 2) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, kind, a, &mut v);
        let mut c = Cfg::swarm(r);
        c.flags = r.chance(0.7);
        let mut v = gen::plain(v);
        let (wild, cold) = (r.chance(0.5), r.chance(0.25));
        for _ in 0..r.range(4, 14) {
            if r.chance(0.3) {
                s.x = gen::change_comp(r, &s.x, &s.xs);
                v.push((Op::Comp { h, x: s.x }, ""));
            }
            if cold && r.chance(0.7) {
                // natural gas from the liquid to the dense phase
                s.x = gen::pipeline_comp(r);
                v.push((Op::Comp { h, x: s.x }, ""));
                v.push((Op::T { h, v: if r.chance(0.8) { r.uni(150.0, 210.0) } else { r.uni(200.0, 500.0) } }, ""));
                v.push((Op::P { h, v: if r.chance(0.5) { r.log(0.0, 5.0) } else { r.log(3.3, 4.5) } }, ""));
            } else if wild && r.chance(0.6) {
                // two-phase, critical and dense regions
                let tc = 190.0 + 3.0 * 100.0 * r.f() * (1.0 - s.x[0]);
                v.push((Op::T { h, v: tc * r.uni(0.6, 1.15) }, "solve-fails"));
                v.push((Op::P { h, v: r.log(1.0, 5.0) }, ""));
            } else if r.chance(0.15) {
                let n = v.len();
                s.fault(r, &c, &mut v);
                let bad_d = matches!(v[n].0, Op::D { .. });
                if r.chance(0.5) && !bad_d {
                    s.inputs_into(&mut v);
                }
            } else {
                let t = if r.chance(0.05) { gen::special(r, &s.x).0 } else { gen::temp(r) };
                v.push((Op::T { h, v: if t > 0.0 { t } else { 300.0 } }, ""));
                v.push((Op::P { h, v: if r.chance(0.2) { r.log(-14.5, 6.0) } else { gen::press(r) } }, ""));
            }
            if r.chance(0.04) {
                let t = if r.chance(0.5) { r.uni(120.0, 350.0) } else { s.t };
                if let Some(d) = gen::trap(r, kind, &s.x, t) {
                    v.push((Op::T { h, v: t }, ""));
                    v.push((Op::D { h, v: -d }, "led-astray"));
                }
            } else if r.chance(0.2) {
                let d = -(if r.chance(0.5) { r.log(-3.0, 1.5) } else { r.log(-45.0, 4.0) });
                v.push((Op::D { h, v: d }, ""));
            }
            v.push((Op::Dens { h, flag: gen::flag(r, &c, kind) }, ""));
            if r.chance(0.5) {
                v.push((Op::Props { h }, ""));
            }
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}
impl Stream {
    fn inputs_into(&self, v: &mut Vec<(Op, &'static str)>) {
        let mut o = vec![];
        self.inputs(&mut o);
        v.extend(gen::plain(o));
    }
}
fn recovery(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = if r.chance(0.2) { 2 } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 2) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, kind, a, &mut v);
        if r.chance(0.3) {
            v.truncate(1); // bad readings before the first good one
        }
        let mut v = gen::plain(v);
        let mut c = Cfg::swarm(r);
        c.guess = 0.0;
        c.flags = r.chance(0.5);
        c.soak = if r.chance(0.03) { 0.3 } else { 0.0 };
        for _ in 0..r.range(1, 4) {
            if r.chance(0.6) {
                let mut o = vec![];
                s.cycle(r, &c, &mut o);
                v.extend(gen::plain(o));
            }
            for _ in 0..r.range(1, 3) {
                s.fault(r, &c, &mut v);
            }
            if r.chance(0.02) {
                // an outage that lasts
                let what = if r.chance(0.5) { "failing" } else { "garbage" };
                let what = crate::soak::KINDS.iter().position(|k| *k == what).unwrap();
                v.push((Op::Soak { h, what, n: r.log(1.0, 2.9) as usize, seed: r.u64() >> 32 }, "solve-fails"));
            }
            // good readings come back, in any order
            if r.chance(0.5) {
                s.x = if r.chance(0.7) { gen::pipeline_comp(r) } else { gen::comp(r) };
            }
            if r.chance(0.5) {
                s.t = if r.chance(0.7) { r.uni(275.0, 350.0) } else { gen::temp(r) };
            }
            if r.chance(0.5) {
                s.p = if r.chance(0.7) { r.uni(50.0, 15_000.0) } else { gen::press(r) };
            }
            let mut o = vec![Op::Comp { h, x: s.x }, Op::T { h, v: s.t }, Op::P { h, v: s.p }];
            let (i, j) = (r.below(3), r.below(3));
            o.swap(i, j);
            o.push(Op::Dens { h, flag: gen::flag(r, &c, kind) });
            o.push(Op::Props { h });
            if r.chance(0.3) {
                o.push(Op::Pres { h });
            }
            v.extend(gen::plain(o));
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}
fn updates(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = if r.chance(0.2) { 2 } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 2) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, kind, a, &mut v);
        if r.chance(0.3) {
            v.remove(1);
        }
        let mut c = Cfg::swarm(r);
        c.flags = false;
        let mut v = gen::plain(v);
        for _ in 0..r.range(2, 8) {
            for _ in 0..r.range(1, 3) {
                match r.below(8) {
                    0 | 1 | 2 | 3 => {
                        let (f, x) = gen::bad_comp(r, &s.x);
                        v.push((Op::Comp { h, x }, f));
                    }
                    4 => {
                        let (f, x) = gen::bad_comp(r, &s.x);
                        v.push((Op::Norm { h, x }, f));
                    }
                    5 => {
                        let mut x = gen::comp(r);
                        let k = if r.chance(0.5) { r.log(-3.0, 3.0) } else { r.log(-320.0, 308.0) };
                        for q in x.iter_mut() {
                            *q *= k;
                        }
                        v.push((Op::Norm { h, x }, ""));
                    }
                    _ => {
                        s.x = gen::change_comp(r, &s.x, &s.xs);
                        v.push((Op::Comp { h, x: s.x }, ""));
                    }
                }
            }
            let mut o = vec![];
            if r.chance(0.3) {
                o.push(Op::T { h, v: gen::temp(r) });
            }
            s.calc(r, &c, &mut o);
            v.extend(gen::plain(o));
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}
fn c_calls(r: &mut Rng, sc: &mut Scenario) {
    sc.fence = r.chance(0.2);
    sc.threads = if r.chance(0.2) { 3 } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 3) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let mut s = Stream::open(r, h, kind, Api::C, &mut v);
        let mut c = Cfg::swarm(r);
        c.flags = false;
        c.raw = 0.0;
        let mut v = gen::plain(v);
        for _ in 0..r.range(2, 8) {
            if r.chance(0.3) {
                s.fault(r, &c, &mut v);
                for (o, _) in v.iter_mut() {
                    if let Op::RawX { h, x } = o {
                        *o = Op::Comp { h: *h, x: *x };
                    }
                }
                if r.chance(0.5) {
                    s.inputs_into(&mut v);
                }
            }
            let mut o = vec![];
            s.cycle(r, &c, &mut o);
            o.retain(|o| !matches!(o, Op::CreepX { .. } | Op::Norm { .. }));
            if r.chance(0.8) {
                o.push(Op::Read { h });
            }
            v.extend(gen::plain(o));
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}
fn lifecycle(r: &mut Rng, sc: &mut Scenario) {
    match r.below(10) {
        0 => {
            let op = Op::NewOom { kind: gen::kind(r), k: if r.chance(0.8) { 1 } else { r.range(1, 3) } };
            sc.steps.push(Step { th: 0, at: 0.0, op, pre: vec![], stall: false, irq: false, fault: "oom" });
            return;
        }
        1 => {
            let op = Op::Null { kind: gen::kind(r), f: r.below(NULL_FNS.len()) };
            sc.steps.push(Step { th: 0, at: 0.0, op, pre: vec![], stall: false, irq: false, fault: "null-handle" });
            return;
        }
        _ => {}
    }
    sc.threads = if r.chance(0.4) { r.range(2, 4) } else { 1 };
    let crowd = r.chance(0.05);
    sc.recycle = crowd || r.chance(0.6);
    sc.fill = *r.pick(&[0u8, 0xFF, 0xA5, 0x7F, 0x3F, 0x40, 0x01]);
    sc.strict = r.chance(0.5);
    sc.fence = !crowd && r.chance(0.4);
    let mut all = vec![];
    for h in 0..r.range(1, 4) {
        let mut w = vec![];
        for _ in 0..r.range(1, 4) {
            let kind = gen::kind(r);
            let api = if HAVE_SHIM && r.chance(0.3) { Api::C } else { Api::Ffi };
            let mut v = vec![];
            let mut c = Cfg::swarm(r);
            c.creep = 0.0;
            c.raw = 0.0;
            c.flags = false;
            let mut s = Stream::open(r, h, kind, api, &mut v);
            if r.chance(0.3) {
                v.truncate(1);
                v.push(Op::Props { h });
            }
            let mut v = gen::plain(v);
            for _ in 0..r.below(3) {
                let mut o = vec![];
                s.cycle(r, &c, &mut o);
                v.extend(gen::plain(o));
                if r.chance(0.2) {
                    s.fault(r, &c, &mut v);
                }
            }
            if r.chance(0.4) {
                v.push((Op::Read { h }, ""));
            }
            if crowd && r.chance(0.3) {
                let what = crate::soak::KINDS.iter().position(|k| *k == "crowd").unwrap();
                v.push((Op::Soak { h, what, n: r.log(1.0, 2.6) as usize, seed: r.u64() >> 32 }, ""));
            }
            v.push((Op::Free { h }, ""));
            w.extend(v);
        }
        all.push(w);
    }
    gen::merge(r, sc, all, 0.7);
    if sc.threads > 1 && !sc.strict {
        for s in sc.steps.iter_mut() {
            if r.chance(0.2) && s.op.is_calc() {
                s.pre = vec![r.range(1, 20_000) as u64];
            }
            if matches!(s.op, Op::New { .. }) && r.chance(0.3) {
                s.pre = vec![r.range(1, 2000) as u64];
            }
        }
    }
}
/// so many handles that 16 bits do not count them (the check does all of this three times in one process)
fn many(r: &mut Rng, sc: &mut Scenario, kind: Kind) {
    let what = crate::soak::KINDS.iter().position(|k| *k == "churn").unwrap();
    sc.recycle = r.chance(0.5);
    let mut v = vec![];
    let api = if HAVE_SHIM && r.chance(0.5) { Api::C } else { Api::Ffi };
    let s = Stream::open(r, 0, kind, api, &mut v);
    v.push(Op::Soak { h: 0, what, n: r.range(21_860, 22_000), seed: r.u64() >> 32 });
    s.inputs(&mut v);
    v.extend([Op::Dens { h: 0, flag: 0 }, Op::Props { h: 0 }, Op::Free { h: 0 }]);
    gen::merge(r, sc, vec![gen::plain(v)], 1.0);
}
fn any_f64(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => f64::from_bits(r.u64()),
        1 => gen::bad(r).1,
        2 => r.sign() * r.log(-320.0, 308.0),
        _ => r.sign() * r.log(-6.0, 6.0),
    }
}
fn garbage(r: &mut Rng, sc: &mut Scenario) {
    let kind = gen::kind(r);
    let h = 0;
    let mut v = vec![];
    let a = gen::api(r);
    let mut s = Stream::open(r, h, kind, a, &mut v);
    if r.chance(0.2) {
        v.truncate(1);
    }
    let mut c = Cfg::swarm(r);
    c.soak = if r.chance(0.05) { 0.3 } else { 0.0 };
    let mut v = gen::plain(v);
    for _ in 0..r.range(3, 20) {
        match r.below(9) {
            0 | 1 => s.fault(r, &c, &mut v),
            2 => v.push((Op::P { h, v: any_f64(r) }, "")),
            3 => v.push((Op::T { h, v: any_f64(r) }, "")),
            4 => v.push((Op::D { h, v: any_f64(r) }, "bad-density")),
            5 => {
                let mut x = if r.chance(0.5) { s.x } else { [0.0; 21] };
                for _ in 0..r.range(1, 6) {
                    x[r.below(21)] = any_f64(r);
                }
                v.push((if r.chance(0.8) { Op::RawX { h, x } } else { Op::Norm { h, x } }, "comp-nan"));
            }
            6 => s.inputs_into(&mut v),
            7 => {
                // a hard solve
                v.push((Op::T { h, v: r.log(1.3, 3.0) }, "solve-fails"));
                v.push((Op::P { h, v: r.log(-2.0, 7.0) }, ""));
            }
            _ => {
                let mut o = vec![];
                s.cycle(r, &c, &mut o);
                o.retain(|o| !matches!(o, Op::CreepX { .. } | Op::CreepT { .. }));
                v.extend(gen::plain(o));
            }
        }
        let flag = if r.chance(0.6) { 0 } else { *r.pick(&[1, 2, 3, -1, i32::MAX, i32::MIN]) };
        v.push((
            match r.below(6) {
                0 | 1 | 2 => Op::Dens { h, flag },
                3 => Op::Props { h },
                4 => Op::Pres { h },
                _ => Op::Read { h },
            },
            "",
        ));
    }
    gen::merge(r, sc, vec![v], 1.0);
}
fn frames(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = if r.chance(0.2) { 2 } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 3) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let a = gen::api(r);
        let mut s = Stream::open(r, h, kind, a, &mut v);
        let c = Cfg::swarm(r);
        let mut v = gen::plain(v);
        for _ in 0..r.range(2, 8) {
            if r.chance(0.15) {
                s.fault(r, &c, &mut v);
            }
            if r.chance(0.15) {
                // whatever is stored, looking at it leaves it alone
                let w = if r.chance(0.5) { -r.log(-3.0, 4.0) } else { any_f64(r) };
                v.push((match r.below(4) {
                    0 => Op::P { h, v: w },
                    1 => Op::T { h, v: w },
                    _ => Op::D { h, v: w },
                }, "bad-reading"));
                v.push((Op::Read { h }, ""));
                if r.chance(0.5) {
                    s.inputs_into(&mut v);
                }
            }
            let mut o = vec![];
            s.cycle(r, &c, &mut o);
            // repeat calculations without changing anything
            let mut q = vec![];
            for op in o {
                let again = op.is_calc() && !matches!(op, Op::CreepX { .. } | Op::CreepT { .. }) && r.chance(0.6);
                q.push(op.clone());
                if again {
                    if r.chance(0.5) {
                        q.push(match r.below(4) {
                            0 => Op::Read { h },
                            1 => Op::Mm { h },
                            2 => Op::Pres { h },
                            _ => Op::Props { h },
                        });
                    }
                    q.push(op);
                }
            }
            v.extend(gen::plain(q));
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}
fn restart(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = 1;
    let kind = gen::kind(r);
    let mut v = vec![];
    let mut c = Cfg::swarm(r);
    c.restart = 0.0;
    c.soak = if r.chance(0.03) { 0.3 } else { 0.0 };
    let a = gen::api(r);
    let mut s = Stream::open(r, 0, kind, a, &mut v);
    let mut v = gen::plain(v);
    for _ in 0..r.range(2, 8) {
        if r.chance(0.15) {
            s.fault(r, &c, &mut v);
            s.inputs_into(&mut v);
        }
        let mut o = vec![];
        s.cycle(r, &c, &mut o);
        v.extend(gen::plain(o));
    }
    gen::merge(r, sc, vec![v], 1.0);
    let draft = draft(sc);
    let cand: Vec<(usize, u64)> = draft.recs.iter().filter(|x| x.step >= 1 && !matches!(sc.steps[x.step].op, Op::Soak { .. })).map(|x| (x.step, x.ticks)).collect();
    if !cand.is_empty() {
        let calcs: Vec<(usize, u64)> = cand.iter().copied().filter(|x| x.1 > 50).collect();
        let (i, t) = if r.chance(0.85) && !calcs.is_empty() { *r.pick(&calcs) } else { *r.pick(&cand) };
        let hot = draft.recs.iter().find(|x| x.step == i && !x.hot.is_empty()).map(|x| x.hot.clone());
        let tick = if hot.is_some() && r.chance(0.5) { *r.pick(&hot.unwrap()) } else if r.chance(0.1) { 0 } else { (t as f64 * if r.chance(0.3) { r.log(-4.0, 0.0) } else { r.f() }) as u64 };
        sc.crash = Some((i, tick));
        sc.crash_mode = r.below(2) as u8;
    }
}

/// a metering block that is repeated unchanged during a long service
const BLOCK: usize = 12;
fn service(r: &mut Rng, sc: &mut Scenario) {
    sc.recycle = true;
    sc.fill = *r.pick(&[0u8, 0xA5, 0xFF]);
    let h = 0;
    let kind = gen::kind(r);
    let api = match r.below(4) {
        0 => Api::Ffi,
        1 if HAVE_SHIM => Api::C,
        _ => Api::Native,
    };
    let (x, t, p) = (gen::pipeline_comp(r), r.uni(275.0, 350.0), r.uni(50.0, 15_000.0));
    let (y, u) = (gen::comp(r), gen::temp(r));
    let block = [
        Op::RawX { h, x: y },
        Op::T { h, v: u },
        Op::Pres { h },
        Op::Comp { h, x },
        Op::T { h, v: t },
        Op::P { h, v: p },
        Op::D { h, v: 0.0 },
        Op::Dens { h, flag: 0 },
        Op::Props { h },
        Op::Pres { h },
        Op::Mm { h },
        Op::Read { h },
    ];
    assert!(block.len() == BLOCK);
    let mut v = vec![Op::New { h, kind, api }, Op::D { h, v: 1.0 }]; // the block starts at step 2
    v.extend(block.clone());
    let deep = r.chance(0.06);
    let what = r.below(crate::soak::KINDS.len());
    for _ in 0..3 {
        for _ in 0..r.range(1, 2) {
            let what = if r.chance(0.8) { what } else { r.below(crate::soak::KINDS.len()) };
            let top: f64 = match crate::soak::KINDS[what] {
                "mm" | "read" | "updates" | "setting" => 140_000.0,
                "pressure" | "analysis" | "drift" => 70_000.0,
                "solves" | "props" | "refused" => 70_000.0,
                "handles" => 400.0,
                "crowd" => 500.0,
                "twins" => 40.0,
                "threads" | "teardown" => 1_000.0,
                "churn" if kind == Kind::Gerg => 66_000.0,
                _ => 6_000.0,
            };
            let mut n = if deep { top } else { r.log(1.0, (top / 20.0).log10()) };
            if r.chance(0.3) {
                // around the points where small counters wrap
                let w = *r.pick(&[127.0, 128.0, 255.0, 256.0, 256.0, 32768.0, 65536.0, 65536.0]);
                if w <= top && (deep || w < 1000.0) {
                    n = w + r.range(0, 8) as f64 - 4.0;
                }
            }
            v.push(Op::Soak { h, what, n: n as usize, seed: r.u64() >> 32 });
        }
        v.extend(block.clone());
    }
    v.push(Op::Free { h });
    gen::merge(r, sc, vec![gen::plain(v)], 1.0);
}
/// once the calculators exist, memory runs out for good or for a while
fn exhausted(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = if r.chance(0.3) { r.range(2, 3) } else { 1 };
    let mut all = vec![];
    for h in 0..r.range(1, 3) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let api = match r.below(4) {
            0 => Api::Ffi,
            1 if HAVE_SHIM => Api::C,
            _ => Api::Native,
        };
        let mut s = Stream::open(r, h, kind, api, &mut v);
        let mut c = Cfg::swarm(r);
        c.flags = r.chance(0.5);
        let mut v = gen::plain(v);
        for _ in 0..r.range(2, 8) {
            let mut o = vec![];
            s.cycle(r, &c, &mut o);
            if r.chance(0.3) {
                o.push(Op::Read { h });
            }
            v.extend(gen::plain(o));
            if r.chance(0.15) {
                s.fault(r, &c, &mut v);
                s.inputs_into(&mut v);
            }
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
    let (a, b) = if r.chance(0.5) { (0, sc.steps.len()) } else { (r.below(sc.steps.len()), sc.steps.len()) };
    for s in sc.steps[a..b].iter_mut() {
        if !matches!(s.op, Op::New { .. } | Op::Restart { .. } | Op::Abandon { .. } | Op::Free { .. } | Op::Move { .. }) && r.chance(0.9) {
            s.fault = "oom";
        }
    }
}
/// ordinary and failing cycles, to be run in ordinary and in hostile surroundings
fn surroundings(r: &mut Rng, sc: &mut Scenario) {
    sc.threads = r.range(1, 3);
    sc.env = 1;
    let mut all = vec![];
    for h in 0..r.range(1, 2) {
        let kind = gen::kind(r);
        let mut v = vec![];
        let api = match r.below(4) {
            0 => Api::Ffi,
            1 if HAVE_SHIM => Api::C,
            _ => Api::Native,
        };
        let mut s = Stream::open(r, h, kind, api, &mut v);
        let mut c = Cfg::swarm(r);
        c.flags = r.chance(0.5);
        let mut v = gen::plain(v);
        for _ in 0..r.range(2, 9) {
            let mut o = vec![];
            s.cycle(r, &c, &mut o);
            if r.chance(0.3) {
                o.push(Op::Read { h });
            }
            if r.chance(0.1) {
                o.push(Op::Norm { h, x: gen::comp(r).map(|v| v * 100.0) });
            }
            v.extend(gen::plain(o));
            if r.chance(0.35) {
                s.fault(r, &c, &mut v);
                if r.chance(0.6) {
                    v.push((Op::Dens { h, flag: gen::flag(r, &c, kind) }, ""));
                }
                if r.chance(0.3) {
                    v.push((Op::Props { h }, ""));
                }
                s.inputs_into(&mut v);
            }
        }
        if r.chance(0.3) {
            v.push((Op::Free { h }, ""));
        }
        all.push(v);
    }
    gen::merge(r, sc, all, 0.7);
}

// ---------------------------------------------------------------- judgement

pub fn check(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    st.runs += 1;
    if let Some(s) = sc.steps.last() {
        st.sim_time += s.at;
    }
    match sc.prop.as_str() {
        "C01" => check_history(sc, st, Kind::Detail),
        "C02" => check_history(sc, st, Kind::Gerg),
        "C03" => check_overlap(sc, st),
        "C04" => check_solves(sc, st),
        "C05" => check_recovery(sc, st),
        "C06" => check_updates(sc, st),
        "C07" => check_c(sc, st),
        "C08" => check_lifecycle(sc, st),
        "C09" => check_garbage(sc, st),
        "C10" => check_frames(sc, st),
        "C11" => check_restart(sc, st),
        "C16" => check_service(sc, st),
        "C17" => check_exhausted(sc, st),
        "C18" => check_surroundings(sc, st),
        p => panic!("unknown property {}", p),
    }
}
fn check_history(sc: &Scenario, st: &mut Stats, kind: Kind) -> Result<(), Viol> {
    let l = run(sc, st)?;
    let mut m = Model::default();
    let mut cal = Calib::default();
    let mut n = 0;
    let mut last: [Option<Snap>; NSLOT] = [None; NSLOT];
    let mut res = Ok(());
    for r in &l.recs {
        m.step(sc, r);
        let op = &sc.steps[r.step].op;
        if let (Some(h), Some(a)) = (op.handle(), &r.after) {
            if r.skipped || m.kind[h] != Some(kind) {
                continue;
            }
            match ref_check(kind, op, &r.out, m.api[h].unwrap(), a, &mut cal) {
                Ok(true) => {
                    st.judged += 1;
                    if let Some(b) = last[h] {
                        // a result computed on a live object after its state had changed
                        if (0..21).any(|i| !same(b.x[i], a.x[i])) {
                            st.probe("composition changed since last result");
                            n += 1;
                        }
                        if !same(b.t(), a.t()) {
                            st.probe("temperature changed since last result");
                            if (b.t() - a.t()).abs() < 1e-7 {
                                st.probe("temperature change below 1e-7 K");
                            }
                            n += 1;
                        }
                    }
                    last[h] = Some(*a);
                }
                Ok(false) => {}
                Err(e) => {
                    res = Err(Viol { class: e.class, msg: format!("step {}: {}", r.step, e.msg) });
                    break;
                }
            }
        }
    }
    st.cal(&cal);
    res?;
    let qs = fresh_queries(sc, &l, |_, k| k == kind);
    if !qs.is_empty() {
        let q: Vec<Query> = qs.iter().map(|q| q.1.clone()).collect();
        let f = fresh(&q, false, &mut st.children)?;
        for ((i, q), f) in qs.iter().zip(&f) {
            let r = &l.recs[*i];
            st.judged += 1;
            same_as_fresh(q, f, r.out.code, &r.after.unwrap()).map_err(|e| Viol { class: e.class, msg: format!("step {}: {}", r.step, e.msg) })?;
        }
    }
    if n > 0 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn solo(sc: &Scenario, h: usize) -> (Scenario, Vec<usize>) {
    let mut s = sc.clone();
    s.threads = 1;
    s.strict = true;
    s.sched.clear();
    let idx: Vec<usize> = (0..sc.steps.len()).filter(|&i| sc.steps[i].op.handle() == Some(h)).collect();
    s.steps = idx
        .iter()
        .map(|&i| {
            let mut t = sc.steps[i].clone();
            t.th = 0;
            t.pre.clear();
            t.stall = false;
            t.irq = false;
            t
        })
        .collect();
    (s, idx)
}
fn diff_rec(a: &Rec, b: &Rec, what: &str) -> Option<String> {
    if a.skipped != b.skipped {
        return Some(format!("{}: not executed in one of the two", what));
    }
    if a.out.code != b.out.code {
        return Some(format!("{}: code {} instead of {}", what, a.out.code, b.out.code));
    }
    if !same(a.out.ret, b.out.ret) {
        return Some(format!("{}: returned {:e} instead of {:e}", what, a.out.ret, b.out.ret));
    }
    match (&a.after, &b.after) {
        (Some(x), Some(y)) => {
            let d = x.diff(y);
            if !d.is_empty() {
                let f = d[0];
                let v = if f == "x" { String::new() } else { format!(" ({}: {:e} instead of {:e})", f, x.get(f), y.get(f)) };
                return Some(format!("{}: different {}{}", what, d.join(","), v));
            }
            None
        }
        (None, None) => None,
        _ => Some(format!("{}: calculator present in one of the two only", what)),
    }
}
fn handles(sc: &Scenario) -> Vec<usize> {
    let mut v: Vec<usize> = sc.steps.iter().filter_map(|s| s.op.handle()).collect();
    v.sort();
    v.dedup();
    v
}
fn at(sc: &Scenario, i: usize) -> String {
    let o = &sc.steps[i].op;
    format!("step {} ({}{})", i, o.name(), o.handle().map(|h| format!(" on calculator {}", h)).unwrap_or_default())
}
/// nothing but a calculator's own operations changes it
fn undisturbed(sc: &Scenario, l: &RunLog) -> Result<(), Viol> {
    let mut last: [Option<Snap>; NSLOT] = [None; NSLOT];
    let mut recs: Vec<&Rec> = l.recs.iter().collect();
    recs.sort_by_key(|r| r.t0);
    for r in recs {
        if let Some(h) = sc.steps[r.step].op.handle() {
            if let (Some(a), Some(b)) = (&last[h], &r.before) {
                let d = a.diff(b);
                if !d.is_empty() {
                    return viol("disturbed", format!("{}: {} changed between two of its own operations", at(sc, r.step), d.join(",")));
                }
            }
            last[h] = r.after;
        }
    }
    for (h, s) in &l.finals {
        if let Some(a) = &last[*h] {
            let d = a.diff(s);
            if !d.is_empty() {
                return viol("disturbed", format!("calculator {}: {} changed after its last own operation", h, d.join(",")));
            }
        }
    }
    Ok(())
}
/// can a safe Rust host hand a calculator to another thread, or let several threads read it?
mod hand_over {
    use std::marker::PhantomData;
    pub struct P<T>(PhantomData<T>);
    pub struct Q<T>(PhantomData<T>);
    #[allow(dead_code)]
    pub trait No {
        const YES: bool = false;
    }
    impl<T> No for P<T> {}
    impl<T> No for Q<T> {}
    impl<T: Send> P<T> {
        pub const YES: bool = true;
    }
    impl<T: Sync> Q<T> {
        pub const YES: bool = true;
    }
}
const HAND_OVER: [(&str, bool, bool); 3] = {
    #[allow(unused_imports)]
    use hand_over::{No, P, Q};
    [
        ("Detail", P::<aga8::detail::Detail>::YES, Q::<aga8::detail::Detail>::YES),
        ("Gerg2008", P::<aga8::gerg2008::Gerg2008>::YES, Q::<aga8::gerg2008::Gerg2008>::YES),
        ("Composition", P::<aga8::composition::Composition>::YES, Q::<aga8::composition::Composition>::YES),
    ]
};
fn check_overlap(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    if let Some((n, send, _)) = HAND_OVER.iter().find(|k| !k.1 || !k.2) {
        return viol("not-shareable", format!("the compiler does not let a {} be {} threads", n, if *send { "read by several" } else { "handed between" }));
    }
    // alone first: what breaks alone is not this property's concern, but it cannot be compared either
    let mut alone = vec![];
    for h in handles(sc) {
        let (s, idx) = solo(sc, h);
        let l = run(&s, st)?;
        alone.push((h, idx, l));
    }
    let l = run(sc, st)?;
    undisturbed(sc, &l)?;
    let by: BTreeMap<usize, &Rec> = l.recs.iter().map(|r| (r.step, r)).collect();
    for (_, idx, a) in &alone {
        for r in &a.recs {
            let i = idx[r.step];
            match by.get(&i) {
                None => return viol("lost-step", format!("{} never completed", at(sc, i))),
                Some(c) => {
                    st.judged += 1;
                    if let Some(m) = diff_rec(c, r, "with others around") {
                        return viol("interference", format!("{} {}", at(sc, i), m));
                    }
                }
            }
        }
    }
    let mut readers = false;
    for r in &l.recs {
        // (what they read was compared above with what the same reader sees alone)
        readers |= matches!(sc.steps[r.step].op, Op::Read { .. });
    }
    if readers {
        st.probe("concurrent readers");
    }
    let over = l.recs.iter().any(|a| l.recs.iter().any(|b| a.step != b.step && a.t0 < b.t0 && b.t0 < a.t1));
    if over {
        st.probe("overlapping calls");
    }
    if l.suspends > 0 || l.irqs > 0 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn with_step(i: usize, r: Result<bool, Viol>) -> Result<bool, Viol> {
    r.map_err(|e| Viol { class: e.class, msg: format!("step {}: {}", i, e.msg) })
}
fn check_solves(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    let mut m = Model::default();
    let mut qs: Vec<(usize, Query)> = vec![];
    let (mut ok, mut bad) = (0, 0);
    let mut walks = 4; // failed solves examined for a root that was missed
    for (i, r) in l.recs.iter().enumerate() {
        if let (Op::Dens { h, flag }, Some(b), Some(a)) = (&sc.steps[r.step].op, &r.before, &r.after) {
            let kind = m.kind[*h].unwrap();
            if with_step(r.step, dens_check(kind, b, a, r.out.code))? {
                st.judged += 1;
            }
            if r.out.code == 0 {
                ok += 1;
            } else {
                bad += 1;
                st.probe("failed solve");
                if r.out.code == 1 && !m.guess[*h] && !(kind == Kind::Gerg && *flag > 0) && walks > 0 {
                    walks -= 1;
                    st.probe("failed solve: looked for what it missed");
                    if let Some(d) = findable(kind, &b.x, b.t(), b.p()) {
                        return viol("missed-root", format!("step {}: no density found, though there is one near {} and nothing in the way (T={} p={} x={:?})", r.step, d, b.t(), b.p(), b.x));
                    }
                }
            }
            if m.guess[*h] {
                st.probe("solve from a starting value");
            }
            // with the stability check: compare with the same solve without it
            if kind == Kind::Gerg && (*flag == 1 || *flag == 2) && m.api[*h].is_some() && good(&b.x, b.t(), b.p()) && (b.d() >= 0.0 || (m.guess[*h] && b.d().is_finite() && b.d() < -1e-12)) {
                let guess = if m.guess[*h] {
                    Some(b.d())
                } else if *flag == 2 {
                    Some(-3.0 * refmodel::gerg_dcx(&b.x))
                } else {
                    None
                };
                qs.push((i, Query { kind, x: b.x, t: b.t(), p: b.p(), flag: 0, guess }));
            }
        }
        m.step(sc, r);
    }
    if !qs.is_empty() {
        let q: Vec<Query> = qs.iter().map(|q| q.1.clone()).collect();
        for ((i, q), f) in qs.iter().zip(fresh(&q, false, &mut st.children)?) {
            let r = &l.recs[*i];
            let a = r.after.unwrap();
            let here = format!("step {}: T={} p={} x={:?}", r.step, q.t, q.p, q.x);
            st.judged += 1;
            if f.code != 0 {
                st.probe("checked solve: not converged");
                if r.out.code == 0 {
                    return viol("stability-check", format!("density with stability check succeeded where the same solve without it fails; {}", here));
                }
                continue;
            }
            let d = f.snap.d();
            let e = refmodel::eval(Kind::Gerg, &q.x, q.t, d);
            let cp = e.cv.v + q.t * (e.dp_dt.v / d).powi(2) / e.dp_dd.v;
            let w2 = cp / e.cv.v * e.dp_dd.v;
            let near = |v: refmodel::V| v.v.abs() < 1e-7 * v.s;
            if near(e.dp_dd) || near(e.d2p_dtd) || near(e.cv) || near(e.p) || !w2.is_finite() {
                continue;
            }
            let stable = e.p.v > 0.0 && e.dp_dd.v > 0.0 && e.d2p_dtd.v > 0.0 && e.cv.v > 0.0 && cp > 0.0 && w2 > 0.0;
            st.probe(if stable { "checked solve: stable" } else { "checked solve: unstable" });
            if stable != (r.out.code == 0) {
                return viol("stability-check", format!("density with stability check reported code {} for a converged state (d={:e}) that {} the check; {}", r.out.code, d, if stable { "passes" } else { "fails" }, here));
            }
            if stable && !rel_close(a.d(), d, DTOL) {
                return viol("stability-check", format!("density with stability check left d = {:e} instead of {:e}; {}", a.d(), d, here));
            }
        }
    }
    if ok > 0 && bad > 0 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_recovery(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    // the first good solve after something bad
    let mut dirty = [true; NSLOT];
    let mut want = HashSet::new();
    let mut m = Model::default();
    let mut cal = Calib::default();
    for (i, r) in l.recs.iter().enumerate() {
        let op = &sc.steps[r.step].op;
        if let Some(h) = op.handle() {
            if let (Op::Dens { .. }, Some(b)) = (op, &r.before) {
                if good(&b.x, b.t(), b.p()) {
                    if dirty[h] {
                        want.insert(i);
                    }
                    dirty[h] = false;
                }
            }
            if let Some(a) = &r.after {
                if !good(&a.x, a.t(), a.p()) || !a.d().is_finite() || (r.out.code != 0) {
                    dirty[h] = true;
                }
                // properties after recovery are those of the equation
                if let Some(k) = m.kind[h] {
                    let e = ref_check(k, op, &r.out, m.api[h].unwrap(), a, &mut cal);
                    if with_step(r.step, e)? {
                        st.judged += 1;
                    }
                }
            }
        }
        m.step(sc, r);
    }
    st.cal(&cal);
    let qs = fresh_queries(sc, &l, |i, _| want.contains(&i));
    let q: Vec<Query> = qs.iter().map(|q| q.1.clone()).collect();
    let fs = fresh(&q, true, &mut st.children)?;
    for ((i, q), f) in qs.iter().zip(&fs) {
        let r = &l.recs[*i];
        st.judged += 1;
        if f.code == 0 {
            st.probe("recovered");
        } else {
            st.probe("good inputs without a root");
        }
        with_step(r.step, same_as_fresh(q, f, r.out.code, &r.after.unwrap()).map(|_| true))?;
        if pipeline(&q.x, q.t, q.p) {
            st.probe("pipeline conditions");
            if r.out.code != 0 {
                return viol("no-convergence", format!("step {}: no density for natural gas at T={} p={} x={:?}", r.step, q.t, q.p, q.x));
            }
        }
    }
    if !qs.is_empty() {
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_updates(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    let mut refused = HashSet::new();
    let mut accepted = 0;
    for r in &l.recs {
        let (b, a) = match (&r.before, &r.after) {
            (Some(b), Some(a)) => (b, a),
            _ => continue,
        };
        let i = r.step;
        match &sc.steps[i].op {
            Op::Comp { x, .. } => {
                let s: f64 = x.iter().sum();
                let abs: f64 = x.iter().map(|v| v.abs()).sum();
                let margin = 1e-9 + 1e-15 * abs;
                let dev = (s - 1.0).abs();
                let code = r.out.code;
                if code > 2 {
                    return viol("wrong-code", format!("{}: error code {}", at(sc, i), code));
                }
                let must = if !s.is_finite() {
                    Some(2)
                } else if abs == 0.0 {
                    Some(1)
                } else if dev < 0.01 - margin {
                    Some(0)
                } else if dev > 0.01 + margin && s.abs() > 1e-9 + margin {
                    Some(2)
                } else {
                    None
                };
                st.judged += 1;
                if let Some(w) = must {
                    if w != code {
                        return viol("wrong-code", format!("{}: sum of mole fractions {} gave code {} instead of {} (x={:?})", at(sc, i), s, code, w, x));
                    }
                } else if dev > 0.01 + margin && code == 0 {
                    return viol("wrong-code", format!("{}: sum of mole fractions {} accepted", at(sc, i), s));
                }
                st.probe(["update accepted", "update refused as empty", "update refused for its sum"][code as usize]);
                let mut want = *b;
                if code == 0 {
                    want.x = *x;
                    accepted += 1;
                } else {
                    refused.insert(i);
                }
                let d = a.diff(&want);
                if !d.is_empty() {
                    return viol("partial-update", format!("{}: code {}, yet {} differs from {}", at(sc, i), code, d.join(","), if code == 0 { "the new composition" } else { "before" }));
                }
            }
            Op::Norm { x, .. } => {
                let s: f64 = x.iter().sum();
                let abs: f64 = x.iter().map(|v| v.abs()).sum();
                st.judged += 1;
                let code = r.out.code;
                if code >= 50 {
                    return viol("normalise", format!("{}: refused but changed the composition (x={:?})", at(sc, i), x));
                }
                if code >= 10 {
                    if x.iter().all(|v| v.is_finite() && *v >= 0.0) && (1e-290..1e290).contains(&s) {
                        return viol("normalise", format!("{}: refused a composition with sum {:e} (x={:?})", at(sc, i), s, x));
                    }
                    if abs == 0.0 && code != 11 {
                        return viol("normalise", format!("{}: code {} for an empty composition", at(sc, i), code));
                    }
                    refused.insert(i);
                } else if !(s > 0.0) || !s.is_finite() {
                    return viol("normalise", format!("{}: normalising a composition with sum {} reported success (x={:?})", at(sc, i), s, x));
                } else if code == 0 {
                    let tol = 1e-9 * abs / s + 1e-12;
                    let t: f64 = a.x.iter().sum();
                    if (t - 1.0).abs() > tol {
                        return viol("normalise", format!("{}: sum is {} afterwards (x={:?})", at(sc, i), t, x));
                    }
                    for k in 0..21 {
                        if (a.x[k] - x[k] / s).abs() > 1e-11 * (x[k] / s).abs() * (abs / s) + 1e-300 {
                            return viol("normalise", format!("{}: proportions lost: component {} is {} instead of {}", at(sc, i), k, a.x[k], x[k] / s));
                        }
                    }
                    accepted += 1;
                } else if x.iter().all(|v| *v >= 0.0) {
                    // normalise said it made the sum one, the calculator disagreed
                    return viol("normalise", format!("{}: reported success but the sum is not one (x={:?})", at(sc, i), x));
                } else {
                    refused.insert(i);
                }
            }
            _ => {}
        }
    }
    if !refused.is_empty() {
        // a twin that never sees the refused updates
        let keep: Vec<usize> = (0..sc.steps.len()).filter(|i| !refused.contains(i)).collect();
        let mut t = sc.clone();
        t.steps = keep.iter().map(|&i| sc.steps[i].clone()).collect();
        let tl = run(&t, st)?;
        let by: BTreeMap<usize, &Rec> = l.recs.iter().map(|r| (r.step, r)).collect();
        for r in &tl.recs {
            st.judged += 1;
            if let Some(m) = diff_rec(by[&keep[r.step]], r, "after refused updates") {
                return viol("refused-update-has-effect", format!("{} {}", at(sc, keep[r.step]), m));
            }
        }
        if accepted > 0 {
            st.nontrivial(sc);
        }
    }
    Ok(())
}
fn check_c(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    if !HAVE_SHIM {
        let log = option_env!("AGA8_HEADER")
            .map(|h| std::path::Path::new(h).with_file_name("shim-build.log"))
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default();
        let first = log.lines().find(|l| l.contains("error")).unwrap_or("").to_string();
        return viol("header", format!("the generated header does not compile with the C caller: {}", first));
    }
    let mut nat = sc.clone();
    for s in &mut nat.steps {
        if let Op::New { api, .. } = &mut s.op {
            *api = Api::Native;
        }
    }
    let n = run(&nat, st)?;
    let c = run(sc, st)?;
    let mut m = Model::default();
    for (a, b) in c.recs.iter().zip(&n.recs) {
        let op = &sc.steps[a.step].op;
        let mut a2 = a.clone();
        if let (Op::Props { h }, Some(Kind::Gerg)) = (op, op.handle().and_then(|h| m.kind[h])) {
            let _ = h;
            a2.out.ret = b.out.ret; // void in C
        }
        if let (Op::Read { .. }, Some(s)) = (op, &b.before) {
            a2.out.ret = b.out.ret;
            if !same(a.out.ret, read_hash(&H::read_of(s))) {
                return viol("c-differs", format!("{}: the values read through the C interface are not those of the native calculator", at(sc, a.step)));
            }
        }
        st.judged += 1;
        if let Some(d) = diff_rec(&a2, b, "through the C interface") {
            return viol("c-differs", format!("{} {}", at(sc, a.step), d));
        }
        m.step(sc, a);
    }
    if c.recs.len() != n.recs.len() {
        return viol("c-differs", "different number of completed calls".into());
    }
    if c.recs.iter().filter(|r| sc.steps[r.step].op.is_calc()).count() > 1 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_lifecycle(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    if let Some(s) = sc.steps.iter().find(|s| matches!(s.op, Op::NewOom { .. } | Op::Null { .. })) {
        let mut one = sc.clone();
        one.threads = 1;
        one.steps = vec![s.clone()];
        let l = execute(&one);
        st.log(&one, &l);
        *st.faults.entry(s.fault.to_string()).or_default() += 1;
        st.judged += 1;
        st.nontrivial(sc);
        let stopped = l.end == crate::sys::End::Signal(crate::sys::SIGABRT);
        let other = format!("ended with {:?}", l.end);
        return match s.op {
            Op::NewOom { k, .. } => {
                let r = l.recs.first();
                if stopped {
                    st.probe("out of memory: stopped");
                    Ok(())
                } else if r.map(|r| !r.panicked && (r.out.code == 1 || l.oom_fired == 0)).unwrap_or(false) {
                    st.probe(if l.oom_fired == 0 { "out of memory: allocation not reached" } else { "out of memory: null handle" });
                    Ok(())
                } else {
                    viol("oom", format!("creating a handle while allocation {} fails gave a handle, or {}", k, other))
                }
            }
            Op::Null { f, kind } => {
                if f == 0 {
                    match l.broken(&one) {
                        None if l.mem_fault == 6 => viol("null-free", "freeing a null handle gives memory at address zero back to the allocator".into()),
                        None => Ok(()),
                        Some((_, m)) => viol("null-free", format!("freeing a null handle: {}", m)),
                    }
                } else if stopped {
                    Ok(())
                } else {
                    viol("null-handle", format!("{:?} {} with a null handle {}", kind, NULL_FNS[f], other))
                }
            }
            _ => Ok(()),
        };
    }
    // three passes over the same calls in one process: what the second leaves behind the third must not add to
    let mut open: Vec<usize> = vec![];
    let mut once = sc.steps.clone();
    for s in &sc.steps {
        match s.op {
            Op::New { h, .. } if !open.contains(&h) => open.push(h),
            Op::Free { h } | Op::Abandon { h } => open.retain(|o| *o != h),
            _ => {}
        }
    }
    for h in open {
        once.push(Step { th: 0, at: 0.0, op: Op::Free { h }, pre: vec![], stall: false, irq: false, fault: "" });
    }
    let n = once.len();
    let mut three = sc.clone();
    three.steps = once.iter().chain(&once).chain(&once).cloned().collect();
    let l = run(&three, st)?;
    let mem = match l.mem_fault {
        1 => "wrote outside its own memory",
        2 => "memory freed twice",
        3 => "memory freed with the wrong size",
        4 => "wrote to freed memory",
        _ => "",
    };
    if !mem.is_empty() {
        return viol("memory", format!("the library {}", mem));
    }
    undisturbed(&three, &l)?;
    for r in &l.recs {
        if matches!(three.steps[r.step].op, Op::Soak { .. }) && r.out.code != 0 {
            return viol("crowded", format!("{}: {} calculators around it were not as new or not left alone", at(&three, r.step), r.out.code));
        }
    }
    if l.recycled > 0 {
        *st.faults.entry("recycled-dirty-memory".into()).or_default() += l.recycled as u64;
    }
    // clean twin: zeroed fresh memory, one caller, no overlap
    let mut clean = sc.clone();
    clean.steps = once.clone();
    clean.recycle = false;
    clean.fence = false;
    clean.fill = 0;
    clean.threads = 1;
    clean.strict = true;
    let c = run(&clean, st)?;
    let by: BTreeMap<usize, &Rec> = l.recs.iter().map(|r| (r.step, r)).collect();
    let mut pristine: BTreeMap<&str, Snap> = BTreeMap::new();
    for r in &c.recs {
        if let (Op::New { kind, .. }, Some(a)) = (&once[r.step].op, &r.after) {
            pristine.entry(if *kind == Kind::Detail { "detail" } else { "gerg" }).or_insert(*a);
        }
    }
    for pass in 0..3 {
        for r in &c.recs {
            st.judged += 1;
            let Some(d) = by.get(&(r.step + pass * n)) else {
                return viol("lost-step", format!("pass {}: {} never completed", pass, at(&clean, r.step)));
            };
            if let Some(m) = diff_rec(d, r, "with dirty or recycled memory") {
                return viol("memory-dependent", format!("pass {}: {} {}", pass, at(&clean, r.step), m));
            }
            if let (Op::New { kind, .. }, Some(a)) = (&once[r.step].op, &d.after) {
                let p = &pristine[if *kind == Kind::Detail { "detail" } else { "gerg" }];
                let df = a.diff(p);
                if !df.is_empty() {
                    return viol("not-pristine", format!("pass {}: a new handle starts with different {}", pass, df.join(",")));
                }
            }
        }
    }
    // leaks
    let lost = once.iter().any(|s| matches!(s.op, Op::Abandon { .. } | Op::Restart { .. }));
    if !lost && l.mem_fault == 0 && n > 0 {
        let live_at = |pass: usize| {
            l.recs.iter().filter(|r| r.step < (pass + 1) * n).max_by_key(|r| r.t1).map(|r| r.live).unwrap_or((0, 0))
        };
        // only when the passes do not overlap
        let sep = |pass: usize| {
            let e = l.recs.iter().filter(|r| r.step < (pass + 1) * n).map(|r| r.t1).max().unwrap_or(0);
            let b = l.recs.iter().filter(|r| r.step >= (pass + 1) * n).map(|r| r.t0).min().unwrap_or(u32::MAX);
            e < b
        };
        if three.strict || three.threads == 1 || sep(1) {
            st.probe("leak check");
            let (a, b) = (live_at(1), live_at(2));
            if b.0 > a.0 || b.1 > a.1 {
                return viol("leak", format!("after everything was freed, {} blocks ({} bytes) more are live than one pass earlier", b.0 - a.0, b.1 as i64 - a.1 as i64));
            }
        }
    }
    st.nontrivial(sc);
    Ok(())
}
fn cost(kind: Kind, st: &mut Stats) -> Result<(u64, u64), Viol> {
    use std::cell::RefCell;
    thread_local!(static C: RefCell<[Option<(u64, u64)>; 2]> = const { RefCell::new([None; 2]) });
    let i = (kind == Kind::Gerg) as usize;
    if let Some(v) = C.with(|c| c.borrow()[i]) {
        return Ok(v);
    }
    let h = 0;
    let mut sc = Scenario::new("fresh", 0, 0);
    let x = [1.0 / 21.0; 21];
    for op in [
        Op::New { h, kind, api: Api::Native },
        Op::RawX { h, x },
        Op::T { h, v: 300.0 },
        Op::D { h, v: 1.0 },
        Op::Pres { h },
        Op::D { h, v: 1.1 },
        Op::Pres { h },
    ] {
        sc.steps.push(Step { th: 0, at: 0.0, op, pre: vec![], stall: false, irq: false, fault: "" });
    }
    let l = run(&sc, st)?;
    let v = (l.recs[4].ticks, l.recs[6].ticks);
    C.with(|c| c.borrow_mut()[i] = Some(v));
    Ok(v)
}
fn check_garbage(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    let mut m = Model::default();
    for r in &l.recs {
        m.step(sc, r);
        let op = &sc.steps[r.step].op;
        if let Some(kind) = op.handle().and_then(|h| m.kind[h]) {
            let (cold, _) = cost(kind, st)?;
            let lim = match op {
                Op::Dens { .. } => 110 * cold,
                Op::CreepX { n, .. } | Op::CreepT { n, .. } => 6 * cold * (*n as u64 + 1),
                Op::Soak { what, .. } if !crate::soak::makes(*what) => 110 * cold,
                Op::Soak { .. } | Op::New { .. } | Op::Restart { .. } | Op::Free { .. } | Op::Move { .. } => 2000 * cold,
                _ => 6 * cold,
            };
            st.judged += 1;
            let room = if matches!(op, Op::New { .. } | Op::Restart { .. } | Op::Soak { .. }) { 1 << 20 } else { 64 << 10 };
            if r.stack > room {
                return viol("too-much-stack", format!("{} used {} bytes of stack; a small thread has {}", at(sc, r.step), r.stack, room));
            }
            if matches!(op, Op::Dens { .. }) {
                let k = r.ticks as f64 / cold as f64;
                st.probe(if k > 20.0 { "density: over 20 pressure evaluations" } else if k > 5.0 { "density: 5 to 20 pressure evaluations" } else { "density: under 5 pressure evaluations" });
            }
            if r.ticks > lim {
                return viol("too-much-work", format!("{} took {} simulated steps, {:.0} times a pressure evaluation", at(sc, r.step), r.ticks, r.ticks as f64 / cold as f64));
            }
        }
    }
    st.nontrivial(sc);
    Ok(())
}
fn check_frames(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    undisturbed(sc, &l)?;
    let mut m = Model::default();
    let mut prev: [Option<&Rec>; NSLOT] = [None; NSLOT];
    let mut repeats = 0;
    for r in &l.recs {
        let op = &sc.steps[r.step].op;
        if let (Some(h), Some(b), Some(a), false) = (op.handle(), &r.before, &r.after, r.skipped) {
            let kind = m.kind[h].unwrap_or(Kind::Detail);
            let may: Option<&[&str]> = match op {
                Op::P { .. } => Some(&["p"]),
                Op::T { .. } => Some(&["t"]),
                Op::D { .. } => Some(&["d"]),
                Op::Comp { .. } | Op::RawX { .. } | Op::Norm { .. } => Some(&["x"]),
                Op::Read { .. } => Some(&[]),
                _ => None,
            };
            let must_not: &[&str] = match op {
                Op::Mm { .. } | Op::Pres { .. } => &["t", "d", "x", "p"],
                Op::Dens { .. } => &["t", "p", "x"],
                Op::Props { .. } if kind == Kind::Gerg => &["t", "d", "x", "p"],
                Op::Props { .. } => &["t", "d", "x"],
                _ => &[],
            };
            let d = a.diff(b);
            st.judged += 1;
            for f in &d {
                if may.map(|m| !m.contains(f)).unwrap_or(false) || must_not.contains(f) {
                    return viol("side-effect", format!("{} changed {}", at(sc, r.step), f));
                }
            }
            match op {
                Op::P { v, .. } if !same(a.p(), *v) => return viol("side-effect", format!("{}: pressure is {:e}, set to {:e}", at(sc, r.step), a.p(), v)),
                Op::T { v, .. } if !same(a.t(), *v) => return viol("side-effect", format!("{}: temperature is {:e}, set to {:e}", at(sc, r.step), a.t(), v)),
                Op::D { v, .. } if !same(a.d(), *v) => return viol("side-effect", format!("{}: density is {:e}, set to {:e}", at(sc, r.step), a.d(), v)),
                Op::Mm { .. } => {
                    if !same(a.get("mm"), r.out.ret) {
                        return viol("side-effect", format!("{}: stored molar mass {:e} is not the returned {:e}", at(sc, r.step), a.get("mm"), r.out.ret));
                    }
                }
                _ => {}
            }
            // DETAIL stores the pressure of the state: the one the pressure calculation gives
            if let (Op::Props { .. }, Kind::Detail, true) = (op, kind, physical(a)) {
                let e = refmodel::eval(kind, &a.x, a.t(), a.d());
                if e.p.v.is_finite() && (a.p() - e.p.v).abs() > TOL * e.p.s + 1e-300 {
                    return viol("side-effect", format!("{}: stored pressure {:e} is not that of the state, {:e}", at(sc, r.step), a.p(), e.p.v));
                }
            }
            // repetition: find this very calculation earlier on the same handle, with no input changed since
            if op.is_calc() && !matches!(op, Op::CreepX { .. } | Op::CreepT { .. }) {
                let mut q = prev[h];
                let mut first = None;
                while let Some(x) = q {
                    let o = &sc.steps[x.step].op;
                    if !(o.is_calc() || matches!(o, Op::Read { .. })) || matches!(o, Op::CreepX { .. } | Op::CreepT { .. }) {
                        break;
                    }
                    if o == op {
                        first = Some(x);
                        break;
                    }
                    q = l.recs.iter().filter(|y| y.t1 <= x.t0 && sc.steps[y.step].op.handle() == Some(h)).max_by_key(|y| y.t1);
                }
                if let Some(f) = first {
                    let (fb, fa) = (f.before.unwrap(), f.after.unwrap());
                    let inputs = |s: &Snap, t: &Snap, d: bool| same(s.t(), t.t()) && (0..21).all(|i| same(s.x[i], t.x[i])) && (!d || same(s.d(), t.d()));
                    let eq = match op {
                        Op::Dens { .. } => inputs(&fb, b, false) && same(fb.p(), b.p()) && !m.guess[h] && fb.d() >= 0.0 && b.d() >= 0.0,
                        _ => inputs(&fb, b, true),
                    };
                    if eq {
                        repeats += 1;
                        st.probe("repeated calculation");
                        let fields: &[&str] = match op {
                            Op::Mm { .. } => &["mm"],
                            Op::Pres { .. } => &["z"],
                            Op::Dens { .. } => &["d"],
                            _ => &["z", "mm", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa"],
                        };
                        let bad: Vec<&str> = fields.iter().filter(|k| !same(fa.get(k), a.get(k))).copied().collect();
                        if !same(f.out.ret, r.out.ret) || f.out.code != r.out.code || !bad.is_empty() {
                            return viol("not-repeatable", format!("{} repeats step {} but gives different {} (returned {:e}, first {:e})", at(sc, r.step), f.step, bad.join(","), r.out.ret, f.out.ret));
                        }
                    }
                }
            }
            prev[h] = Some(r);
        }
        m.step(sc, r);
    }
    if repeats > 0 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_restart(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let mut whole = sc.clone();
    whole.crash = None;
    let w = run(&whole, st)?;
    let Some((ci, tick)) = sc.crash else { return Ok(()) };
    let Some(r0) = w.recs.iter().find(|r| r.step == ci) else { return Ok(()) };
    let (Some(b), Some(h)) = (&r0.before, sc.steps[ci].op.handle()) else { return Ok(()) };
    if r0.ticks < tick {
        return Ok(());
    }
    let mut m = Model::default();
    for r in w.recs.iter().take_while(|r| r.step < ci) {
        m.step(sc, r);
    }
    let (Some(kind), Some(api)) = (m.kind[h], m.api[h]) else { return Ok(()) };
    let mk = |th: usize, h: usize, op: Op| {
        let mut s = Step { th, at: sc.steps[ci].at, op, pre: vec![], stall: false, irq: false, fault: "" };
        s.op = rename(&s.op, h);
        s
    };
    // the replacement: given the current inputs, then the rest of the history
    let tail = |th: usize, nh: usize| -> Vec<Step> {
        let mut v = vec![
            mk(th, nh, Op::New { h: nh, kind, api }),
            mk(th, nh, Op::RawX { h: nh, x: b.x }),
            mk(th, nh, Op::T { h: nh, v: b.t() }),
            mk(th, nh, Op::P { h: nh, v: b.p() }),
            mk(th, nh, Op::D { h: nh, v: b.d() }),
        ];
        for s in &sc.steps[ci..] {
            if s.op.handle() == Some(h) {
                v.push(mk(th, nh, s.op.clone()));
            }
        }
        v
    };
    let rest: Vec<usize> = (ci..sc.steps.len()).filter(|&i| sc.steps[i].op.handle() == Some(h)).collect();
    let mut c = sc.clone();
    c.steps.truncate(ci + 1);
    let (l, base) = if sc.crash_mode == 0 {
        // the old caller stays suspended inside its call for ever; another thread takes over
        c.threads = 2;
        for s in &mut c.steps {
            s.th = 0;
        }
        let base = c.steps.len() + 5;
        c.steps.extend(tail(1, (h + 1) % NSLOT));
        (run(&c, st)?, base)
    } else {
        let k = run(&c, st)?;
        if !k.killed {
            return Ok(());
        }
        let mut n = Scenario::new("C11", sc.seed, sc.run);
        n.steps = tail(0, h);
        (run(&n, st)?, 5)
    };
    *st.faults.entry(if sc.crash_mode == 0 { "caller-lost-mid-call" } else { "process-lost" }.to_string()).or_default() += 1;
    st.probe(if tick == 0 { "lost between calls" } else { "lost inside a call" });
    let by: BTreeMap<usize, &Rec> = l.recs.iter().map(|r| (r.step, r)).collect();
    let mut m2 = m.clone();
    let mut drift = false;
    let mut pdrift = false;
    for (k, &i) in rest.iter().enumerate() {
        let a = w.recs.iter().find(|r| r.step == i).unwrap();
        let Some(n) = by.get(&(base + k)) else {
            return viol("lost-step", format!("{} never completed on the replacement", at(sc, i)));
        };
        m2.step(sc, a);
        if a.skipped {
            continue;
        }
        let op = &sc.steps[i].op;
        let what = format!("{} after restart at step {} tick {}", at(sc, i), ci, tick);
        // a composition that is no mixture, or absolute zero, has no equation of state to agree on
        // (DETAIL stores the pressure of such a state too, until the next pressure setting)
        let meant = !pdrift && a.before.as_ref().is_none_or(|b| sane_x(&b.x) && b.t() != 0.0);
        match op {
            Op::Props { .. } if kind == Kind::Detail && (drift || !a.after.as_ref().is_some_and(physical)) => pdrift = true,
            Op::P { .. } | Op::New { .. } | Op::Restart { .. } => pdrift = false,
            _ => {}
        }
        if !meant && matches!(op, Op::Dens { .. }) {
            drift = true;
            continue;
        }
        if a.out.code != n.out.code && !drift {
            return viol("restart-differs", format!("{}: code {} instead of {}", what, n.out.code, a.out.code));
        }
        if let (Some(x), Some(y)) = (&a.after, &n.after) {
            match op {
                Op::D { .. } | Op::New { .. } | Op::Restart { .. } => drift = false,
                Op::Dens { .. } => drift = false,
                _ => {}
            }
            if drift {
                continue;
            }
            if !rel_close(x.d(), y.d(), DTOL) {
                return viol("restart-differs", format!("{}: density {:e} instead of {:e}", what, y.d(), x.d()));
            }
            if !same(x.d(), y.d()) {
                drift = true; // same root, not the same bits: results are compared at equal densities only
                continue;
            }
            if matches!(op, Op::Mm { .. } | Op::Pres { .. } | Op::Props { .. } | Op::CreepX { .. } | Op::CreepT { .. }) && physical(x) && physical(y) {
                st.judged += 1;
                let e = refmodel::eval(kind, &x.x, x.t(), x.d());
                let sc_of = |f: &str| match f {
                    "z" => e.z.s,
                    "p" => e.p.s,
                    "dp_dd" => e.dp_dd.s,
                    "d2p_dd2" => e.d2p_dd2.s,
                    "d2p_dtd" => e.d2p_dtd.s,
                    "dp_dt" => e.dp_dt.s,
                    "u" => e.u.s,
                    "h" => e.h.s,
                    "s" => e.s.s,
                    "cv" => e.cv.s,
                    "g" => e.g.s,
                    _ => 0.0,
                };
                if !same(a.out.ret, n.out.ret) && (a.out.ret - n.out.ret).abs() > 1e-11 * a.out.ret.abs().max(e.p.s) {
                    return viol("restart-differs", format!("{}: returned {:e} instead of {:e}", what, n.out.ret, a.out.ret));
                }
                // only what this calculation produces
                let fields: &[&str] = match op {
                    Op::Mm { .. } => &["mm"],
                    Op::Props { .. } => &["z", "mm", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "g"],
                    _ => &["z"],
                };
                for f in fields {
                    let (p, q) = (x.get(f), y.get(f));
                    if !same(p, q) && (p - q).abs() > 1e-11 * sc_of(f).max(p.abs()) {
                        return viol("restart-differs", format!("{}: {} = {:e} instead of {:e}", what, f, q, p));
                    }
                }
            }
        }
    }
    st.nontrivial(sc);
    Ok(())
}
fn check_service(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let l = run(sc, st)?;
    let Some(Op::New { h, kind, api }) = sc.steps.first().map(|s| s.op.clone()) else { return Ok(()) };
    // the repeated blocks: maximal groups of the same operations
    let at_soak: Vec<usize> = (0..sc.steps.len()).filter(|&i| matches!(sc.steps[i].op, Op::Soak { .. })).collect();
    let by: BTreeMap<usize, &Rec> = l.recs.iter().map(|r| (r.step, r)).collect();
    let (cold, _) = cost(kind, st)?;
    let mut cal = Calib::default();
    for r in &l.recs {
        if let Op::Soak { n, what, .. } = &sc.steps[r.step].op {
            let w = crate::soak::KINDS[what % crate::soak::KINDS.len()];
            *st.faults.entry(format!("long-service-{}", w)).or_default() += 1;
            if *n >= 65_536 {
                st.probe("more than 65536 calls in a row");
            }
            st.judged += 1;
            let lim = if crate::soak::makes(*what) { 2000 * cold } else { 110 * cold };
            if r.out.code != 0 && !crate::soak::makes(*what) {
                return viol("glitch", format!("{}: the same inputs gave other results than before in {} of {} {} calls", at(sc, r.step), r.out.code, n, w));
            }
            if r.out.code != 0 {
                return viol("crowded", format!("{}: {} of about {} calculators around it were not as new or not left alone", at(sc, r.step), r.out.code, n));
            }
            if r.ticks > lim {
                return viol("work-grows", format!("{}: one of {} {} calls took {} simulated steps", at(sc, r.step), n, w, r.ticks));
            }
        }
        if let Some(a) = &r.after {
            with_step(r.step, ref_check(kind, &sc.steps[r.step].op, &r.out, api, a, &mut cal))?;
        }
    }
    st.cal(&cal);
    // the first block is the yardstick
    let first: Vec<usize> = (2..at_soak.first().copied().unwrap_or(0)).collect();
    let mut starts = vec![];
    for (q, &i) in at_soak.iter().enumerate() {
        let e = at_soak.get(q + 1).copied().unwrap_or(sc.steps.len());
        if e > i + first.len() && (0..first.len()).all(|k| sc.steps[i + 1 + k].op == sc.steps[first[k]].op) {
            starts.push(i + 1);
        }
    }
    for &b in &starts {
        for (k, &f) in first.iter().enumerate() {
            let (Some(x), Some(y)) = (by.get(&f), by.get(&(b + k))) else { continue };
            let op = &sc.steps[f].op;
            st.judged += 1;
            let what = format!("{} repeats step {} after long service", at(sc, b + k), f);
            if x.out.code != y.out.code {
                return viol("worn-out", format!("{}: code {} instead of {}", what, y.out.code, x.out.code));
            }
            if let (Some(p), Some(q)) = (&x.after, &y.after) {
                if matches!(op, Op::Dens { .. }) && !rel_close(p.d(), q.d(), DTOL) {
                    return viol("worn-out", format!("{}: density {:e} instead of {:e}", what, q.d(), p.d()));
                }
            }
            if y.ticks > 2 * x.ticks + cold {
                return viol("work-grows", format!("{}: {} simulated steps instead of {}", what, y.ticks, x.ticks));
            }
        }
    }
    // memory held by the calculator
    if l.mem_fault != 0 && l.mem_fault != 5 {
        return viol("memory", format!("memory fault {} during long service", l.mem_fault));
    }
    if starts.len() >= 2 {
        let m: Vec<(u64, usize)> = starts.iter().filter_map(|s| by.get(s).map(|r| (r.live.1 as u64, *s))).collect();
        let (a, z) = (m[0], *m.last().unwrap());
        let calls: u64 = sc.steps[a.1..z.1].iter().map(|s| if let Op::Soak { n, .. } = s.op { n as u64 } else { 0 }).sum();
        st.judged += 1;
        if z.0 > a.0 + 4096 + calls / 4 {
            return viol("memory-grows", format!("calculator {} and what it uses hold {} bytes more after {} further cycles", h, z.0 - a.0, calls));
        }
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_exhausted(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    let mut calm = sc.clone();
    for s in &mut calm.steps {
        if s.fault == "oom" {
            s.fault = "";
        }
    }
    let w = run(&calm, st)?;
    let mut l = execute(sc);
    if l.broken(sc).is_some() {
        // one-time initialisation of the library may need memory: judge the library in service
        l = sched::in_service(sc);
    }
    st.log(sc, &l);
    if let Some((c, m)) = l.broken(sc) {
        return viol("memory-needed", format!("with no memory left: {}: {}", c, m));
    }
    let by: BTreeMap<usize, &Rec> = w.recs.iter().map(|r| (r.step, r)).collect();
    let mut n = 0;
    for r in &l.recs {
        st.judged += 1;
        n += (sc.steps[r.step].fault == "oom" && sc.steps[r.step].op.is_calc()) as u64;
        let Some(x) = by.get(&r.step) else { continue };
        if let Some(m) = diff_rec(r, x, "with no memory left") {
            return viol("memory-needed", format!("{} {}", at(sc, r.step), m));
        }
    }
    if n > 0 {
        st.nontrivial(sc);
    }
    Ok(())
}
fn check_surroundings(sc: &Scenario, st: &mut Stats) -> Result<(), Viol> {
    use crate::host;
    let mut calm = sc.clone();
    calm.env = 0;
    let w = run(&calm, st)?;
    for r in &w.recs {
        st.judged += 1;
        for (i, n) in host::NAMES.iter().enumerate() {
            if r.fx >> i & 1 == 1 {
                st.probe(&format!("a call {}", n));
                if 1 << i == host::OUTPUT || 1 << i == host::FPU {
                    return viol("side-effect", format!("{} {}", at(sc, r.step), n));
                }
            }
        }
    }
    let l = execute(sc);
    st.log(sc, &l);
    if let Some((c, m)) = l.broken(sc) {
        return viol("surroundings", format!("in hostile surroundings: {}: {}", c, m));
    }
    *st.faults.entry("clock-jumps, dead console, full disk, no threads, other random numbers and variables".into()).or_default() += 1;
    let by: BTreeMap<usize, &Rec> = w.recs.iter().map(|r| (r.step, r)).collect();
    for r in &l.recs {
        st.judged += 1;
        let Some(x) = by.get(&r.step) else { continue };
        if let Some(m) = diff_rec(r, x, "in hostile surroundings") {
            return viol("surroundings", format!("{} {}", at(sc, r.step), m));
        }
    }
    if l.recs.iter().any(|r| sc.steps[r.step].op.is_calc()) {
        st.nontrivial(sc);
    }
    Ok(())
}
fn rename(op: &Op, nh: usize) -> Op {
    let mut o = op.clone();
    use Op::*;
    match &mut o {
        New { h, .. } | Free { h } | Abandon { h } | Comp { h, .. } | RawX { h, .. } | Norm { h, .. } | P { h, .. } | T { h, .. }
        | D { h, .. } | Mm { h } | Pres { h } | Dens { h, .. } | Props { h } | Read { h } | CreepX { h, .. } | CreepT { h, .. }
        | Soak { h, .. } | Move { h } | Restart { h } => *h = nh,
        NewOom { .. } | Null { .. } => {}
    }
    o
}
pub fn all_logs(sc: &Scenario) -> sched::RunLog {
    execute(sc)
}
