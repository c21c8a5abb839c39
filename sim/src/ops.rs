//! Operations, scenarios (= replay files) and the real calculators they drive.
use crate::refmodel::Kind;
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
use std::fmt::Write;

pub const NSLOT: usize = 8;
pub type X = [f64; 21];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Native,
    /// the exported functions, called from Rust
    Ffi,
    /// the exported functions, called by the C caller compiled against the generated header
    C,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New { h: usize, kind: Kind, api: Api },
    Free { h: usize },
    Abandon { h: usize },
    Comp { h: usize, x: X },
    RawX { h: usize, x: X },
    /// build a composition, normalise it, set it when that succeeded
    Norm { h: usize, x: X },
    P { h: usize, v: f64 },
    T { h: usize, v: f64 },
    D { h: usize, v: f64 },
    Mm { h: usize },
    Pres { h: usize },
    Dens { h: usize, flag: i32 },
    Props { h: usize },
    Read { h: usize },
    /// n times: x[i] += d, x[j] -= d, then a pressure calculation
    CreepX { h: usize, i: usize, j: usize, d: f64, n: usize },
    /// n times: t += d, then a pressure calculation
    CreepT { h: usize, d: f64, n: usize },
    /// create a handle while the k-th allocation fails (own process)
    NewOom { kind: Kind, k: usize },
    /// call function f of the C interface with a null handle (own process, except free)
    Null { kind: Kind, f: usize },
    /// n host cycles of one kind (see soak.rs)
    Soak { h: usize, what: usize, n: usize, seed: u64 },
    /// the host moves the calculator to another place in memory (native interface only)
    Move { h: usize },
    /// restart: the host replaces the calculator by a new one and restores its inputs
    Restart { h: usize },
}
pub const NULL_FNS: [&str; 13] = [
    "free", "set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density",
    "get_density", "get_properties", "calculate_pressure", "calculate_molar_mass", "calculate_density",
    "calculate_properties",
];
impl Op {
    pub fn handle(&self) -> Option<usize> {
        use Op::*;
        match *self {
            New { h, .. } | Free { h } | Abandon { h } | Comp { h, .. } | RawX { h, .. } | Norm { h, .. } | P { h, .. }
            | T { h, .. } | D { h, .. } | Mm { h } | Pres { h } | Dens { h, .. } | Props { h } | Read { h }
            | CreepX { h, .. } | CreepT { h, .. } | Soak { h, .. } | Move { h } | Restart { h } => Some(h),
            NewOom { .. } | Null { .. } => None,
        }
    }
    pub fn is_calc(&self) -> bool {
        matches!(self, Op::Mm { .. } | Op::Pres { .. } | Op::Dens { .. } | Op::Props { .. } | Op::CreepX { .. } | Op::CreepT { .. } | Op::Soak { .. })
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            New { .. } => "new",
            Free { .. } => "free",
            Abandon { .. } => "abandon",
            Comp { .. } => "comp",
            RawX { .. } => "rawx",
            Norm { .. } => "norm",
            P { .. } => "p",
            T { .. } => "t",
            D { .. } => "d",
            Mm { .. } => "mm",
            Pres { .. } => "pres",
            Dens { .. } => "dens",
            Props { .. } => "props",
            Read { .. } => "read",
            CreepX { .. } => "creepx",
            CreepT { .. } => "creept",
            NewOom { .. } => "newoom",
            Null { .. } => "null",
            Restart { .. } => "restart",
            Soak { .. } => "soak",
            Move { .. } => "move",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub th: usize,
    /// simulated time (s) at which the host issues the call
    pub at: f64,
    pub op: Op,
    /// tick offsets at which the call is suspended
    pub pre: Vec<u64>,
    /// the first suspension lasts until nobody else can run
    pub stall: bool,
    /// at each suspension another call runs to completion on the same thread (interrupt or signal handler)
    pub irq: bool,
    /// name of the fault this step injects, if any
    pub fault: &'static str,
}
pub const FAULTS: [&str; 26] = [
    "", "nan", "inf", "neg-inf", "zero", "negative", "sentinel", "huge", "subnormal", "tiny", "stuck", "comp-empty",
    "comp-badsum", "comp-percent", "comp-nan", "comp-inf", "comp-negative", "comp-dropped", "bad-density", "bad-reading", "restart",
    "abandon", "oom", "null-handle", "solve-fails", "made-by-default",
];
pub fn fault_name(s: &str) -> &'static str {
    FAULTS.iter().find(|f| **f == s).copied().unwrap_or("")
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub threads: usize,
    /// steps start strictly in list order (calls never overlap)
    pub strict: bool,
    /// what the library is given, to read or to own, lies between pages it must not touch
    pub fence: bool,
    pub sched: Vec<u8>,
    /// junk byte and recycling mode for memory handed to the library
    pub fill: u8,
    pub recycle: bool,
    /// the host's surroundings: 0 = ordinary, 1 = hostile (clock jumps, no console, no disk, other random numbers)
    pub env: u8,
    /// C11: index of the step at which the calculator is lost, and the tick inside it (0 = just before it)
    pub crash: Option<(usize, u64)>,
    /// C11: 0 = suspended for ever in this process, 1 = process killed
    pub crash_mode: u8,
    pub steps: Vec<Step>,
}
fn fx(x: &X) -> String {
    let mut s = String::new();
    for (i, v) in x.iter().enumerate() {
        if *v != 0.0 || v.is_sign_negative() {
            if !s.is_empty() {
                s.push(',');
            }
            let _ = write!(s, "{}:{:?}", i, v);
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
fn px(s: &str) -> X {
    let mut x = [0.0; 21];
    if s != "-" {
        for p in s.split(',') {
            let (i, v) = p.split_once(':').expect("x");
            x[i.parse::<usize>().unwrap()] = v.parse().unwrap();
        }
    }
    x
}
fn kn(k: Kind) -> &'static str {
    match k {
        Kind::Detail => "detail",
        Kind::Gerg => "gerg",
    }
}
impl Step {
    pub fn text(&self) -> String {
        use Op::*;
        let mut s = format!("th={} at={:?} ", self.th, self.at);
        if !self.pre.is_empty() {
            let _ = write!(s, "pre={} ", self.pre.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        }
        if self.stall {
            s.push_str("stall=1 ");
        }
        if self.irq {
            s.push_str("irq=1 ");
        }
        if !self.fault.is_empty() {
            let _ = write!(s, "fault={} ", self.fault);
        }
        let _ = write!(s, "op={} ", self.op.name());
        if let Some(h) = self.op.handle() {
            let _ = write!(s, "h={} ", h);
        }
        match &self.op {
            New { kind, api, .. } => {
                let _ = write!(s, "kind={} api={}", kn(*kind), match api {
                    Api::Native => "native",
                    Api::Ffi => "ffi",
                    Api::C => "c",
                });
            }
            Comp { x, .. } | RawX { x, .. } | Norm { x, .. } => {
                let _ = write!(s, "x={}", fx(x));
            }
            P { v, .. } | T { v, .. } | D { v, .. } => {
                let _ = write!(s, "v={:?}", v);
            }
            Dens { flag, .. } => {
                let _ = write!(s, "flag={}", flag);
            }
            CreepX { i, j, d, n, .. } => {
                let _ = write!(s, "i={} j={} d={:?} n={}", i, j, d, n);
            }
            CreepT { d, n, .. } => {
                let _ = write!(s, "d={:?} n={}", d, n);
            }
            Soak { what, n, seed, .. } => {
                let _ = write!(s, "what={} n={} seed={}", crate::soak::KINDS[what % crate::soak::KINDS.len()], n, seed);
            }
            NewOom { kind, k } => {
                let _ = write!(s, "kind={} k={}", kn(*kind), k);
            }
            Null { kind, f } => {
                let _ = write!(s, "kind={} f={}", kn(*kind), f);
            }
            _ => {}
        }
        s.trim_end().to_string()
    }
    pub fn parse(l: &str) -> Step {
        let mut m = std::collections::BTreeMap::new();
        for w in l.split_whitespace() {
            let (k, v) = w.split_once('=').expect("field");
            m.insert(k.to_string(), v.to_string());
        }
        let us = |k: &str| m.get(k).map(|v| v.parse::<usize>().unwrap()).unwrap_or(0);
        let fl = |k: &str| m.get(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(0.0);
        let h = us("h");
        let kind = if m.get("kind").map(|s| s == "gerg").unwrap_or(false) { Kind::Gerg } else { Kind::Detail };
        let x = || px(&m["x"]);
        let op = match m["op"].as_str() {
            "new" => Op::New { h, kind, api: match m["api"].as_str() {
                "ffi" => Api::Ffi,
                "c" => Api::C,
                _ => Api::Native,
            } },
            "free" => Op::Free { h },
            "abandon" => Op::Abandon { h },
            "comp" => Op::Comp { h, x: x() },
            "rawx" => Op::RawX { h, x: x() },
            "norm" => Op::Norm { h, x: x() },
            "p" => Op::P { h, v: fl("v") },
            "t" => Op::T { h, v: fl("v") },
            "d" => Op::D { h, v: fl("v") },
            "mm" => Op::Mm { h },
            "pres" => Op::Pres { h },
            "dens" => Op::Dens { h, flag: m["flag"].parse().unwrap() },
            "props" => Op::Props { h },
            "read" => Op::Read { h },
            "creepx" => Op::CreepX { h, i: us("i"), j: us("j"), d: fl("d"), n: us("n") },
            "creept" => Op::CreepT { h, d: fl("d"), n: us("n") },
            "soak" => Op::Soak { h, what: crate::soak::KINDS.iter().position(|k| *k == m["what"]).unwrap(), n: us("n"), seed: us("seed") as u64 },
            "move" => Op::Move { h },
            "newoom" => Op::NewOom { kind, k: us("k") },
            "null" => Op::Null { kind, f: us("f") },
            "restart" => Op::Restart { h },
            o => panic!("unknown op {}", o),
        };
        Step {
            th: us("th"),
            at: fl("at"),
            op,
            pre: m.get("pre").map(|v| v.split(',').map(|s| s.parse().unwrap()).collect()).unwrap_or_default(),
            stall: m.contains_key("stall"),
            irq: m.contains_key("irq"),
            fault: m.get("fault").map(|f| fault_name(f)).unwrap_or(""),
        }
    }
}
impl Scenario {
    pub fn new(prop: &str, seed: u64, run: u64) -> Scenario {
        Scenario {
            prop: prop.to_string(),
            seed,
            run,
            threads: 1,
            strict: true,
            fence: false,
            sched: vec![],
            fill: 0xA5,
            recycle: false,
            env: 0,
            crash: None,
            crash_mode: 0,
            steps: vec![],
        }
    }
    pub fn text(&self) -> String {
        let mut s = format!(
            "aga8sim-replay 1\nproperty {}\nseed {}\nrun {}\nthreads {}\nstrict {}\nfill {}\nrecycle {}\n",
            self.prop, self.seed, self.run, self.threads, self.strict as u8, self.fill, self.recycle as u8
        );
        if !self.sched.is_empty() {
            let _ = writeln!(s, "sched {}", self.sched.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        }
        if self.fence {
            s.push_str("fence 1\n");
        }
        if self.env != 0 {
            let _ = writeln!(s, "env {}", self.env);
        }
        if let Some((i, t)) = self.crash {
            let _ = writeln!(s, "crash {} {} {}", i, t, self.crash_mode);
        }
        for st in &self.steps {
            let _ = writeln!(s, "step {}", st.text());
        }
        s
    }
    pub fn parse(t: &str) -> Scenario {
        let mut sc = Scenario::new("", 0, 0);
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => sc.prop = v.to_string(),
                "seed" => sc.seed = v.parse().unwrap(),
                "run" => sc.run = v.parse().unwrap(),
                "threads" => sc.threads = v.parse().unwrap(),
                "strict" => sc.strict = v == "1",
                "fence" => sc.fence = v == "1",
                "fill" => sc.fill = v.parse().unwrap(),
                "recycle" => sc.recycle = v == "1",
                "env" => sc.env = v.parse().unwrap(),
                "sched" => sc.sched = v.split(',').map(|s| s.parse().unwrap()).collect(),
                "crash" => {
                    let p: Vec<u64> = v.split(' ').map(|s| s.parse().unwrap()).collect();
                    sc.crash = Some((p[0] as usize, p[1]));
                    sc.crash_mode = p[2] as u8;
                }
                "step" => sc.steps.push(Step::parse(v)),
                _ => {}
            }
        }
        sc
    }
}

pub fn comp_of(x: &X) -> Composition {
    Composition {
        methane: x[0],
        nitrogen: x[1],
        carbon_dioxide: x[2],
        ethane: x[3],
        propane: x[4],
        isobutane: x[5],
        n_butane: x[6],
        isopentane: x[7],
        n_pentane: x[8],
        hexane: x[9],
        heptane: x[10],
        octane: x[11],
        nonane: x[12],
        decane: x[13],
        hydrogen: x[14],
        oxygen: x[15],
        carbon_monoxide: x[16],
        water: x[17],
        hydrogen_sulfide: x[18],
        helium: x[19],
        argon: x[20],
    }
}
pub fn comp_to(c: &Composition) -> X {
    [
        c.methane, c.nitrogen, c.carbon_dioxide, c.ethane, c.propane, c.isobutane, c.n_butane, c.isopentane,
        c.n_pentane, c.hexane, c.heptane, c.octane, c.nonane, c.decane, c.hydrogen, c.oxygen, c.carbon_monoxide,
        c.water, c.hydrogen_sulfide, c.helium, c.argon,
    ]
}
fn cc(e: &CompositionError) -> u8 {
    match e {
        CompositionError::Ok => 0,
        CompositionError::Empty => 1,
        CompositionError::BadSum => 2,
    }
}
fn dc(e: &DensityError) -> u8 {
    match e {
        DensityError::Ok => 0,
        DensityError::IterationFail => 1,
        DensityError::PressureTooLow => 2,
    }
}
fn cr(r: Result<(), CompositionError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(e) => cc(&e).max(90 * (cc(&e) == 0) as u8), // Err(Ok) would be a lie: reported as 90
    }
}
fn dr(r: Result<(), DensityError>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(e) => dc(&e).max(90 * (dc(&e) == 0) as u8),
    }
}

pub const FIELDS: [&str; 18] = [
    "t", "p", "d", "z", "mm", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa",
];
#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub f: [f64; 18],
    pub x: X,
}
impl Snap {
    pub fn t(&self) -> f64 {
        self.f[0]
    }
    pub fn p(&self) -> f64 {
        self.f[1]
    }
    pub fn d(&self) -> f64 {
        self.f[2]
    }
    pub fn get(&self, n: &str) -> f64 {
        self.f[FIELDS.iter().position(|k| *k == n).unwrap()]
    }
    pub fn diff(&self, o: &Snap) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = (0..18).filter(|&i| !same(self.f[i], o.f[i])).map(|i| FIELDS[i]).collect();
        if (0..21).any(|i| !same(self.x[i], o.x[i])) {
            v.push("x");
        }
        v
    }
}
/// bitwise equality, all NaNs equal
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Out {
    pub ret: f64,
    pub code: u8,
}

#[cfg(have_shim)]
mod shim {
    use std::os::raw::c_void;
    macro_rules! decl {
        ($($n:ident: ($($a:ty),*) $(-> $r:ty)?;)*) => { extern "C" { $(pub fn $n($(_: $a),*) $(-> $r)?;)* } };
    }
    type P = *mut c_void;
    decl! {
        shim_aga8_new: () -> P; shim_aga8_free: (P); shim_aga8_set_composition: (P, *const f64, u32) -> i32;
        shim_aga8_set_pressure: (P, f64); shim_aga8_get_pressure: (P) -> f64; shim_aga8_set_temperature: (P, f64);
        shim_aga8_get_temperature: (P) -> f64; shim_aga8_set_density: (P, f64); shim_aga8_get_density: (P) -> f64;
        shim_aga8_get_properties: (P, *mut f64); shim_aga8_calculate_pressure: (P) -> f64;
        shim_aga8_calculate_molar_mass: (P) -> f64; shim_aga8_calculate_density: (P, u32) -> i32;
        shim_aga8_calculate_properties: (P);
        shim_gerg_new: () -> P; shim_gerg_free: (P); shim_gerg_set_composition: (P, *const f64, u32) -> i32;
        shim_gerg_set_pressure: (P, f64); shim_gerg_get_pressure: (P) -> f64; shim_gerg_set_temperature: (P, f64);
        shim_gerg_get_temperature: (P) -> f64; shim_gerg_set_density: (P, f64); shim_gerg_get_density: (P) -> f64;
        shim_gerg_get_properties: (P, *mut f64); shim_gerg_calculate_pressure: (P) -> f64;
        shim_gerg_calculate_molar_mass: (P) -> f64; shim_gerg_calculate_density: (P, u32) -> i32;
        shim_gerg_calculate_properties: (P);
    }
}
pub const HAVE_SHIM: bool = cfg!(have_shim);
#[cfg(not(have_shim))]
fn missing<T: Default>() -> T {
    panic!("no C caller")
}
/// Calls the C caller for either model; without it (header does not compile) the call is unreachable.
macro_rules! cc_call {
    ($h:expr, $a:ident, $g:ident $(, $x:expr)*) => {{
        #[cfg(have_shim)]
        {
            match $h {
                H::D(p, _) => shim::$a(*p as *mut _ $(, $x)*),
                H::G(p, _) => shim::$g(*p as *mut _ $(, $x)*),
            }
        }
        #[cfg(not(have_shim))]
        {
            $(let _ = &$x;)*
            missing()
        }
    }};
}

pub enum H {
    D(*mut Detail, Api),
    G(*mut Gerg2008, Api),
}
impl H {
    /// where the calculator is
    pub fn extent(&self) -> (usize, usize) {
        match self {
            H::D(p, _) => (*p as usize, *p as usize + std::mem::size_of::<Detail>()),
            H::G(p, _) => (*p as usize, *p as usize + std::mem::size_of::<Gerg2008>()),
        }
    }
    /// `plain`: the native calculator is made by `Default`, as in a host's structure that derives it
    pub fn new(kind: Kind, api: Api, plain: bool) -> H {
        match (kind, api) {
            (Kind::Detail, Api::Native) if plain => H::D(Box::into_raw(Box::default()), api),
            (Kind::Gerg, Api::Native) if plain => H::G(Box::into_raw(Box::default()), api),
            (Kind::Detail, Api::Native) => H::D(Box::into_raw(Box::new(Detail::new())), api),
            (Kind::Gerg, Api::Native) => H::G(Box::into_raw(Box::new(Gerg2008::new())), api),
            #[cfg(have_shim)]
            (Kind::Detail, Api::C) => H::D(unsafe { shim::shim_aga8_new() as *mut Detail }, api),
            #[cfg(have_shim)]
            (Kind::Gerg, Api::C) => H::G(unsafe { shim::shim_gerg_new() as *mut Gerg2008 }, api),
            (Kind::Detail, _) => H::D(aga8::ffi::detail::aga8_new(), api),
            (Kind::Gerg, _) => H::G(aga8::ffi::gerg2008::gerg_new(), api),
        }
    }
    pub fn free(&self) {
        unsafe {
            match self {
                H::D(p, Api::Native) => drop(Box::from_raw(*p)),
                H::G(p, Api::Native) => drop(Box::from_raw(*p)),
                _ if self.api() == Api::C => cc_call!(self, shim_aga8_free, shim_gerg_free),
                H::D(p, _) => aga8::ffi::detail::aga8_free(*p),
                H::G(p, _) => aga8::ffi::gerg2008::gerg_free(*p),
            }
        }
    }
    pub fn null(kind: Kind) -> H {
        match kind {
            Kind::Detail => H::D(std::ptr::null_mut(), Api::Ffi),
            Kind::Gerg => H::G(std::ptr::null_mut(), Api::Ffi),
        }
    }
    /// call the n-th function of the C interface (see NULL_FNS)
    pub fn call_c(&mut self, f: usize) {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        let c = comp_of(&[0.0; 21]);
        let mut e = CompositionError::BadSum;
        let mut de = DensityError::PressureTooLow;
        macro_rules! two {
            ($a:ident, $g:ident $(, $x:expr)*) => {
                match self {
                    H::D(p, _) => { let _ = fd::$a(*p $(, $x)*); }
                    H::G(p, _) => { let _ = fg::$g(*p $(, $x)*); }
                }
            };
        }
        unsafe {
            match f {
                0 => two!(aga8_free, gerg_free),
                1 => two!(aga8_set_composition, gerg_set_composition, &c, &mut e),
                2 => two!(aga8_set_pressure, gerg_set_pressure, 1.0),
                3 => two!(aga8_get_pressure, gerg_get_pressure),
                4 => two!(aga8_set_temperature, gerg_set_temperature, 1.0),
                5 => two!(aga8_get_temperature, gerg_get_temperature),
                6 => two!(aga8_set_density, gerg_set_density, 1.0),
                7 => two!(aga8_get_density, gerg_get_density),
                8 => two!(aga8_get_properties, gerg_get_properties),
                9 => two!(aga8_calculate_pressure, gerg_calculate_pressure),
                10 => two!(aga8_calculate_molar_mass, gerg_calculate_molar_mass),
                11 => two!(aga8_calculate_density, gerg_calculate_density, &mut de),
                _ => two!(aga8_calculate_properties, gerg_calculate_properties),
            }
        }
    }
    pub fn kind(&self) -> Kind {
        match self {
            H::D(..) => Kind::Detail,
            H::G(..) => Kind::Gerg,
        }
    }
    pub fn api(&self) -> Api {
        match self {
            H::D(_, a) | H::G(_, a) => *a,
        }
    }
    pub fn is_null(&self) -> bool {
        match self {
            H::D(p, _) => p.is_null(),
            H::G(p, _) => p.is_null(),
        }
    }
    pub fn snap(&self) -> Snap {
        macro_rules! fields {
            ($c:expr) => {
                [
                    $c.t, $c.p, $c.d, $c.z, $c.mm, $c.dp_dd, $c.d2p_dd2, $c.d2p_dtd, $c.dp_dt, $c.u, $c.h, $c.s, $c.cv,
                    $c.cp, $c.w, $c.g, $c.jt, $c.kappa,
                ]
            };
        }
        unsafe {
            match self {
                H::D(p, _) => {
                    let c = &**p;
                    Snap { f: fields!(c), x: c.x }
                }
                H::G(p, _) => {
                    let c = &**p;
                    let mut x = [0.0; 21];
                    x.copy_from_slice(&c.x[1..]);
                    Snap { f: fields!(c), x }
                }
            }
        }
    }
    pub fn set_x(&mut self, x: &X) {
        unsafe {
            match self {
                H::D(p, _) => (**p).x = *x,
                H::G(p, _) => (&mut (**p).x)[1..].copy_from_slice(x),
            }
        }
    }
    pub fn set_comp(&mut self, x: &X) -> u8 {
        let own = comp_of(x);
        unsafe {
            let lent = sim_lend(&own);
            let c = &*lent;
            let code = match self {
                H::D(p, Api::Native) => cr((**p).set_composition(c)),
                H::G(p, Api::Native) => cr((**p).set_composition(c)),
                _ if self.api() == Api::C => {
                    let r: i32 = cc_call!(self, shim_aga8_set_composition, shim_gerg_set_composition, x.as_ptr(), 0x5A);
                    r as u8
                }
                H::D(p, _) => {
                    let mut e = CompositionError::BadSum;
                    aga8::ffi::detail::aga8_set_composition(*p, c, &mut e);
                    kept(c, x, cc(&e))
                }
                H::G(p, _) => {
                    let mut e = CompositionError::BadSum;
                    aga8::ffi::gerg2008::gerg_set_composition(*p, c, &mut e);
                    kept(c, x, cc(&e))
                }
            };
            sim_return(&own, lent);
            code
        }
    }
    pub fn set_v(&mut self, w: char, v: f64) {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                return match w {
                    'p' => cc_call!(self, shim_aga8_set_pressure, shim_gerg_set_pressure, v),
                    't' => cc_call!(self, shim_aga8_set_temperature, shim_gerg_set_temperature, v),
                    _ => cc_call!(self, shim_aga8_set_density, shim_gerg_set_density, v),
                };
            }
            match (self, w) {
                (H::D(p, Api::Native), 'p') => (**p).p = v,
                (H::D(p, Api::Native), 't') => (**p).t = v,
                (H::D(p, Api::Native), _) => (**p).d = v,
                (H::G(p, Api::Native), 'p') => (**p).p = v,
                (H::G(p, Api::Native), 't') => (**p).t = v,
                (H::G(p, Api::Native), _) => (**p).d = v,
                (H::D(p, _), 'p') => fd::aga8_set_pressure(*p, v),
                (H::D(p, _), 't') => fd::aga8_set_temperature(*p, v),
                (H::D(p, _), _) => fd::aga8_set_density(*p, v),
                (H::G(p, _), 'p') => fg::gerg_set_pressure(*p, v),
                (H::G(p, _), 't') => fg::gerg_set_temperature(*p, v),
                (H::G(p, _), _) => fg::gerg_set_density(*p, v),
            }
        }
    }
    pub fn mm(&mut self) -> f64 {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                return cc_call!(self, shim_aga8_calculate_molar_mass, shim_gerg_calculate_molar_mass);
            }
            match self {
                H::D(p, Api::Native) => (**p).molar_mass(),
                H::G(p, Api::Native) => {
                    (**p).molar_mass();
                    (**p).mm
                }
                H::D(p, _) => fd::aga8_calculate_molar_mass(*p),
                H::G(p, _) => fg::gerg_calculate_molar_mass(*p),
            }
        }
    }
    pub fn pressure(&mut self) -> f64 {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                return cc_call!(self, shim_aga8_calculate_pressure, shim_gerg_calculate_pressure);
            }
            match self {
                H::D(p, Api::Native) => (**p).pressure(),
                H::G(p, Api::Native) => (**p).pressure(),
                H::D(p, _) => fd::aga8_calculate_pressure(*p),
                H::G(p, _) => fg::gerg_calculate_pressure(*p),
            }
        }
    }
    pub fn density(&mut self, flag: i32) -> u8 {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                if flag == 0 || self.kind() == Kind::Detail {
                    let r: i32 = cc_call!(self, shim_aga8_calculate_density, shim_gerg_calculate_density, 0xA5);
                    return r as u8;
                }
            }
            match self {
                H::D(p, Api::Native) => dr((**p).density()),
                H::G(p, Api::Native) => dr((**p).density(flag)),
                H::D(p, _) => {
                    let mut e = DensityError::PressureTooLow;
                    fd::aga8_calculate_density(*p, &mut e);
                    dc(&e)
                }
                H::G(p, _) => {
                    if flag != 0 {
                        return dr((**p).density(flag));
                    }
                    let mut e = DensityError::PressureTooLow;
                    fg::gerg_calculate_density(*p, &mut e);
                    dc(&e)
                }
            }
        }
    }
    /// returns the pressure where the native call does
    pub fn props(&mut self) -> f64 {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                let () = cc_call!(self, shim_aga8_calculate_properties, shim_gerg_calculate_properties);
                return if self.kind() == Kind::Detail { self.snap().p() } else { 0.0 };
            }
            match self {
                H::D(p, Api::Native) => {
                    (**p).properties();
                    (**p).p
                }
                H::G(p, Api::Native) => (**p).properties(),
                H::D(p, _) => {
                    fd::aga8_calculate_properties(*p);
                    (**p).p
                }
                H::G(p, _) => {
                    fg::gerg_calculate_properties(*p);
                    0.0
                }
            }
        }
    }
    /// everything the C getters give: p, t, d, then the property record
    pub fn read(&self) -> [f64; 18] {
        use aga8::ffi::{detail as fd, gerg2008 as fg};
        unsafe {
            if self.api() == Api::C {
                let mut r = [0.0; 18];
                r[0] = cc_call!(self, shim_aga8_get_pressure, shim_gerg_get_pressure);
                r[1] = cc_call!(self, shim_aga8_get_temperature, shim_gerg_get_temperature);
                r[2] = cc_call!(self, shim_aga8_get_density, shim_gerg_get_density);
                let () = cc_call!(self, shim_aga8_get_properties, shim_gerg_get_properties, r[3..].as_mut_ptr());
                return r;
            }
            let (a, q) = match self {
                H::D(p, _) => (
                    [fd::aga8_get_pressure(*p), fd::aga8_get_temperature(*p), fd::aga8_get_density(*p)],
                    fd::aga8_get_properties(*p),
                ),
                H::G(p, _) => (
                    [fg::gerg_get_pressure(*p), fg::gerg_get_temperature(*p), fg::gerg_get_density(*p)],
                    fg::gerg_get_properties(*p),
                ),
            };
            [
                a[0], a[1], a[2], q.d, q.mm, q.z, q.dp_dd, q.d2p_dd2, q.dp_dt, q.u, q.h, q.s, q.cv, q.cp, q.w, q.g, q.jt,
                q.kappa,
            ]
        }
    }
    /// what read() must give for this snapshot
    pub fn read_of(s: &Snap) -> [f64; 18] {
        let g = |n| s.get(n);
        [
            s.p(), s.t(), s.d(), s.d(), g("mm"), g("z"), g("dp_dd"), g("d2p_dd2"), g("dp_dt"), g("u"), g("h"), g("s"),
            g("cv"), g("cp"), g("w"), g("g"), g("jt"), g("kappa"),
        ]
    }
    /// what moving a Rust value does: same bits at another address, the old place reused for something else
    pub fn relocate(&mut self) {
        unsafe fn mv<T>(p: *mut T) -> *mut T {
            use std::alloc::*;
            let l = Layout::new::<T>();
            let q = alloc(l) as *mut T;
            std::ptr::copy_nonoverlapping(p, q, 1);
            std::ptr::write_bytes(p as *mut u8, 0xB5, l.size());
            dealloc(p as *mut u8, l);
            q
        }
        unsafe {
            match self {
                H::D(p, Api::Native) => *p = mv(*p),
                H::G(p, Api::Native) => *p = mv(*p),
                _ => {}
            }
        }
    }
    /// Executes one operation that acts on an existing handle.
    pub fn apply(&mut self, op: &Op) -> Out {
        let mut o = Out::default();
        match op {
            Op::Comp { x, .. } => o.code = self.set_comp(x),
            Op::RawX { x, .. } => self.set_x(x),
            Op::Norm { x, .. } => {
                let mut c = comp_of(x);
                match c.normalize() {
                    Ok(()) => o.code = self.set_comp(&comp_to(&c)),
                    Err(e) => {
                        let y = comp_to(&c);
                        let touched = (0..21).any(|i| !same(x[i], y[i]));
                        o.code = if touched { 50 } else { 10 } + cc(&e);
                    }
                }
            }
            Op::P { v, .. } => self.set_v('p', *v),
            Op::T { v, .. } => self.set_v('t', *v),
            Op::D { v, .. } => self.set_v('d', *v),
            Op::Mm { .. } => o.ret = self.mm(),
            Op::Pres { .. } => o.ret = self.pressure(),
            Op::Dens { flag, .. } => o.code = self.density(*flag),
            Op::Props { .. } => o.ret = self.props(),
            Op::Read { .. } => {
                o.ret = read_hash(&self.read());
            }
            Op::CreepX { i, j, d, n, .. } => {
                for _ in 0..*n {
                    let mut x = self.snap().x;
                    x[*i] += d;
                    x[*j] -= d;
                    self.set_x(&x);
                    o.ret = self.pressure();
                }
            }
            Op::CreepT { d, n, .. } => {
                for _ in 0..*n {
                    let t = self.snap().t();
                    self.set_v('t', t + d);
                    o.ret = self.pressure();
                }
            }
            Op::Soak { what, n, seed, .. } => o.code = crate::soak::soak(self, *what, *n, *seed).min(250) as u8,
            Op::Move { .. } => self.relocate(),
            _ => unreachable!(),
        }
        o
    }
}

/// With fences up: a read-only copy of a composition that ends where a forbidden page begins.
#[no_mangle]
pub unsafe extern "C" fn sim_lend(c: *const Composition) -> *const Composition {
    use crate::alloc;
    if alloc::FENCE.load(std::sync::atomic::Ordering::Relaxed) {
        if let Some((map, p)) = alloc::fenced(std::mem::size_of::<Composition>(), 8) {
            std::ptr::copy_nonoverlapping(c, p as *mut Composition, 1);
            alloc::protect(map, 1);
            return p as *const Composition;
        }
    }
    c
}
#[no_mangle]
pub unsafe extern "C" fn sim_return(own: *const Composition, lent: *const Composition) {
    if own != lent {
        crate::alloc::unmap(((lent as usize & !4095) - 4096, 3 * 4096));
    }
}
/// the caller's own composition must come back as it was (97 if not)
fn kept(c: &Composition, x: &X, code: u8) -> u8 {
    let y = comp_to(unsafe { &std::ptr::read_volatile(c) });
    if (0..21).all(|i| same(x[i], y[i])) {
        code
    } else {
        97
    }
}
pub fn read_hash(r: &[f64; 18]) -> f64 {
    let b = |v: &f64| if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
    f64::from_bits(r.iter().fold(0u64, |h, v| crate::rng::mix(h ^ b(v))) >> 12)
}
