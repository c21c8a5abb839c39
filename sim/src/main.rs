//! Deterministic simulation of programs that use the aga8 crate.  See /verif/DESIGN.md.
mod alloc;
mod gen;
mod host;
mod ops;
mod oracle;
mod props;
mod refmodel;
mod rng;
mod sched;
mod seam;
mod soak;
mod sys;
mod tab_detail;
mod tab_gerg;
use ops::*;
use oracle::Viol;
use props::{check, generate, Stats};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = sys::mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0); // MAP_SHARED | MAP_ANONYMOUS
        assert!(p as isize != -1, "mmap");
        p as *mut u8
    }
}
/// (runs, wall-clock cap in s) per property and tier
fn budget(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C01" => 24_000,
        "C02" => 12_000,
        "C03" => 9_000,
        "C04" => 24_000,
        "C05" => 16_000,
        "C06" => 24_000,
        "C07" => 20_000,
        "C08" => 8_000,
        "C09" => 24_000,
        "C10" => 24_000,
        "C11" => 16_000,
        "C16" => 1_600,
        "C17" => 16_000,
        "C18" => 16_000,
        _ => 1000,
    };
    if tier == "thorough" {
        (quick * 40, 1500.0)
    } else {
        (quick, 200.0)
    }
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|s| s == k).and_then(|i| a.get(i + 1)).cloned()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn map_json(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}
fn ser(st: &Stats) -> String {
    let mut s = String::new();
    let _ = writeln!(
        s,
        "N {} {} {} {} {} {} {:?} {} {} {} {} {:?} {}",
        st.runs, st.nontrivial, st.ops, st.calcs, st.children, st.judged, st.sim_time, st.switches, st.suspends, st.stalls, st.blocks, st.cal_max,
        if st.cal_field.is_empty() { "-" } else { &st.cal_field }
    );
    for (t, m) in [("f", &st.faults), ("p", &st.probes), ("o", &st.opmix)] {
        for (k, v) in m {
            let _ = writeln!(s, "M {} {} {}", t, v, k);
        }
    }
    for (t, m) in [("i", &st.il), ("d", &st.distinct)] {
        for k in m {
            let _ = writeln!(s, "H {} {}", t, k);
        }
    }
    s
}
fn merge(st: &mut Stats, out: &str, viols: &mut Vec<(u64, Viol)>) {
    for l in out.lines() {
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        match w[0] {
            "N" => {
                let w: Vec<&str> = l.split(' ').collect();
                let u = |i: usize| w[i].parse::<u64>().unwrap();
                st.runs += u(1);
                st.nontrivial += u(2);
                st.ops += u(3);
                st.calcs += u(4);
                st.children += u(5);
                st.judged += u(6);
                st.sim_time += w[7].parse::<f64>().unwrap();
                st.switches += u(8);
                st.suspends += u(9);
                st.stalls += u(10);
                st.blocks += u(11);
                let c: f64 = w[12].parse().unwrap();
                if c > st.cal_max {
                    st.cal_max = c;
                    st.cal_field = w[13].into();
                }
            }
            "M" => {
                let m = match w[1] {
                    "f" => &mut st.faults,
                    "p" => &mut st.probes,
                    _ => &mut st.opmix,
                };
                *m.entry(w[3].to_string()).or_default() += w[2].parse::<u64>().unwrap();
            }
            "H" => {
                let s = if w[1] == "i" { &mut st.il } else { &mut st.distinct };
                s.insert(w[2].parse().unwrap());
            }
            "V" => {
                viols.push((w[1].parse().unwrap(), Viol { class: w[2].into(), msg: w[3].into() }));
            }
            _ => {}
        }
    }
}
/// Forks `n` workers; worker w gets f(w, fd).  Returns their outputs.
fn workers(n: usize, f: impl Fn(usize, i32)) -> Vec<(sys::End, Vec<u8>)> {
    let mut kids = vec![];
    unsafe {
        for w in 0..n {
            let mut fds = [0i32; 2];
            assert!(sys::pipe(fds.as_mut_ptr()) == 0);
            let pid = sys::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                sys::close(fds[0]);
                sys::quiet_process();
                f(w, fds[1]);
                sys::_exit(0);
            }
            sys::close(fds[1]);
            kids.push((pid, fds[0]));
        }
        kids.into_iter()
            .map(|(pid, fd)| {
                let mut out = vec![];
                let mut buf = vec![0u8; 1 << 16];
                loop {
                    let k = sys::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
                    if k <= 0 {
                        break;
                    }
                    out.extend_from_slice(&buf[..k as usize]);
                }
                sys::close(fd);
                let mut st = 0;
                while sys::waitpid(pid, &mut st, 0) < 0 {}
                let e = if st & 0x7f == 0 { sys::End::Exit((st >> 8) & 0xff) } else { sys::End::Signal(st & 0x7f) };
                (e, out)
            })
            .collect()
    }
}
fn keep(sc: &Scenario, k: &[bool]) -> Scenario {
    let mut s = sc.clone();
    s.steps = sc.steps.iter().zip(k).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    if let Some((c, t)) = sc.crash {
        s.crash = Some((k[..c].iter().filter(|b| **b).count(), t));
    }
    s
}
/// Smaller scenario with the same class of violation.
fn minimise(sc: &Scenario, class: &str, secs: f64) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut best = sc.clone();
    let bad = |c: &Scenario, tries: &mut u64| -> bool {
        if t0.elapsed().as_secs_f64() > secs {
            return false;
        }
        *tries += 1;
        matches!(check(c, &mut Stats::default()), Err(v) if v.class == class)
    };
    for _round in 0..4 {
        let size = best.text().len();
        // everything belonging to one calculator
        let mut hs: Vec<usize> = best.steps.iter().filter_map(|s| s.op.handle()).collect();
        hs.sort();
        hs.dedup();
        for h in hs {
            let k: Vec<bool> = best.steps.iter().enumerate().map(|(i, s)| s.op.handle() != Some(h) || best.crash.map(|c| c.0 == i).unwrap_or(false)).collect();
            if k.iter().any(|b| *b) && k.iter().any(|b| !*b) {
                let c = keep(&best, &k);
                if bad(&c, &mut tries) {
                    best = c;
                }
            }
        }
        // chunks
        let mut n = best.steps.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                let k: Vec<bool> = (0..best.steps.len()).map(|j| !(i..i + n).contains(&j) || best.crash.map(|c| c.0 == j).unwrap_or(false)).collect();
                if k.iter().all(|b| *b) {
                    i += n;
                    continue;
                }
                let c = keep(&best, &k);
                if !c.steps.is_empty() && bad(&c, &mut tries) {
                    best = c;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n = n.div_ceil(2);
        }
        // schedule
        let mut alt: Vec<Scenario> = vec![];
        let with = |f: &dyn Fn(&mut Scenario)| {
            let mut c = best.clone();
            f(&mut c);
            c
        };
        alt.push(with(&|c| {
            c.threads = 1;
            c.steps.iter_mut().for_each(|s| s.th = 0);
        }));
        alt.push(with(&|c| c.sched.clear()));
        alt.push(with(&|c| c.steps.iter_mut().for_each(|s| s.pre.clear())));
        alt.push(with(&|c| c.steps.iter_mut().for_each(|s| s.irq = false)));
        alt.push(with(&|c| c.strict = true));
        alt.push(with(&|c| c.recycle = false));
        alt.push(with(&|c| c.fence = false));
        alt.push(with(&|c| c.crash = c.crash.map(|x| (x.0, 0))));
        for c in alt {
            if c != best && bad(&c, &mut tries) {
                let c2 = Scenario { steps: c.steps.clone(), ..c.clone() };
                best = c2;
            }
        }
        for i in 0..best.steps.len() {
            let p = best.steps[i].pre.clone();
            for j in (0..p.len()).rev() {
                let mut c = best.clone();
                c.steps[i].pre.remove(j);
                if bad(&c, &mut tries) {
                    best = c;
                }
            }
            // arguments
            let mut tryset: Vec<Op> = vec![];
            match best.steps[i].op.clone() {
                Op::T { h, v } if v.is_finite() => {
                    for n in [300.0, v.round(), (v * 10.0).round() / 10.0] {
                        tryset.push(Op::T { h, v: n });
                    }
                }
                Op::P { h, v } if v.is_finite() => {
                    for n in [5000.0, v.round(), (v * 100.0).round() / 100.0] {
                        tryset.push(Op::P { h, v: n });
                    }
                }
                Op::D { h, v } if v.is_finite() => {
                    for n in [1.0, v.round(), (v * 100.0).round() / 100.0] {
                        tryset.push(Op::D { h, v: n });
                    }
                }
                Op::Soak { h, what, n, seed } => {
                    for m in [n / 16, n / 4, n / 2, n * 3 / 4, n - n / 8, n.saturating_sub(1)] {
                        tryset.push(Op::Soak { h, what, n: m, seed });
                    }
                }
                Op::CreepT { h, d, n } => tryset.push(Op::CreepT { h, d, n: n / 2 }),
                Op::CreepX { h, i, j, d, n } => tryset.push(Op::CreepX { h, i, j, d, n: n / 2 }),
                Op::Comp { h, x } => {
                    let mut y = [0.0; 21];
                    y[0] = 1.0;
                    tryset.push(Op::Comp { h, x: y });
                    tryset.push(Op::Comp { h, x: x.map(|v| (v * 1e4).round() / 1e4) });
                    let mut z = x;
                    let m = (1..21).fold(1, |a, b| if x[b] > x[a] { b } else { a });
                    let rest: f64 = (1..21).filter(|k| *k != m).map(|k| x[k]).sum();
                    for (k, v) in z.iter_mut().enumerate().skip(1) {
                        if k != m {
                            *v = 0.0;
                        }
                    }
                    z[0] += rest;
                    tryset.push(Op::Comp { h, x: z });
                }
                _ => {}
            }
            for o in tryset {
                if format!("{:?}", o) == format!("{:?}", best.steps[i].op) {
                    continue;
                }
                let mut c = best.clone();
                c.steps[i].op = o;
                if c.text().len() <= best.text().len() && bad(&c, &mut tries) {
                    best = c;
                }
            }
        }
        if best.text().len() >= size || t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    (best, tries)
}
fn replay(file: &str) -> i32 {
    let sc = Scenario::parse(&std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    }));
    match check(&sc, &mut Stats::default()) {
        Ok(()) => {
            println!("no violation: {}", file);
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", sc.prop, file);
            1
        }
    }
}
fn known(prop: &str) -> Vec<(String, String)> {
    // finding: property=<id> class=<class> match=<text>  -- a listed, unrepaired defect
    let p = std::env::var("AGA8SIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={} class=", prop))?;
            let (c, m) = rest.split_once(" match=")?;
            Some((c.to_string(), m.to_string()))
        })
        .collect()
}
fn main() {
    // same addresses in every process
    unsafe {
        extern "C" {
            fn personality(p: u64) -> i32;
        }
        if std::env::var_os("AGA8SIM_STATIC").is_none() && personality(0xffff_ffff) & 0x0040000 == 0 && personality(0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("AGA8SIM_STATIC", "1").exec();
            eprintln!("exec: {}", e);
            std::process::exit(2);
        }
    }
    sys::quiet_process();
    let a: Vec<String> = std::env::args().collect();
    unsafe { seam::COV = shared(seam::MAXB) };
    // everything lazily initialised on the harness side is initialised before any fork
    let mut x = [1.0 / 21.0; 21];
    for k in [refmodel::Kind::Detail, refmodel::Kind::Gerg] {
        x[0] += refmodel::eval(k, &x, 300.0, 1.0).p.v * 0.0;
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("show") => {
            let seed = arg(&a, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let run: u64 = a[3].parse().unwrap();
            let sc = generate(&a[2], seed, run);
            print!("{}", sc.text());
            match check(&sc, &mut Stats::default()) {
                Ok(()) => println!("# no violation"),
                Err(v) => println!("# {}: {}", v.class, v.msg),
            }
        }
        Some("digest") => {
            // determinism self-test: hash of the complete recorded histories of a range of runs
            let seed = arg(&a, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let n: u64 = arg(&a, "--runs").map(|s| s.parse().unwrap()).unwrap_or(200);
            let nw: usize = arg(&a, "--workers").map(|s| s.parse().unwrap()).unwrap_or(8);
            let prop = &a[2];
            let outs = workers(nw, |w, fd| {
                let mut o = String::new();
                for run in (w as u64..n).step_by(nw) {
                    let sc = generate(prop, seed, run);
                    let l = props::all_logs(&sc);
                    let h = rng::hash_str(&format!("{}{:?}", sc.text(), l));
                    let _ = writeln!(o, "{:06} {:016x}", run, h);
                }
                sys::write_all(fd, o.as_bytes());
            });
            let mut v: Vec<String> = outs.iter().flat_map(|o| String::from_utf8_lossy(&o.1).lines().map(|s| s.to_string()).collect::<Vec<_>>()).collect();
            v.sort();
            println!("{}", v.join("\n"));
        }
        Some("run") => std::process::exit(run(&a)),
        _ => {
            eprintln!("usage: aga8sim run --property ID [--seed N] [--tier quick|thorough] | replay FILE | show ID RUN | digest ID");
            std::process::exit(2);
        }
    }
}
fn run(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = arg(a, "--property").expect("--property");
    let seed: u64 = arg(a, "--seed").map(|s| s.parse().expect("seed")).unwrap_or(1);
    let tier = arg(a, "--tier").unwrap_or_else(|| "quick".into());
    let (mut n, cap) = budget(&prop, &tier);
    if let Some(k) = arg(a, "--runs") {
        n = k.parse().unwrap();
    }
    let nw: usize = arg(a, "--workers").map(|s| s.parse().unwrap()).unwrap_or(8);
    let root = arg(a, "--root").unwrap_or_else(|| "/verif".into());
    let knowns = known(&prop);
    println!("property {} seed {} tier {} runs {} workers {}", prop, seed, tier, n, nw);
    let best = shared(8) as *const AtomicU64;
    let best = unsafe { &*best };
    best.store(u64::MAX, Ordering::Relaxed);
    let outs = workers(nw, |w, fd| {
        let mut st = Stats::default();
        let mut o = String::new();
        for run in (w as u64..n).step_by(nw) {
            if best.load(Ordering::Relaxed) < run || t0.elapsed().as_secs_f64() > cap {
                break;
            }
            let sc = generate(&prop, seed, run);
            if let Err(v) = check(&sc, &mut st) {
                let _ = writeln!(o, "V {} {} {}", run, v.class, v.msg.replace('\n', " "));
                if !knowns.iter().any(|(c, m)| *c == v.class && v.msg.contains(m.as_str())) {
                    best.fetch_min(run, Ordering::Relaxed);
                    break;
                }
            }
        }
        o.push_str(&ser(&st));
        sys::write_all(fd, o.as_bytes());
    });
    let mut st = Stats::default();
    let mut viols = vec![];
    let mut broken = false;
    for (e, o) in &outs {
        merge(&mut st, &String::from_utf8_lossy(o), &mut viols);
        if *e != sys::End::Exit(0) {
            eprintln!("harness error: a worker ended with {:?}", e);
            broken = true;
        }
    }
    viols.sort_by_key(|v| v.0);
    let mut seen: HashSet<String> = HashSet::new();
    viols.retain(|(_, v)| match knowns.iter().find(|(c, m)| *c == v.class && v.msg.contains(m.as_str())) {
        Some((c, m)) => {
            if seen.insert(format!("{} {}", c, m)) {
                println!("KNOWN-FINDING: property={} {}: {}", prop, c, v.msg);
            }
            false
        }
        None => true,
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut vio_json = String::new();
    if let Some((run, v)) = viols.first() {
        code = 1;
        let sc = generate(&prop, seed, *run);
        println!("run {} {}: {}", run, v.class, v.msg);
        let (m, tries) = minimise(&sc, &v.class, 60.0);
        let fin = check(&m, &mut Stats::default()).err();
        let (m, msg) = match fin {
            Some(f) if f.class == v.class => (m, f.msg),
            _ => (sc.clone(), v.msg.clone()),
        };
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/{}-seed{}-run{}.replay", dir, prop, seed, run);
        let text = format!("{}# {}: {}\n# minimised from {} to {} steps in {} simulated runs\n", m.text(), v.class, msg.replace('\n', " "), sc.steps.len(), m.steps.len(), tries);
        std::fs::write(&file, text).expect("write replay file");
        let conf: Vec<bool> = (0..2)
            .map(|_| {
                std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["replay", &file])
                    .output()
                    .map(|o| o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&msg))
                    .unwrap_or(false)
            })
            .collect();
        println!("minimised from {} to {} steps ({} runs); replayed in fresh processes: {}", sc.steps.len(), m.steps.len(), tries, if conf.iter().all(|c| *c) { "reproduced exactly" } else { "NOT reproduced" });
        println!("{}: {}", v.class, msg);
        println!("VIOLATION property={} replay={}", prop, file);
        vio_json = format!("{{\"run\": {}, \"class\": \"{}\", \"message\": \"{}\", \"replay\": \"{}\", \"steps\": {}}}", run, esc(&v.class), esc(&msg), esc(&file), m.steps.len());
    }
    // ---- evidence
    let reached = unsafe { (0..seam::MAXB).filter(|i| *seam::COV.add(*i) != 0).count() };
    let total = seam::blocks_total();
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<String> = [0u64, n / 2]
        .iter()
        .map(|r| format!("\"{}\"", esc(&generate(&prop, seed, *r).text())))
        .collect();
    let rule = props_rule(&prop);
    let per_h = |x: u64| (x as f64 / search_s * 3600.0) as u64;
    let ev = format!(
        "{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"simulated_runs\": {}, \"simulated_processes\": {}, \"operations\": {}, \"calculations\": {}, \"judgements\": {},\n  \"runs_per_hour\": {}, \"operations_per_hour\": {}, \"seeds\": 1, \"run_seeds_per_hour\": {},\n  \"simulated_seconds\": {:.0},\n  \"faults_injected\": {},\n  \"operation_mix\": {},\n  \"probes\": {},\n  \"context_switches\": {}, \"calls_suspended_inside\": {}, \"stalled_callers\": {}, \"futex_waits_intercepted\": {},\n  \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash over the sequence of (thread, step, instruction tick) at every switch of the running thread\",\n  \"library_blocks_reached\": {}, \"library_blocks_total\": {},\n  \"largest_error_vs_reference\": {:e}, \"largest_error_field\": \"{}\", \"reference_tolerance\": {:e},\n  \"real_code\": [\"the whole aga8 crate built from /repo (src/detail.rs, src/gerg2008.rs, src/composition.rs, src/ffi.rs, generated C header), instrumented by the compiler\", \"std mutex/once/condvar down to the futex call\"],\n  \"stubs\": [\"host process (streams, analyser, operator): simulated\", \"thread scheduler: simulated, real threads run one at a time\", \"futex wait: simulated\", \"clock, random numbers, environment variables, files, console, thread creation as the library could use them: simulated at the libc entry points\", \"allocator (C08): simulated ledger over the system allocator\"{}],\n  \"samples\": [{}],\n  \"violation\": [{}]\n }},\n \"assumptions\": [\"sampling, not enumeration: a clean batch is evidence, not proof\", \"sequentially consistent interleavings at basic-block, load and store granularity\"],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        prop, tier, seed, st.runs, st.distinct.len(), esc(rule), st.runs, st.children, st.ops, st.calcs, st.judged, per_h(st.runs), per_h(st.ops), per_h(st.runs), st.sim_time,
        map_json(&st.faults), map_json(&st.opmix), map_json(&st.probes), st.switches, st.suspends, st.stalls, st.blocks, st.il.len(), reached, total,
        st.cal_max, esc(&st.cal_field), oracle::TOL,
        if HAVE_SHIM { ", \"C host: shim.c compiled by gcc against the generated header\"" } else { "" },
        samples.join(", "), vio_json, wall, code
    );
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), ev).expect("write evidence");
    println!(
        "{} runs ({} distinct non-trivial), {} operations, {} judgements, {} interleavings, {}/{} blocks, {:.1} s",
        st.runs, st.distinct.len(), st.ops, st.judged, st.il.len(), reached, total, wall
    );
    if broken && code == 0 {
        return 2;
    }
    if code == 0 && st.runs < n {
        println!("note: wall-clock cap reached after {} of {} runs", st.runs, n);
    }
    code
}
fn props_rule(p: &str) -> &'static str {
    match p {
        "C01" | "C02" => "a case is one simulated host run (1-3 calculators, 1-4 caller threads, 3-16 measuring cycles drawn by a swarm configuration); non-trivial if at least one result was judged on a live calculator whose composition or temperature had changed since its last judged result; distinct by hash of all operations and arguments",
        "C03" => "a case is one interleaving of 2-5 calculators on 2-5 threads, compared with each calculator's own operations alone in a fresh process; non-trivial if at least one call was suspended inside while others ran; distinct by hash of operations, suspension points and scheduling decisions",
        "C04" => "a case is a sequence of density solves; non-trivial if it contains successful and failed solves; distinct by hash of all operations and arguments",
        "C05" => "a case is a sequence of bad readings, attempted calculations and good readings; non-trivial if at least one first good solve after a fault was compared with a brand-new calculator in its own process; distinct by hash of all operations and arguments",
        "C06" => "a case is a sequence of valid and invalid updates with calculations; non-trivial if at least one update was refused and one accepted; distinct by hash of all operations and arguments",
        "C07" => "a case is one call sequence run twice, natively and through the C caller; non-trivial if more than one calculation was compared; distinct by hash of all operations and arguments",
        "C08" => "a case is three passes over a create/use/free sequence (or one allocation failure or null handle); all are non-trivial; distinct by hash of all operations, arguments, fill byte and recycling mode",
        "C09" => "a case is a sequence of operations on arbitrary values; all are non-trivial; distinct by hash of all operations and arguments",
        "C10" => "a case is a call sequence with repeated calculations; non-trivial if at least one repetition was compared bit for bit; distinct by hash of all operations and arguments",
        "C16" => "a case is one calculator kept in service for up to several hundred thousand calls of different kinds, with the same measuring block judged before, between and after them; non-trivial if at least two such blocks after long service were compared with the first; distinct by hash of all operations and arguments",
        "C18" => "a case is one history run twice, in ordinary and in hostile surroundings (clock jumps, dead console, full disk, no threads, other random numbers and environment variables); non-trivial if it contains a calculation; distinct by hash of all operations and arguments",
        "C17" => "a case is one history run twice, with and without memory left after the calculators were created; non-trivial if at least one calculation ran without memory; distinct by hash of all operations and arguments",
        _ => "a case is one history with one crash point (step, instruction tick) compared with the uninterrupted history; non-trivial if results after the restart were compared; distinct by hash of operations and crash point",
    }
}
