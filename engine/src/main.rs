mod exec;
mod ir;
mod mem;
mod solver;
mod val;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u32, u64)]) -> String {
    let s: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect();
    format!("[{}]", s.join(","))
}
fn viol(v: &Violation) -> String {
    format!(
        "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}",
        js(v.kind),
        js(&v.msg),
        inputs(&v.inputs),
        v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir = String::new();
    let mut harness: Vec<(String, Vec<u64>)> = vec![];
    let started = Instant::now();
    let mut wall = 600u64; // for all harnesses together
    let mut cap = u64::MAX; // for each harness
    let mut threads = 8u64;
    let mut steps = 400_000_000u64;
    let mut depth = 12000usize;
    let mut maxv = 1usize;
    let mut samples = 64usize;
    let mut dump = 0usize;
    let mut dumpfile = String::new();
    let mut seed = 1u64;
    let mut timeout = 20000u32;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--ir" => ir = val(),
            "--harness" => {
                // name[:p0,p1,..]
                let s = val();
                let mut it = s.splitn(2, ':');
                let n = it.next().unwrap().to_string();
                let p = it.next().map(|x| x.split(',').map(|y| y.parse().unwrap()).collect()).unwrap_or_default();
                harness.push((n, p));
            }
            "--wall" => wall = val().parse().unwrap(),
            "--cap" => cap = val().parse().unwrap(),
            "--threads" => threads = val().parse().unwrap(),
            "--steps" => steps = val().parse().unwrap(),
            "--depth" => depth = val().parse().unwrap(),
            "--max-violations" => maxv = val().parse().unwrap(),
            "--samples" => samples = val().parse().unwrap(),
            "--dump" => dump = val().parse().unwrap(),
            "--dump-file" => dumpfile = val(),
            "--seed" => seed = val().parse().unwrap(),
            "--solver-timeout-ms" => timeout = val().parse().unwrap(),
            x => panic!("unknown option {}", x),
        }
        i += 1;
    }
    let src = match String::from_utf8(std::fs::read(&ir).expect("read IR")) {
        Ok(s) => s,
        Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
    };
    let m = ir::Module::load(src);
    let sp: Vec<Sp> = m.fns.iter().map(|f| special(&f.name)).collect();
    let cache = solver::Cache::new(dump, timeout);
    println!("[");
    let nh = harness.len();
    for (hi, (h, params)) in harness.into_iter().enumerate() {
        let id = match m.fn_ix.get(&h) {
            Some(i) => *i,
            None => {
                eprintln!("no such harness {}", h);
                std::process::exit(3);
            }
        };
        let f = m.func(id).expect("harness body");
        let before: Vec<u64> = {
            let s = &cache.stats;
            [&s.queries, &s.z3, &s.cached, &s.sat, &s.unsat, &s.unknown, &s.ns, &s.model_hits].iter().map(|x| x.load(Relaxed)).collect()
        };
        let sh = Shared {
            m: &m,
            sp: sp.clone(),
            cache: &cache,
            lim: Limits { steps, depth, wall: Duration::from_secs(wall).saturating_sub(started.elapsed()).min(Duration::from_secs(cap)), max_viol: maxv, samples },
            params: params.clone(),
            q: Mutex::new(vec![State::new(f)]),
            cv: Condvar::new(),
            idle: AtomicU64::new(0),
            nworkers: threads,
            stop: AtomicBool::new(false),
            paths: AtomicU64::new(0),
            forks: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            infeasible: AtomicU64::new(0),
            asserts: AtomicU64::new(0),
            asserts_sym: AtomicU64::new(0),
            viols: Mutex::new(vec![]),
            errors: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            covers: Mutex::new(Default::default()),
            used: (0..m.fns.len()).map(|_| AtomicU8::new(0)).collect(),
            t0: Instant::now(),
            timed_out: AtomicBool::new(false),
            hungry: AtomicBool::new(false),
            seed,
            max_depth: AtomicU64::new(0),
            max_steps: AtomicU64::new(0),
            max_vars: AtomicU64::new(0),
        };
        std::thread::scope(|s| {
            for t in 0..threads {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker { sh, slv: solver::Solver::new(sh.cache), local: vec![], rng: (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (t + 1).wrapping_mul(0xD1342543DE82EF95)) | 1 };
                        w.work();
                    })
                    .unwrap();
            }
        });
        let el = sh.t0.elapsed();
        let mut o = String::new();
        let v = sh.viols.lock().unwrap();
        let e = sh.errors.lock().unwrap();
        let covers = sh.covers.lock().unwrap();
        let smp = sh.samples.lock().unwrap();
        let fns: Vec<String> = m
            .fns
            .iter()
            .enumerate()
            .filter(|(i, f)| sh.used[*i].load(Relaxed) == 1 && (f.name.contains("_5trees") || f.name.contains("5trees")))
            .map(|(_, f)| js(&f.name))
            .collect();
        let nf = sh.used.iter().filter(|u| u.load(Relaxed) == 1).count();
        let st = &cache.stats;
        let after: Vec<u64> = [&st.queries, &st.z3, &st.cached, &st.sat, &st.unsat, &st.unknown, &st.ns, &st.model_hits].iter().map(|x| x.load(Relaxed)).collect();
        let d: Vec<u64> = after.iter().zip(before.iter()).map(|(a, b)| a - b).collect();
        let complete = !sh.timed_out.load(Relaxed) && v.is_empty() && e.is_empty();
        let _ = write!(
            o,
            "{{\"harness\":{},\"params\":[{}],\"complete\":{},\"timed_out\":{},\"wall_s\":{:.3},\"paths\":{},\"forks\":{},\"infeasible\":{},\"instructions\":{},\"asserts\":{},\"asserts_symbolic\":{},\"max_constraints\":{},\"max_steps\":{},\"max_vars\":{},\
             \"queries\":{},\"z3_calls\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"model_hits\":{},\"functions\":{},\"repo_functions\":[{}],\"covers\":{{{}}},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}]}}",
            js(&h),
            params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            complete,
            sh.timed_out.load(Relaxed),
            el.as_secs_f64(),
            sh.paths.load(Relaxed),
            sh.forks.load(Relaxed),
            sh.infeasible.load(Relaxed),
            sh.steps.load(Relaxed),
            sh.asserts.load(Relaxed),
            sh.asserts_sym.load(Relaxed),
            sh.max_depth.load(Relaxed),
            sh.max_steps.load(Relaxed),
            sh.max_vars.load(Relaxed),
            d[0], d[1], d[2], d[3], d[4], d[5],
            d[6] as f64 / 1e9,
            d[7],
            nf,
            fns.join(","),
            covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            v.iter().map(viol).collect::<Vec<_>>().join(","),
            e.iter().map(viol).collect::<Vec<_>>().join(","),
            smp.iter()
                .map(|s| format!("{{\"inputs\":{},\"obs\":[{}]}}", inputs(&s.inputs), s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(",")
        );
        println!("{}{}", o, if hi + 1 < nh { "," } else { "" });
    }
    println!("]");
    if !dumpfile.is_empty() {
        let d = cache.dump.lock().unwrap();
        let mut s = String::new();
        for (q, sat) in d.iter() {
            s.push_str("; expect ");
            s.push_str(if *sat { "sat\n" } else { "unsat\n" });
            s.push_str(q);
            s.push_str("(check-sat)\n(reset)\n");
        }
        std::fs::write(dumpfile, s).unwrap();
    }
}
