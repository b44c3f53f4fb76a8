//! Runs, batches, minimisation, replay, evidence.
use crate::rt::choices::*;
use crate::rt::kernel;
use crate::rt::shm::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub variants: &'static [(&'static str, fn())],
    pub quick_runs: u32,
    pub thorough_runs: u32,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    verdict: u32,
    sig: u32,
    sched: u64,
    trace: u64,
    sim_ns: u64,
    switches: u64,
    preemptions: u64,
    edges: u64,
    ops: u64,
    threads: u32,
    pad: u32,
}

#[derive(Clone)]
pub struct Outcome {
    pub verdict: u32,
    pub class: String,
    pub detail: String,
    pub draws: [u64; NSTREAM],
    pub trace: u64,
}

fn scratch_root() -> String {
    // in memory where possible, so that real disk stalls do not hit runs
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{d}/starry-sim.{}", unsafe { libc::getpid() });
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(format!("{p}/probe"), b"x").is_ok() {
            return p;
        }
    }
    "/tmp/starry-sim".into()
}

thread_local! {
    static SCRATCH: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn scratch() -> String {
    SCRATCH.with(|s| s.borrow().clone())
}

fn enter_scratch(root: &str, name: &str) {
    let d = format!("{root}/{name}");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    std::env::set_current_dir(&d).expect("chdir");
    SCRATCH.with(|s| *s.borrow_mut() = d);
}

fn panic_hook(info: &std::panic::PanicHookInfo) {
    let _in = crate::rt::mem::In::new();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if kernel::active() {
        let kk = kernel::k();
        let t = kernel::tid();
        kk.note(&format!("panic: {msg} at {loc}"));
        kk.panics.push((t, msg.clone(), loc.clone()));
        if !kk.thr[t as usize].sut {
            kernel::finish(V_HARNESS, "panic in harness code", &format!("{msg} at {loc}\n{}", kk.dump()));
        }
    } else {
        eprintln!("harness panic: {msg} at {loc}");
    }
}

/// Real seconds one run may take; only code that spins without any
/// instrumented edge or call comes near it.
const HANG: &str = "the system is stuck: it spins where no event can reach it";
static ALARM: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(20);

/// Fork one simulated run; its result is left in `shm`.
pub fn run_once(shm: *mut Shm, cov: *mut u8, f: fn(), seed: u64, explicit: Option<&Vec<Vec<u64>>>, log_on: bool) -> u32 {
    unsafe {
        (*shm).reset(log_on);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::alarm(ALARM.load(Ordering::Relaxed));
            let nul = libc::open64(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(nul, 1);
            if std::env::var("SIM_STDERR").is_err() {
                libc::dup2(nul, 2);
            }
            std::panic::set_hook(Box::new(panic_hook));
            kernel::boot(kernel::Boot { shm, cov, seed, explicit: explicit.cloned() });
            f();
            kernel::finish(V_HARNESS, "scenario returned without a verdict", "");
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &mut *shm;
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM {
                // twice, the second time with six times the limit: it hangs
                s.verdict = if ALARM.load(Ordering::Relaxed) > 60 { V_VIOLATION } else { V_HARNESS };
                s.set_class(HANG);
            } else if sig == libc::SIGKILL {
                s.verdict = V_HARNESS;
                s.set_class("killed");
            } else {
                s.verdict = V_VIOLATION;
                s.set_class(&format!("the process died on signal {sig}"));
            }
            return sig as u32;
        }
        if s.verdict == V_NONE {
            s.verdict = V_VIOLATION;
            s.set_class("the process exited");
        }
        0
    }
}

fn outcome(shm: *mut Shm) -> Outcome {
    let s = unsafe { &mut *shm };
    Outcome { verdict: s.verdict, class: s.class(), detail: s.detail(), draws: s.draws, trace: s.trace_hash }
}

fn pin(core: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(core, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn cores() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(base ^ 0xa5a5);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h.wrapping_add(i))
}

pub struct BatchResult {
    recs: Vec<Rec>,
    ran: u32,
    counters: BTreeMap<String, u64>,
    cov_edges: usize,
    first_violation: Option<u32>,
    first_harness: Option<u32>,
    wall: f64,
}

pub fn batch(p: &Prop, base: u64, runs: u32, workers: usize, limit: Duration, root: &str, keep_going: bool) -> BatchResult {
    let bat: *mut Batch = map_shared();
    let recs: *mut Rec = unsafe {
        let sz = std::mem::size_of::<Rec>() * runs as usize;
        let m = libc::mmap(std::ptr::null_mut(), sz.max(4096), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(m != libc::MAP_FAILED);
        m as *mut Rec
    };
    let start = Instant::now();
    let b = unsafe { &mut *bat };
    b.stop.store(u32::MAX, Ordering::SeqCst);
    let cs = cores();
    let mut aggs: Vec<*mut Shm> = vec![];
    let mut pids = vec![];
    for wi in 0..workers {
        let agg: *mut Shm = map_shared();
        unsafe { (*agg).reset(false) };
        aggs.push(agg);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            pin(cs[wi % cs.len()]);
            let shm: *mut Shm = map_shared();
            let b = unsafe { &mut *bat };
            loop {
                let i = b.next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || i > b.stop.load(Ordering::SeqCst) || start.elapsed() > limit {
                    break;
                }
                enter_scratch(root, &format!("w{wi}"));
                let v = p.variants[i as usize % p.variants.len()];
                let sig = run_once(shm, b.cov.as_mut_ptr(), v.1, seed_of(base, p.id, i as u64), None, false);
                let s = unsafe { &mut *shm };
                let a = unsafe { &mut *agg };
                for c in &s.counts[..s.ncount as usize] {
                    let l = c.name.iter().position(|x| *x == 0).unwrap_or(56);
                    let n = std::str::from_utf8(&c.name[..l]).unwrap_or("?");
                    a.count(n, c.n);
                    if n.starts_with("fault.") {
                        a.count(&format!("runs_with.{}", &n[6..]), 1);
                    }
                }
                unsafe {
                    *recs.add(i as usize) = Rec {
                        verdict: s.verdict,
                        sig,
                        sched: s.sched_hash,
                        trace: s.trace_hash,
                        sim_ns: s.sim_ns,
                        switches: s.switches,
                        preemptions: s.preemptions,
                        edges: s.edges,
                        ops: s.ops,
                        threads: s.threads,
                        pad: 0,
                    };
                }
                if s.verdict == V_VIOLATION && !keep_going {
                    b.stop.fetch_min(i, Ordering::SeqCst);
                }
            }
            unsafe { crate::rt::sys::exit_group(0) }
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    }
    let wall = start.elapsed().as_secs_f64();
    let all: Vec<Rec> = (0..runs as usize).map(|i| unsafe { *recs.add(i) }).collect();
    let mut counters = BTreeMap::new();
    for a in aggs {
        for (n, c) in unsafe { (*a).counters() } {
            *counters.entry(n).or_insert(0) += c;
        }
        unsafe { libc::munmap(a as *mut _, std::mem::size_of::<Shm>()) };
    }
    let fv = all.iter().position(|r| r.verdict == V_VIOLATION).map(|x| x as u32);
    let fh = all.iter().position(|r| r.verdict == V_HARNESS).map(|x| x as u32);
    let ran = all.iter().filter(|r| r.verdict != V_NONE).count() as u32;
    let cov_edges = b.cov.iter().filter(|x| **x != 0).count();
    unsafe {
        libc::munmap(bat as *mut _, std::mem::size_of::<Batch>());
        libc::munmap(recs as *mut _, (std::mem::size_of::<Rec>() * runs as usize).max(4096));
    }
    BatchResult { recs: all, ran, counters, cov_edges, first_violation: fv, first_harness: fh, wall }
}

// ------------------------------------------------------------- minimise

pub struct Single {
    shm: *mut Shm,
    cov: Vec<u8>,
    root: String,
}
impl Single {
    pub fn new(root: &str) -> Self {
        Single { shm: map_shared(), cov: vec![0; COV_CAP], root: root.to_string() }
    }
    pub fn run(&mut self, f: fn(), seed: u64, ex: Option<&Vec<Vec<u64>>>, log: bool) -> Outcome {
        enter_scratch(&self.root, "single");
        run_once(self.shm, self.cov.as_mut_ptr(), f, seed, ex, log);
        outcome(self.shm)
    }
    pub fn shm(&self) -> &'static mut Shm {
        unsafe { &mut *self.shm }
    }
}

fn nonzero(v: &[Vec<u64>]) -> Vec<usize> {
    v.iter().map(|s| s.iter().filter(|x| **x != 0).count()).collect()
}

pub fn minimise(one: &mut Single, f: fn(), seed: u64, first: &Outcome, budget: Duration) -> (Vec<Vec<u64>>, Outcome, u32) {
    let start = Instant::now();
    let mut best = expand(seed, &first.draws);
    let mut best_out = first.clone();
    let mut tries = 0;
    let class = first.class.clone();
    fn attempt(
        one: &mut Single, f: fn(), seed: u64, class: &str, cand: Vec<Vec<u64>>, best: &mut Vec<Vec<u64>>, best_out: &mut Outcome, tries: &mut u32,
    ) -> bool {
        *tries += 1;
        let t = Instant::now();
        let o = one.run(f, seed, Some(&cand), false);
        if std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("try {tries}: {:?} verdict {} {} edges {} switches {} nz {:?}", t.elapsed(), o.verdict, o.class, one.shm().edges, one.shm().switches, nonzero(&cand));
        }
        if o.verdict == V_HARNESS && std::env::var("SIM_DEBUG").is_ok() {
            let _ = std::fs::write("/tmp/hang.json", choices_json(&cand).to_string());
        }
        if o.verdict == V_VIOLATION && o.class == class {
            let mut c = cand;
            if o.draws.iter().any(|d| *d > 0) {
                for s in 0..NSTREAM {
                    c[s].truncate(o.draws[s] as usize);
                }
            }
            for s in c.iter_mut() {
                while s.last() == Some(&0) {
                    s.pop();
                }
            }
            *best = c;
            *best_out = o;
            true
        } else {
            false
        }
    }
    let order = [FAULT, SCHED, NET, WORK];
    for round in 0..3 {
        let before = nonzero(&best);
        for &s in &order {
            // zero whole stream, then ever smaller chunks
            let mut chunk = best[s].len().max(1);
            while chunk >= 1 && start.elapsed() < budget {
                let mut at = 0;
                while at < best[s].len() && start.elapsed() < budget {
                    let end = (at + chunk).min(best[s].len());
                    if best[s][at..end].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        for x in &mut c[s][at..end] {
                            *x = 0;
                        }
                        attempt(one, f, seed, &class, c, &mut best, &mut best_out, &mut tries);
                    }
                    at += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
                // do not spend the budget on single elements of huge streams
                if nonzero(&best)[s] > 400 && chunk < best[s].len() / 512 {
                    break;
                }
            }
        }
        // delete workload items, and shrink remaining values
        let mut at = 0;
        while at < best[WORK].len() && start.elapsed() < budget {
            let mut c = best.clone();
            c[WORK].remove(at);
            if !attempt(one, f, seed, &class, c, &mut best, &mut best_out, &mut tries) {
                at += 1;
            }
        }
        for at in 0..best[WORK].len() {
            for m in [1u64, 2, 3, 4, 5] {
                if start.elapsed() > budget || at >= best[WORK].len() || best[WORK][at] <= m {
                    break;
                }
                let mut c = best.clone();
                c[WORK][at] = m;
                if attempt(one, f, seed, &class, c, &mut best, &mut best_out, &mut tries) {
                    break;
                }
            }
        }
        if nonzero(&best) == before && round > 0 {
            break;
        }
    }
    (best, best_out, tries)
}

const SNAME: [&str; NSTREAM] = ["work", "sched", "net", "fault"];

fn choices_json(v: &[Vec<u64>]) -> Value {
    let mut m = serde_json::Map::new();
    for s in 0..NSTREAM {
        let sparse: Vec<Value> = v[s].iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| json!([i, x.to_string()])).collect();
        m.insert(SNAME[s].into(), Value::Array(sparse));
    }
    Value::Object(m)
}
fn choices_from(v: &Value) -> Vec<Vec<u64>> {
    (0..NSTREAM)
        .map(|s| {
            let mut out = vec![];
            for e in v[SNAME[s]].as_array().unwrap() {
                let i = e[0].as_u64().unwrap() as usize;
                let x: u64 = e[1].as_str().unwrap().parse().unwrap();
                if out.len() <= i {
                    out.resize(i + 1, 0);
                }
                out[i] = x;
            }
            out
        })
        .collect()
}

// ------------------------------------------------------------- commands

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}

struct RootGuard(String);
impl Drop for RootGuard {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn check(p: &Prop, verif: &str) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let workers = env_u64("SIM_WORKERS", cores().len().min(8) as u64) as usize;
    let runs = env_u64("SIM_RUNS", if thorough { p.thorough_runs } else { p.quick_runs } as u64) as u32;
    let limit = Duration::from_secs(env_u64("SIM_SECONDS", if thorough { 780 } else { 60 }));
    let root = scratch_root();
    let _g = RootGuard(root.clone());
    println!("property={} seed={} tier={} runs={} workers={}", p.id, seed, if thorough { "thorough" } else { "quick" }, runs, workers);
    let r = batch(p, seed, runs, workers, limit, &root, false);
    let mut one = Single::new(&root);
    let mut r = r;
    if r.first_violation.is_none() {
        // runs that hit the real-time limit are judged alone, with a wide one
        let slow: Vec<usize> = (0..r.recs.len()).filter(|i| r.recs[*i].sig == libc::SIGALRM as u32).collect();
        ALARM.store(120, Ordering::Relaxed);
        for (n, i) in slow.into_iter().enumerate() {
            if n < 2 {
                let o = one.run(p.variants[i % p.variants.len()].1, seed_of(seed, p.id, i as u64), None, false);
                r.recs[i].verdict = o.verdict;
                if o.verdict == V_VIOLATION {
                    r.first_violation = Some(i as u32);
                    break;
                }
            } else {
                r.recs[i].verdict = V_INCONCLUSIVE;
            }
        }
        ALARM.store(20, Ordering::Relaxed);
        r.first_harness = r.recs.iter().position(|r| r.verdict == V_HARNESS).map(|x| x as u32);
    }
    let mut violations = 0;
    let mut replay_path = String::new();
    let mut code = 0;
    let mut vio = Value::Null;
    if let Some(i) = r.first_violation {
        let (vname, f) = p.variants[i as usize % p.variants.len()];
        let rs = seed_of(seed, p.id, i as u64);
        let hang = r.recs[i as usize].sig == libc::SIGALRM as u32;
        if hang {
            ALARM.store(61, Ordering::Relaxed);
        }
        let first = one.run(f, rs, None, false);
        if first.verdict != V_VIOLATION {
            println!("ERROR run {i} (seed {rs}) reported a violation that its re-execution does not show: the simulation is not deterministic");
            code = 3;
        } else {
            let shrink = if hang { 0 } else { env_u64("SIM_SHRINK", 45) };
            let (best, out, tries) = minimise(&mut one, f, rs, &first, Duration::from_secs(shrink));
            let fin = one.run(f, rs, Some(&best), true);
            let log = one.shm().log_text();
            let same = fin.verdict == V_VIOLATION && fin.class == first.class;
            let _ = std::fs::create_dir_all(format!("{verif}/replays"));
            replay_path = format!("{verif}/replays/{}-{}.json", p.id, rs);
            let lines: Vec<&str> = log.lines().collect();
            let tail: Vec<&str> = lines.iter().rev().take(400).rev().copied().collect();
            let doc = json!({
                "property": p.id, "variant": vname, "seed": rs.to_string(), "run_index": i, "base_seed": seed,
                "class": fin.class, "detail": fin.detail, "trace_hash": format!("{:016x}", fin.trace),
                "minimised_in": tries, "events": lines.len(),
                "nonzero_choices": {"before": nonzero(&expand(rs, &first.draws)), "after": nonzero(&best)},
                "choices": choices_json(&best),
                "event_log_tail": tail,
            });
            std::fs::write(&replay_path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
            let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&replay_path).arg("-q").stdout(std::process::Stdio::null()).status();
            let fresh = matches!(st, Ok(s) if s.code() == Some(1));
            println!("violation: {}", out.class);
            for l in fin.detail.lines().take(30) {
                println!("  {l}");
            }
            println!(
                "minimised in {tries} runs, non-zero choices work/sched/net/fault {:?} -> {:?}; replay in this process: {}, in a fresh one: {}",
                nonzero(&expand(rs, &first.draws)), nonzero(&best), same, fresh
            );
            if !same || !fresh {
                println!("WARNING: the replay does not reproduce the violation");
            }
            violations = 1;
            vio = json!({"class": fin.class, "replay": replay_path, "run_index": i, "seed": rs.to_string(), "fresh_process_replay_ok": fresh});
            println!("VIOLATION property={} replay={}", p.id, replay_path);
            code = 1;
        }
    }
    if let Some(i) = r.first_harness {
        let (vname, f) = p.variants[i as usize % p.variants.len()];
        let o = one.run(f, seed_of(seed, p.id, i as u64), None, false);
        println!("ERROR harness failure in run {i} variant {vname} seed {}: {} {}", seed_of(seed, p.id, i as u64), o.class, o.detail);
        if code == 0 {
            code = 2;
        }
    }
    // samples
    let mut samples = vec![];
    for i in 0..(p.variants.len().max(3)).min(6).min(r.ran as usize) {
        let (vname, f) = p.variants[i % p.variants.len()];
        let rs = seed_of(seed, p.id, i as u64);
        let o = one.run(f, rs, None, true);
        let log = one.shm().log_text();
        let s = one.shm();
        let lines: Vec<String> = log.lines().filter(|l| l.contains('#')).take(12).map(|l| l.trim().to_string()).collect();
        samples.push(json!({"variant": vname, "seed": rs.to_string(), "verdict": o.verdict, "run": o.detail.chars().take(600).collect::<String>(),
            "switches": s.switches, "sim_us": s.sim_ns / 1000, "events": log.lines().count(), "notes": lines}));
    }
    let done: Vec<&Rec> = r.recs.iter().filter(|x| x.verdict != V_NONE).collect();
    let distinct: HashSet<u64> = done.iter().filter(|x| (x.verdict == V_OK || x.verdict == V_VIOLATION) && x.switches >= 4).map(|x| x.trace).collect();
    let dsched: HashSet<u64> = done.iter().map(|x| x.sched).collect();
    let incon = done.iter().filter(|x| x.verdict == V_INCONCLUSIVE).count();
    let sim_s: f64 = done.iter().map(|x| x.sim_ns as f64 / 1e9).sum();
    let mut faults = serde_json::Map::new();
    let mut probes = serde_json::Map::new();
    let mut other = serde_json::Map::new();
    for (n, c) in &r.counters {
        if let Some(f) = n.strip_prefix("fault.") {
            faults.insert(f.into(), json!({"fired": c, "runs": r.counters.get(&format!("runs_with.{f}")).copied().unwrap_or(0)}));
        } else if let Some(f) = n.strip_prefix("probe.") {
            probes.insert(f.into(), json!(c));
        } else if !n.starts_with("runs_with.") {
            other.insert(n.clone(), json!(c));
        }
    }
    let per_variant: Vec<Value> = p.variants.iter().enumerate().map(|(vi, v)| {
        let n = r.recs.iter().enumerate().filter(|(i, x)| i % p.variants.len() == vi && x.verdict != V_NONE).count();
        json!({"variant": v.0, "runs": n})
    }).collect();
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r.ran,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("{} One evaluation is one simulated run, a pure function of its seed. Non-trivial: it reached a verdict on the oracle and switched threads at least 4 times; distinct: by the hash of its full event trace (thread, operation, arguments, virtual time).", p.rule),
            "samples": samples,
            "runs_per_hour": (r.ran as f64 / r.wall * 3600.0) as u64,
            "seeds_per_hour": (r.ran as f64 / r.wall * 3600.0) as u64,
            "simulated_seconds": sim_s,
            "distinct_schedules": dsched.len(),
            "schedule_measure": "hash of the sequence of threads chosen at every scheduling point",
            "thread_switches": done.iter().map(|x| x.switches).sum::<u64>(),
            "edge_preemptions": done.iter().map(|x| x.preemptions).sum::<u64>(),
            "interposed_operations": done.iter().map(|x| x.ops).sum::<u64>(),
            "edges_executed": done.iter().map(|x| x.edges).sum::<u64>(),
            "distinct_edges_covered": r.cov_edges,
            "edges_instrumented": kernel::guards(),
            "max_threads_in_a_run": done.iter().map(|x| x.threads).max().unwrap_or(0),
            "inconclusive_runs": incon,
            "runs_per_variant": per_variant,
            "faults_injected": faults,
            "rare_condition_probes": probes,
            "other_counters": other,
            "components_real": p.real,
            "components_stubbed": p.stubs,
            "violation": vio,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!(
        "runs={} distinct={} schedules={} inconclusive={} sim={:.1}s wall={:.1}s edges={} verdict={}",
        r.ran, distinct.len(), dsched.len(), incon, sim_s, r.wall, r.cov_edges,
        match code { 0 => "held", 1 => "VIOLATED", _ => "ERROR" }
    );
    if code == 0 && (r.ran == 0 || incon * 4 > r.ran as usize) {
        println!("ERROR too many inconclusive runs");
        code = 2;
    }
    let _ = replay_path;
    code
}

pub fn replay(find: impl Fn(&str) -> Option<&'static Prop>, path: &str, quiet: bool) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let p = match find(doc["property"].as_str().unwrap()) {
        Some(p) => p,
        None => {
            println!("unknown property");
            return 2;
        }
    };
    let vn = doc["variant"].as_str().unwrap();
    let f = match p.variants.iter().find(|v| v.0 == vn) {
        Some(v) => v.1,
        None => {
            println!("unknown variant");
            return 2;
        }
    };
    let root = scratch_root();
    let _g = RootGuard(root.clone());
    let mut one = Single::new(&root);
    pin(cores()[0]);
    let ex = choices_from(&doc["choices"]);
    if doc["class"].as_str() == Some(HANG) {
        ALARM.store(61, Ordering::Relaxed);
    }
    let seed: u64 = doc["seed"].as_str().unwrap().parse().unwrap();
    let o = one.run(f, seed, Some(&ex), true);
    if !quiet {
        print!("{}", one.shm().log_text());
    }
    println!("class: {}\n{}", o.class, o.detail);
    let want = doc["class"].as_str().unwrap();
    let th = format!("{:016x}", o.trace);
    if o.verdict == V_VIOLATION && o.class == want {
        if th != doc["trace_hash"].as_str().unwrap_or("") {
            println!("note: same violation, but the event trace differs from the recorded one (the code has changed since)");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    } else {
        println!("not reproduced: verdict {}", o.verdict);
        0
    }
}

/// Run the same seeds twice at different worker counts and compare everything.
pub fn determinism(p: &Prop, n: u32) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let root = scratch_root();
    let _g = RootGuard(root.clone());
    let lim = Duration::from_secs(900);
    let a = batch(p, seed, n, 8, lim, &root, true);
    let b = batch(p, seed, n, 3, lim, &root, true);
    let c = batch(p, seed, n, 24, lim, &root, true);
    let mut bad = 0;
    for i in 0..n as usize {
        let (x, y, z) = (a.recs[i], b.recs[i], c.recs[i]);
        let d = |p: Rec, q: Rec| p.trace != q.trace || p.sched != q.sched || p.verdict != q.verdict || p.edges != q.edges || p.sim_ns != q.sim_ns;
        if (x.verdict != V_NONE && y.verdict != V_NONE && d(x, y)) || (x.verdict != V_NONE && z.verdict != V_NONE && d(x, z)) {
            bad += 1;
            if bad <= 5 {
                println!("run {i} differs: seed {} traces {:x} {:x} {:x} edges {} {} {} verdicts {} {} {}", seed_of(seed, p.id, i as u64), x.trace, y.trace, z.trace, x.edges, y.edges, z.edges, x.verdict, y.verdict, z.verdict);
            }
        }
    }
    println!("{}: {} runs x3 (8, 3 and 24 workers), {} divergent; {:.0} runs/s", p.id, n, bad, n as f64 / a.wall);
    (bad > 0) as i32
}

pub fn run_verbose(p: &Prop, variant: &str, seed: u64, index: bool) -> i32 {
    let root = scratch_root();
    let _g = RootGuard(root.clone());
    let mut one = Single::new(&root);
    pin(cores()[0]);
    let (v, seed) = if index {
        let i = seed;
        (p.variants[i as usize % p.variants.len()], seed_of(env_u64("VERIF_SEED", 1), p.id, i))
    } else {
        (*p.variants.iter().find(|v| v.0 == variant).expect("variant"), seed)
    };
    let o = one.run(v.1, seed, None, true);
    print!("{}", one.shm().log_text());
    println!("verdict {} class '{}' draws {:?} edges {} switches {} sim {}us\n{}", o.verdict, o.class, o.draws, one.shm().edges, one.shm().switches, one.shm().sim_ns / 1000, o.detail);
    for (n, c) in one.shm().counters() {
        println!("  {n} = {c}");
    }
    0
}
