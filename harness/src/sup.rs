//! Supervisor, workers, shrinking and replay.

use crate::props::{Prop, PROPS};
use crate::world::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info
            .location()
            .map(|l| {
                let f = Path::new(l.file()).file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} ({at})");
            }
        });
        if std::env::var_os("ZSIM_BT").is_some() {
            eprintln!("{msg} {at}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// One run. The result is a function of (scenario, seed or tape, code).
pub fn one_run(prop: &'static Prop, scenario: usize, seed: u64, tape: Option<Vec<u64>>, trace: bool) -> World {
    reset(seed, tape, trace, prop.relevant);
    let f = prop.scenarios[scenario].2;
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(p) = r {
        if p.downcast_ref::<SimAbort>().is_none() {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            viol(K::Panic, || format!("panic: {m}"));
        }
    }
    finish()
}

fn first_relevant(prop: &Prop, w: &World) -> Option<Violation> {
    w.viol.iter().find(|v| (prop.relevant)(v.kind)).cloned()
}

pub fn run_seed(prop: &Prop, base: u64, index: u64) -> (usize, u64) {
    let mut h = mix(base ^ 0x5eed);
    for b in prop.id.bytes() {
        h = mix(h ^ u64::from(b));
    }
    let seed = mix(h ^ mix(index));
    // The rare scenarios are a part of every batch
    if let Ok(i) = usize::try_from(index) {
        if i < prop.scenarios.len() {
            return (i, seed);
        }
    }
    let total: u64 = prop.scenarios.iter().map(|s| s.1).sum();
    let mut v = mix(seed ^ 0xabcd) % total;
    let mut sc = 0;
    for (i, s) in prop.scenarios.iter().enumerate() {
        if v < s.1 {
            sc = i;
            break;
        }
        v -= s.1;
    }
    (sc, seed)
}

fn shrink(prop: &'static Prop, sc: usize, tape: Vec<u64>, kind: K, limit: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let mut test = |t: &[u64]| -> bool {
        tries += 1;
        let w = one_run(prop, sc, 0, Some(t.to_vec()), false);
        first_relevant(prop, &w).is_some_and(|v| v.kind == kind)
    };
    let done = |start: &Instant| start.elapsed() > limit;
    // Truncate
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi && !done(&start) {
        let mid = (lo + hi) / 2;
        if test(&best[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() && test(&best[..hi]) {
        best.truncate(hi);
    }
    loop {
        let before = best.clone();
        let mut size = 64usize.min(best.len().max(1));
        while size > 0 && !done(&start) {
            let mut i = 0;
            while i + size <= best.len() && !done(&start) {
                let mut t = best.clone();
                t.drain(i..i + size);
                if test(&t) {
                    best = t;
                } else {
                    i += size;
                }
            }
            // Zero whole chunks
            let mut i = 0;
            while i + size <= best.len() && !done(&start) {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    t[i..i + size].fill(0);
                    if test(&t) {
                        best = t;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if done(&start) {
                break;
            }
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi && !done(&start) {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if test(&t) {
                    best = t;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || done(&start) {
            break;
        }
    }
    (best, tries)
}

fn replay_value(prop: &'static Prop, sc: usize, seed: u64, tape: Option<&[u64]>, v: &Violation, w: Option<&World>, orig_len: usize) -> Value {
    json!({
        "property": prop.id,
        "scenario": prop.scenarios[sc].0,
        "seed": seed.to_string(),
        "tape": tape,
        "original_tape_length": orig_len,
        "violation": {"kind": format!("{:?}", v.kind), "message": v.msg},
        "event_log_hash": w.map(|w| format!("{:016x}", w.hash)),
        "faults_in_run": w.map(|w| fault_map(&w.faults)),
        "trace": w.and_then(|w| w.trace.clone()),
        "how_to_replay": "./check.sh replay <this file>   (run in /verif)",
    })
}

fn fault_map(f: &[u64]) -> BTreeMap<&'static str, u64> {
    FAULT_NAMES.iter().copied().zip(f.iter().copied()).filter(|x| x.1 > 0).collect()
}

#[derive(Default)]
struct Stats {
    runs: u64,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    faulty_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    sim_ns: f64,
    polls: u64,
    bytes: u64,
    events: u64,
    rechecked: u64,
    nondet: u64,
    unrepro: u64,
    other: BTreeMap<String, u64>,
}

pub fn worker(args: &[String]) {
    let prop = find(&args[0]);
    let base: u64 = args[1].parse().unwrap();
    let idx: u64 = args[2].parse().unwrap();
    let n: u64 = args[3].parse().unwrap();
    let millis: u64 = args[4].parse().unwrap();
    let shrink_ms: u64 = args[5].parse().unwrap();
    let dir = PathBuf::from(&args[6]);
    let only: Option<u64> = args.get(7).map(|s| s.parse().unwrap());
    let status = std::fs::File::create(dir.join(format!("status{idx}"))).unwrap();
    let start = Instant::now();
    let mut st = Stats::default();
    let mut found = Value::Null;
    let mut samples: Vec<Value> = Vec::new();
    let mut i = idx;
    if let Some(o) = only {
        i = o;
    }
    loop {
        if only.is_none() && start.elapsed() > Duration::from_millis(millis) {
            break;
        }
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        let (sc, seed) = run_seed(prop, base, i);
        let want_sample = samples.len() < 2 && i % 7 == 3;
        let w = one_run(prop, sc, seed, None, want_sample);
        st.runs += 1;
        *st.scenarios.entry(prop.scenarios[sc].0.to_string()).or_default() += 1;
        let mut any = false;
        for (k, f) in w.faults.iter().enumerate() {
            if *f > 0 {
                any = true;
                *st.faults.entry(FAULT_NAMES[k].into()).or_default() += f;
                *st.faulty_runs.entry(FAULT_NAMES[k].into()).or_default() += 1;
            }
        }
        for (k, v) in &w.probes {
            *st.probes.entry((*k).to_string()).or_default() += v;
        }
        if any && w.bytes_out > 0 && st.distinct.len() < 4_000_000 {
            st.distinct.insert(w.hash);
        }
        if st.states.len() < 1_000_000 {
            st.states.extend(&w.states);
        }
        st.sim_ns += w.now as f64;
        st.polls += w.polls;
        st.bytes += w.bytes_out;
        st.events += w.log_len;
        if want_sample {
            let t = w.trace.clone().unwrap_or_default();
            if t.len() > 3 {
                samples.push(json!({"seed": seed.to_string(), "run": i, "scenario": prop.scenarios[sc].0,
                    "faults": fault_map(&w.faults), "bytes_delivered": w.bytes_out,
                    "events": w.log_len, "log_hash": format!("{:016x}", w.hash),
                    "trace_head": t.iter().take(14).collect::<Vec<_>>() }));
            }
        }
        for v in &w.viol {
            if !(prop.relevant)(v.kind) {
                *st.other.entry(format!("{:?}", v.kind)).or_default() += 1;
            }
        }
        // Determinism: the recorded tape has to give the same event log
        if i % 41 == 5 {
            let again = one_run(prop, sc, 0, Some(w.tape.clone()), false);
            st.rechecked += 1;
            if again.hash != w.hash {
                st.nondet += 1;
            }
        }
        if let Some(v) = first_relevant(prop, &w) {
            let mut ok = false;
            for _ in 0..20 {
                let again = one_run(prop, sc, 0, Some(w.tape.clone()), false);
                if first_relevant(prop, &again).is_some_and(|x| x.kind == v.kind) {
                    ok = true;
                    break;
                }
            }
            if ok {
                let n0 = w.tape.len();
                let (tape, tries) = shrink(prop, sc, w.tape.clone(), v.kind, Duration::from_millis(shrink_ms));
                let mut last = one_run(prop, sc, 0, Some(tape.clone()), true);
                for _ in 0..20 {
                    if first_relevant(prop, &last).is_some() {
                        break;
                    }
                    last = one_run(prop, sc, 0, Some(tape.clone()), true);
                }
                let v2 = first_relevant(prop, &last).unwrap_or(v);
                let mut r = replay_value(prop, sc, seed, Some(&tape), &v2, Some(&last), n0);
                r["run"] = json!(i);
                r["shrink_runs"] = json!(tries);
                found = r;
                break;
            }
            st.unrepro += 1;
            eprintln!("note: a violation of run {i} did not reproduce: {:?} {}", v.kind, v.msg);
        }
        if only.is_some() {
            break;
        }
        i += n;
    }
    let out = json!({
        "found": found,
        "runs": st.runs,
        "faults": st.faults,
        "faulty_runs": st.faulty_runs,
        "probes": st.probes,
        "scenarios": st.scenarios,
        "sim_ns": st.sim_ns,
        "polls": st.polls,
        "bytes": st.bytes,
        "events": st.events,
        "rechecked": st.rechecked,
        "nondet": st.nondet,
        "unrepro": st.unrepro,
        "other": st.other,
        "samples": samples,
    });
    // Sets are large, they go through binary files
    let dump = |name: &str, s: &HashSet<u64>| {
        let mut v = Vec::with_capacity(s.len() * 8);
        for x in s {
            v.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(dir.join(name), v).unwrap();
    };
    dump(&format!("distinct{idx}"), &st.distinct);
    dump(&format!("states{idx}"), &st.states);
    std::fs::write(dir.join(format!("result{idx}.tmp")), out.to_string()).unwrap();
    std::fs::rename(dir.join(format!("result{idx}.tmp")), dir.join(format!("result{idx}"))).unwrap();
}

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    })
}

fn limit_memory(gb: u64) {
    let l = libc::rlimit {
        rlim_cur: gb << 30,
        rlim_max: gb << 30,
    };
    // SAFETY: plain system call.
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

struct Wk {
    idx: u64,
    child: Option<Child>,
    last: u64,
    since: Instant,
}

fn spawn(prop: &Prop, base: u64, idx: u64, n: u64, millis: u64, shrink_ms: u64, dir: &Path, only: Option<u64>) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker")
        .args([prop.id, &base.to_string(), &idx.to_string(), &n.to_string(), &millis.to_string(), &shrink_ms.to_string()])
        .arg(dir);
    if let Some(o) = only {
        c.arg(o.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::null());
    if std::env::var_os("ZSIM_BT").is_none() {
        c.stderr(Stdio::null());
    }
    use std::os::unix::process::CommandExt as _;
    // SAFETY: only system calls between fork and exec.
    unsafe {
        c.pre_exec(|| {
            limit_memory(3);
            Ok(())
        });
    }
    c.spawn().expect("worker starts")
}

fn status_of(dir: &Path, idx: u64) -> Option<u64> {
    let b = std::fs::read(dir.join(format!("status{idx}"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    if std::fs::write(shm.join(".zsim-probe"), b"x").is_ok() {
        let _ = std::fs::remove_file(shm.join(".zsim-probe"));
        return shm;
    }
    std::env::temp_dir()
}

/// Runs the check of one property. Returns the exit code.
pub fn check(id: &str, tier: &str, base: u64, verif: &Path) -> i32 {
    let prop = find(id);
    let start = Instant::now();
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let n = cores.clamp(2, 8);
    let default_ms = if tier == "thorough" { 600_000 } else { 25_000 };
    let millis: u64 = std::env::var("ZSIM_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(default_ms);
    let shrink_ms = if tier == "thorough" { 60_000 } else { 15_000 };
    let dir = scratch_base().join(format!("zsim-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let _scratch = Scratch(dir.clone());
    // SAFETY: workers inherit this variable, set before any thread exists.
    unsafe { std::env::set_var("ZSIM_SCRATCH", &dir) };

    let mut wks: Vec<Wk> = (0..n)
        .map(|idx| Wk {
            idx,
            child: Some(spawn(prop, base, idx, n, millis, shrink_ms, &dir, None)),
            last: u64::MAX,
            since: Instant::now(),
        })
        .collect();
    let mut suspects: Vec<(u64, String)> = Vec::new();
    let mut results: Vec<Value> = Vec::new();
    let hang = Duration::from_secs(30);
    let mut stop_all = false;
    loop {
        let mut running = false;
        for k in &mut wks {
            let Some(c) = &mut k.child else { continue };
            running = true;
            match c.try_wait() {
                Ok(Some(status)) => {
                    k.child = None;
                    match std::fs::read(dir.join(format!("result{}", k.idx))) {
                        Ok(b) => {
                            let v: Value = serde_json::from_slice(&b).unwrap();
                            if !v["found"].is_null() {
                                stop_all = true;
                            }
                            results.push(v);
                        }
                        Err(_) => {
                            let s = status_of(&dir, k.idx).unwrap_or(k.idx);
                            suspects.push((s, format!("the process ended abnormally ({status})")));
                            stop_all = true;
                        }
                    }
                }
                Ok(None) => {
                    let s = status_of(&dir, k.idx).unwrap_or(u64::MAX);
                    if s != k.last {
                        k.last = s;
                        k.since = Instant::now();
                    } else if k.since.elapsed() > hang + Duration::from_millis(shrink_ms) {
                        let _ = c.kill();
                        let _ = c.wait();
                        k.child = None;
                        suspects.push((s, "the run does not end".into()));
                        stop_all = true;
                    }
                }
                Err(_) => k.child = None,
            }
        }
        if !running {
            break;
        }
        if stop_all && start.elapsed() > Duration::from_secs(2) {
            // Something was found: the others may finish shrinking for a moment only
            let limit = Instant::now() + Duration::from_millis(200);
            while Instant::now() < limit {
                std::thread::sleep(Duration::from_millis(20));
            }
            for k in &mut wks {
                if let Some(c) = &mut k.child {
                    if let Ok(Some(_)) = c.try_wait() {
                        continue;
                    }
                    let _ = c.kill();
                    let _ = c.wait();
                    k.child = None;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }

    let mut found: Vec<Value> = results.iter().filter(|v| !v["found"].is_null()).map(|v| v["found"].clone()).collect();
    found.sort_by_key(|v| v["run"].as_u64());

    // Crashes and hangs are confirmed in a fresh process with more time
    if found.is_empty() {
        suspects.sort();
        for (run, what) in &suspects {
            let sub = dir.join("again");
            let _ = std::fs::create_dir_all(&sub);
            let mut c = spawn(prop, base, 0, 1, 0, shrink_ms, &sub, Some(*run));
            let t = Instant::now();
            let mut ended = None;
            while t.elapsed() < Duration::from_secs(90) {
                if let Ok(Some(s)) = c.try_wait() {
                    ended = Some(s);
                    break;
                }
                std::thread::sleep(Duration::from_millis(50));
            }
            if ended.is_none() {
                let _ = c.kill();
                let _ = c.wait();
            }
            let res = std::fs::read(sub.join("result0")).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            match res {
                Some(v) => {
                    if !v["found"].is_null() {
                        found.push(v["found"].clone());
                        break;
                    }
                    eprintln!("note: run {run}: {what}, but not when repeated alone");
                }
                None => {
                    let (sc, seed) = run_seed(prop, base, *run);
                    let v = Violation {
                        kind: if ended.is_none() { K::Stall } else { K::Panic },
                        msg: what.clone(),
                    };
                    let mut r = replay_value(prop, sc, seed, None, &v, None, 0);
                    r["run"] = json!(run);
                    r["base_seed"] = json!(base);
                    found.push(r);
                    break;
                }
            }
        }
    }

    // Merge
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    for idx in 0..n {
        for (name, set) in [("distinct", &mut distinct), ("states", &mut states)] {
            if let Ok(b) = std::fs::read(dir.join(format!("{name}{idx}"))) {
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    let sum = |k: &str| results.iter().filter_map(|v| v[k].as_u64()).sum::<u64>();
    let sumf = |k: &str| results.iter().filter_map(|v| v[k].as_f64()).sum::<f64>();
    let merged = |k: &str| -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for v in &results {
            if let Some(o) = v[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let samples: Vec<Value> = results.iter().filter_map(|v| v["samples"].as_array()).flatten().take(4).cloned().collect();
    let wall = start.elapsed().as_secs_f64();
    let runs = sum("runs");
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": "One evaluation is one simulated run: a choice tape drawn from one seed decides the archive, the clients' operations, every scheduling step and every fault. A run counts as non-trivial if at least one fault or disturbance really fired and at least one byte was delivered and checked; distinct means a different hash of the whole event log.",
            "samples": samples,
            "scenarios": merged("scenarios"),
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": sumf("sim_ns") / 1e9,
            "events_logged": sum("events"),
            "polls": sum("polls"),
            "bytes_checked": sum("bytes"),
            "faults_injected": merged("faults"),
            "runs_with_fault": merged("faulty_runs"),
            "probes": merged("probes"),
            "distinct_states": states.len(),
            "distinct_states_measure": "(archive zone before and after the poll, outcome, pending/failed before, sources open before and after, source operations, CRC known)",
            "determinism_rechecks": sum("rechecked"),
            "determinism_mismatches": sum("nondet"),
            "unreproducible": sum("unrepro"),
            "violations_outside_this_property": merged("other"),
            "real_components": prop.real,
            "stubbed_components": prop.stub,
            "workers": n,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": found.len(),
    });
    let evdir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{id} {tier} seed={base}: {runs} runs, {} distinct, {} states, {:.0} s simulated, {:.1} s wall, determinism {}/{} ok",
        distinct.len(),
        states.len(),
        sumf("sim_ns") / 1e9,
        wall,
        sum("rechecked") - sum("nondet"),
        sum("rechecked"),
    );
    if let Some(v) = found.first() {
        let rdir = verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{}.json", v["seed"].as_str().unwrap_or("x")));
        std::fs::write(&path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
        println!("{}: {}", v["violation"]["kind"].as_str().unwrap_or(""), v["violation"]["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if runs == 0 {
        eprintln!("no run was made");
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let prop = find(v["property"].as_str().unwrap());
    let name = v["scenario"].as_str().unwrap();
    let sc = prop.scenarios.iter().position(|s| s.0 == name).expect("scenario exists");
    let seed: u64 = v["seed"].as_str().unwrap().parse().unwrap();
    let tape: Option<Vec<u64>> = serde_json::from_value(v["tape"].clone()).ok();
    let dir = scratch_base().join(format!("zsim-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let _scratch = Scratch(dir.clone());
    // SAFETY: no other thread exists.
    unsafe { std::env::set_var("ZSIM_SCRATCH", &dir) };
    limit_memory(3);
    let w = one_run(prop, sc, seed, tape, true);
    for l in w.trace.iter().flatten() {
        println!("{l}");
    }
    println!("event log hash {:016x} (recorded {})", w.hash, v["event_log_hash"].as_str().unwrap_or("-"));
    match first_relevant(prop, &w) {
        Some(x) => {
            println!("{:?}: {}", x.kind, x.msg);
            println!("VIOLATION property={} replay={path}", prop.id);
            let _ = std::io::stdout().flush();
            1
        }
        None => {
            println!("no violation of {}", prop.id);
            0
        }
    }
}

/// Development: many runs in this process, printing violations of any kind.
pub fn explore(id: &str, base: u64, count: u64, from: u64) {
    let prop = find(id);
    let dir = scratch_base().join(format!("zsim-explore-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let _scratch = Scratch(dir.clone());
    // SAFETY: no other thread exists.
    unsafe { std::env::set_var("ZSIM_SCRATCH", &dir) };
    let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let t = Instant::now();
    let mut slow = (Duration::ZERO, 0);
    let mut nondet = 0;
    for i in from..from + count {
        let (sc, seed) = run_seed(prop, base, i);
        let t1 = Instant::now();
        let w = one_run(prop, sc, seed, None, false);
        if t1.elapsed() > slow.0 {
            slow = (t1.elapsed(), i);
        }
        if i % 4 == 0 {
            let again = one_run(prop, sc, 0, Some(w.tape.clone()), false);
            if again.hash != w.hash {
                nondet += 1;
                println!("run {i} ({}) is not deterministic", prop.scenarios[sc].0);
            }
        }
        for v in w.viol.iter().take(1) {
            let e = kinds.entry(format!("{:?}{}", v.kind, if (prop.relevant)(v.kind) { "" } else { " (other)" })).or_insert((0, i, v.msg.clone()));
            e.0 += 1;
        }
    }
    for (k, (n, first, msg)) in kinds {
        println!("{k}: {n} times, first run {first}: {msg}");
    }
    println!("{count} runs in {:?}, slowest {:?} (run {}), nondeterministic {nondet}", t.elapsed(), slow.0, slow.1);
}

/// Development: the trace of one run.
pub fn show(id: &str, base: u64, i: u64) {
    let prop = find(id);
    let dir = scratch_base().join(format!("zsim-show-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let _scratch = Scratch(dir.clone());
    // SAFETY: no other thread exists.
    unsafe { std::env::set_var("ZSIM_SCRATCH", &dir) };
    let (sc, seed) = run_seed(prop, base, i);
    let w = one_run(prop, sc, seed, None, true);
    println!("scenario {} seed {seed} tape {}", prop.scenarios[sc].0, w.tape.len());
    for l in w.trace.iter().flatten() {
        println!("{l}");
    }
    for v in &w.viol {
        println!("{:?}: {}", v.kind, v.msg);
    }
}
