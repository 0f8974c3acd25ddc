//! Command line driver: runs many seeds in forked children, minimises and replays violations,
//! checks determinism, writes evidence.
use crate::choice::{Choices, Record};
use crate::rt::{self, COV, Outcome, Report, Violation};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub property: &'static str,
    /// share of the runs of this property
    pub weight: u64,
    pub run: fn(),
    /// number of runs in the quick tier
    pub quick: u64,
}
pub struct Harness {
    pub name: &'static str,
    pub scenarios: Vec<Scenario>,
    /// property -> (what real code ran / what was a stub, how the workload is made)
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub harness: String,
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub record: Record,
    pub violation: Violation,
    pub trace_hash: u64,
    pub original_choices: usize,
    pub minimised_choices: usize,
    pub trace: Vec<String>,
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    tag: u64,
    start: Instant,
}
const WALL_LIMIT: Duration = Duration::from_secs(100);

fn spawn(sc: &Scenario, choices: Choices, seed: u64, trace: bool, tag: u64) -> Child {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let f = sc.run;
            std::panic::set_hook(Box::new(|info| {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                rt::note_panic(loc, rt::panic_text(info.payload()));
            }));
            // On a thread of its own: nothing thread-local (hash map keys, for instance) may come from
            // the parent process.
            let (fd, prop) = (p[1], sc.property);
            let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || rt::run_child(choices, seed, trace, fd, prop, &move || f()));
            let _ = t.expect("thread").join();
            libc::_exit(99);
        }
        libc::close(p[1]);
        let fl = libc::fcntl(p[0], libc::F_GETFL);
        libc::fcntl(p[0], libc::F_SETFL, fl | libc::O_NONBLOCK);
        Child { pid, fd: p[0], buf: vec![], tag, start: Instant::now() }
    }
}
/// Some(report) when finished.
fn poll_child(c: &mut Child) -> Option<Report> {
    let mut b = [0u8; 65536];
    loop {
        let r = unsafe { libc::read(c.fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
        if r > 0 {
            c.buf.extend_from_slice(&b[..r as usize]);
        } else if r == 0 {
            break;
        } else {
            if c.start.elapsed() > WALL_LIMIT {
                unsafe { libc::kill(c.pid, libc::SIGKILL) };
                let mut st = 0;
                unsafe { libc::waitpid(c.pid, &mut st, 0) };
                unsafe { libc::close(c.fd) };
                return Some(empty_report(Outcome::HarnessError("a run exceeded the wall clock limit".into())));
            }
            return None;
        }
    }
    unsafe { libc::close(c.fd) };
    let mut st = 0;
    unsafe { libc::waitpid(c.pid, &mut st, 0) };
    match serde_json::from_slice::<Report>(&c.buf) {
        Ok(r) => Some(r),
        Err(_) => {
            let m = if libc::WIFSIGNALED(st) { format!("process killed by signal {}", libc::WTERMSIG(st)) } else { format!("process exited with {}", libc::WEXITSTATUS(st)) };
            Some(empty_report(Outcome::Violation(Violation { class: "crash".into(), message: m })))
        }
    }
}
fn empty_report(outcome: Outcome) -> Report {
    Report { outcome, stats: BTreeMap::new(), record: Record::default(), trace_hash: 0, shape_hash: 0, sim_ns: 0, steps: 0, switches: 0, trace: vec![], nontrivial: false, sample: String::new() }
}
fn wait_any(cs: &mut Vec<Child>) -> (u64, Report) {
    loop {
        for i in 0..cs.len() {
            if let Some(r) = poll_child(&mut cs[i]) {
                let c = cs.swap_remove(i);
                return (c.tag, r);
            }
        }
        let mut pf: Vec<libc::pollfd> = cs.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
    }
}
fn run_one(sc: &Scenario, choices: Choices, seed: u64, trace: bool) -> Report {
    let mut v = vec![spawn(sc, choices, seed, trace, 0)];
    wait_any(&mut v).1
}
fn same_class(a: &Report, class: &str) -> bool {
    matches!(&a.outcome, Outcome::Violation(v) if v.class == class)
}

/// Delta-debugging over the choice streams: truncate, delete chunks, zero chunks, shrink values.
fn minimise(sc: &Scenario, seed: u64, rec: Record, class: &str, budget: Duration) -> Record {
    let t0 = Instant::now();
    let mut best = rec;
    let par = workers();
    let mut try_many = |cands: Vec<Record>| -> Option<Record> {
        // evaluate in parallel batches, take the first success in order
        let mut it = cands.into_iter().peekable();
        while it.peek().is_some() {
            if t0.elapsed() > budget {
                return None;
            }
            let batch: Vec<Record> = it.by_ref().take(par).collect();
            let mut cs: Vec<Child> = batch.iter().enumerate().map(|(i, r)| spawn(sc, Choices::replay(r.clone()), seed, false, i as u64)).collect();
            let mut ok: Vec<Option<Record>> = vec![None; batch.len()];
            while !cs.is_empty() {
                let (i, r) = wait_any(&mut cs);
                if same_class(&r, class) {
                    ok[i as usize] = Some(r.record);
                }
            }
            if let Some(r) = ok.into_iter().flatten().next() {
                return Some(r);
            }
        }
        None
    };
    let score = |r: &Record| -> (usize, u128) { (r.total(), r.streams.iter().flatten().map(|v| *v as u128).sum()) };
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // order: faults, schedule, workload
        for s in [2usize, 1, 0] {
            if best.streams.get(s).map_or(true, |x| x.is_empty()) {
                continue;
            }
            // truncation (exhausted streams read as 0)
            loop {
                let n = best.streams[s].len();
                let cands: Vec<Record> = [0, n / 8, n / 4, n / 2, n * 3 / 4, n * 7 / 8, n.saturating_sub(1)]
                    .iter()
                    .filter(|&&k| k < n)
                    .map(|&k| {
                        let mut c = best.clone();
                        c.streams[s].truncate(k);
                        c
                    })
                    .collect();
                match try_many(cands) {
                    Some(r) if score(&r) < score(&best) => {
                        best = r;
                        improved = true;
                    }
                    _ => break,
                }
                if t0.elapsed() > budget {
                    break;
                }
            }
            // chunk deletion and zeroing
            let mut size = (best.streams[s].len() / 2).max(1);
            while size >= 1 && t0.elapsed() < budget {
                let mut cands = vec![];
                let n = best.streams[s].len();
                let mut i = 0;
                while i < n && cands.len() < 400 {
                    let e = (i + size).min(n);
                    let mut c = best.clone();
                    c.streams[s].drain(i..e);
                    cands.push(c);
                    if best.streams[s][i..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c.streams[s][i..e].fill(0);
                        cands.push(c);
                    }
                    i = e;
                }
                match try_many(cands) {
                    Some(r) if score(&r) < score(&best) => {
                        best = r;
                        improved = true;
                        size = size.min((best.streams[s].len() / 2).max(1));
                    }
                    _ => {
                        if size == 1 {
                            break;
                        }
                        size /= 2;
                    }
                }
            }
        }
        // value shrinking for the workload stream, only when small
        if best.streams[0].len() <= 200 {
            for i in 0..best.streams[0].len() {
                if t0.elapsed() > budget || i >= best.streams[0].len() {
                    break;
                }
                let v = best.streams[0][i];
                if v == 0 {
                    continue;
                }
                let cands = [0, v / 2, v - 1]
                    .iter()
                    .filter(|x| **x < v)
                    .map(|x| {
                        let mut c = best.clone();
                        c.streams[0][i] = *x;
                        c
                    })
                    .collect();
                if let Some(r) = try_many(cands) {
                    if score(&r) < score(&best) {
                        best = r;
                        improved = true;
                    }
                }
            }
        }
    }
    best
}
fn workers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}
fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn no_aslr() {
    // So that a replay in a fresh process has the same address-space layout.
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NO_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
                let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                libc::setenv(c"SIM_NO_REEXEC".as_ptr(), c"1".as_ptr(), 1);
                libc::execv(exe.as_ptr(), ptrs.as_ptr());
            }
        }
    }
}

pub fn main_entry(h: Harness) -> ! {
    crate::net::init_trace();
    no_aslr();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&h, &args),
        Some("replay") => replay(&h, &args),
        Some("determinism") => determinism(&h, &args),
        Some("one") => one(&h, &args),
        _ => {
            eprintln!("usage: {} check|replay|determinism|one ...", args[0]);
            2
        }
    };
    std::process::exit(code)
}
fn seed_of(base: u64, sc: usize, i: u64) -> u64 {
    base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((sc as u64) << 48) ^ i.wrapping_mul(0xD134_2543_DE82_EF95)
}
fn one(h: &Harness, args: &[String]) -> i32 {
    let sc = h.scenarios.iter().find(|s| s.name == args[2]).expect("scenario");
    let seed: u64 = args[3].parse().unwrap();
    COV.init();
    let r = run_one(sc, Choices::random(seed), seed, true);
    for l in &r.trace {
        println!("{l}");
    }
    println!("{:?} stats={:?} steps={} switches={} sim_ms={} hash={:x} choices={:?}", r.outcome, r.stats, r.steps, r.switches, r.sim_ns / 1_000_000, r.trace_hash, r.record.streams.iter().map(|s| s.len()).collect::<Vec<_>>());
    0
}
fn determinism(h: &Harness, args: &[String]) -> i32 {
    let n: u64 = arg(args, "--runs").map_or(200, |s| s.parse().unwrap());
    let base: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    COV.init();
    let mut bad = 0;
    let mut replay_bad = 0;
    // what is on the parent's heap must not matter either
    let mut junk: Vec<Vec<u8>> = vec![];
    let only = arg(args, "--scenario");
    for (k, sc) in h.scenarios.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sc.name) {
            continue;
        }
        let mut hashes: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
        for round in 0..2 {
            if round == 1 {
                for i in 0..60_000usize {
                    junk.push(vec![1; 8 + (i * 7919) % 1500]);
                }
                let mut i = 0;
                junk.retain(|_| {
                    i += 1;
                    (i * 2654435761u64 >> 7) % 3 > 0
                });
            }
            let mut cs = vec![];
            let mut next = 0;
            let par = if round == 0 { workers() } else { 3 };
            while next < n || !cs.is_empty() {
                while next < n && cs.len() < par {
                    let seed = seed_of(base, k, next);
                    cs.push(spawn(sc, Choices::random(seed), seed, false, next));
                    next += 1;
                }
                let (t, r) = wait_any(&mut cs);
                let e = (r.trace_hash, r.steps ^ r.sim_ns);
                if round == 0 {
                    hashes.insert(t, e);
                } else if hashes[&t] != e {
                    bad += 1;
                    if bad < 10 {
                        println!("DIVERGED scenario={} run={} {:x?} {:x?} {:?}", sc.name, t, hashes[&t], e, r.outcome);
                    }
                }
            }
        }
        // record -> replay must give the same execution
        for i in 0..n.min(30) {
            let seed = seed_of(base, k, i);
            let a = run_one(sc, Choices::random(seed), seed, false);
            let b = run_one(sc, Choices::replay(a.record.clone()), seed, false);
            if a.trace_hash != b.trace_hash {
                replay_bad += 1;
                println!("REPLAY-DIVERGED scenario={} run={}", sc.name, i);
            }
        }
        println!("HASHES {} {:016x}", sc.name, hashes.values().fold(0u64, |a, b| a.rotate_left(3) ^ b.0));
    }
    println!("determinism: diverged={bad} replay_diverged={replay_bad}");
    if bad + replay_bad > 0 { 2 } else { 0 }
}
fn print_violation(h: &Harness, sc: &Scenario, seed: u64, rep: &Report, out_dir: &str, minimise_s: u64) -> Option<String> {
    let Outcome::Violation(v) = &rep.outcome else { return None };
    let (rec, orig) = if v.class == "crash" && rep.record.total() == 0 {
        (None, 0)
    } else {
        // first make sure it replays
        let r = run_one(sc, Choices::replay(rep.record.clone()), seed, false);
        if !same_class(&r, &v.class) {
            eprintln!("harness error: violation does not replay from its choice record: {v:?} -> {:?}", r.outcome);
            return None;
        }
        let n = rep.record.total();
        (Some(minimise(sc, seed, rep.record.clone(), &v.class, Duration::from_secs(minimise_s))), n)
    };
    let fin = match &rec {
        Some(r) => run_one(sc, Choices::replay(r.clone()), seed, true),
        None => run_one(sc, Choices::random(seed), seed, true),
    };
    let Outcome::Violation(fv) = &fin.outcome else {
        eprintln!("harness error: minimised run does not reproduce");
        return None;
    };
    let rp = Replay {
        harness: h.name.into(),
        property: sc.property.into(),
        scenario: sc.name.into(),
        seed,
        minimised_choices: rec.as_ref().map_or(0, |r| r.total()),
        record: rec.unwrap_or_default(),
        violation: fv.clone(),
        trace_hash: fin.trace_hash,
        original_choices: orig,
        trace: fin.trace.clone(),
    };
    std::fs::create_dir_all(out_dir).unwrap();
    let path = format!("{out_dir}/{}-{}-{:016x}.json", sc.property, sc.name, seed);
    std::fs::write(&path, serde_json::to_vec_pretty(&rp).unwrap()).unwrap();
    println!("violated: {} scenario={} seed={} class={} choices {}->{}", sc.property, sc.name, seed, fv.class, orig, rp.minimised_choices);
    println!("  {}", fv.message);
    let tail = rp.trace.len().saturating_sub(40);
    for l in &rp.trace[tail..] {
        println!("  | {l}");
    }
    Some(path)
}
fn known(property: &str) -> Vec<(String, String)> {
    // entries: {"property":..,"class":..,"contains":..,"what":..}
    let p = std::env::var("SIM_KNOWN").unwrap_or_default();
    let Ok(b) = std::fs::read(&p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_slice(&b).expect("known findings file");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == property)
                .map(|e| (e["class"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}
fn check(h: &Harness, args: &[String]) -> i32 {
    let prop = args[2].clone();
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let base: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    let secs: f64 = arg(args, "--secs").map_or(if tier == "quick" { 45.0 } else { 600.0 }, |s| s.parse().unwrap());
    let evidence = arg(args, "--evidence");
    let out_dir = arg(args, "--replays").unwrap_or("/tmp/sim-replays".into());
    let scs: Vec<(usize, &Scenario)> = h.scenarios.iter().enumerate().filter(|(_, s)| s.property == prop).collect();
    if scs.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let known = known(&prop);
    COV.init();
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut runs, mut inconcl, mut sim_ns, mut steps, mut switches, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut cs: Vec<Child> = vec![];
    let mut next: Vec<u64> = vec![0; scs.len()];
    let quota: Vec<u64> = scs.iter().map(|(_, s)| if tier == "quick" { s.quick } else { u64::MAX / 4 }).collect();
    let mut tags: BTreeMap<u64, (usize, u64)> = BTreeMap::new();
    let mut tag = 0u64;
    let mut found: Option<(usize, u64, Report)> = None;
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness_err: Option<String> = None;
    let par = workers();
    loop {
        while cs.len() < par && found.is_none() && harness_err.is_none() && t0.elapsed().as_secs_f64() < secs {
            // next scenario: the one with the lowest done/weight
            let Some(k) = (0..scs.len()).filter(|&k| next[k] < quota[k]).min_by_key(|&k| next[k] * 1000 / scs[k].1.weight.max(1)) else { break };
            let seed = seed_of(base, scs[k].0, next[k]);
            next[k] += 1;
            cs.push(spawn(scs[k].1, Choices::random(seed), seed, runs < 3, tag));
            tags.insert(tag, (k, seed));
            tag += 1;
        }
        if cs.is_empty() {
            break;
        }
        let (t, r) = wait_any(&mut cs);
        let (k, seed) = tags.remove(&t).unwrap();
        runs += 1;
        *per.entry(scs[k].1.name).or_default() += 1;
        for (a, b) in &r.stats {
            *stats.entry(a.clone()).or_default() += b;
        }
        sim_ns += r.sim_ns;
        steps += r.steps;
        switches += r.switches;
        if r.nontrivial {
            nontriv += 1;
            if distinct.insert(r.shape_hash) && samples.len() < 4 && !r.sample.is_empty() {
                samples.push(json!({"scenario": scs[k].1.name, "seed": seed, "run": r.sample, "steps": r.steps, "switches": r.switches, "sim_ms": r.sim_ns / 1_000_000}));
            }
        }
        match &r.outcome {
            Outcome::Ok => {}
            Outcome::Inconclusive(w) => {
                inconcl += 1;
                *stats.entry(format!("inconclusive: {w}")).or_default() += 1;
            }
            Outcome::HarnessError(e) => {
                if harness_err.is_none() {
                    harness_err = Some(format!("{e} (scenario {} seed {seed})", scs[k].1.name));
                }
            }
            Outcome::Violation(v) => {
                if let Some((_, what)) = known.iter().find(|(c, _)| *c == v.class) {
                    *known_hit.entry(what.clone()).or_default() += 1;
                } else if found.is_none() {
                    found = Some((k, seed, r));
                }
            }
        }
    }
    for (w, n) in &known_hit {
        println!("KNOWN-FINDING: property={prop} {w} (met in {n} runs)");
    }
    // listed findings are reported even when this run's seeds did not meet them
    for (_, w) in &known {
        if !known_hit.contains_key(w) {
            println!("KNOWN-FINDING: property={prop} {w} (not met by this run's seeds)");
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((k, seed, r)) = &found {
        violations = 1;
        let ms = if tier == "quick" { 40 } else { 90 };
        match print_violation(h, scs[*k].1, *seed, r, &out_dir, ms) {
            Some(p) => {
                println!("VIOLATION property={prop} replay={p}");
                code = 1;
            }
            None => {
                eprintln!("could not produce a replay for {:?}", r.outcome);
                code = 2;
            }
        }
    } else if let Some(e) = &harness_err {
        eprintln!("harness error: {e}");
        code = 2;
    } else if inconcl * 2 > runs {
        eprintln!("harness error: {inconcl} of {runs} runs were inconclusive");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let reached = COV.reached();
    println!(
        "{prop} [{tier}] runs={runs} distinct={} nontrivial={nontriv} inconclusive={inconcl} switches={switches} sim={:.1}s wall={wall:.1}s blocks={reached}/{} faults={faults:?} probes={probes:?}",
        distinct.len(),
        sim_ns as f64 / 1e9,
        rt::guards_total()
    );
    if let Some(p) = evidence {
        let ev = json!({
            "property": prop, "tier": tier, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": distinct.len(),
                "rule": format!("one evaluation is one simulated run of a seeded workload, schedule and fault sequence; a run is non-trivial if the scenario's own condition held (work done under concurrency or faults), and two runs are distinct if their sequences of context switches and recorded events differ. Scenarios: {}", scs.iter().map(|s| s.1.name).collect::<Vec<_>>().join(", ")),
                "samples": samples,
                "runs_per_scenario": per, "nontrivial_runs": nontriv, "inconclusive_runs": inconcl,
                "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
                "simulated_seconds": sim_ns as f64 / 1e9,
                "scheduling_decisions": switches, "preemption_points_executed": steps,
                "faults_injected": faults, "probes": probes,
                "instrumented_blocks_reached": reached, "instrumented_blocks_total": rt::guards_total(),
                "real_code": h.real, "stubbed": h.stub,
                "known_findings_met": known_hit,
            },
            "assumptions": ["context switches happen only at intercepted OS calls and at basic-block boundaries of instrumented crates; memory is sequentially consistent", "sampling: a clean batch is evidence, not proof"],
            "wall_s": wall, "violations": violations,
        });
        if let Some(d) = std::path::Path::new(&p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&p, serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    }
    code
}
fn replay(h: &Harness, args: &[String]) -> i32 {
    let rp: Replay = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file format");
    let sc = h.scenarios.iter().find(|s| s.name == rp.scenario).expect("scenario");
    COV.init();
    let ch = if rp.record.total() == 0 && rp.violation.class == "crash" { Choices::random(rp.seed) } else { Choices::replay(rp.record.clone()) };
    let r = run_one(sc, ch, rp.seed, true);
    for l in &r.trace {
        println!("{l}");
    }
    println!("{:?} trace_hash={:x} (recorded {:x})", r.outcome, r.trace_hash, rp.trace_hash);
    match &r.outcome {
        Outcome::Violation(v) if v.class == rp.violation.class => {
            println!("reproduced{}", if r.trace_hash == rp.trace_hash { " exactly" } else { " (same class, different execution)" });
            println!("VIOLATION property={} replay={}", rp.property, args[2]);
            1
        }
        _ => {
            println!("not reproduced");
            0
        }
    }
}
