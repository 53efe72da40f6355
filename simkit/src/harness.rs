//! Runs a property over many seeds (one forked process per simulated run), finds the first
//! violation, minimises it, writes and verifies the replay file, and writes the evidence.
use crate::ctx::{Ctx, Outcome, Violation};
use crate::rng::{fnv, key, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Info {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// A digest difference between two executions of one seed is itself a violation.
    pub digest_is_property: bool,
    pub expect_probes: &'static [&'static str],
}

pub trait Property: Sync {
    fn info(&self) -> Info;
    fn gen(&self, rng: &mut Rng, index: u64, thorough: bool) -> Value;
    fn run(&self, plan: &Value, ctx: &mut Ctx);
}

#[derive(Clone)]
enum Src {
    Seed { seed: u64, index: u64, thorough: bool },
    Plan(Value),
}

const CPU_LIMIT: u64 = 12;
const WALL_LIMIT: u64 = 150;

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn plan_of(p: &dyn Property, src: &Src) -> Value {
    match src {
        Src::Seed { seed, index, thorough } => p.gen(&mut Rng::keyed(&[*seed, fnv(p.info().id.as_bytes()), *index]), *index, *thorough),
        Src::Plan(v) => v.clone(),
    }
}

/// One simulated run in a process of its own.
fn run_one(p: &dyn Property, src: &Src, trace: bool, known: &[String], cpu: u64) -> Outcome {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Outcome { error: Some("pipe".into()), ..Default::default() };
        }
        std::io::stdout().flush().ok();
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Outcome { error: Some("fork".into()), ..Default::default() };
        }
        if pid == 0 {
            libc::close(fds[0]);
            let lim = |r, n: u64| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n + if r == libc::RLIMIT_CPU { 2 } else { 0 } };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, cpu);
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_AS, 3 << 30);
            let devnull = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            if !trace {
                libc::dup2(devnull, 2);
            }
            libc::dup2(devnull, 1);
            libc::dup2(devnull, 0);
            crate::ctx::install_panic_hook();
            crate::seams::set_hash_seed(0x5EED);
            crate::seams::set_now(1_700_000_000, 0);
            crate::seams::enter_sim();
            let plan = plan_of(p, src);
            let mut ctx = Ctx::new(trace, known.to_vec());
            let r = crate::ctx::catch(|| p.run(&plan, &mut ctx));
            if let Err(m) = r {
                if m.starts_with("SIM-BUG") {
                    ctx.out.error = Some(m);
                } else {
                    ctx.violate("panic", m);
                }
            }
            let s = serde_json::to_vec(&ctx.out).unwrap_or_default();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&s);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let end = Instant::now() + Duration::from_secs(WALL_LIMIT);
        let mut timed_out = false;
        loop {
            let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, left.max(0));
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            let mut chunk = [0u8; 65536];
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => break,
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let bad = |sig: &str, msg: String| Outcome { violation: Some(Violation { sig: sig.into(), msg }), nontrivial: true, ..Default::default() };
        if timed_out {
            return bad("hang", format!("no progress within {WALL_LIMIT} s of wall time"));
        }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                return bad("hang", format!("did not finish within {cpu} s of processor time (signal {sig})"));
            }
            return bad("abort", format!("process ended by signal {sig}"));
        }
        let code = libc::WEXITSTATUS(st);
        if code == 97 {
            return bad("deadlock", "every simulated task is blocked".into());
        }
        if code != 0 {
            return bad("abort", format!("process exited with status {code}"));
        }
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(e) => Outcome { error: Some(format!("outcome unreadable: {e}")), ..Default::default() },
        }
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    found: Option<(u64, Violation)>,
    error: Option<String>,
    known: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: Vec<u64>,
    digests: Vec<(u64, u64)>,
    sim_secs: u64,
    checks: u64,
    events: u64,
    switches: u64,
    schedules: u64,
    capped: bool,
}

/// Runs indices lo..hi over `workers` processes; every worker goes on until it is past the
/// lowest violating index, so the index reported does not depend on timing.
#[allow(clippy::too_many_arguments)]
fn batch(p: &dyn Property, seed: u64, lo: u64, hi: u64, thorough: bool, workers: u64, deadline: Instant, known: &[String]) -> Agg {
    unsafe {
        let shared = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *const AtomicU64;
        (*shared).store(u64::MAX, SeqCst);
        let mut kids = vec![];
        for w in 0..workers {
            let mut fds = [0i32; 2];
            libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut a = Agg::default();
                let mut i = lo + w;
                while i < hi && i < (*shared).load(SeqCst) {
                    if Instant::now() > deadline {
                        a.capped = true;
                        break;
                    }
                    let o = run_one(p, &Src::Seed { seed, index: i, thorough }, false, known, CPU_LIMIT);
                    a.runs += 1;
                    if let Some(e) = o.error {
                        a.error = Some(format!("run {i}: {e}"));
                        break;
                    }
                    if o.nontrivial {
                        a.nontrivial += 1;
                        a.states.push(o.state);
                    }
                    for (k, n) in &o.faults {
                        *a.faults.entry(k.clone()).or_default() += n;
                        *a.fault_runs.entry(k.clone()).or_default() += 1;
                    }
                    for (k, n) in &o.probes {
                        *a.probes.entry(k.clone()).or_default() += n;
                    }
                    for (k, n) in &o.known {
                        *a.known.entry(k.clone()).or_default() += n;
                    }
                    a.sim_secs += o.sim_secs;
                    a.checks += o.checks;
                    a.events += o.events;
                    a.switches += o.switches;
                    a.schedules += o.schedules;
                    if i < lo + 256 {
                        a.digests.push((i, o.digest));
                    }
                    if let Some(v) = o.violation {
                        a.found = Some((i, v));
                        (*shared).fetch_min(i, SeqCst);
                        break;
                    }
                    i += workers;
                }
                a.states.sort_unstable();
                a.states.dedup();
                let s = serde_json::to_vec(&a).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&s);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
        let mut all = Agg::default();
        let mut states: HashSet<u64> = HashSet::new();
        for (pid, fd) in kids {
            let mut f = std::fs::File::from_raw_fd(fd);
            let mut buf = vec![];
            let _ = f.read_to_end(&mut buf);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            let a: Agg = match serde_json::from_slice(&buf) {
                Ok(a) => a,
                Err(_) => {
                    all.error = Some("a worker died".into());
                    continue;
                }
            };
            all.runs += a.runs;
            all.nontrivial += a.nontrivial;
            all.sim_secs += a.sim_secs;
            all.checks += a.checks;
            all.events += a.events;
            all.switches += a.switches;
            all.schedules += a.schedules;
            all.capped |= a.capped;
            all.error = all.error.or(a.error);
            states.extend(a.states);
            all.digests.extend(a.digests);
            let add = |to: &mut BTreeMap<String, u64>, from: BTreeMap<String, u64>| {
                for (k, n) in from {
                    *to.entry(k).or_default() += n;
                }
            };
            add(&mut all.faults, a.faults);
            add(&mut all.fault_runs, a.fault_runs);
            add(&mut all.probes, a.probes);
            add(&mut all.known, a.known);
            if let Some((i, v)) = a.found {
                if all.found.as_ref().is_none_or(|(j, _)| i < *j) {
                    all.found = Some((i, v));
                }
            }
        }
        all.digests.sort_unstable();
        all.states = states.into_iter().collect();
        libc::munmap(shared as *mut libc::c_void, 4096);
        all
    }
}

fn known_for(id: &str) -> Vec<(String, String)> {
    let f = format!("{}/known_findings.json", root());
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    let mut out = vec![];
    if let Some(a) = v.get("findings").and_then(|a| a.as_array()) {
        for e in a {
            if e["property"] == id && e["status"] == "open" {
                out.push((e["signature"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    out
}

/// Writes the replay file for a violation, minimised, and returns its path.
fn report(p: &dyn Property, seed: u64, index: u64, thorough: bool, v: &Violation, known: &[String]) -> (String, Violation, bool) {
    let id = p.info().id;
    let src = Src::Seed { seed, index, thorough };
    let plan = plan_of(p, &src);
    let deadline = Instant::now() + Duration::from_secs(if v.sig == "hang" { 60 } else { 45 });
    let mut fails = |c: &Value| {
        let o = run_one(p, &Src::Plan(c.clone()), false, known, if v.sig == "hang" { 4 } else { CPU_LIMIT });
        o.error.is_none() && o.violation.as_ref().is_some_and(|x| x.sig == v.sig)
    };
    let (min, tried) = if fails(&plan) { crate::shrink::minimise(&plan, 600, deadline, &mut fails) } else { (plan.clone(), 0) };
    let o = run_one(p, &Src::Plan(min.clone()), true, known, CPU_LIMIT);
    let shown = o.violation.clone().unwrap_or_else(|| v.clone());
    let dir = format!("{}/runs", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{seed}-{index}.json");
    let trace_tail: Vec<&String> = o.trace.iter().rev().take(80).rev().collect();
    let doc = json!({"property": id, "seed": seed, "index": index, "tier": if thorough {"thorough"} else {"quick"},
        "violation": shown, "digest": format!("{:016x}", o.digest), "plan": min, "original_plan": plan,
        "minimisation_runs": tried, "trace": trace_tail});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    // Replay in a fresh process.
    let again = std::process::Command::new("/proc/self/exe").args(["replay", &path]).env("VERIF_ROOT", root()).output();
    let ok = again.map(|r| r.status.code() == Some(1)).unwrap_or(false);
    (path, shown, ok)
}

fn check(p: &dyn Property, seed: u64, thorough: bool, runs: Option<u64>, workers: u64, cap_s: u64) -> i32 {
    let info = p.info();
    let id = info.id;
    let t0 = Instant::now();
    let known = known_for(id);
    let sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let n = runs.unwrap_or(if thorough { info.thorough_runs } else { info.quick_runs });
    let a = batch(p, seed, 0, n, thorough, workers, t0 + Duration::from_secs(cap_s), &sigs);
    let search_s = t0.elapsed().as_secs_f64();
    if let Some(e) = &a.error {
        println!("ERROR property={id} {e}");
        return 2;
    }
    let mut status = 0;
    let mut violations = 0;
    if let Some((i, v)) = &a.found {
        let (path, shown, ok) = report(p, seed, *i, thorough, v, &sigs);
        println!("violation: {}: {}", shown.sig, shown.msg);
        if !ok {
            println!("note: the replay file did not reproduce it in a fresh process");
        }
        println!("VIOLATION property={id} replay={path}");
        status = 1;
        violations = 1;
    }
    // Determinism: the first runs again, on another number of workers.
    let sample = if thorough { 256 } else { 64 }.min(n);
    let mut mismatched = vec![];
    let mut compared = 0;
    if status == 0 {
        let b = batch(p, seed, 0, sample, thorough, 3, Instant::now() + Duration::from_secs(60), &sigs);
        let first: BTreeMap<u64, u64> = a.digests.iter().cloned().collect();
        for (i, d) in &b.digests {
            if let Some(x) = first.get(i) {
                compared += 1;
                if x != d {
                    mismatched.push(*i);
                }
            }
        }
        if let (Some(i), true) = (mismatched.first(), info.digest_is_property) {
            let plan = plan_of(p, &Src::Seed { seed, index: *i, thorough });
            let dir = format!("{}/runs", root());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{seed}-{i}.json");
            let doc = json!({"property": id, "seed": seed, "index": i, "violation": {"sig": "unrepeatable", "msg": "two executions of one seed differ"}, "plan": plan, "unrepeatable": true});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            println!("violation: unrepeatable: two executions of run {i} differ");
            println!("VIOLATION property={id} replay={path}");
            status = 1;
            violations = 1;
        }
    }
    for (s, what) in &known {
        let n = a.known.get(s).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {what} [{s}; met {n} times]");
    }
    // Samples, written out: the first and a later run with their traces.
    let mut samples = vec![];
    for i in [0u64, 1, 2, 7] {
        if samples.len() >= 2 || i >= n {
            break;
        }
        let src = Src::Seed { seed, index: i, thorough };
        let o = run_one(p, &src, true, &sigs, CPU_LIMIT);
        let mut tr = o.trace.clone();
        if tr.len() > 30 {
            tr.truncate(30);
            tr.push("...".into());
        }
        for t in tr.iter_mut() {
            if t.len() > 300 {
                *t = format!("{}...", t.chars().take(300).collect::<String>());
            }
        }
        let plan = plan_of(p, &src).to_string();
        let plan: String = plan.chars().take(1500).collect();
        samples.push(json!({"index": i, "plan": plan, "digest": format!("{:016x}", o.digest), "trace": tr}));
    }
    let stuck: Vec<&&str> = info.expect_probes.iter().filter(|p| a.probes.get(**p).copied().unwrap_or(0) == 0 && a.faults.get(**p).copied().unwrap_or(0) == 0).collect();
    let wall = t0.elapsed().as_secs_f64();
    let perh = |x: u64| (x as f64 / search_s.max(1e-6) * 3600.0).round();
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs, "distinct_nontrivial": a.states.len(), "rule": info.rule, "samples": samples,
            "nontrivial_runs": a.nontrivial, "seeds": a.runs, "runs_per_hour": perh(a.runs), "seeds_per_hour": perh(a.runs),
            "simulated_seconds": a.sim_secs, "simulated_hours": a.sim_secs / 3600,
            "oracle_checks": a.checks, "logged_events": a.events,
            "faults_injected": a.faults, "runs_with_fault": a.fault_runs, "probes": a.probes, "probes_stuck_at_zero": stuck,
            "task_switches": a.switches, "schedules": a.schedules,
            "distinct_states_measure": "distinct signatures of what a run reached (kinds of operations, faults that changed the document, outcomes), see rule",
            "determinism": {"runs_repeated": compared, "mismatched": mismatched},
            "real_components": info.real, "stub_components": info.stub,
            "capped_by_time": a.capped, "known_findings_met": a.known,
        },
        "assumptions": info.assumptions, "wall_s": (wall * 100.0).round() / 100.0, "violations": violations,
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        println!("ERROR property={id} evidence: {e}");
        return 2;
    }
    if !mismatched.is_empty() && status == 0 {
        println!("note: property={id} {} of {} repeated runs differed", mismatched.len(), compared);
    }
    println!(
        "{} property={id} runs={} distinct={} checks={} faults={} switches={} wall={:.1}s{}",
        if status == 0 { "HELD" } else { "BROKEN" },
        a.runs, a.states.len(), a.checks, a.faults.values().sum::<u64>(), a.switches, wall,
        if a.capped { " (time cap)" } else { "" }
    );
    if !stuck.is_empty() {
        println!("note: probes never hit: {stuck:?}");
    }
    status
}

fn replay(props: &[&dyn Property], file: &str, verbose: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        println!("ERROR cannot read {file}");
        return 2;
    };
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    let Some(p) = props.iter().find(|p| v["property"] == p.info().id) else {
        println!("ERROR unknown property in {file}");
        return 2;
    };
    let sigs: Vec<String> = known_for(p.info().id).into_iter().map(|k| k.0).collect();
    let src = Src::Plan(v["plan"].clone());
    let o = run_one(*p, &src, true, &sigs, CPU_LIMIT);
    if v["unrepeatable"] == true {
        let differs = (0..8).any(|_| run_one(*p, &src, true, &sigs, CPU_LIMIT).digest != o.digest);
        println!("{}", if differs { "differs between executions" } else { "same in 8 executions" });
        return differs as i32;
    }
    if verbose {
        for t in &o.trace {
            println!("  {t}");
        }
    }
    if let Some(e) = o.error {
        println!("ERROR {e}");
        return 2;
    }
    match o.violation {
        Some(x) => {
            println!("{}: {}", x.sig, x.msg);
            let same = format!("{:016x}", o.digest);
            println!("digest {same} (recorded {})", v["digest"].as_str().unwrap_or("-"));
            println!("VIOLATION property={} replay={file}", p.info().id);
            1
        }
        None => {
            println!("held");
            0
        }
    }
}

pub fn main_with(props: &[&dyn Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let flag = |name: &str| args.iter().any(|a| a == name);
    let seed: u64 = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
    let workers: u64 = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let runs: Option<u64> = opt("--runs").and_then(|s| s.parse().ok());
    let cap: u64 = opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 240 });
    let find = |id: &str| props.iter().find(|p| p.info().id == id).copied();
    let need = |i: usize| args.get(i).cloned().unwrap_or_default();
    let code = match need(1).as_str() {
        "check" => match find(&need(2)) {
            Some(p) => check(p, seed, thorough, runs, workers, cap),
            None => {
                println!("ERROR unknown property {}", need(2));
                2
            }
        },
        "replay" => replay(props, &need(2), flag("-v")),
        "run" => match find(&need(2)) {
            Some(p) => {
                let index = opt("--index").and_then(|s| s.parse().ok()).unwrap_or(0);
                let src = Src::Seed { seed, index, thorough };
                if flag("--plan") {
                    println!("{}", serde_json::to_string_pretty(&plan_of(p, &src)).unwrap());
                }
                let sigs: Vec<String> = known_for(p.info().id).into_iter().map(|k| k.0).collect();
                let o = run_one(p, &src, true, &sigs, CPU_LIMIT);
                for t in &o.trace {
                    println!("{t}");
                }
                println!("{:?} {:?} faults={:?} probes={:?} digest={:016x} checks={}", o.violation, o.error, o.faults, o.probes, o.digest, o.checks);
                0
            }
            None => 2,
        },
        // Every violation signature met over many runs, for finding several defects at once.
        "survey" => match find(&need(2)) {
            Some(p) => {
                let sigs: Vec<String> = known_for(p.info().id).into_iter().map(|k| k.0).collect();
                let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
                for i in 0..runs.unwrap_or(500) {
                    let o = run_one(p, &Src::Seed { seed, index: i, thorough }, false, &sigs, 3);
                    if let Some(e) = o.error {
                        println!("error in run {i}: {e}");
                    }
                    if let Some(v) = o.violation {
                        let k = if v.sig == "panic" { format!("panic {}", v.msg.rsplit_once(" at ").map(|x| x.1).unwrap_or("")) } else { v.sig.clone() };
                        let e = seen.entry(k).or_insert((0, i, v.msg));
                        e.0 += 1;
                    }
                }
                for (k, (n, i, m)) in seen {
                    println!("{n:5} first run {i:5} {k}: {m}");
                }
                0
            }
            None => 2,
        },
        "determinism" => match find(&need(2)) {
            Some(p) => {
                let n = runs.unwrap_or(400);
                let sigs: Vec<String> = known_for(p.info().id).into_iter().map(|k| k.0).collect();
                let mut bad = BTreeSet::new();
                let mut first: BTreeMap<u64, u64> = BTreeMap::new();
                for w in [8u64, 1, 5] {
                    for lo in (0..n).step_by(256) {
                        let b = batch(p, seed, lo, (lo + 256).min(n), thorough, w, Instant::now() + Duration::from_secs(600), &sigs);
                        for (i, d) in b.digests {
                            if *first.entry(i).or_insert(d) != d {
                                bad.insert(i);
                            }
                        }
                    }
                }
                println!("{} of {n} runs differ across 8, 1 and 5 workers: {bad:?}", bad.len());
                (!bad.is_empty()) as i32
            }
            None => 2,
        },
        "list" => {
            for p in props {
                println!("{}", p.info().id);
            }
            0
        }
        _ => {
            println!("usage: check|run|replay|survey|determinism ID [--seed N] [--tier quick|thorough] [--runs N]");
            2
        }
    };
    std::process::exit(code)
}
