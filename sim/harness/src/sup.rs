//! The supervisor: spreads the runs of a check over worker processes, turns a
//! worker's death into a violation candidate, minimises and confirms what was
//! found, and writes the evidence.
use crate::prop::{Dyn, Stats, Viol};
use crate::{seam, shrink};
use serde_json::{json, Value};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub runs: Option<u64>,
    pub secs: u64,
    pub workers: u64,
    pub verif: PathBuf,
}

pub fn death(st: &std::process::ExitStatus) -> Option<Viol> {
    let v = |c: &str, m: &str| Some(Viol { class: c.into(), msg: m.into() });
    match (st.code(), st.signal()) {
        (Some(0), _) => None,
        (Some(seam::EXIT_DEADLOCK), _) => v("deadlock", "every simulated thread is blocked"),
        (Some(seam::EXIT_STEPS), _) => v("runaway", "the call did not finish within the step limit of the logical clock"),
        (Some(seam::EXIT_MEMORY), _) => v("runaway memory", "the call asked for more memory than the simulated machine has"),
        (_, Some(6)) => v("abort", "the process was aborted (signal 6: stack overflow, double panic or abort)"),
        (_, Some(11)) => v("segfault", "the process was killed by signal 11 (stack overflow)"),
        (_, Some(7)) => v("bus error", "the process was killed by signal 7"),
        _ => None,
    }
}

/// Executes a case in this process or, when the library may kill the process
/// or must be pristine, in a forked child.
pub fn exec_here(p: &dyn Dyn, case: &Value, st: &mut Stats) -> Option<Result<(), Viol>> {
    if p.fork() {
        if !p.parses(case) {
            return None;
        }
        Some(in_child(st, |s| p.exec(case, s).unwrap()))
    } else {
        p.exec(case, st)
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(fds: *mut [i32; 2]) -> i32;
    fn _exit(c: i32) -> !;
}

/// Runs `f` in a forked child of this (single-threaded) process.
pub fn in_child(st: &mut Stats, f: impl FnOnce(&mut Stats) -> Result<(), Viol>) -> Result<(), Viol> {
    let r = fork_value(|| {
        let mut s = Stats::default();
        let r = f(&mut s);
        (r.err(), s)
    });
    match r {
        Ok((v, s)) => {
            st.merge(s);
            v.map_or(Ok(()), Err)
        }
        Err(v) => {
            st.runs += 1;
            Err(v)
        }
    }
}

/// What `f` computes in a forked child, or how the child died.
pub fn fork_value<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(&mut fds), 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let out = serde_json::to_vec(&f()).unwrap();
            let mut w = fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(&out);
            drop(w);
            _exit(0);
        }
        drop(fs::File::from_raw_fd(fds[1]));
        let mut r = fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let _ = r.read_to_end(&mut buf);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let es = std::process::ExitStatus::from_raw(status);
        if !es.success() {
            return Err(death(&es).unwrap_or(Viol { class: "death".into(), msg: format!("child ended with {es}") }));
        }
        Ok(serde_json::from_slice(&buf).expect("child report"))
    }
}

/// Executes a case file in a fresh process.
fn exec_fresh(file: &Path, prop: &str) -> Option<Viol> {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["exec", prop])
        .arg(file)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .ok()?;
    if out.status.code() == Some(1) {
        let s = String::from_utf8_lossy(&out.stdout);
        for l in s.lines() {
            if let Some(j) = l.strip_prefix("VERDICT ") {
                return serde_json::from_str(j).ok();
            }
        }
    }
    death(&out.status)
}

pub fn worker(p: &dyn Dyn, k: u64, n: u64, o: &Opts, total: u64, dir: &Path) -> i32 {
    let pos = fs::OpenOptions::new().write(true).create(true).truncate(true).open(dir.join(format!("pos{k}"))).unwrap();
    let stop = fs::OpenOptions::new().read(true).write(true).open(dir.join("stop")).unwrap();
    let deadline = Instant::now() + Duration::from_secs(o.secs);
    let mut st = Stats::default();
    let mut found: Option<(u64, Viol)> = None;
    let mut i = k;
    let mut done = 0u64;
    while i < total {
        if done % 16 == 0 {
            let mut b = [0u8; 8];
            if stop.read_exact_at(&mut b, 0).is_ok() && i > u64::from_le_bytes(b) {
                break;
            }
        }
        if Instant::now() > deadline {
            break;
        }
        let _ = pos.write_all_at(&i.to_le_bytes(), 0);
        let r = if p.fork() {
            in_child(&mut st, |s| p.run(o.seed, i, s))
        } else {
            p.run(o.seed, i, &mut st)
        };
        if st.samples.len() < 2 && done % 97 == 3 {
            let c = p.case(o.seed, i);
            let s = c.to_string();
            if s.len() < 6000 {
                st.samples.push(json!({"run": i, "case": c}));
            }
        }
        if let Err(v) = r {
            found = Some((i, v));
            break;
        }
        done += 1;
        i += n;
    }
    let _ = fs::write(dir.join(format!("out{k}")), serde_json::to_vec(&(found, st)).unwrap());
    0
}

pub struct Finding {
    pub id: String,
    pub class: String,
    pub what: String,
    pub case: Value,
}

pub fn findings(verif: &Path, prop: &str) -> Vec<Finding> {
    let Ok(s) = fs::read_to_string(verif.join("KNOWN_FINDINGS.jsonl")) else { return vec![] };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["status"] == "open" && v["property"] == prop)
        .map(|v| Finding {
            id: v["id"].as_str().unwrap_or("").into(),
            class: v["class"].as_str().unwrap_or("").into(),
            what: v["what"].as_str().unwrap_or("").into(),
            case: v["case"].clone(),
        })
        .collect()
}

pub fn check(p: &dyn Dyn, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.runs.unwrap_or(p.runs(o.thorough));
    let dir = std::env::temp_dir().join(format!("boxsim-{}-{}", p.id(), std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("stop"), u64::MAX.to_le_bytes()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child)> = (0..o.workers)
        .map(|k| {
            let c = Command::new(&exe)
                .args(["worker", p.id(), &k.to_string(), &o.workers.to_string(), &o.seed.to_string(), &o.secs.to_string(), &total.to_string()])
                .arg(&dir)
                .stdin(Stdio::null())
                .stderr(Stdio::inherit())
                .spawn()
                .unwrap();
            (k, c)
        })
        .collect();
    let mut st = Stats::default();
    let mut best: Option<(u64, Viol)> = None;
    let mut error: Option<String> = None;
    let stopf = fs::OpenOptions::new().write(true).open(dir.join("stop")).unwrap();
    let hard = t0 + Duration::from_secs(o.secs + 120);
    while !kids.is_empty() {
        let mut i = 0;
        let mut progressed = false;
        while i < kids.len() {
            let (k, c) = &mut kids[i];
            let k = *k;
            if let Some(es) = c.try_wait().unwrap() {
                progressed = true;
                kids.swap_remove(i);
                let mut f = None;
                if es.success() {
                    let b = fs::read(dir.join(format!("out{k}"))).unwrap_or_default();
                    match serde_json::from_slice::<(Option<(u64, Viol)>, Stats)>(&b) {
                        Ok((v, s)) => {
                            st.merge(s);
                            f = v;
                        }
                        Err(e) => error = Some(format!("worker {k}: no report ({e})")),
                    }
                } else {
                    let idx = fs::read(dir.join(format!("pos{k}"))).ok().and_then(|b| b.try_into().ok().map(u64::from_le_bytes));
                    match (idx, death(&es)) {
                        (Some(i), Some(v)) => f = Some((i, v)),
                        (i, _) => error = Some(format!("worker {k} ended with {es} in run {i:?}")),
                    }
                }
                if let Some((i, v)) = f {
                    if v.class == "harness" {
                        error = Some(format!("run {i}: {}", v.msg));
                    } else if best.as_ref().map_or(true, |b| i < b.0) {
                        let _ = stopf.write_all_at(&i.to_le_bytes(), 0);
                        best = Some((i, v));
                    }
                }
            } else {
                i += 1;
            }
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(5));
        }
        if Instant::now() > hard {
            for (_, c) in &mut kids {
                let _ = c.kill();
                let _ = c.wait();
            }
            error = Some("workers did not finish in time".into());
            break;
        }
    }
    let sim_wall = t0.elapsed().as_secs_f64();
    // ---- known findings, each re-executed on the real code
    let mut known = vec![];
    for f in findings(&o.verif, p.id()) {
        let file = dir.join("finding.json");
        fs::write(&file, json!({"property": p.id(), "case": f.case}).to_string()).unwrap();
        match exec_fresh(&file, p.id()) {
            Some(v) if v.class == f.class => {
                println!("KNOWN-FINDING: property={} {} [{}]", p.id(), f.what, v.msg);
                known.push(json!({"id": f.id, "observed": v.msg}));
            }
            Some(v) => {
                // Not the listed failure: report it as a violation of its own.
                if best.is_none() {
                    best = Some((u64::MAX, v));
                    fs::write(dir.join("directed.json"), f.case.to_string()).unwrap();
                }
            }
            None => known.push(json!({"id": f.id, "observed": "no longer fails"})),
        }
    }
    let mut code = 0;
    let mut viols = 0;
    if let Some((idx, v)) = best {
        let case = if idx == u64::MAX {
            serde_json::from_str(&fs::read_to_string(dir.join("directed.json")).unwrap()).unwrap()
        } else {
            p.case(o.seed, idx)
        };
        match report(p, o, idx, v, case, &dir) {
            Ok(path) => {
                println!("VIOLATION property={} replay={}", p.id(), path.display());
                code = 1;
                viols = 1;
            }
            Err(e) => error = Some(e),
        }
    }
    if let Some(e) = &error {
        if code == 0 {
            eprintln!("ERROR: {e}");
            code = 2;
        }
    }
    evidence(p, o, &st, sim_wall, t0.elapsed().as_secs_f64(), viols, &known, total);
    let _ = fs::remove_dir_all(&dir);
    eprintln!(
        "{}: {} runs, {} calls, {} logical steps, {} distinct states, {} edges, {:.1}s",
        p.id(),
        st.runs,
        st.calls,
        st.steps,
        st.states.len(),
        st.edges.len(),
        sim_wall
    );
    code
}

/// The shortest history found of earlier runs of the worker after which the
/// case fails, for a failure that a fresh process does not show: what a call
/// left behind in the process is then part of the failure.
fn history(p: &dyn Dyn, o: &Opts, idx: u64, class: &str, mut fails: impl FnMut(&[u64]) -> Option<Viol>) -> Option<Vec<u64>> {
    if p.fork() || idx == u64::MAX {
        return None;
    }
    let all: Vec<u64> = (0..idx).filter(|i| i % o.workers == idx % o.workers).collect();
    let end = Instant::now() + Duration::from_secs(if o.thorough { 240 } else { 120 });
    let mut bad = |h: &[u64]| fails(h).is_some_and(|v| v.class == class);
    let mut n = 1;
    let mut h = loop {
        let h = &all[all.len() - n.min(all.len())..];
        if bad(h) {
            break h.to_vec();
        }
        if n >= all.len() || Instant::now() > end {
            return None;
        }
        n *= 4;
    };
    let mut chunk = h.len();
    while chunk > 0 && Instant::now() < end {
        let mut i = 0;
        while i < h.len() && Instant::now() < end {
            let mut c = h.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if bad(&c) {
                h = c;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    Some(h)
}

fn report(p: &dyn Dyn, o: &Opts, idx: u64, v: Viol, case: Value, dir: &Path) -> Result<PathBuf, String> {
    let file = dir.join("case.json");
    // What the process draws from the system's randomness is seeded too: a
    // failure that depends on it (a hash map's order) is found again by trying
    // other draws, a failure that depends on earlier calls by replaying those.
    let entropy = std::cell::Cell::new(1u64);
    let put_h = |c: &Value, h: &[u64]| {
        fs::write(&file, json!({"property": p.id(), "seed": o.seed, "entropy": entropy.get(), "before": h, "case": c}).to_string()).unwrap()
    };
    let mut before = vec![];
    let drawn = (1..=48).find_map(|e| {
        entropy.set(e);
        put_h(&case, &[]);
        exec_fresh(&file, p.id()).filter(|w| e == 1 || w.class == v.class)
    });
    let v1 = match drawn {
        Some(v) => v,
        None => {
            entropy.set(1);
            let h = history(p, o, idx, &v.class, |h| {
                put_h(&case, h);
                exec_fresh(&file, p.id())
            });
            let Some(h) = h else {
                return Err(format!("run {idx} failed with {}: {} but not when replayed in a fresh process", v.class, v.msg));
            };
            before = h;
            v
        }
    };
    let put = |c: &Value| put_h(c, &before);
    let class = v1.class.clone();
    let deadly = ["abort", "segfault", "bus error", "deadlock", "runaway", "runaway memory"].contains(&class.as_str());
    let mut st = Stats::default();
    let s = shrink::shrink(
        case.clone(),
        |c| {
            if !p.parses(c) {
                return false;
            }
            let r = if deadly || !before.is_empty() {
                put(c);
                exec_fresh(&file, p.id())
            } else {
                // A candidate may well kill the process: keep it in a child.
                in_child(&mut st, |s| p.exec(c, s).unwrap()).err()
            };
            r.is_some_and(|v| v.class == class)
        },
        Duration::from_secs(if o.thorough { 120 } else { 30 }),
    );
    put(&s.case);
    let (mut case, mut last) = (s.case, exec_fresh(&file, p.id()));
    if last.as_ref().map_or(true, |l| l.class != class) {
        case = p.case(o.seed, idx);
        put(&case);
        last = exec_fresh(&file, p.id());
    }
    let again = exec_fresh(&file, p.id());
    if last != again || last.is_none() {
        return Err(format!("run {idx}: the replay is not exact: {last:?} then {again:?}"));
    }
    let v = last.unwrap();
    let rd = o.verif.join("replays");
    fs::create_dir_all(&rd).map_err(|e| e.to_string())?;
    let path = rd.join(format!("{}-seed{}-run{}.json", p.id(), o.seed, if idx == u64::MAX { "directed".into() } else { idx.to_string() }));
    let doc = json!({
        "property": p.id(), "seed": o.seed, "run": idx, "class": v.class, "violation": v.msg,
        "minimised": {"candidates_tried": s.tried, "steps_kept": s.kept},
        "replay_with": format!("bash sim/check.sh {} --replay {}", p.id(), path.display()),
        "entropy": entropy.get(),
        "before": before,
        "case": case,
    });
    fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).map_err(|e| e.to_string())?;
    println!("{} violated in run {} of seed {}: [{}] {}", p.id(), idx, o.seed, v.class, v.msg);
    if !before.is_empty() {
        println!("(only after runs {before:?} in the same process)");
    }
    Ok(path)
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &dyn Dyn, o: &Opts, st: &Stats, sim: f64, wall: f64, viols: u64, known: &[Value], total: u64) {
    let ed = o.verif.join("evidence");
    let _ = fs::create_dir_all(&ed);
    let per_hour = if sim > 0.0 { st.runs as f64 / sim * 3600.0 } else { 0.0 };
    let (real, stub) = p.parts();
    let mut samples = st.samples.clone();
    samples.truncate(3);
    let doc = json!({
        "property": p.id(),
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.states.len(),
            "rule": p.rule(),
            "samples": samples,
            "planned_runs": total,
            "seeds": st.runs,
            "runs_per_hour": per_hour.round(),
            "seeds_per_hour": per_hour.round(),
            "library_calls": st.calls,
            "simulated_time_logical_steps": st.steps,
            "distinct_edge_sets": st.cov.len(),
            "distinct_states": st.states.len(),
            "edges_reached": st.edges.len(),
            "edges_instrumented": seam::guards(),
            "faults_injected": st.faults,
            "counts": st.counts,
            "maxima": st.maxima,
            "real_code": real,
            "stubs": stub,
            "known_findings": known,
        },
        "assumptions": [
            "the reference recorder, the frozen class and attribute tables and the reference decoder state the format as the pinned tree reads it",
            "search, not proof: what no seed reaches is not covered",
        ],
        "wall_s": wall,
        "violations": viols,
    });
    let _ = fs::write(ed.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&doc).unwrap());
}
