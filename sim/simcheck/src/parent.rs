//! Drives the workers of one check, confirms and minimises what they find, writes the evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::fail;
use crate::gen_;
use crate::scen::{PolicyCfg, Scenario};
use crate::worker::{Res, Summary};

fn verif() -> PathBuf {
    std::env::var("SIM_VERIF").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|e| fail(&format!("own path: {e}")))
}

enum Ran {
    Done(Res),
    TimedOut,
    Broken(String),
}

/// This program, with a memory limit so that a runaway run can only end itself.
fn contained(core: Option<u64>) -> Command {
    let mut words: Vec<String> = Vec::new();
    if Path::new("/usr/bin/prlimit").exists() {
        words.extend(["/usr/bin/prlimit", "--as=3221225472", "--core=0"].map(Into::into));
    }
    if let Some(k) = core
        && Path::new("/usr/bin/taskset").exists()
    {
        words.extend(["/usr/bin/taskset".into(), "-c".into(), k.to_string()]);
    }
    words.push(exe().to_string_lossy().into_owned());
    let mut c = Command::new(&words[0]);
    c.args(&words[1..]).env("MALLOC_ARENA_MAX", "2");
    c
}

/// Runs one scenario in a process of its own.
fn exec_args(args: &[&str], limit: Duration) -> Ran {
    let mut child = match contained(None).args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Ran::Broken(e.to_string()),
    };
    let mut out = child.stdout.take().expect("piped");
    let mut err = child.stderr.take().expect("piped");
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let h2 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut err, &mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                clean(child.id());
                return Ran::TimedOut;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
    clean(child.id());
    let text = h.join().unwrap_or_default();
    let errs = h2.join().unwrap_or_default();
    match text.lines().rev().find_map(|l| serde_json::from_str(l).ok()) {
        Some(r) => Ran::Done(r),
        None => Ran::Broken(format!("no result: {errs}")),
    }
}

fn clean(pid: u32) {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base).join(format!("simcheck-{pid}"));
        if p.is_dir() {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

struct Lab {
    dir: PathBuf,
    n: u32,
    runs: u32,
}

impl Lab {
    fn run(&mut self, s: &Scenario) -> Ran {
        self.n += 1;
        self.runs += 1;
        let p = self.dir.join(format!("try-{}.json", self.n % 4));
        if std::fs::write(&p, serde_json::to_string(s).expect("json")).is_err() {
            return Ran::Broken("can not write".into());
        }
        exec_args(&["exec", p.to_str().expect("utf8")], Duration::from_secs(60))
    }

    /// The violation of this kind, if the scenario shows it.
    fn shows(&mut self, s: &Scenario, kind: &str) -> Option<(String, u64, Vec<String>)> {
        match self.run(s) {
            Ran::Done(r) => {
                let v = r.violations.iter().find(|v| v.0 == kind)?;
                Some((v.1.clone(), r.hash, r.trace))
            }
            _ => None,
        }
    }

    fn minimise(&mut self, mut s: Scenario, kind: &str, budget: Duration) -> Scenario {
        let t0 = Instant::now();
        let full = |l: &Self| t0.elapsed() > budget || l.runs > 600;
        // the schedule
        let mut t = s.clone();
        t.sched.decisions.clear();
        if self.shows(&t, kind).is_some() {
            s = t;
        }
        loop {
            let before = (s.sched.decisions.len(), s.streams.iter().map(|x| x.ops.len()).sum::<usize>());
            // operations and faults
            for si in 0..s.streams.len() {
                let mut i = 0;
                while i < s.streams[si].ops.len() && !full(self) {
                    let mut t = s.clone();
                    t.streams[si].ops.remove(i);
                    if self.shows(&t, kind).is_some() { s = t } else { i += 1 }
                }
                let lists: [fn(&mut Scenario, usize) -> Option<&mut Vec<crate::scen::CallFault>>; 2] =
                    [|s, i| Some(&mut s.streams[i].source.seeks), |s, i| Some(&mut s.streams[i].source.reconnects)];
                for l in lists {
                    if l(&mut s, si).is_some_and(|v| !v.is_empty()) && !full(self) {
                        let mut t = s.clone();
                        l(&mut t, si).expect("list").clear();
                        if self.shows(&t, kind).is_some() {
                            s = t;
                        }
                    }
                    let mut i = 0;
                    while i < l(&mut s, si).map_or(0, |v| v.len()).min(12) && !full(self) {
                        let mut t = s.clone();
                        l(&mut t, si).expect("list").remove(i);
                        if self.shows(&t, kind).is_some() { s = t } else { i += 1 }
                    }
                }
                let mut i = 0;
                while i < s.streams[si].source.faults.len() && !full(self) {
                    let mut t = s.clone();
                    t.streams[si].source.faults.remove(i);
                    if self.shows(&t, kind).is_some() { s = t } else { i += 1 }
                }
                let mut i = 0;
                while i < s.streams[si].storage.faults.len() && !full(self) {
                    let mut t = s.clone();
                    t.streams[si].storage.faults.remove(i);
                    if self.shows(&t, kind).is_some() { s = t } else { i += 1 }
                }
                // simpler settings
                let simpler: [fn(&mut crate::scen::StreamCfg); 8] = [
                    |c| c.source.delays = vec![0],
                    |c| c.settings.progress = c.settings.progress_cancel_at.is_some() || c.settings.progress_panic_at.is_some(),
                    |c| c.settings.prefetch = 0,
                    |c| c.settings.batch = 4096,
                    |c| c.source.finish_delay = 0,
                    |c| c.waiters = c.waiters.min(1),
                    |c| c.source.chunks.truncate(1),
                    |c| c.start_ms = 0,
                ];
                for f in simpler {
                    let mut t = s.clone();
                    f(&mut t.streams[si]);
                    if serde_json::to_string(&t).ok() != serde_json::to_string(&s).ok()
                        && !full(self)
                        && self.shows(&t, kind).is_some()
                    {
                        s = t;
                    }
                }
            }
            // decisions, in halves, quarters ...
            let mut step = s.sched.decisions.len().div_ceil(2);
            while step > 0 && !full(self) {
                let mut i = 0;
                while i < s.sched.decisions.len() && !full(self) {
                    let mut t = s.clone();
                    let e = (i + step).min(t.sched.decisions.len());
                    t.sched.decisions.drain(i..e);
                    if self.shows(&t, kind).is_some() { s = t } else { i += step }
                }
                step /= 2;
            }
            let after = (s.sched.decisions.len(), s.streams.iter().map(|x| x.ops.len()).sum::<usize>());
            if after == before || full(self) {
                return s;
            }
        }
    }
}

#[derive(Default)]
struct Shared {
    cands: Vec<Value>,
    sums: BTreeMap<u64, Summary>,
    done_sums: Vec<Summary>,
    counts: BTreeMap<String, u64>,
    livelocks: Vec<u64>,
    crashes: Vec<u64>,
    errors: Vec<String>,
}

/// Known defects of the unchanged tree that are recorded instead of repaired.
struct Known {
    property: String,
    kind: String,
    needle: String,
    what: String,
}

fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            // property=C01 kind=hang match="..." what fails
            let (head, rest) = l.split_once(" match=\"")?;
            let (needle, what) = rest.split_once('"')?;
            let mut property = String::new();
            let mut kind = String::new();
            for w in head.split_whitespace() {
                if let Some(v) = w.strip_prefix("property=") {
                    property = v.into();
                } else if let Some(v) = w.strip_prefix("kind=") {
                    kind = v.into();
                }
            }
            Some(Known { property, kind, needle: needle.into(), what: what.trim().into() })
        })
        .collect()
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = gen_::prop(id) else { fail("unknown property") };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let secs: u64 = std::env::var("SIM_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "quick" { 40 } else { 600 });
    let cores = std::thread::available_parallelism().map_or(4, usize::from).min(16) as u64;
    let dir = std::env::temp_dir().join(format!("simcheck-check-{id}-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        fail(&format!("{}: {e}", dir.display()));
    }
    let shared = Arc::new(Mutex::new(Shared::default()));
    let end = Instant::now() + Duration::from_secs(secs);
    let threads: Vec<_> = (0..cores)
        .map(|k| {
            let (shared, dir, id) = (shared.clone(), dir.clone(), id.to_string());
            std::thread::spawn(move || supervise(&id, seed, k, cores, end, &dir, &shared))
        })
        .collect();
    for t in threads {
        let _ = t.join();
    }
    let mut sh = std::mem::take(&mut *shared.lock().expect("shared"));
    sh.done_sums.extend(std::mem::take(&mut sh.sums).into_values());
    let total = add_up(&sh.done_sums);
    let distinct = distinct(&dir);

    // ---- the same number gives the same run, in a process of its own too
    let mut spots: Vec<(u64, u64)> = sh.done_sums.iter().flat_map(|s| s.spot.clone()).collect();
    spots.truncate(24);
    let mut diverged = 0;
    for (n, h) in &spots {
        match exec_args(&["execn", id, &seed.to_string(), &n.to_string()], Duration::from_secs(60)) {
            Ran::Done(r) if r.hash == *h => {}
            Ran::Done(r) => {
                eprintln!("simcheck: scenario {n} diverged ({h:#x} / {:#x})", r.hash);
                diverged += 1;
            }
            Ran::TimedOut => sh.errors.push(format!("scenario {n} timed out on its own")),
            Ran::Broken(e) => sh.errors.push(format!("scenario {n}: {e}")),
        }
    }

    // ---- what was found
    let mut lab = Lab { dir: dir.clone(), n: 0, runs: 0 };
    let kn = known();
    let mut hit_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut reported: Vec<(String, String, PathBuf)> = Vec::new();
    let mut unconfirmed = 0;
    let mut seen_kinds: BTreeMap<String, u32> = BTreeMap::new();
    sh.cands.sort_by_key(|c| (c["n"].as_u64(), c["kind"].as_str().map(str::to_string)));
    for c in &sh.cands {
        let kind = c["kind"].as_str().unwrap_or("").to_string();
        let detail = c["detail"].as_str().unwrap_or("").to_string();
        if let Some(k) = kn.iter().find(|k| k.property == id && k.kind == kind && detail.contains(&k.needle)) {
            *hit_known.entry(k.what.clone()).or_default() += 1;
            continue;
        }
        if reported.len() >= 3 || seen_kinds.get(&kind).is_some_and(|n| *n >= 1) {
            continue;
        }
        let Some(path) = c["path"].as_str() else { continue };
        let s = crate::load(path);
        let first = lab.shows(&s, &kind);
        let second = lab.shows(&s, &kind);
        let same = matches!((&first, &second), (Some(a), Some(b)) if a.1 == b.1);
        if !same {
            unconfirmed += 1;
            eprintln!("simcheck: {kind} in scenario {} was not reproduced exactly; not reported", c["n"]);
            continue;
        }
        *seen_kinds.entry(kind.clone()).or_default() += 1;
        lab.runs = 0;
        let small = lab.minimise(s, &kind, Duration::from_secs(if reported.is_empty() { 45 } else { 15 }));
        let (detail, hash, trace) = match (lab.shows(&small, &kind), lab.shows(&small, &kind)) {
            (Some(a), Some(b)) if a.1 == b.1 => a,
            _ => {
                unconfirmed += 1;
                continue;
            }
        };
        let rdir = verif().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let out = rdir.join(format!("{id}-{kind}-{}.json", reported.len()));
        let v = json!({"property": id, "kind": kind, "detail": detail, "seed": seed, "n": c["n"], "hash": hash,
            "scenario": small, "trace": trace});
        let _ = std::fs::write(&out, serde_json::to_string_pretty(&v).expect("json"));
        reported.push((kind, detail, out));
    }
    // a run that never came back
    sh.livelocks.sort_unstable();
    if reported.is_empty() && p.kinds.contains(&"hang") {
        for n in sh.livelocks.iter().take(3) {
            let a = ["execn", id, &seed.to_string(), &n.to_string()];
            let stuck = (0..2).all(|_| matches!(exec_args(&a, Duration::from_secs(45)), Ran::TimedOut));
            if !stuck {
                unconfirmed += 1;
                continue;
            }
            let s = gen_::scenario(p, seed, *n);
            let rdir = verif().join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let out = rdir.join(format!("{id}-livelock-{n}.json"));
            let detail = "the run spins without ever reaching a schedule point";
            let v = json!({"property": id, "kind": "livelock", "detail": detail, "seed": seed, "n": n, "scenario": s});
            let _ = std::fs::write(&out, serde_json::to_string_pretty(&v).expect("json"));
            reported.push(("livelock".into(), detail.into(), out));
            break;
        }
    }
    // a run that takes the process down with it (abort, memory exhausted)
    sh.crashes.sort_unstable();
    if reported.is_empty() {
        for n in sh.crashes.iter().take(3) {
            let a = ["execn", id, &seed.to_string(), &n.to_string()];
            let mut why = String::new();
            let dies = (0..2).all(|_| match exec_args(&a, Duration::from_secs(60)) {
                Ran::Broken(e) => {
                    why = e;
                    true
                }
                _ => false,
            });
            if !dies {
                unconfirmed += 1;
                continue;
            }
            let s = gen_::scenario(p, seed, *n);
            let rdir = verif().join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let out = rdir.join(format!("{id}-crash-{n}.json"));
            let detail = format!("the process dies during the run: {}", why.lines().last().unwrap_or(""));
            let v = json!({"property": id, "kind": "crash", "detail": detail, "seed": seed, "n": n, "scenario": s});
            let _ = std::fs::write(&out, serde_json::to_string_pretty(&v).expect("json"));
            reported.push(("crash".into(), detail, out));
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    for (what, n) in &hit_known {
        println!("KNOWN-FINDING: property={id} {what} ({n} times)");
    }
    for (kind, detail, path) in &reported {
        println!("{kind}: {detail}");
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    let hours = secs as f64 / 3600.0;
    let missing: Vec<&str> = p.want.iter().copied().filter(|w| !total.probes.contains_key(*w)).collect();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": distinct,
            "rule": "one evaluation is one simulated run of a scenario generated from (VERIF_SEED, number): resource, transport, storage, settings, faults, client operations and schedule. Non-trivial: at least one client operation completed and the scheduler preempted a thread at least once or an injected fault fired. Distinct: different hash of the whole event log (chunks, storage calls, requests, callbacks, operations with their results, thread and virtual time).",
            "samples": total.samples.iter().take(2).map(|s| serde_json::from_str::<Value>(s).unwrap_or(Value::Null)).collect::<Vec<_>>(),
            "runs_per_hour": (total.runs as f64 / hours) as u64,
            "seeds_per_hour": (total.runs as f64 / hours) as u64,
            "simulated_seconds": total.sim_ms / 1000,
            "schedule_points": total.steps,
            "context_switches": total.switches,
            "preemptions": total.preemptions,
            "thread_stalls": total.stalls,
            "client_operations": total.ops,
            "bytes_verified": total.bytes,
            "faults_fired": total.fired,
            "conditions_reached": total.probes,
            "conditions_never_reached": missing,
            "families": total.families,
            "nontrivial_runs": total.nontrivial,
            "replayed_in_fresh_process": spots.len(),
            "replays_that_diverged": diverged,
            "violations_of_other_properties": total.other,
            "unconfirmed_candidates": unconfirmed,
            "known_findings_hit": hit_known.values().sum::<u64>(),
            "workers": cores,
            "real_components": real(id),
            "stubs": stubs(id),
        },
        "assumptions": [
            "threads interleave at lock, condvar, atomic, storage and log points and at client operation boundaries; plain memory accesses between them are not interleaved",
            "the tokio runtime is the single-threaded one, so its tasks interleave at await points only",
            "sampling, not enumeration"
        ],
        "wall_s": wall,
        "violations": reported.len(),
    });
    let edir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).expect("json")) {
        fail(&format!("evidence: {e}"));
    }
    for e in sh.errors.iter().take(5) {
        eprintln!("simcheck: {e}");
    }
    println!(
        "{id}: {} runs, {} distinct, {} simulated s, {} schedule points, {:.0} s; {} violations",
        total.runs,
        distinct,
        total.sim_ms / 1000,
        total.steps,
        wall,
        reported.len()
    );
    if !total.other.is_empty() {
        println!("{id}: oracles of other properties fired: {:?}", total.other);
    }
    if !reported.is_empty() {
        return 1;
    }
    if total.runs == 0 || diverged * 4 > spots.len() as u64 && diverged > 0 {
        eprintln!("simcheck: {} runs, {diverged} of {} replays diverged: no verdict", total.runs, spots.len());
        return 2;
    }
    0
}

fn real(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "StreamDownload reader and download task",
        "source handle (locks, condvar, notifications)",
        "memory, temp-file, bounded and adaptive storage",
        "HttpStream, reqwest and reqwest-middleware clients (up to the connection)",
        "AsyncReadStream, tokio-util ReaderStream",
        "tokio current-thread runtime, channels, CancellationToken",
    ];
    if id == "C15" {
        v.push("ProcessStream, Command, CommandBuilder");
    }
    if id == "C20" {
        v.push("OpendalStream, opendal operator and layers");
    }
    v
}

fn stubs(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the remote server and the network",
        "parking_lot locks and condvars, std atomics (schedule points)",
        "the clock (tokio paused time)",
    ];
    if id == "C15" {
        v.push("operating system processes and pipes");
    }
    if id == "C20" {
        v.push("the opendal service");
    }
    v
}

fn distinct(dir: &Path) -> u64 {
    let mut set = HashSet::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("hashes-") {
                let b = std::fs::read(e.path()).unwrap_or_default();
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().expect("8")));
                }
            }
        }
    }
    set.len() as u64
}

fn add_up(v: &[Summary]) -> Summary {
    let mut t = Summary::default();
    for s in v {
        t.runs += s.runs;
        t.steps += s.steps;
        t.switches += s.switches;
        t.preemptions += s.preemptions;
        t.stalls += s.stalls;
        t.sim_ms += s.sim_ms;
        t.ops += s.ops;
        t.bytes += s.bytes;
        t.nontrivial += s.nontrivial;
        for (k, n) in &s.fired {
            *t.fired.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &s.probes {
            *t.probes.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &s.families {
            *t.families.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &s.other {
            *t.other.entry(k.clone()).or_default() += n;
        }
        t.samples.extend(s.samples.clone());
    }
    t
}

/// Keeps one worker running until the time is up.
fn supervise(id: &str, seed: u64, k: u64, stride: u64, end: Instant, dir: &Path, shared: &Arc<Mutex<Shared>>) {
    let mut start = k;
    let mut restarts = 0;
    loop {
        let now = Instant::now();
        if now + Duration::from_millis(1200) > end || restarts > 60 {
            return;
        }
        let secs = (end - now).as_secs().max(1);
        let mut cmd = contained(Some(k));
        cmd.args(["worker", id, &seed.to_string(), &start.to_string(), &stride.to_string(), &secs.to_string()])
            .arg(dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit());
        let mut child = match cmd.spawn() {
            Ok(c) => c,
            Err(e) => {
                shared.lock().expect("shared").errors.push(format!("worker: {e}"));
                return;
            }
        };
        let out = child.stdout.take().expect("piped");
        let pid = child.id();
        // watchdog: (number in progress, since)
        let cur = Arc::new(Mutex::new((start, Instant::now(), false)));
        let cur2 = cur.clone();
        let wd = std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let mut c = cur2.lock().expect("cur");
                if c.2 {
                    return false;
                }
                if c.1.elapsed() > Duration::from_secs(60) {
                    c.2 = true;
                    drop(c);
                    let _ = Command::new("/bin/kill").args(["-9", &pid.to_string()]).status();
                    return true;
                }
            }
        });
        let mut last_n = start;
        let mut ended = false;
        let mut fatal = false;
        for line in BufReader::new(out).lines().map_while(Result::ok) {
            let Some((tag, rest)) = line.split_once(' ').or(Some((line.as_str(), ""))) else { continue };
            match tag {
                "R" => {
                    last_n = rest.parse().unwrap_or(last_n);
                    let mut c = cur.lock().expect("cur");
                    *c = (last_n, Instant::now(), c.2);
                }
                "V" => {
                    if let Ok(v) = serde_json::from_str(rest) {
                        shared.lock().expect("shared").cands.push(v);
                    }
                }
                "S" => {
                    if let Ok(v) = serde_json::from_str::<Summary>(rest) {
                        shared.lock().expect("shared").sums.insert(k, v);
                    }
                }
                "K" => {
                    if let Some((kind, n)) = rest.split_once(' ') {
                        let n: u64 = n.parse().unwrap_or(0);
                        *shared.lock().expect("shared").counts.entry(kind.into()).or_default() += n;
                    }
                }
                "F" => fatal = true,
                "E" => ended = true,
                _ => {}
            }
        }
        let status = child.wait();
        cur.lock().expect("cur").2 = true;
        let killed = wd.join().unwrap_or(false);
        clean(pid);
        {
            let mut sh = shared.lock().expect("shared");
            if let Some(s) = sh.sums.remove(&k) {
                sh.done_sums.push(s);
            }
            if killed {
                sh.livelocks.push(last_n);
            } else if !ended && !fatal {
                sh.crashes.push(last_n);
                sh.errors.push(format!("worker {k} died in scenario {last_n}: {status:?}"));
            }
        }
        if ended {
            return;
        }
        restarts += 1;
        start = last_n + stride;
    }
}

pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let s = crate::load(path);
    if v["kind"] == "livelock" {
        return match exec_args(&["exec", path], Duration::from_secs(60)) {
            Ran::TimedOut => {
                println!("VIOLATION property={} replay={path}", s.prop);
                1
            }
            _ => 0,
        };
    }
    if v["kind"] == "crash" {
        return match exec_args(&["exec", path], Duration::from_secs(60)) {
            Ran::Broken(e) => {
                println!("{e}");
                println!("VIOLATION property={} replay={path}", s.prop);
                1
            }
            _ => 0,
        };
    }
    let Ran::Done(r) = exec_args(&["exec", path], Duration::from_secs(120)) else { fail("the run gave no result") };
    for l in &r.trace {
        println!("{l}");
    }
    for v in &r.violations {
        println!("VIOLATED {} at step {}: {}", v.0, v.2, v.1);
    }
    println!("event log hash {:#x}, recorded {}", r.hash, v["hash"]);
    let kind = v["kind"].as_str().unwrap_or("");
    if r.violations.iter().any(|x| x.0 == kind) {
        println!("VIOLATION property={} replay={path}", s.prop);
        return 1;
    }
    let _ = PolicyCfg::Replay;
    println!("not reproduced");
    0
}
