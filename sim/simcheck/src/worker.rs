//! Runs scenarios one after another in one process.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::gen_;
use crate::run::{Outcome, execute};
use crate::scen::{D, PolicyCfg, Scenario};
use crate::world::{Violation, global};

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Res {
    pub violations: Vec<(String, String, u64)>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub decisions: Vec<(u64, D)>,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Summary {
    pub runs: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub sim_ms: u64,
    pub ops: u64,
    pub bytes: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub families: BTreeMap<String, u64>,
    pub nontrivial: u64,
    pub other: BTreeMap<String, u64>,
    /// (scenario number, event log hash) of some runs
    pub spot: Vec<(u64, u64)>,
    pub samples: Vec<String>,
    pub wall_s: f64,
}

/// The run in progress, for the handler of runs that can only be abandoned.
static CURRENT: Mutex<Option<(Scenario, Option<u64>)>> = Mutex::new(None);
static PROP: Mutex<Option<(String, String)>> = Mutex::new(None);

fn conv(d: &[(u64, dst::Decision)]) -> Vec<(u64, D)> {
    d.iter()
        .map(|(i, d)| {
            (*i, match d {
                dst::Decision::Run(t) => D::Run(*t),
                dst::Decision::Stall(ms) => D::Stall(*ms),
            })
        })
        .collect()
}

fn result(o: &Outcome) -> Res {
    Res {
        violations: o.global.violations.iter().map(|v| (v.kind.clone(), v.detail.clone(), v.step)).collect(),
        hash: o.report.hash,
        steps: o.report.steps,
        sim_ms: o.sim_ms,
        decisions: conv(&o.report.decisions),
        trace: o.global.trace.clone(),
    }
}

fn on_fatal(why: dst::Abort) {
    let step = dst::step();
    let rep = dst::stop();
    let (mut viol, trace) = {
        let g = global();
        (g.violations.clone(), g.trace.clone())
    };
    viol.push(Violation {
        kind: "hang".into(),
        detail: match why {
            dst::Abort::Deadlock => format!("deadlock: every thread is blocked ({:?})", rep.blocked),
            _ => format!("no end after {step} steps"),
        },
        step,
    });
    let Some((mut scn, n)) = CURRENT.lock().ok().and_then(|mut c| c.take()) else {
        std::process::exit(3);
    };
    let res = Res {
        violations: viol.iter().map(|v| (v.kind.clone(), v.detail.clone(), v.step)).collect(),
        hash: rep.hash,
        steps: rep.steps,
        sim_ms: 0,
        decisions: conv(&rep.decisions),
        trace,
    };
    match n {
        None => {
            println!("{}", serde_json::to_string(&res).expect("json"));
        }
        Some(n) => {
            scn.sched.policy = PolicyCfg::Replay;
            scn.sched.decisions.clone_from(&res.decisions);
            report(&scn, n, &res);
            println!("F {n}");
        }
    }
    let _ = std::io::stdout().flush();
    std::process::exit(3);
}

fn report(scn: &Scenario, n: u64, res: &Res) {
    let Some((id, dir)) = PROP.lock().ok().and_then(|p| p.clone()) else { return };
    let p = gen_::prop(&id).expect("known");
    // a run that never ends decides nothing, whatever is looked for
    let endless = |v: &&(String, String, u64)| v.0 == "hang" && (v.1.starts_with("no end") || v.1.starts_with("deadlock"));
    let of_interest = res.violations.iter().find(|v| p.kinds.contains(&v.0.as_str()));
    let Some((kind, detail, _)) = of_interest.or_else(|| res.violations.iter().find(endless)) else { return };
    let path = format!("{dir}/cand-{n}.json");
    let v = serde_json::json!({"kind": kind, "detail": detail, "n": n, "hash": res.hash, "scenario": scn});
    if std::fs::write(&path, v.to_string()).is_ok() {
        println!("V {}", serde_json::json!({"kind": kind, "detail": detail, "n": n, "path": path, "family": scn.family}));
    }
}

fn scratch_tmp() -> std::path::PathBuf {
    let base = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| {
        if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { "/tmp".into() }
    });
    let d = std::path::PathBuf::from(base).join(format!("simcheck-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    // SAFETY: called before any other thread exists
    unsafe { std::env::set_var("TMPDIR", &d) };
    d
}

pub fn worker(id: &str, base: u64, start: u64, stride: u64, secs: u64, dir: &str) {
    let p = gen_::prop(id).expect("known property");
    *PROP.lock().expect("prop") = Some((id.into(), dir.into()));
    let tmp = scratch_tmp();
    dst::set_fatal(on_fatal);
    let t0 = Instant::now();
    let limit = Duration::from_secs(secs);
    let mut sum = Summary::default();
    let mut hashes: Vec<u8> = Vec::new();
    let mut found: BTreeMap<String, u32> = BTreeMap::new();
    let mut n = start;
    let mut out = std::io::stdout();
    let mut last_flush = Instant::now();
    let max_n: u64 = std::env::var("SIM_MAX_N").ok().and_then(|v| v.parse().ok()).unwrap_or(u64::MAX);
    while t0.elapsed() < limit && n < max_n {
        let scn = gen_::scenario(p, base, n);
        let _ = writeln!(out, "R {n}");
        let _ = out.flush();
        *CURRENT.lock().expect("current") = Some((scn.clone(), Some(n)));
        let o = execute(&scn);
        let r = result(&o);
        sum.runs += 1;
        sum.steps += o.report.steps;
        sum.switches += o.report.switches;
        sum.preemptions += o.report.preemptions;
        sum.stalls += o.report.stalls;
        sum.sim_ms += o.sim_ms;
        sum.ops += o.global.ops_done;
        sum.bytes += o.global.bytes_read;
        for (k, v) in &o.global.fired {
            *sum.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.global.probes {
            *sum.probes.entry(k.clone()).or_default() += v;
        }
        *sum.families.entry(scn.family.clone()).or_default() += 1;
        if o.global.ops_done > 0 && (o.report.preemptions > 0 || !o.global.fired.is_empty()) {
            sum.nontrivial += 1;
            hashes.extend_from_slice(&r.hash.to_le_bytes());
        }
        if (n / stride) % 40 == 7 && sum.spot.len() < 8 && r.violations.is_empty() {
            sum.spot.push((n, r.hash));
        }
        if sum.samples.is_empty() && sum.runs > 5 {
            sum.samples.push(serde_json::json!({"scenario": scn, "steps": r.steps, "trace": r.trace.iter().take(25).collect::<Vec<_>>()}).to_string());
        }
        if !r.violations.is_empty() {
            let mine = r.violations.iter().find(|v| p.kinds.contains(&v.0.as_str()));
            match mine {
                Some(v) => {
                    let c = found.entry(v.0.clone()).or_default();
                    *c += 1;
                    if *c <= 3 {
                        let mut s = scn.clone();
                        s.sched.policy = PolicyCfg::Replay;
                        s.sched.decisions.clone_from(&r.decisions);
                        report(&s, n, &r);
                    } else if *c == 40 {
                        break;
                    }
                }
                None => {
                    for v in &r.violations {
                        *sum.other.entry(v.0.clone()).or_default() += 1;
                    }
                }
            }
        }
        n += stride;
        if last_flush.elapsed() > Duration::from_secs(5) {
            last_flush = Instant::now();
            let _ = writeln!(out, "S {}", serde_json::to_string(&sum).expect("json"));
        }
    }
    sum.wall_s = t0.elapsed().as_secs_f64();
    let _ = std::fs::write(format!("{dir}/hashes-{start}.bin"), &hashes);
    let _ = std::fs::remove_dir_all(&tmp);
    println!("S {}", serde_json::to_string(&sum).expect("json"));
    for (k, v) in &found {
        println!("K {k} {v}");
    }
    println!("E");
}

pub fn exec(scn: &Scenario, verbose: bool) {
    let tmp = scratch_tmp();
    dst::set_fatal(on_fatal);
    *CURRENT.lock().expect("current") = Some((scn.clone(), None));
    let o = execute(scn);
    let r = result(&o);
    if verbose {
        for l in &r.trace {
            println!("{l}");
        }
        for v in &r.violations {
            println!("VIOLATED {} at step {}: {}", v.0, v.2, v.1);
        }
        println!("hash {:#x} steps {} sim_ms {} decisions {}", r.hash, r.steps, r.sim_ms, r.decisions.len());
    } else {
        println!("{}", serde_json::to_string(&r).expect("json"));
    }
    let _ = std::fs::remove_dir_all(&tmp);
}
