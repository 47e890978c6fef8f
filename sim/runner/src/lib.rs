//! Seeded search over simulated runs: budget, threads, known findings, minimiser, replay files,
//! evidence. Shared by the chain simulator and the oracle-service simulator.
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub prop: String,
    pub known: Option<String>,
    pub msg: String,
    pub step: usize,
}

pub type Counts = BTreeMap<String, BTreeMap<String, u64>>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    /// group -> name -> count
    pub counts: Counts,
    pub states: Vec<u64>,
    pub digest: u64,
    /// simulated seconds
    pub seconds: f64,
    /// trace of the run, for the replay file
    pub trace: Vec<String>,
}

pub trait Sim: Sync {
    type Step: Clone + Serialize + DeserializeOwned + Send + Sync + std::fmt::Debug;
    fn history(&self, prop: &str, seed: u64) -> Vec<Self::Step>;
    /// Execute a history. `stop` names the property whose first unlisted violation may end the run.
    fn run(&self, prop: &str, seed: u64, steps: &[Self::Step], stop: bool, trace: bool) -> RunOut;
    /// simpler variants of one step, simplest first
    fn simpler(&self, s: &Self::Step) -> Vec<Self::Step>;
    /// checks done once per invocation
    fn once(&self, _prop: &str) -> Vec<Viol> {
        vec![]
    }
    fn info(&self, prop: &str) -> Info;
}

pub struct Info {
    pub real: Value,
    pub stub: Value,
    pub rule: String,
    pub measure: String,
    /// counter group and name holding the number of property checks done: ("rules", prop)
    pub level: &'static str,
}

#[derive(Serialize, Deserialize)]
pub struct Replay<S> {
    pub property: String,
    pub simulator: String,
    pub seed: u64,
    pub violation: Viol,
    pub digest: u64,
    pub original_steps: usize,
    pub steps: Vec<S>,
    pub trace: Vec<String>,
}

#[derive(Deserialize)]
struct Known {
    property: String,
    #[serde(default)]
    key: String,
    #[serde(default)]
    what: String,
    #[serde(default)]
    status: String,
}

/// Keep stdout for our own lines: the code under test prints to it.
pub fn steal_stdout() -> std::fs::File {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(keep)
    }
}

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub budget: Duration,
    pub threads: usize,
    pub simulator: &'static str,
    pub min_runs: u64,
}

fn merge(a: &mut Counts, b: &Counts) {
    for (g, m) in b {
        let e = a.entry(g.clone()).or_default();
        for (k, v) in m {
            *e.entry(k.clone()).or_default() += v;
        }
    }
}

pub fn mix_seed(base: u64, n: u64) -> u64 {
    let mut z = base.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(n.wrapping_mul(0xD1B5_4A32_D192_ED03));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) >> 1
}

pub fn check<S: Sim>(sim: &S, cfg: &Cfg, out: &mut std::fs::File) -> i32 {
    let t0 = Instant::now();
    let known: Vec<Known> = std::fs::read(cfg.root.join("known_findings.json"))
        .ok()
        .map(|b| serde_json::from_slice(&b).expect("known_findings.json"))
        .unwrap_or_default();
    let listed: HashSet<String> = known
        .iter()
        .filter(|k| k.property == cfg.prop && k.status != "fixed")
        .map(|k| k.key.clone())
        .collect();
    let bad = |v: &Viol| v.prop == cfg.prop && !v.known.as_ref().map(|k| listed.contains(k)).unwrap_or(false);

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        counts: Counts,
        states: HashSet<u64>,
        runs: u64,
        distinct: HashSet<u64>,
        nontrivial: u64,
        seconds: f64,
        steps: u64,
        seen_known: BTreeMap<String, (u64, u64, String)>,
        samples: Vec<Value>,
        found: Option<(u64, Viol)>,
        nondet: u64,
        redone: u64,
        other: BTreeMap<String, u64>,
    }
    let acc = Mutex::new(Acc {
        counts: Counts::default(),
        states: HashSet::new(),
        runs: 0,
        distinct: HashSet::new(),
        nontrivial: 0,
        seconds: 0.0,
        steps: 0,
        seen_known: BTreeMap::new(),
        samples: vec![],
        found: None,
        nondet: 0,
        redone: 0,
        other: BTreeMap::new(),
    });
    for v in sim.once(&cfg.prop) {
        if bad(&v) {
            acc.lock().unwrap().found = Some((u64::MAX, v));
            stop.store(true, Ordering::SeqCst);
        }
    }
    std::thread::scope(|sc| {
        for _ in 0..cfg.threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if stop.load(Ordering::SeqCst) || (t0.elapsed() > cfg.budget && n >= cfg.min_runs) {
                        return;
                    }
                    let seed = mix_seed(cfg.seed, n);
                    let h = sim.history(&cfg.prop, seed);
                    let o = sim.run(&cfg.prop, seed, &h, true, false);
                    // one run in 64 is repeated: same seed, same execution
                    let again = (n % 64 == 7).then(|| sim.run(&cfg.prop, seed, &h, true, false).digest);
                    let mut a = acc.lock().unwrap();
                    a.runs += 1;
                    a.steps += h.len() as u64;
                    a.seconds += o.seconds;
                    if let Some(d) = again {
                        a.redone += 1;
                        if d != o.digest {
                            a.nondet += 1;
                        }
                    }
                    let checks = o.counts.get("rules").and_then(|m| m.get(&cfg.prop)).copied().unwrap_or(0);
                    if a.distinct.insert(o.digest) && checks > 0 {
                        a.nontrivial += 1;
                    }
                    if a.states.len() < 5_000_000 {
                        a.states.extend(o.states.iter());
                    }
                    if a.samples.len() < 3 && checks > 0 {
                        let first: Vec<String> = h.iter().take(6).map(|s| trim(&format!("{s:?}"), 300)).collect();
                        a.samples.push(json!({"seed": seed, "steps": h.len(), "first_steps": first}));
                    }
                    merge(&mut a.counts, &o.counts);
                    for v in &o.viols {
                        if v.prop != cfg.prop {
                            *a.other.entry(v.prop.clone()).or_default() += 1;
                        } else if !bad(v) {
                            let k = v.known.clone().unwrap();
                            let e = a.seen_known.entry(k).or_insert((0, seed, v.msg.clone()));
                            e.0 += 1;
                        }
                    }
                    if let Some(v) = o.viols.iter().find(|v| bad(v)) {
                        if a.found.is_none() {
                            a.found = Some((seed, v.clone()));
                        }
                        stop.store(true, Ordering::SeqCst);
                        return;
                    }
                })
                .unwrap();
        }
    });
    let a = acc.into_inner().unwrap();
    let explore = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut result = json!("held on every run");
    if let Some((seed, v)) = &a.found {
        code = 1;
        let path = if *seed == u64::MAX {
            write_replay(cfg, &Replay::<Value> {
                property: cfg.prop.clone(),
                simulator: cfg.simulator.into(),
                seed: *seed,
                violation: v.clone(),
                digest: 0,
                original_steps: 0,
                steps: vec![],
                trace: vec![],
            })
        } else {
            let h = sim.history(&cfg.prop, *seed);
            let r = minimise(sim, cfg, *seed, &h, v, &bad);
            write_replay(cfg, &r)
        };
        eprintln!("{}: {} (seed {seed})", v.prop, trim(&v.msg, 1500));
        writeln!(out, "VIOLATION property={} replay={}", cfg.prop, path.display()).unwrap();
        result = json!({"violation": v, "seed": seed, "replay": path.display().to_string()});
    }
    for k in known.iter().filter(|k| k.property == cfg.prop && k.status != "fixed") {
        if let Some((n, seed, _)) = a.seen_known.get(&k.key) {
            writeln!(out, "KNOWN-FINDING: property={} {} ({n} times, first seed {seed})", k.property, k.what).unwrap();
        }
    }
    let info = sim.info(&cfg.prop);
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 / explore.max(0.001) * 3600.0) as u64;
    let g = |k: &str| a.counts.get(k).cloned().unwrap_or_default();
    let ev = json!({
        "property": cfg.prop,
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": info.level,
        "wall_s": wall,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial,
            "rule": info.rule,
            "samples": a.samples,
            "result": result,
            "simulated_runs": a.runs,
            "seeds_per_hour": per_hour(a.runs),
            "steps": a.steps,
            "steps_per_hour": per_hour(a.steps),
            "simulated_seconds": a.seconds as u64,
            "faults_injected": g("faults"),
            "operations": g("ops"),
            "outcomes": g("outcomes"),
            "checks_of_this_property": g("rules").get(&cfg.prop).copied().unwrap_or(0),
            "obligations_to_accept": g("must"),
            "distinct_states": a.states.len(),
            "state_measure": info.measure,
            "determinism": {"runs_repeated": a.redone, "digest_mismatches": a.nondet},
            "known_findings_seen": a.seen_known.iter().map(|(k, v)| (k.clone(), json!({"times": v.0, "first_seed": v.1}))).collect::<BTreeMap<_, _>>(),
            "violations_of_other_properties_seen": a.other,
            "components_real": named(&info.real),
            "components_stubbed": named(&info.stub),
        }
    });
    let dir = cfg.root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", cfg.prop)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    eprintln!(
        "{}: {} runs, {} checks, {} states, {:.1} s, nondeterministic {}/{}, exit {code}",
        cfg.prop,
        a.runs,
        g("rules").get(&cfg.prop).copied().unwrap_or(0),
        a.states.len(),
        wall,
        a.nondet,
        a.redone
    );
    code
}

/// the entries that are not empty
fn named(v: &Value) -> Vec<&Value> {
    v.as_array().into_iter().flatten().filter(|s| s.as_str() != Some("")).collect()
}

pub fn trim(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn write_replay<T: Serialize>(cfg: &Cfg, r: &Replay<T>) -> PathBuf {
    let dir = cfg.root.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{}-{}.json", cfg.prop, r.seed));
    std::fs::write(&p, serde_json::to_vec_pretty(r).unwrap()).unwrap();
    p
}

/// Delta debugging over the steps, then over the parts of each step.
fn minimise<S: Sim>(
    sim: &S,
    cfg: &Cfg,
    seed: u64,
    h: &[S::Step],
    v0: &Viol,
    bad: &dyn Fn(&Viol) -> bool,
) -> Replay<S::Step> {
    let t0 = Instant::now();
    let budget = Duration::from_secs(if cfg.tier == "quick" { 40 } else { 120 });
    let class = |m: &str| m.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(10).collect::<String>();
    let want = class(&v0.msg);
    let test = |steps: &[S::Step]| -> bool {
        let o = sim.run(&cfg.prop, seed, steps, true, false);
        o.viols.iter().find(|v| bad(v)).map(|v| class(&v.msg) == want).unwrap_or(false)
    };
    let mut cur: Vec<S::Step> = h.to_vec();
    if v0.step + 1 < cur.len() {
        let c = cur[..=v0.step].to_vec();
        if test(&c) {
            cur = c;
        }
    }
    let mut n = 2usize;
    while cur.len() >= 2 && t0.elapsed() < budget {
        let sz = cur.len().div_ceil(n);
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let mut c = cur.clone();
            c.drain(i..(i + sz).min(cur.len()));
            if !c.is_empty() && test(&c) {
                cur = c;
                reduced = true;
            } else {
                i += sz;
            }
        }
        if !reduced {
            if sz == 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        } else {
            n = n.max(2).min(cur.len().max(2));
        }
    }
    let mut again = true;
    while again && t0.elapsed() < budget {
        again = false;
        for i in 0..cur.len() {
            for s in sim.simpler(&cur[i]) {
                if t0.elapsed() > budget {
                    break;
                }
                let mut c = cur.clone();
                c[i] = s;
                if test(&c) {
                    cur = c;
                    again = true;
                    break;
                }
            }
        }
    }
    let o = sim.run(&cfg.prop, seed, &cur, true, true);
    Replay {
        property: cfg.prop.clone(),
        simulator: cfg.simulator.into(),
        seed,
        violation: o.viols.iter().find(|v| bad(v)).cloned().unwrap_or(v0.clone()),
        digest: o.digest,
        original_steps: h.len(),
        steps: cur,
        trace: o.trace,
    }
}

/// Re-execute a replay file. 1: reproduced exactly, 0: the violation did not occur.
pub fn replay<S: Sim>(sim: &S, path: &Path, out: &mut std::fs::File) -> i32 {
    let r: Replay<S::Step> = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    if r.steps.is_empty() {
        let v = sim.once(&r.property);
        for x in &v {
            writeln!(out, "{}", x.msg).unwrap();
        }
        return (!v.is_empty()) as i32;
    }
    let o = sim.run(&r.property, r.seed, &r.steps, true, true);
    for t in &o.trace {
        writeln!(out, "  {t}").unwrap();
    }
    match o.viols.iter().find(|v| **v == r.violation) {
        Some(v) => {
            let exact = o.digest == r.digest;
            writeln!(out, "reproduced (step {}, execution {}): {}", v.step, if exact { "identical" } else { "differs" }, v.msg).unwrap();
            writeln!(out, "VIOLATION property={} replay={}", r.property, path.display()).unwrap();
            1
        }
        None => {
            writeln!(out, "not reproduced; seen instead: {:?}", o.viols.iter().map(|v| &v.msg).collect::<Vec<_>>()).unwrap();
            0
        }
    }
}

pub fn main_with<S: Sim>(sim: &S, simulator: &'static str, quick: u64, thorough: u64, threads: usize, min_runs: u64) {
    let mut out = steal_stdout();
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let secs = std::env::var("VERIF_SECS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { thorough } else { quick });
            let cfg = Cfg {
                prop: a[2].clone(),
                tier,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                root,
                budget: Duration::from_secs(secs),
                threads,
                simulator,
                min_runs,
            };
            check(sim, &cfg, &mut out)
        }
        Some("replay") => replay(sim, Path::new(&a[2]), &mut out),
        _ => {
            writeln!(out, "usage: {simulator} check <property> | replay <file>").unwrap();
            2
        }
    };
    drop(out);
    std::process::exit(code);
}
