//! Deterministic simulation of the oracle service. See DESIGN.md.
mod leak;
mod ops;
mod world;

use ops::*;
use runner::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Serialize, Deserialize)]
struct Job {
    prop: String,
    seed: u64,
    steps: Vec<Step>,
    stop: bool,
    trace: bool,
}

struct Worker {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// seconds of processor time a run may take
const CPU_LIMIT: i64 = 90;

fn spawn_worker() -> Worker {
    // without arguments: the service reads the command line
    let mut c = Command::new(std::env::current_exe().unwrap())
        .env("SIM_WORKER", "1")
        .env_remove("RUST_LOG")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    Worker { to: c.stdin.take().unwrap(), from: BufReader::new(c.stdout.take().unwrap()), _child: c }
}

/// Worker process: one forked child per run, so that a run can exit, abort or hang.
fn worker() {
    let mut out = steal_stdout();
    // what is the same in every run
    chain::keys::cast();
    let input = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if input.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let job: Job = serde_json::from_str(&line).unwrap();
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                let lim = libc::rlimit { rlim_cur: CPU_LIMIT as u64, rlim_max: CPU_LIMIT as u64 + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
            }
            std::panic::set_hook(Box::new(|_| {}));
            let secrecy = job.prop == "C24";
            let explained = (secrecy && job.seed % 4 == 1).then(|| leak::explain(job.seed / 4));
            let heard = secrecy.then(leak::capture);
            let last = job.steps.len().saturating_sub(1);
            // a thread of its own: fresh thread-locals, seeded like everything else
            simrt::sys::enter(job.seed);
            let o = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || world::run(&job.prop, job.seed, &job.steps, job.stop, job.trace))
                .unwrap()
                .join();
            simrt::sys::leave();
            if let Ok(mut o) = o {
                let mut told = |how: String, b: &[u8]| {
                    let n = b.iter().filter(|c| **c == b'\n').count() as u64;
                    *o.counts.entry("rules".into()).or_default().entry("C24".into()).or_default() += n;
                    if let Some(l) = leak::secrets().scan(b) {
                        o.viols.push(Viol { prop: "C24".into(), known: None, msg: format!("the service {how} {l}"), step: last });
                    }
                };
                if let Some((a, b)) = explained {
                    told(format!("run with {a} prints"), &b);
                }
                if let Some(f) = heard {
                    told("logs or prints".into(), &leak::captured(f));
                }
                let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = f.write_all(&serde_json::to_vec(&o).unwrap());
                drop(f);
                unsafe { libc::_exit(0) }
            }
            unsafe { libc::_exit(76) }
        }
        unsafe { libc::close(fds[1]) };
        let mut b = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let reply = if b.last() == Some(&b'}') {
            String::from_utf8(b).unwrap()
        } else {
            let why = if libc::WIFEXITED(st) {
                match libc::WEXITSTATUS(st) {
                    76 => "the simulator failed".to_string(),
                    77 => "the service spins without letting time pass".to_string(),
                    c => format!("the service ended its process with status {c}"),
                }
            } else if libc::WTERMSIG(st) == libc::SIGXCPU {
                "the service hangs".to_string()
            } else {
                format!("the service's process was ended by signal {}", libc::WTERMSIG(st))
            };
            json!({"died": why}).to_string()
        };
        let _ = writeln!(out, "{}", reply.replace('\n', " "));
        let _ = out.flush();
    }
}

struct OracleSim;

impl Sim for OracleSim {
    type Step = Step;

    fn history(&self, prop: &str, seed: u64) -> Vec<Step> {
        let name = match (seed >> 7) % 8 {
            0 => "mixed",
            1 => "C13",
            _ => prop,
        };
        history(seed, name)
    }

    fn run(&self, prop: &str, seed: u64, steps: &[Step], stop: bool, trace: bool) -> RunOut {
        WORKER.with(|w| {
            let mut w = w.borrow_mut();
            let k = w.get_or_insert_with(spawn_worker);
            let job = Job { prop: prop.into(), seed, steps: steps.to_vec(), stop, trace };
            let ok = writeln!(k.to, "{}", serde_json::to_string(&job).unwrap()).is_ok();
            let mut line = String::new();
            if !ok || k.from.read_line(&mut line).unwrap_or(0) == 0 {
                *w = None;
                panic!("the simulator's worker process is gone");
            }
            let v: serde_json::Value = serde_json::from_str(&line).expect("worker reply");
            if let Some(d) = v.get("died") {
                let d = d.as_str().unwrap_or("").to_string();
                if d == "the simulator failed" {
                    eprintln!("internal error in the simulator, seed {seed}");
                    std::process::exit(2);
                }
                // a dead or hanging service breaks every promise it makes
                return RunOut {
                    viols: ["C13", "C14", "C15", "C16", "C18"]
                        .iter()
                        .map(|p| Viol { prop: p.to_string(), known: None, msg: d.clone(), step: steps.len().saturating_sub(1) })
                        .collect(),
                    digest: seed,
                    ..Default::default()
                };
            }
            serde_json::from_value(v).expect("worker reply")
        })
    }

    fn simpler(&self, s: &Step) -> Vec<Step> {
        let mut v = vec![];
        let with = |op: Op| Step { gap: s.gap, op };
        match s.op {
            Op::Req { q, kind, high, copies, metas, args } => {
                if copies > 1 {
                    v.push(with(Op::Req { q, kind, high, copies: 1, metas, args }));
                    v.push(with(Op::Req { q, kind, high, copies: copies / 2, metas, args }));
                }
                if metas > 0 || args > 0 {
                    v.push(with(Op::Req { q, kind, high, copies, metas: 0, args: 0 }));
                }
                if kind != Kind::Ok {
                    v.push(with(Op::Req { q, kind: Kind::Ok, high, copies, metas, args }));
                }
            }
            Op::Fault(f, ms) if ms > 300 => v.push(with(Op::Fault(f, ms / 2))),
            Op::Setup { laser, preflight, http, replicas, queues, outage, jitter } => {
                if jitter > 0 {
                    v.push(with(Op::Setup { laser, preflight, http, replicas, queues, outage, jitter: 0 }));
                }
                if replicas > 1 {
                    v.push(with(Op::Setup { laser, preflight, http, replicas: 1, queues, outage, jitter }));
                }
                if queues > 1 {
                    v.push(with(Op::Setup { laser, preflight, http, replicas, queues: 1, outage, jitter }));
                }
                if outage > 0 {
                    v.push(with(Op::Setup { laser, preflight, http, replicas, queues, outage: 0, jitter }));
                }
                if preflight {
                    v.push(with(Op::Setup { laser, preflight: false, http, replicas, queues, outage, jitter }));
                }
            }
            Op::Fork { depth, keep } if depth > 1 => v.push(with(Op::Fork { depth: depth / 2, keep })),
            _ => {}
        }
        if s.gap > 2_000 {
            v.push(Step { gap: s.gap / 2, op: s.op });
        }
        v
    }

    fn info(&self, prop: &str) -> Info {
        let p = profile(prop);
        Info {
            level: "exploration",
            real: json!([
                "vrf-oracle: main(), OracleClient, processor, both update sources, blockhash cache, HTTP statistics, argument parsing (compiled unmodified from /repo)",
                "tokio timers, channels and locks; solana RpcClient above its transport; hyper's HTTP implementation; vrf prover",
                "VRF on-chain program in the Solana SVM 3.x transaction processor (as in the chain simulator)"
            ]),
            stub: json!([
                "operating system and network: simulated clock, randomness, scheduler (single thread, seeded extra yields at tasks, locks and RPC calls), in-memory connections",
                "RPC node, websocket and Laserstream feeds, mempool, block production and forks: the simulator",
                "env_logger output; consumer programs: scripted behaviours"
            ]),
            rule: format!(
                "One evaluation = one seeded history of {}..{} steps after the set-up ({}; six of eight seeds; the others mixed), with faults stopped at its end and the service watched for 165 more simulated seconds (345 in the idle check). Non-trivial: at least one rule of this property was evaluated and the execution digest differs from every other run.",
                p.steps.0, p.steps.1, p.note
            ),
            measure: "distinct hashes of the abstract state after a slot: pending requests per queue by kind and age class, faults in force, service processes up or stalled, transactions in flight, open subscriptions".into(),
        }
    }
}

fn main() {
    if std::env::var_os("SIM_EXPLAIN").is_some() {
        // ends while it reads its arguments
        unsafe { libc::alarm(10) };
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        if let Err(e) = rt.block_on(oraclelib::main()) {
            eprintln!("Error: {e:?}");
        }
        return;
    }
    if std::env::var_os("SIM_WORKER").is_some() {
        worker();
        return;
    }
    main_with(&OracleSim, "oraclesim", 55, 600, 8, 48);
}
