//! Deterministic simulation of the whole on-chain system. See DESIGN.md.
mod model;
mod ops;
mod world;

use ops::*;
use runner::*;
use serde_json::json;
use std::collections::BTreeMap;

struct ChainSim;

fn own(m: &BTreeMap<&'static str, u64>) -> BTreeMap<String, u64> {
    m.iter().map(|(k, v)| (k.to_string(), *v)).collect()
}

/// A rule broken where published and new code meet, but not by the new code on its own, is a matter
/// of C23; one that the new code breaks by itself is not.
fn mixed_only(w: &mut world::World, seed: u64, steps: &[Step]) {
    if !w.viol.iter().any(|(_, v)| v.known.is_none() && v.prop != "C23") {
        return;
    }
    let mut x = world::World::new(seed, 1000);
    x.alone = true;
    x.run(steps, &|v| v.known.is_none());
    if x.viol.iter().any(|(_, v)| v.known.is_none()) {
        return;
    }
    for (_, v) in w.viol.iter_mut() {
        if v.known.is_none() && v.prop != "C23" {
            v.msg = format!("only where published and new code meet: [{}] {}", v.prop, v.msg);
            v.prop = "C23";
        }
    }
}

impl Sim for ChainSim {
    type Step = Step;

    fn history(&self, prop: &str, seed: u64) -> Vec<Step> {
        let profile = match (seed >> 7) % 8 {
            _ if ["C21", "C22", "C23"].contains(&prop) => prop,
            0 => "mixed",
            1 => "C11",
            _ => prop,
        };
        Gen::new(seed, profile).history()
    }

    fn run(&self, prop: &str, seed: u64, steps: &[Step], stop: bool, trace: bool) -> RunOut {
        let mut w = world::World::new(seed, 1000);
        w.trace = trace.then(Vec::new);
        w.elsewhere = prop == "C26";
        w.twins = prop == "C12";
        w.verify = prop == "C02";
        w.bounded = prop == "C27";
        w.run(steps, &|v| stop && (v.prop == prop || prop == "C23") && v.known.is_none());
        if prop == "C23" {
            mixed_only(&mut w, seed, steps);
        }
        let s = &w.stats;
        let mut counts = Counts::new();
        counts.insert("faults".into(), own(&s.faults));
        counts.insert("rules".into(), own(&s.rules));
        counts.insert("must".into(), own(&s.must));
        counts.insert("ops".into(), own(&s.ops));
        counts.insert(
            "outcomes".into(),
            [
                ("transactions", s.txs),
                ("accepted", s.ok),
                ("refused", s.failed),
                ("requests accepted", s.requests),
                ("requests fulfilled", s.fulfilled),
                ("requests purged", s.purged),
                ("slots", s.slots),
            ]
            .into_iter()
            .map(|(k, v)| (k.to_string(), v))
            .collect(),
        );
        RunOut {
            viols: w
                .viol
                .iter()
                .map(|(step, v)| Viol {
                    prop: v.prop.into(),
                    known: v.known.map(Into::into),
                    msg: v.msg.clone(),
                    step: *step,
                })
                .collect(),
            counts,
            states: s.states.iter().copied().collect(),
            digest: w.digest,
            seconds: s.seconds as f64,
            trace: w.trace.take().unwrap_or_default(),
        }
    }

    fn simpler(&self, s: &Step) -> Vec<Step> {
        let mut v = vec![];
        let mut with = |f: &dyn Fn(&mut Step)| {
            let mut x = s.clone();
            f(&mut x);
            v.push(x);
        };
        if s.late > 0 {
            with(&|x| x.late = 0);
        }
        if s.dup {
            with(&|x| x.dup = false);
        }
        if s.old {
            with(&|x| x.old = false);
        }
        if s.halt.is_some() {
            with(&|x| x.halt = None);
        }
        match &s.op {
            Op::Request(r) => {
                if r.copies > 1 {
                    with(&|x| {
                        if let Op::Request(r) = &mut x.op {
                            r.copies -= 1
                        }
                    });
                }
                if !r.metas.is_empty() {
                    with(&|x| {
                        if let Op::Request(r) = &mut x.op {
                            r.metas.clear()
                        }
                    });
                    with(&|x| {
                        if let Op::Request(r) = &mut x.op {
                            let n = r.metas.len() / 2;
                            r.metas.truncate(n)
                        }
                    });
                }
                if !matches!(r.args, Args::Plain(0)) {
                    with(&|x| {
                        if let Op::Request(r) = &mut x.op {
                            r.args = Args::Plain(0)
                        }
                    });
                }
            }
            Op::Attack { base, muts, via } => {
                for i in 0..muts.len() {
                    let mut m = muts.clone();
                    m.remove(i);
                    v.push(Step {
                        op: Op::Attack {
                            base: base.clone(),
                            muts: m,
                            via: *via,
                        },
                        ..s.clone()
                    });
                }
            }
            Op::Bundle(o) => {
                for i in 0..o.len() {
                    let mut m = o.clone();
                    m.remove(i);
                    v.push(Step {
                        op: Op::Bundle(m),
                        ..s.clone()
                    });
                }
            }
            Op::Setup { queues } if queues.len() > 1 => {
                for i in 0..queues.len() {
                    let mut m = queues.clone();
                    m.remove(i);
                    v.push(Step {
                        op: Op::Setup { queues: m },
                        ..s.clone()
                    });
                }
            }
            Op::Cli { by, cmd, fault, tick, env } => {
                let (by, cmd, fault, tick, env) = (*by, cmd.clone(), fault.clone(), *tick, *env);
                with(&|x| x.op = Op::Cli { by, cmd: cmd.clone(), fault: CliFault::None, tick: 0, env: 0 });
                with(&|x| x.op = Op::Cli { by, cmd: cmd.clone(), fault: fault.clone(), tick: 0, env });
                with(&|x| x.op = Op::Cli { by, cmd: cmd.clone(), fault: fault.clone(), tick, env: 0 });
            }
            Op::Slots { n, dt, er } if *n > 1 || *dt != 1 => {
                let (n, dt, er) = (*n, *dt, *er);
                with(&|x| x.op = Op::Slots { n, dt: 1, er });
                with(&|x| x.op = Op::Slots { n: 1, dt: 1, er: 1 });
                with(&|x| x.op = Op::Slots { n: n / 2 + 1, dt, er });
            }
            _ => {}
        }
        v.retain(|x| serde_json::to_string(x).ok() != serde_json::to_string(s).ok());
        v
    }

    fn once(&self, prop: &str) -> Vec<Viol> {
        let found = match prop {
            "C20" => world::key_rules(),
            "C23" => world::same_keys(),
            _ => vec![],
        };
        found
            .into_iter()
            .map(|msg| Viol {
                prop: prop.into(),
                known: None,
                msg,
                step: 0,
            })
            .collect()
    }

    fn info(&self, prop: &str) -> Info {
        let p = profile(prop);
        let cli = prop == "C21" || prop == "C22";
        Info {
            level: "exploration",
            real: json!([
                if prop == "C23" { "the published version of program, API, SDK and prover (copy in sim/pinned) as the other side of the upgrade" } else { "" },
                if cli { "the command line tool (vrf-cli) as a process: argument parsing, instruction building, signing, the Solana client's send and confirm logic" } else { "" },
                "VRF on-chain program (process_instruction, all 11 instructions), ephemeral-vrf-api, ephemeral-vrf-sdk, vrf prover and verifier; consumers written with Anchor 1.0.2 and 0.31.1 using the vrf macro (SDK features anchor and anchor-compat)",
                "Solana SVM 3.x transaction processor, invoke context, CPI rules, account and rent checks, system program",
                "ephemeral-rollups-sdk delegation CPIs (dependency)"
            ]),
            stub: json!([
                if cli { "the tool's transport to its node: answered by the simulator; its clock is virtual" } else { "" },
                "BPF interpreter: programs run natively inside the real invoke context; heap and instructions metered for C27 only; signatures checked by key ownership",
                "delegation program and rollup scheduling program: small models; validator bank, fork choice and network: the simulator",
                "plain consumer programs: scripted behaviours (accept, fail, fail until a slot, panic, re-enter, forward the identity)"
            ]),
            rule: format!(
                "One evaluation = one seeded history of {}..{} steps drawn with weights {:?} ({}), executed on the real program with lost, delayed, duplicated, hostile and half-executed transactions, clock jumps and chain forks{}. Non-trivial: at least one rule of this property was evaluated on it and its execution digest differs from every other run.",
                p.steps.0,
                p.steps.1,
                p.w,
                if cli || prop == "C23" { "all seeds" } else { "three quarters of the seeds; the rest mixed and delegation-heavy histories" },
                if prop == "C23" { "; the program upgraded in the middle of it on either layer, clients built with the published libraries among the new ones" } else if cli { "; the tool's runs with failing calls, a lagging node, lost and delayed transactions, slots and others' transactions between its calls, and kills" } else { "" },
            ),
            measure: "distinct hashes of the abstract state after a step: per queue (layer, delegated, and for each pending request its age class, priority and size), registry size".into(),
        }
    }
}

fn main() {
    main_with(&ChainSim, "chainsim", 40, 600, 8, 64);
}
