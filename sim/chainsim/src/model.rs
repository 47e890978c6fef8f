//! Executable reference model of one chain layer and the per-property rules checked against it.
use chain::keys::*;
use chain::native::{Acc, Call};
use chain::programs::*;
use chain::svm::{Chain, Outcome};
use borsh::BorshDeserialize;
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_api::prelude::{Oracle, Oracles, Queue, QueueAccount};
use ephemeral_vrf_sdk as sdk;
use solana_account::ReadableAccount;
use solana_program::pubkey::Pubkey;
use solana_sdk::hash::hash;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::AssertUnwindSafe;

pub type Id = [u8; 32];
pub const TTL: u64 = 240;
pub const TIMELOCK: u64 = 200;
pub const FEE: u64 = 500_000;
pub const FEE_HIGH: u64 = 800_000;
pub const STEP_BYTES: usize = 10_240;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Req {
    pub id: Id,
    pub slot: u64,
    pub high: bool,
    pub program: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, bool)>,
    pub args: Vec<u8>,
}
impl Req {
    pub fn fee(&self) -> u64 {
        if self.high {
            FEE_HIGH
        } else {
            FEE
        }
    }
}

#[derive(Clone, Debug)]
pub struct QModel {
    pub owner: Pubkey,
    pub idx: u8,
    pub size: usize,
    pub items: Vec<Req>,
    /// lamports not accounted for by fees
    pub base: u64,
    pub delegated: bool,
}

#[derive(Clone, Debug)]
pub struct Record {
    pub pk: [u8; 32],
    pub slot: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub er: bool,
    pub oracles: Option<Vec<Pubkey>>,
    pub recs: BTreeMap<Pubkey, Record>,
    pub queues: BTreeMap<Pubkey, QModel>,
    /// ids ever accepted, per queue address
    pub ids: HashMap<Pubkey, HashSet<Id>>,
    /// requests that are stored otherwise than they were made, as they were made
    pub wanted: HashMap<Id, Req>,
    /// on which of its queues an oracle was asked for an id
    pub asked: HashMap<(Pubkey, Id), Pubkey>,
    /// how each id left its queue
    pub resolved: HashMap<Id, &'static str>,
    /// the randomness each request was given
    pub delivered: BTreeMap<Id, [u8; 32]>,
    pub authority: Option<Pubkey>,
    /// what the rollup commits for a queue about to be handed back: requests and lamports
    pub returning: HashMap<Pubkey, (Vec<Req>, u64)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub msg: String,
    /// a finding recorded in known_findings.json
    pub known: Option<&'static str>,
}

fn sh(b: &[u8]) -> String {
    b.iter().take(6).map(|x| format!("{x:02x}")).collect()
}

/// What the published account-reading API says about a queue account.
pub struct View {
    pub items: Vec<Req>,
    pub len: usize,
    pub header_len: usize,
    pub index: u8,
    /// end offset of the newest item (from the start of the data after the discriminator)
    pub end: usize,
}

pub fn view(data: &[u8]) -> Result<View, String> {
    std::panic::catch_unwind(AssertUnwindSafe(|| view_inner(data)))
        .unwrap_or_else(|_| Err("the queue reader panicked".into()))
}

pub fn is_queue(data: &[u8]) -> bool {
    Queue::try_from_bytes(data).is_ok()
}

fn view_inner(data: &[u8]) -> Result<View, String> {
    let h = Queue::try_from_bytes(data).map_err(|e| format!("not a queue: {e:?}"))?;
    let (header_len, index) = (h.len(), h.index);
    let mut body = data[8..].to_vec();
    let q = QueueAccount::load(&mut body).map_err(|e| format!("load: {e:?}"))?;
    let raw: Vec<_> = q.iter_items().collect();
    let mut items = vec![];
    let mut end = 0;
    let dup = {
        let mut s = HashSet::new();
        !raw.iter().all(|i| s.insert(i.id))
    };
    for (n, it) in raw.iter().enumerate() {
        match q.get_item_by_index(n) {
            Some(x) if x == *it => {}
            _ => return Err(format!("get_item_by_index({n}) disagrees with iter_items")),
        }
        if !dup {
            match q.find_item_by_id(&it.id) {
                Some((m, x)) if m == n && x == *it => {}
                _ => return Err(format!("find_item_by_id does not find item {n}")),
            }
        }
        let metas: Vec<(Pubkey, bool)> = it
            .account_metas(q.acc)
            .iter()
            .map(|m| {
                let a = m.to_account_meta();
                (a.pubkey, a.is_writable)
            })
            .collect();
        end = end.max(it.args_offset as usize + it.args_len as usize);
        end = end.max(it.metas_offset as usize + it.metas_len as usize * 33);
        items.push(Req {
            id: it.id,
            slot: it.slot,
            high: it.priority_request == 1,
            program: Pubkey::new_from_array(it.callback_program_id),
            disc: it.callback_discriminator(q.acc).to_vec(),
            metas,
            args: it.callback_args(q.acc).to_vec(),
        });
    }
    if q.get_item_by_index(raw.len()).is_some() {
        return Err("get_item_by_index past the end returns an item".into());
    }
    if q.is_empty() != raw.is_empty() || h.is_empty() != raw.is_empty() {
        return Err("is_empty disagrees with the contents".into());
    }
    Ok(View {
        len: q.len(),
        items,
        header_len,
        index,
        end,
    })
}

pub struct Rules<'a> {
    pub out: &'a mut Vec<Violation>,
    pub props_used: &'a mut BTreeMap<&'static str, u64>,
}
impl Rules<'_> {
    pub fn fail(&mut self, prop: &'static str, msg: String) {
        self.out.push(Violation {
            prop,
            msg,
            known: None,
        });
    }
    pub fn known(&mut self, prop: &'static str, key: &'static str, msg: String) {
        self.out.push(Violation {
            prop,
            msg,
            known: Some(key),
        });
    }
    /// count and check one rule
    pub fn check(&mut self, prop: &'static str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        *self.props_used.entry(prop).or_default() += 1;
        if !ok {
            let m = msg();
            self.fail(prop, m);
        }
        ok
    }
}

pub fn oracles_key() -> Pubkey {
    Pubkey::find_program_address(&[b"oracles"], &VRF).0
}
pub fn oracle_data_key(k: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"oracle", k.as_ref()], &VRF).0
}
pub fn queue_key(k: &Pubkey, i: u8) -> Pubkey {
    Pubkey::find_program_address(&[b"queue", k.as_ref(), &[i]], &VRF).0
}

/// net lamports change per account over one call
fn deltas(c: &Call) -> BTreeMap<Pubkey, i128> {
    let mut m = BTreeMap::new();
    for (i, x) in c.metas.iter().enumerate() {
        let (Some(a), Some(b)) = (c.pre.get(i), c.post.get(i)) else {
            continue;
        };
        m.insert(x.key, b.lamports as i128 - a.lamports as i128);
    }
    m
}

fn acc_of<'a>(c: &Call, accs: &'a [Acc], k: &Pubkey) -> Option<&'a Acc> {
    let i = c.metas.iter().position(|m| &m.key == k)?;
    accs.get(i)
}

pub struct Ctx<'a> {
    pub slot: u64,
    pub calls: &'a [Call],
    /// VRF secret of the owner of a registered key, where the simulation knows it
    pub secrets: &'a HashMap<[u8; 32], curve25519_dalek::Scalar>,
    pub identity: Pubkey,
}

impl Model {
    pub fn open(&self, oracle: &Pubkey) -> u64 {
        self.queues.values().filter(|q| &q.owner == oracle).count() as u64
    }

    /// Apply one successful VRF call. `c.pre`/`c.post` are the accounts around the call.
    pub fn apply(&mut self, cx: &Ctx, n: usize, r: &mut Rules) {
        let c = &cx.calls[n];
        if c.data.len() < 8 {
            r.fail("C08", "an instruction shorter than its tag was accepted".into());
            return;
        }
        let body = &c.data[8..];
        let signer = |i: usize| c.metas.get(i).map(|m| m.signer).unwrap_or(false);
        let keyat = |i: usize| c.metas.get(i).map(|m| m.key).unwrap_or_default();
        // accounts the instruction may change
        let mut may: Vec<Pubkey> = vec![];
        match c.data[0] {
            0 => {
                may.push(oracles_key());
                r.check("C08", self.oracles.is_none(), || {
                    "the registry was initialised a second time".into()
                });
                self.oracles = Some(vec![]);
            }
            1 => {
                let (Some(idb), Some(pk), Some(op)) =
                    (body.get(..32), body.get(32..64), body.get(64))
                else {
                    r.fail("C08", "truncated ModifyOracle accepted".into());
                    return;
                };
                let id = Pubkey::try_from(idb).unwrap();
                let auth = self.authority;
                r.check("C08", signer(0) && Some(keyat(0)) == auth, || {
                    format!(
                        "registry change accepted from {} (signed: {}), the admin is {:?}",
                        keyat(0),
                        signer(0),
                        auth
                    )
                });
                may.push(oracles_key());
                may.push(oracle_data_key(&id));
                match op {
                    0 => {
                        r.check("C08", !self.recs.contains_key(&id), || {
                            format!("oracle {id} added twice")
                        });
                        r.check("C08", solana_on_curve(&id) && id != Pubkey::default(), || {
                            format!("invalid identity {id} registered")
                        });
                        self.oracles.get_or_insert_with(Vec::new).push(id);
                        self.recs.insert(
                            id,
                            Record {
                                pk: pk.try_into().unwrap(),
                                slot: cx.slot,
                            },
                        );
                    }
                    1 => {
                        let open = self.open(&id);
                        r.check("C10", open == 0, || {
                            format!("oracle {id} removed with {open} open queues")
                        });
                        r.check("C08", self.recs.contains_key(&id), || {
                            format!("removal of {id}, which is not registered, was accepted")
                        });
                        if let Some(o) = &mut self.oracles {
                            o.retain(|x| x != &id);
                        }
                        self.recs.remove(&id);
                    }
                    _ => r.fail("C08", format!("unknown registry operation {op} accepted")),
                }
            }
            2 => {
                let (Some(t), Some(idx)) = (body.get(..4), body.get(4)) else {
                    r.fail("C10", "truncated queue initialisation accepted".into());
                    return;
                };
                let target = u32::from_le_bytes(t.try_into().unwrap()) as usize;
                let oracle = keyat(1);
                let qk = keyat(3);
                r.check("C10", signer(1), || {
                    format!("queue of {oracle} initialised without its signature")
                });
                r.check("C10", qk == queue_key(&oracle, *idx), || {
                    format!("initialised {qk}, which is not queue {idx} of {oracle}")
                });
                match self.recs.get(&oracle) {
                    None => r.fail("C10", format!("queue for unregistered oracle {oracle}")),
                    Some(rec) => {
                        let age = cx.slot.saturating_sub(rec.slot);
                        r.check("C10", age >= TIMELOCK, || {
                            format!("queue initialised {age} slots after registration")
                        });
                    }
                }
                let was = self.queues.contains_key(&qk);
                r.check("C10", !was, || format!("queue {qk} re-initialised"));
                may.push(qk);
                let before = acc_of(c, &c.pre, &qk).map(|a| a.data.len()).unwrap_or(0);
                let (alen, adata, alam) = acc_of(c, &c.post, &qk)
                    .map(|a| (a.data.len(), a.data.clone(), a.lamports))
                    .unwrap_or_default();
                if is_queue(&adata) {
                    may.push(oracle_data_key(&oracle));
                    r.check("C10", alen == target, || {
                        format!("queue initialised with {alen} bytes, {target} requested")
                    });
                    if !was {
                        self.queues.insert(
                            qk,
                            QModel {
                                owner: oracle,
                                idx: *idx,
                                size: alen,
                                items: vec![],
                                base: alam,
                                delegated: false,
                            },
                        );
                    }
                } else {
                    r.check("C10", before + STEP_BYTES < target, || {
                        format!("initialisation of {target} bytes from {before} bytes not completed")
                    });
                    r.check("C10", alen > before, || {
                        format!("an allocation step made no progress: {before} -> {alen}")
                    });
                }
            }
            3 | 8 => {
                let high = c.data[0] == 3;
                let qk = keyat(2);
                let mut b = body;
                let Ok(args) = sdk::types::RequestRandomness::deserialize(&mut b) else {
                    r.fail("C12", "an undecodable request was accepted".into());
                    return;
                };
                let program = Pubkey::new_from_array(args.callback_program_id.to_bytes());
                r.check("C09", signer(0), || "request accepted without the payer's signature".into());
                r.check("C09", signer(1) && keyat(1) == identity(&program).0, || {
                    format!(
                        "request calling back {program} accepted from {} (signed: {})",
                        keyat(1),
                        signer(1)
                    )
                });
                may.push(qk);
                let pre_ok = acc_of(c, &c.pre, &qk)
                    .map(|a| a.owner == VRF && is_queue(&a.data))
                    .unwrap_or(false);
                let tracked = self.queues.get(&qk).map(|q| !q.delegated).unwrap_or(false);
                if !r.check("C09", pre_ok && tracked, || {
                    format!("request written into {qk}, which is not an initialised, undelegated queue")
                }) {
                    return;
                }
                r.check(
                    "C03",
                    args.callback_discriminator.len() <= 8
                        && args.callback_accounts_metas.len() <= 20
                        && args.callback_args.len() <= 512,
                    || {
                        format!(
                            "request over the limits accepted: discriminator {}, accounts {}, args {}",
                            args.callback_discriminator.len(),
                            args.callback_accounts_metas.len(),
                            args.callback_args.len()
                        )
                    },
                );
                let q = self.queues.get_mut(&qk).unwrap();
                let fee = if qk == api_default_eph() { 0 } else if high { FEE_HIGH } else { FEE };
                let d = deltas(c);
                for (k, v) in &d {
                    let want = if *k == keyat(0) {
                        -(fee as i128)
                    } else if *k == qk {
                        fee as i128
                    } else {
                        0
                    };
                    r.check("C04", *v == want, || {
                        format!("request moved {v} lamports on {k}, expected {want}")
                    });
                }
                match acc_of(c, &c.post, &qk).map(|a| view(&a.data)) {
                    Some(Ok(v)) => {
                        let old: Vec<Id> = q.items.iter().map(|i| i.id).collect();
                        let new: Vec<Id> = v.items.iter().map(|i| i.id).collect();
                        if r.check("C03", new.len() == old.len() + 1 && new[..old.len()] == old[..], || {
                            format!(
                                "an accepted request changed the queue from {} to {} entries",
                                old.len(),
                                new.len()
                            )
                        }) {
                            let it = v.items.last().unwrap();
                            let want = Req {
                                id: it.id,
                                slot: cx.slot,
                                high,
                                program,
                                disc: args.callback_discriminator.clone(),
                                metas: args
                                    .callback_accounts_metas
                                    .iter()
                                    .map(|m| (Pubkey::new_from_array(m.pubkey.to_bytes()), m.is_writable))
                                    .collect(),
                                args: args.callback_args.clone(),
                            };
                            r.check("C03", it == &want, || {
                                format!("stored request differs from the one submitted: {it:?} instead of {want:?}")
                            });
                            let ids = self.ids.entry(qk).or_default();
                            let fresh = ids.insert(it.id);
                            r.check("C05", fresh, || {
                                format!(
                                    "request id {} was given to two accepted requests on queue {qk}",
                                    sh(&it.id)
                                )
                            });
                            // one key and one input: one randomness
                            let on = *self.asked.entry((q.owner, it.id)).or_insert(qk);
                            r.check("C05", on == qk, || {
                                format!("request id {} was given to requests on the queues {on} and {qk} of one oracle", sh(&it.id))
                            });
                            q.items.push(want);
                        }
                    }
                    Some(Err(e)) => r.fail("C03", format!("after a request the queue is unreadable: {e}")),
                    None => r.fail("C03", "queue account missing".into()),
                }
            }
            4 => self.provide(cx, n, r, &mut may),
            9 => {
                let idx = body.first().copied().unwrap_or(0);
                let (oracle, qk) = (keyat(0), keyat(1));
                may.push(qk);
                let ok = qk == queue_key(&oracle, idx)
                    && self.queues.get(&qk).map(|q| !q.delegated).unwrap_or(false);
                if !r.check("C07", ok, || {
                    format!("purge accepted on {qk}, which is not an open queue of {oracle}")
                }) {
                    return;
                }
                let wanted = &self.wanted;
                let made = |i: &Req| wanted.get(&i.id).map_or(i.slot, |w| w.slot);
                let old = |i: &Req| cx.slot.saturating_sub(made(i)) > TTL;
                let q = self.queues.get_mut(&qk).unwrap();
                let gone: Vec<Req> =
                    q.items.iter().filter(|i| old(i)).map(|i| wanted.get(&i.id).unwrap_or(i).clone()).collect();
                let keep: Vec<Req> = q.items.iter().filter(|i| !old(i)).cloned().collect();
                match acc_of(c, &c.post, &qk).map(|a| view(&a.data)) {
                    Some(Ok(v)) => {
                        r.check("C07", v.items == keep, || {
                            format!(
                                "purge at slot {} left {:?} instead of {:?} (ages {:?})",
                                cx.slot,
                                v.items.iter().map(|i| sh(&i.id)).collect::<Vec<_>>(),
                                keep.iter().map(|i| sh(&i.id)).collect::<Vec<_>>(),
                                q.items.iter().map(|i| cx.slot.saturating_sub(made(i))).collect::<Vec<_>>()
                            )
                        });
                        for g in &gone {
                            if !v.items.iter().any(|i| i.id == g.id) {
                                self.resolved.insert(g.id, "purged");
                            }
                        }
                    }
                    _ => r.fail("C07", "queue unreadable after purge".into()),
                }
                let kids = cx.calls.iter().filter(|k| k.parent == Some(n)).count();
                r.check("C07", kids == 0, || "a purge called another program".into());
                r.check("C01", kids == 0, || "a purge called another program".into());
                let fee: u64 = if qk == api_default_eph() {
                    0
                } else {
                    gone.iter().map(|g| g.fee()).sum()
                };
                for (k, v) in deltas(c) {
                    let want = if k == qk {
                        -(fee as i128)
                    } else if k == oracle {
                        fee as i128
                    } else {
                        0
                    };
                    r.check("C04", v == want, || {
                        format!("purge moved {v} lamports on {k}, expected {want}")
                    });
                    r.check("C07", v == want, || {
                        format!("purge moved {v} lamports on {k}, expected {want}")
                    });
                }
                q.items = keep;
            }
            5 => {
                let idx = body.first().copied().unwrap_or(0);
                let (auth, qk) = (keyat(0), keyat(1));
                may.push(qk);
                r.check("C11", signer(0) && qk == queue_key(&auth, idx), || {
                    format!("{qk} delegated by {auth} (signed: {}), not its owner", signer(0))
                });
                let post = acc_of(c, &c.post, &qk).cloned();
                let pre = acc_of(c, &c.pre, &qk).cloned();
                if let (Some(pre), Some(post)) = (pre, post) {
                    r.check("C11", post.owner == DLP, || {
                        format!("after delegation {qk} is owned by {}", post.owner)
                    });
                    r.check("C11", post.data == pre.data, || {
                        format!("delegation changed the contents of {qk}")
                    });
                    if self.queues.contains_key(&qk) {
                        r.check("C04", post.lamports == pre.lamports, || {
                            format!("delegation moved lamports of {qk}")
                        });
                    }
                }
                if let Some(q) = self.queues.get_mut(&qk) {
                    r.check("C11", !q.delegated, || format!("{qk} delegated twice"));
                    q.delegated = true;
                }
            }
            6 => {
                let idx = body.first().copied().unwrap_or(0);
                let (auth, qk) = (keyat(0), keyat(1));
                r.check("C11", signer(0) && qk == queue_key(&auth, idx), || {
                    format!("undelegation of {qk} accepted from {auth} (signed: {})", signer(0))
                });
                let kids: Vec<&Call> = cx.calls.iter().filter(|k| k.parent == Some(n)).collect();
                let ok = kids.len() == 1
                    && kids[0].program == MAGIC
                    && kids[0].data.first() == Some(&2)
                    && kids[0].metas.iter().skip(2).map(|m| m.key).collect::<Vec<_>>() == vec![qk];
                r.check("C11", ok, || {
                    format!("undelegation of {qk} did not schedule exactly its commit and hand-back")
                });
            }
            196 => {
                let qk = keyat(0);
                may.push(qk);
                let by_dlp = c.parent.map(|p| cx.calls[p].program == DLP).unwrap_or(false);
                r.check("C11", by_dlp, || {
                    format!("hand-back of {qk} accepted although the delegation program did not drive it")
                });
                if !by_dlp {
                    r.check("C08", false, || {
                        format!("an account of the program was forged at {qk} through ProcessUndelegation")
                    });
                }
                let post = acc_of(c, &c.post, &qk).cloned();
                let buf = c.pre.get(1).cloned();
                if let (Some(post), Some(buf)) = (post, buf) {
                    r.check("C11", post.owner == VRF && post.data == buf.data, || {
                        format!("{qk} came back with other contents than the rollup committed")
                    });
                }
                if by_dlp {
                    if let (Some(q), Some((items, lam))) =
                        (self.queues.get_mut(&qk), self.returning.remove(&qk))
                    {
                        let fees: u64 = if qk == api_default_eph() {
                            0
                        } else {
                            items.iter().map(|i| i.fee()).sum()
                        };
                        q.delegated = false;
                        q.base = lam.saturating_sub(fees);
                        for i in &items {
                            self.ids.entry(qk).or_default().insert(i.id);
                        }
                        q.items = items;
                    }
                }
            }
            7 => {
                let idx = body.first().copied().unwrap_or(0);
                let (oracle, qk) = (keyat(0), keyat(2));
                may.push(qk);
                may.push(oracle_data_key(&oracle));
                r.check("C10", signer(0) && qk == queue_key(&oracle, idx), || {
                    format!("{qk} closed by {oracle} (signed: {}), not its owner", signer(0))
                });
                match self.queues.get(&qk) {
                    None => r.fail("C10", format!("closed {qk}, which is not an open queue")),
                    Some(q) => {
                        let n = q.items.len();
                        r.check("C10", n == 0, || format!("{qk} closed with {n} pending requests"));
                        r.check("C10", !q.delegated, || format!("{qk} closed while delegated"));
                        let had = acc_of(c, &c.pre, &qk).map(|a| a.lamports).unwrap_or(0);
                        for (k, v) in deltas(c) {
                            let want = if k == qk {
                                -(had as i128)
                            } else if k == oracle {
                                had as i128
                            } else {
                                0
                            };
                            r.check("C10", v == want, || {
                                format!("closing moved {v} lamports on {k}, expected {want}")
                            });
                        }
                    }
                }
                self.queues.remove(&qk);
            }
            t => r.fail("C08", format!("unknown instruction {t} accepted")),
        }
        // nothing else that belongs to the program may change
        for (i, m) in c.metas.iter().enumerate() {
            let (Some(a), Some(b)) = (c.pre.get(i), c.post.get(i)) else {
                continue;
            };
            if may.contains(&m.key) || (a.owner != VRF && b.owner != VRF) {
                continue;
            }
            if a.data != b.data || a.owner != b.owner {
                let prop = match (m.key == oracles_key() || a.data.first() == Some(&1), c.data[0]) {
                    (true, _) => "C08",
                    (_, 3 | 8) => "C09",
                    _ => "C03",
                };
                r.fail(prop, format!("instruction {} changed {}, which it has no business with", c.data[0], m.key));
            }
        }
    }

    fn provide(&mut self, cx: &Ctx, n: usize, r: &mut Rules, may: &mut Vec<Pubkey>) {
        let c = &cx.calls[n];
        let body = &c.data[8..];
        let (oracle, qk) = (
            c.metas.first().map(|m| m.key).unwrap_or_default(),
            c.metas.get(3).map(|m| m.key).unwrap_or_default(),
        );
        may.push(qk);
        let osig = c.metas.first().map(|m| m.signer).unwrap_or(false);
        if body.len() < 160 {
            r.fail("C02", "a truncated fulfilment was accepted".into());
            return;
        }
        let id: Id = body[..32].try_into().unwrap();
        let output: [u8; 32] = body[32..64].try_into().unwrap();
        let resolved = self.resolved.get(&id).copied();
        let elsewhere = self
            .queues
            .iter()
            .find(|(k, q)| **k != qk && q.items.iter().any(|i| i.id == id))
            .map(|x| *x.0);
        let Some(q) = self.queues.get_mut(&qk) else {
            r.fail("C01", format!("fulfilment accepted on {qk}, which is not an open queue"));
            return;
        };
        r.check("C02", osig && q.owner == oracle, || {
            format!("fulfilment on a queue of {} accepted from {oracle} (signed: {osig})", q.owner)
        });
        r.check("C11", !q.delegated, || format!("fulfilment changed {qk} while it is delegated"));
        let Some(pos) = q.items.iter().position(|i| i.id == id) else {
            r.fail(
                "C01",
                format!(
                    "fulfilment accepted for request {}, which is not pending on {qk} (resolved before: {resolved:?}, pending on: {elsewhere:?})",
                    sh(&id)
                ),
            );
            return;
        };
        let it = self.wanted.get(&id).unwrap_or(&q.items[pos]).clone();
        r.check("C06", cx.slot > it.slot, || {
            format!("request made in slot {} fulfilled in slot {}", it.slot, cx.slot)
        });
        // C02: the unique output for the registered key
        match self.recs.get(&q.owner) {
            None => r.fail("C02", "fulfilment accepted for an oracle without a record".into()),
            Some(rec) => match cx.secrets.get(&rec.pk) {
                Some(sk) => {
                    let want = ephemeral_vrf::vrf::compute_vrf(*sk, &id).0.to_bytes();
                    r.check("C02", want == output, || {
                        format!(
                            "output {} accepted for request {}, the oracle's unique output is {}",
                            sh(&output),
                            sh(&id),
                            sh(&want)
                        )
                    });
                    let (cb, ch, s) = (&body[64..96], &body[96..128], &body[128..160]);
                    let ok = check_proof(&rec.pk, &id, &output, cb, ch, s);
                    r.check("C02", ok, || {
                        format!("a proof that does not verify was accepted for {}", sh(&id))
                    });
                }
                None => {
                    r.check("C02", false, || {
                        format!("a proof was accepted under key {}, whose secret nobody has", sh(&rec.pk))
                    });
                }
            },
        }
        r.check("C01", !it.metas.iter().any(|m| m.0 == oracle), || {
            format!("the oracle's own account was handed to the callback for {}", sh(&id))
        });
        // C01: exactly its own callback
        let kids: Vec<&Call> = cx.calls.iter().filter(|k| k.parent == Some(n)).collect();
        let mut want_data = it.disc.clone();
        want_data.extend_from_slice(&hash(&output).to_bytes());
        want_data.extend_from_slice(&it.args);
        if r.check("C01", kids.len() == 1 && kids[0].program == it.program, || {
            format!(
                "fulfilling {} called {:?} instead of {} once",
                sh(&id),
                kids.iter().map(|k| k.program).collect::<Vec<_>>(),
                it.program
            )
        }) {
            let k = kids[0];
            let wr = |key: &Pubkey| it.metas.iter().any(|m| &m.0 == key && m.1);
            let mut wm = vec![(cx.identity, true, wr(&cx.identity))];
            wm.extend(it.metas.iter().map(|m| (m.0, m.0 == cx.identity, wr(&m.0))));
            let got: Vec<_> = k.metas.iter().map(|m| (m.key, m.signer, m.writable)).collect();
            r.check("C01", got == wm, || {
                format!("the callback for {} got accounts {got:?} instead of {wm:?}", sh(&id))
            });
            if let Some(v) = k.data.get(it.disc.len()..it.disc.len() + 32) {
                self.delivered.insert(id, v.try_into().unwrap());
            }
            r.check("C01", k.data == want_data, || {
                format!(
                    "the callback for {} got data {:02x?} instead of {:02x?}",
                    sh(&id),
                    &k.data,
                    want_data
                )
            });
            r.check("C02", k.data.len() >= it.disc.len() + 32
                && k.data[it.disc.len()..it.disc.len() + 32] == hash(&output).to_bytes(), || {
                "the randomness delivered is not the hash of the output".into()
            });
            // C12
            r.check(
                "C12",
                k.metas.first().map(|m| (m.key, m.signer))
                    == Some((Pubkey::new_from_array(sdk::consts::VRF_PROGRAM_IDENTITY.to_bytes()), true)),
                || "the callback is not signed by the identity address the SDK publishes".into(),
            );
            r.check("C12", k.data.ends_with(&it.args) && k.data.starts_with(&it.disc), || {
                "the callback does not carry the discriminator and arguments of the request".into()
            });
        }
        // the queue loses exactly this request
        match acc_of(c, &c.post, &qk).map(|a| view(&a.data)) {
            Some(Ok(v)) => {
                let want: Vec<Id> = q.items.iter().map(|i| i.id).filter(|i| *i != id).collect();
                let got: Vec<Id> = v.items.iter().map(|i| i.id).collect();
                r.check("C01", got == want, || {
                    format!(
                        "fulfilling {} left {:?} pending instead of {:?}",
                        sh(&id),
                        got.iter().map(|i| sh(i)).collect::<Vec<_>>(),
                        want.iter().map(|i| sh(i)).collect::<Vec<_>>()
                    )
                });
            }
            _ => r.fail("C01", "queue unreadable after a fulfilment".into()),
        }
        let fee = if qk == api_default_eph() { 0 } else { it.fee() };
        for (k, v) in deltas(c) {
            let want = if k == qk {
                -(fee as i128)
            } else if k == oracle {
                fee as i128
            } else {
                0
            };
            r.check("C04", v == want, || {
                format!("fulfilment moved {v} lamports on {k}, expected {want}")
            });
        }
        q.items.remove(pos);
        self.resolved.insert(id, "fulfilled");
    }

    /// C19: every call of a consumer that shows the VRF identity's signature.
    pub fn c19(&self, cx: &Ctx, before: &Model, r: &mut Rules) {
        for c in cx.calls.iter() {
            if !is_honest(&c.program) {
                continue;
            }
            if !c.metas.iter().any(|m| m.key == cx.identity && m.signer) {
                continue;
            }
            let parent = c.parent.map(|p| &cx.calls[p]);
            let direct = parent.map(|p| p.program == VRF && p.data.first() == Some(&4)).unwrap_or(false);
            if direct {
                let p = parent.unwrap();
                let id: Id = p.data.get(8..40).and_then(|b| b.try_into().ok()).unwrap_or_default();
                let out = p.data.get(40..72).unwrap_or(&[]);
                let q = p.metas.get(3).map(|m| m.key).unwrap_or_default();
                let it = before
                    .queues
                    .get(&q)
                    .or_else(|| self.queues.get(&q))
                    .and_then(|q| q.items.iter().find(|i| i.id == id));
                let ok = it
                    .map(|it| {
                        it.program == c.program
                            && c.data.get(it.disc.len()..it.disc.len() + 32)
                                == Some(&hash(out).to_bytes()[..])
                    })
                    .unwrap_or(false);
                r.check("C19", ok, || {
                    format!("{} was called with the VRF identity's signature for a request that is not its own", c.program)
                });
                continue;
            }
            *r.props_used.entry("C19").or_default() += 1;
            // confused deputy through a hostile consumer's own callback
            let via_callback = parent
                .map(|p| {
                    p.program == CONS_H
                        && p.parent
                            .map(|g| cx.calls[g].program == VRF && cx.calls[g].data.first() == Some(&4))
                            .unwrap_or(false)
                })
                .unwrap_or(false);
            let msg = format!(
                "{} was called with the VRF identity's signature by {:?}, not by the VRF program",
                c.program,
                parent.map(|p| p.program)
            );
            if via_callback {
                r.known("C19", "identity-forwarded-by-callback", msg);
            } else {
                r.fail("C19", msg);
            }
        }
    }

    /// Compare the whole observable state with the model.
    pub fn sync(&mut self, chain: &Chain, r: &mut Rules) {
        let owned = chain.all_owned(&VRF);
        let mut reg_ok = true;
        if !self.er {
            let od = chain.data(&oracles_key());
            let got = if od.is_empty() {
                None
            } else {
                match Oracles::try_from_bytes_with_discriminator(&od) {
                    Ok(o) => Some(o.oracles.clone()),
                    Err(e) => {
                        r.fail("C08", format!("the registry is unreadable: {e:?}"));
                        reg_ok = false;
                        None
                    }
                }
            };
            reg_ok &= r.check("C08", !reg_ok || got == self.oracles, || {
                format!("the registry lists {got:?} instead of {:?}", self.oracles)
            });
            let listed: HashSet<Pubkey> = self.oracles.iter().flatten().copied().collect();
            let recs: HashSet<Pubkey> = self.recs.keys().copied().collect();
            r.check("C08", listed == recs, || "registry list and records disagree".into());
        }
        for (id, rec) in &self.recs {
            let k = oracle_data_key(id);
            let d = chain.data(&k);
            let o = Oracle::try_from_acc(&d);
            match o {
                Some(o) => {
                    r.check("C08", o.vrf_pubkey.0 == rec.pk && o.registration_slot == rec.slot, || {
                        format!("the record of oracle {id} changed")
                    });
                    if !self.er {
                        let open = self.open(id);
                        let got = o.open_queue;
                        r.check("C10", got == open, || {
                            format!("oracle {id} counts {got} open queues, it has {open}")
                        });
                    }
                }
                None => {
                    r.fail("C08", format!("the record of registered oracle {id} is gone or unreadable"));
                }
            }
        }
        let mut bad = vec![];
        for (qk, q) in self.queues.iter() {
            let Some(acc) = chain.get(qk) else {
                r.fail("C03", format!("queue {qk} vanished"));
                bad.push(*qk);
                continue;
            };
            if q.delegated {
                let ok = acc.owner() == &DLP;
                r.check("C11", ok, || format!("delegated queue {qk} is owned by {}", acc.owner()));
            } else {
                let own = acc.owner() == &VRF;
                if !r.check("C03", own, || format!("queue {qk} is owned by {}", acc.owner())) {
                    bad.push(*qk);
                    continue;
                }
            }
            let prop = if q.delegated { "C11" } else { "C03" };
            match view(acc.data()) {
                Ok(v) => {
                    let mut ok = r.check(prop, v.items == q.items, || {
                        format!(
                            "queue {qk} holds {:?} instead of {:?}",
                            v.items.iter().map(|i| (sh(&i.id), i.slot)).collect::<Vec<_>>(),
                            q.items.iter().map(|i| (sh(&i.id), i.slot)).collect::<Vec<_>>()
                        )
                    });
                    ok &= r.check("C03", v.len == v.items.len() && v.header_len == v.len, || {
                        format!("queue {qk} reports {} entries and holds {}", v.len, v.items.len())
                    });
                    r.check("C10", v.index == q.idx, || format!("queue {qk} has index {}", v.index));
                    r.check("C10", acc.data().len() == q.size, || {
                        format!("queue {qk} has {} bytes instead of {}", acc.data().len(), q.size)
                    });
                    if !ok {
                        bad.push(*qk);
                    }
                }
                Err(e) => {
                    r.fail(prop, format!("queue {qk}: {e}"));
                    bad.push(*qk);
                }
            }
            let fees: u64 = if *qk == api_default_eph() {
                0
            } else {
                q.items.iter().map(|i| i.fee()).sum()
            };
            if !(q.delegated) {
                r.check("C04", acc.lamports() == q.base + fees, || {
                    format!(
                        "queue {qk} holds {} lamports instead of {} + {fees} of pending fees",
                        acc.lamports(),
                        q.base
                    )
                });
            }
        }
        // accounts of the program that no accepted operation explains
        if !self.er {
            let known: HashSet<Pubkey> = self
                .queues
                .keys()
                .copied()
                .chain(self.recs.keys().map(oracle_data_key))
                .chain([oracles_key()])
                .collect();
            for (k, a) in &owned {
                if known.contains(k) || a.data().is_empty() {
                    continue;
                }
                if is_queue(a.data()) {
                    r.fail("C10", format!("a queue exists at {k} that was never initialised or was closed"));
                } else if a.data().iter().any(|b| *b != 0) {
                    r.fail("C08", format!("unexplained program data at {k}"));
                    r.fail("C10", format!("a partly allocated queue at {k} was written to"));
                }
            }
        }
        for k in bad {
            self.resync_queue(chain, &k);
        }
    }

    /// Adopt what is on chain, so that one violation is not reported again and again.
    pub fn resync_queue(&mut self, chain: &Chain, k: &Pubkey) {
        let Some(a) = chain.get(k) else {
            self.queues.remove(k);
            return;
        };
        if let (Ok(v), Some(q)) = (view(a.data()), self.queues.get_mut(k)) {
            for i in &v.items {
                if let Some(was) = q.items.iter().find(|w| w.id == i.id && *w != i) {
                    self.wanted.entry(i.id).or_insert_with(|| was.clone());
                }
            }
            q.items = v.items;
            let fees: u64 = q.items.iter().map(|i| i.fee()).sum();
            q.base = a.lamports().saturating_sub(if *k == api_default_eph() { 0 } else { fees });
        } else {
            self.queues.remove(k);
        }
    }
}

pub trait OracleExt: Sized {
    fn try_from_acc(d: &[u8]) -> Option<Self>;
}
impl OracleExt for Oracle {
    fn try_from_acc(d: &[u8]) -> Option<Oracle> {
        use ephemeral_vrf_api::steel::AccountDeserialize;
        if d.len() != 8 + std::mem::size_of::<Oracle>() {
            return None;
        }
        <Oracle as AccountDeserialize>::try_from_bytes(d).ok().copied()
    }
}

pub fn api_default_eph() -> Pubkey {
    api::DEFAULT_EPHEMERAL_QUEUE
}

pub fn solana_on_curve(k: &Pubkey) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(k.to_bytes()).decompress().is_some()
}

/// Independent check of a proof with the service's own verifier.
pub fn check_proof(pk: &[u8; 32], id: &Id, out: &[u8; 32], cb: &[u8], ch: &[u8], s: &[u8]) -> bool {
    use curve25519_dalek::ristretto::CompressedRistretto as C;
    let (Ok(cb), Ok(ch)) = (C::from_slice(cb), C::from_slice(ch)) else {
        return false;
    };
    let Some(pk) = C(*pk).decompress() else {
        return false;
    };
    let s: [u8; 32] = s.try_into().unwrap();
    let Some(s) = Option::<curve25519_dalek::Scalar>::from(curve25519_dalek::Scalar::from_canonical_bytes(s)) else {
        return false;
    };
    ephemeral_vrf::vrf::verify_vrf(pk, id, C(*out), (cb, ch, s))
}

/// Run the rules over a committed transaction.
pub fn after_tx(
    model: &mut Model,
    chain: &Chain,
    o: &Outcome,
    secrets: &HashMap<[u8; 32], curve25519_dalek::Scalar>,
    out: &mut Vec<Violation>,
    used: &mut BTreeMap<&'static str, u64>,
) {
    let mut r = Rules { out, props_used: used };
    let cx = Ctx {
        slot: o.slot,
        calls: &o.calls,
        secrets,
        identity: identity(&VRF).0,
    };
    let before = if o.calls.iter().any(|c| is_honest(&c.program)) {
        Some(model.clone())
    } else {
        None
    };
    for n in 0..o.calls.len() {
        if o.calls[n].program == VRF && o.calls[n].ok {
            model.apply(&cx, n, &mut r);
        }
    }
    if let Some(b) = before {
        model.c19(&cx, &b, &mut r);
    }
    model.sync(chain, &mut r);
}
