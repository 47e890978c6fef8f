//! The world around the oracle service: chain, nodes, feeds, faults, and the rules it must keep.
use crate::leak;
use crate::ops::*;
use chain::keys::{key, ADMIN, N, O0, O1, U0, U1};
use chain::programs::{self, base_programs, behave, identity, proxied, BEHAVE, CONS_A, CONS_B, VRF};
use chain::rng::Rng;
use chain::svm::{Chain, Snapshot, Tx};
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk as sdk;
use runner::{RunOut, Viol};
use serde_json::{json, Value};
use simrt::{chan, AccountFilter, Feed, FeedItem, Inst, RpcFail, RpcResult, Update};
use solana_account::{AccountSharedData, ReadableAccount};
use solana_loader_v3_interface::state::UpgradeableLoaderState;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_rent::Rent;
use solana_sdk::hash::Hash;
use solana_sdk::signature::Signature;
use solana_sdk_ids::bpf_loader_upgradeable;
use solana_transaction::Transaction;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{Hash as _, Hasher};
use std::rc::Rc;
use std::time::Duration;
use tokio::sync::oneshot;

pub const SLOT_MS: u64 = 400;
pub const TTL: u64 = 240;
const QUEUE_DISC: [u8; 8] = [3, 0, 0, 0, 0, 0, 0, 0];
const HEADER: usize = 12;
const ITEM: usize = 96;
const META: usize = 33;
const START_SLOT: u64 = 5_000;
/// C13: everything made before the faults stopped is resolved this long after they stopped
const SETTLE: u64 = 165_000;
const PROBE_AT: u64 = 70_000;
const PROBE_LIMIT: u64 = 45_000;
/// C16: no answer to a request is sent this long after the service saw it gone
const GONE_GRACE: u64 = 3_000;
const IDLE_FROM: u64 = 215_000;
const IDLE_TO: u64 = 345_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub id: [u8; 32],
    pub slot: u64,
    pub program: Pubkey,
    pub metas: Vec<(Pubkey, bool)>,
    pub high: bool,
}

/// Reads a queue account: (declared count, items).
pub fn parse(data: &[u8]) -> Option<(u32, u8, Vec<Item>)> {
    if data.len() < 8 + HEADER || data[..8] != QUEUE_DISC {
        return None;
    }
    let d = &data[8..];
    let u32at = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let count = u32at(0);
    let end = (u32at(4) as usize).min(d.len());
    let mut v = vec![];
    let mut c = 16;
    while c + ITEM <= end {
        let b = &d[c..c + ITEM];
        let u16at = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
        let off = u32::from_le_bytes(b[76..80].try_into().unwrap()) as usize;
        let (dl, ml, al) = (u16at(84), u16at(86), u16at(88));
        if b[91] == 1 {
            let metas = d
                .get(off..off + ml * META)
                .map(|m| {
                    m.chunks(META)
                        .map(|x| (Pubkey::new_from_array(x[..32].try_into().unwrap()), x[32] != 0))
                        .collect()
                })
                .unwrap_or_default();
            v.push(Item {
                slot: u64::from_le_bytes(b[..8].try_into().unwrap()),
                id: b[8..40].try_into().unwrap(),
                program: Pubkey::new_from_array(b[40..72].try_into().unwrap()),
                metas,
                high: b[90] == 1,
            });
        }
        c = (c + ITEM + dl + ml * META + al + 7) & !7;
    }
    Some((count, d[8], v))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Fulfilled,
    Purged,
    Reverted,
}

#[derive(Clone, Debug)]
struct Req {
    q: u8,
    kind: Kind,
    made: u64,
    slot: u64,
    gone: Option<(u64, How)>,
    attempt: Option<u64>,
    attempts: u64,
    probe: bool,
}

enum Ev {
    Slot,
    Step(usize),
    Arrive(u64),
    Reply(u64, RpcResult),
    Deliver(usize, FeedItem),
    SubEnd(usize, bool),
    Start(usize),
    /// a process with a malformed identity, and its end
    Odd(u64),
    OddEnd(Inst),
    Resume(Inst),
    StallEnd,
    Stop,
    Probe,
    ProbeCheck,
    Settled,
    Control,
    IdleStart,
    IdleSample,
    IdleEnd,
    Watch,
    End,
}

struct Timed(u64, u64, Ev);
impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0, o.1).cmp(&(self.0, self.1))
    }
}

struct Call {
    inst: Inst,
    method: String,
    params: Value,
    tx: Option<oneshot::Sender<RpcResult>>,
    fail_after: bool,
    garbage: bool,
    back: u64,
    /// accounts the answer shows
    shows: Vec<(Pubkey, AccountSharedData, bool)>,
    at: u64,
}

struct Sub {
    inst: Inst,
    feed: Feed,
    filter: AccountFilter,
    tx: chan::Tx<FeedItem>,
    dead: bool,
    last: u64,
}

#[derive(Default, Clone)]
struct Track {
    /// (time, count, from the feed)
    last: Vec<(u64, u32, bool)>,
    tracked: BTreeMap<[u8; 32], (u64, u64)>,
    left: HashSet<[u8; 32]>,
    sum: f64,
    n: u64,
    exact: bool,
    /// deliveries the service may or may not have taken into account
    vague: u64,
    min_slot: u64,
}

struct Proc {
    replica: usize,
    up: bool,
    started: u64,
    paused_until: u64,
    handle: Option<tokio::task::JoinHandle<Result<(), String>>>,
    http: Option<tokio::sync::mpsc::UnboundedSender<tokio::io::DuplexStream>>,
    seen: HashMap<(Pubkey, [u8; 32]), Vec<(Pubkey, Vec<(Pubkey, bool)>)>>,
    /// newest and oldest request slots this process was ever shown, per queue
    oldest: HashMap<Pubkey, u64>,
    /// requests that every snapshot since this time lacked
    absent: HashMap<(Pubkey, [u8; 32]), u64>,
    track: HashMap<Pubkey, Track>,
    calls: BTreeMap<String, u64>,
    idle0: BTreeMap<String, u64>,
    alive_min: usize,
    control: bool,
}

struct Landing {
    tx: Transaction,
    sig: Option<Signature>,
    at: u64,
    user: Option<(u8, Kind, bool)>,
}

struct Save {
    snap: Snapshot,
    /// what was executed in the slot this snapshot precedes
    done: Vec<Landing>,
}

struct Window {
    f: Fault,
    until: u64,
    id: u64,
}

struct Forged {
    key: Pubkey,
    acc: AccountSharedData,
    how: Forgery,
    until: u64,
}

pub struct World {
    prop: String,
    rng: Rng,
    chain: Chain,
    saves: BTreeMap<u64, Save>,
    heap: BinaryHeap<Timed>,
    seq: u64,
    wake: Rc<tokio::sync::Notify>,
    steps: Vec<Step>,
    setup: Option<(bool, bool, bool, u8, u8, u32)>,
    idx: Vec<u8>,
    own: Vec<Pubkey>,
    foreign: Pubkey,
    oracle: Pubkey,
    procs: BTreeMap<Inst, Proc>,
    next_inst: Inst,
    calls: HashMap<u64, Call>,
    next_call: u64,
    subs: Vec<Sub>,
    windows: Vec<Window>,
    forged: Vec<Forged>,
    mempool: Vec<Landing>,
    statuses: HashMap<Signature, (u64, Option<Value>)>,
    known_sigs: HashSet<Signature>,
    reqs: BTreeMap<[u8; 32], Req>,
    shown: HashMap<Pubkey, AccountSharedData>,
    answers: HashMap<[u8; 32], [u8; 32]>,
    now: u64,
    cur_step: usize,
    stalled: bool,
    stopped: Option<u64>,
    calm: bool,
    idle: bool,
    in_idle: bool,
    sends_idle: u64,
    over: bool,
    stop_on: bool,
    stats_wait: Vec<(Inst, u64, u8, u64)>,
    pub out: RunOut,
    states: HashSet<u64>,
    tracing: bool,
    seeds: u64,
    requests_user: u8,
    tasks: Vec<(Inst, u64, u8)>,
    blockhashes: HashMap<Hash, u64>,
    max_slot: u64,
}

fn program_data() -> (Pubkey, AccountSharedData) {
    let k = Pubkey::find_program_address(&[VRF.as_ref()], &bpf_loader_upgradeable::id()).0;
    let mut d = bincode::serialize(&UpgradeableLoaderState::ProgramData {
        slot: 1,
        upgrade_authority_address: Some(key(ADMIN)),
    })
    .unwrap();
    d.resize(UpgradeableLoaderState::size_of_programdata_metadata() + 16, 0);
    let mut a = AccountSharedData::new(Rent::default().minimum_balance(d.len()), d.len(), &bpf_loader_upgradeable::id());
    a.set_data_from_slice(&d);
    (k, a)
}

/// the indexes of the oracle's own queues in this run: the first five, or any
fn indexes(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x1d5);
    let mut v: Vec<u8> = (0..5).collect();
    if r.chance(1, 2) {
        for i in 0..5 {
            let k = r.below(256) as u8;
            if !v.contains(&k) {
                v[i] = k;
            }
        }
    }
    v
}

fn queue_pda(o: &Pubkey, i: u8) -> Pubkey {
    Pubkey::find_program_address(&[b"queue", o.as_ref(), &[i]], &VRF).0
}

fn hex(b: &[u8]) -> String {
    b.iter().take(4).map(|x| format!("{x:02x}")).collect()
}

impl World {
    pub fn new(prop: &str, seed: u64, steps: &[Step], stop_on: bool, tracing: bool) -> World {
        let mut salt = [0u8; 32];
        salt[..8].copy_from_slice(&seed.to_le_bytes());
        let mut chain = Chain::new(&base_programs(), salt, START_SLOT, 1_800_000_000);
        for w in 0..N as u8 {
            chain.fund(key(w), 1_000_000_000_000);
        }
        chain.fund(identity(&VRF).0, 10_000_000);
        let (k, a) = program_data();
        chain.set(k, a);
        let oracle = key(O0);
        let disturbing = |s: &Step| {
            matches!(
                s.op,
                Op::Fault(..) | Op::Crash { .. } | Op::Pause { .. } | Op::Fork { .. } | Op::Skip(_)
            ) || matches!(s.op, Op::Setup { outage, .. } if outage > 0)
                || matches!(s.op, Op::Forge { how, .. } if how != Forgery::Unrelated)
        };
        let mut rng = Rng::new(seed ^ 0x0BAD_5EED);
        let idle = prop == "C16" || rng.chance(1, 6);
        let mut w = World {
            prop: prop.into(),
            rng,
            chain,
            saves: BTreeMap::new(),
            heap: BinaryHeap::new(),
            seq: 0,
            wake: Rc::new(tokio::sync::Notify::new()),
            steps: steps.to_vec(),
            setup: None,
            own: indexes(seed).iter().map(|i| queue_pda(&oracle, *i)).collect(),
            idx: indexes(seed),
            foreign: queue_pda(&key(O1), 0),
            oracle,
            procs: BTreeMap::new(),
            next_inst: 0,
            calls: HashMap::new(),
            next_call: 0,
            subs: vec![],
            windows: vec![],
            forged: vec![],
            mempool: vec![],
            statuses: HashMap::new(),
            known_sigs: HashSet::new(),
            reqs: BTreeMap::new(),
            shown: HashMap::new(),
            answers: HashMap::new(),
            now: 0,
            cur_step: 0,
            stalled: false,
            stopped: None,
            calm: !steps.iter().any(disturbing),
            idle,
            in_idle: false,
            sends_idle: 0,
            over: false,
            stop_on,
            stats_wait: vec![],
            out: RunOut::default(),
            states: HashSet::new(),
            tracing,
            seeds: 0,
            requests_user: 0,
            tasks: vec![],
            blockhashes: HashMap::new(),
            max_slot: START_SLOT,
        };
        w.out.digest = seed;
        w.genesis();
        w
    }

    fn must(&mut self, payer: Pubkey, ixs: Vec<Instruction>) {
        let o = self.chain.execute(&Tx { payer, ixs }, None, true);
        assert!(o.ok, "genesis: {}", o.err);
    }

    fn genesis(&mut self) {
        let admin = key(ADMIN);
        self.must(admin, vec![api::initialize(admin)]);
        for o in [O0, O1] {
            self.must(admin, vec![api::add_oracle(admin, key(o), chain::keys::cast()[o as usize].pk)]);
        }
        // a record is usable some slots after it was registered
        self.chain.advance(400, 160, 1);
        let n = match self.steps.first().map(|s| s.op) {
            Some(Op::Setup { queues, .. }) => queues.clamp(1, 3),
            _ => 1,
        };
        for i in 0..n {
            let i = self.idx[i as usize];
            self.must(self.oracle, api::initialize_oracle_queue(self.oracle, self.oracle, i, Some(9_000)));
        }
        let o1 = key(O1);
        self.must(o1, api::initialize_oracle_queue(o1, o1, 0, Some(9_000)));
        self.save();
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        let t = t.max(self.now);
        self.heap.push(Timed(t, self.seq, e));
        self.wake.notify_one();
    }

    fn count(&mut self, g: &str, k: &str) {
        *self.out.counts.entry(g.into()).or_default().entry(k.into()).or_default() += 1;
    }

    fn rule(&mut self, p: &str) {
        self.count("rules", p);
    }

    fn log(&mut self, s: String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.out.digest, self.now, &s).hash(&mut h);
        self.out.digest = h.finish();
        if self.tracing && self.out.trace.len() < 4000 {
            self.out.trace.push(format!("{:>9.3}s slot {} {}", self.now as f64 / 1000.0, self.chain.slot, s));
        }
    }

    fn violate(&mut self, p: &str, msg: String) {
        // (the violations of other properties must not crowd out this one's)
        if p == self.prop || self.out.viols.len() < 40 {
            let m = msg.clone();
            self.log(format!("VIOLATION {p}: {m}"));
            self.out.viols.push(Viol { prop: p.into(), known: None, msg, step: self.cur_step });
        }
        if self.stop_on && p == self.prop {
            self.over = true;
            self.wake.notify_one();
        }
    }

    // ---- faults in force

    fn fault<T>(&self, f: impl Fn(&Fault) -> Option<T>) -> Option<T> {
        self.windows.iter().rev().find_map(|w| f(&w.f))
    }
    fn hit(&mut self, pct: Option<u8>) -> bool {
        match pct {
            Some(p) => self.rng.chance(p as u64, 100),
            None => false,
        }
    }
    fn expire_windows(&mut self) {
        let now = self.now;
        self.windows.retain(|w| w.until > now);
        self.forged.retain(|w| w.until > now);
    }

    // ---- chain

    fn save(&mut self) {
        let s = self.chain.slot;
        self.saves.insert(s, Save { snap: self.chain.snapshot(), done: vec![] });
        while self.saves.len() > 64 {
            self.saves.pop_first();
        }
        self.blockhashes.insert(self.chain.blockhash(), s);
        self.max_slot = self.max_slot.max(s);
    }

    /// Runs a transaction. One that asked for less compute than it takes fails: a purge takes some
    /// for each request in the queue, a fulfilment what its callback takes, which may be most of
    /// what a request of its priority is granted.
    fn execute(&mut self, tx: Transaction, commit: bool) -> chain::svm::Outcome {
        let short = self.short_of_compute(&tx);
        let mut o = self.chain.execute_tx(tx, None, commit && !short);
        if short && o.ok {
            o.ok = false;
            o.err = "exceeded the compute it asked for".into();
            self.count("outcomes", "transactions out of compute");
        }
        o
    }

    fn short_of_compute(&self, tx: &Transaction) -> bool {
        let m = &tx.message;
        let mut limit = 200_000;
        let mut need = 0;
        for ix in &m.instructions {
            let acc = |i: usize| ix.accounts.get(i).and_then(|a| m.account_keys.get(*a as usize)).copied().unwrap_or_default();
            let program = m.account_keys.get(ix.program_id_index as usize).copied().unwrap_or_default();
            if program == solana_sdk_ids::compute_budget::id() && ix.data.first() == Some(&2) && ix.data.len() >= 5 {
                limit = u32::from_le_bytes(ix.data[1..5].try_into().unwrap());
            } else if program == VRF && ix.data.first() == Some(&4) && ix.data.len() >= 40 {
                let id: [u8; 32] = ix.data[8..40].try_into().unwrap();
                let high = parse(&self.chain.data(&acc(3))).and_then(|p| p.2.into_iter().find(|i| i.id == id)).is_some_and(|i| i.high);
                let part = u16::from_le_bytes([id[0], id[1]]) as u32 * 100 / 65_536;
                need += 50_000 + part * if high { 2_300 } else { 1_100 };
            } else if program == VRF && ix.data.first() == Some(&9) {
                need += 30_000 + parse(&self.chain.data(&acc(1))).map_or(0, |p| p.0) * 100;
            }
        }
        need > limit
    }

    fn land(&mut self, l: &Landing) {
        let before = l.user.map(|(q, _, _)| parse(&self.chain.data(&self.own[q as usize])).map(|p| p.2).unwrap_or_default());
        let o = self.execute(l.tx.clone(), true);
        self.count("outcomes", if o.ok { "transactions that succeeded" } else { "transactions that failed" });
        let slot = self.chain.slot;
        if let Some(sig) = l.sig {
            let err = (!o.ok).then(|| json!({"InstructionError": [1, {"Custom": 1}]}));
            self.statuses.insert(sig, (slot, err));
            let what = self.tx_name(&l.tx);
            self.log(format!("landed {what}: {}", if o.ok { "ok".into() } else { o.err.clone() }));
            if o.ok {
                self.resolved(&l.tx);
            }
        }
        if let (Some((q, kind, probe)), Some(before)) = (l.user, before) {
            let items = parse(&self.chain.data(&self.own[q as usize])).map(|p| p.2).unwrap_or_default();
            let mut got = 0;
            for i in items {
                if !before.iter().any(|b| b.id == i.id) {
                    got += 1;
                    let now = self.now;
                    self.log(format!("request {} {kind:?} in queue {q}", hex(&i.id)));
                    self.count("outcomes", "requests made");
                    self.reqs.insert(
                        i.id,
                        Req { q, kind, made: now, slot: i.slot, gone: None, attempt: None, attempts: 0, probe },
                    );
                }
            }
            if got == 0 {
                self.log(format!("request refused: {}", o.err));
            }
        }
        if o.ok {
            self.emit_changes(Feed::Laser);
        }
    }

    fn tx_name(&self, tx: &Transaction) -> String {
        for ix in &tx.message.instructions {
            let p = tx.message.account_keys.get(ix.program_id_index as usize);
            if p == Some(&VRF) {
                return match ix.data.first() {
                    Some(4) if ix.data.len() >= 40 => format!("answer to {}", hex(&ix.data[8..])),
                    Some(9) => format!("purge of queue {}", ix.data.get(8).copied().unwrap_or(255)),
                    _ => "vrf instruction".into(),
                };
            }
        }
        "transaction".into()
    }

    fn resolved(&mut self, tx: &Transaction) {
        let mut how = vec![];
        for ix in &tx.message.instructions {
            if tx.message.account_keys.get(ix.program_id_index as usize) == Some(&VRF) {
                match ix.data.first() {
                    Some(4) if ix.data.len() >= 40 => how.push((Some(<[u8; 32]>::try_from(&ix.data[8..40]).unwrap()), How::Fulfilled)),
                    Some(9) => how.push((None, How::Purged)),
                    _ => {}
                }
            }
        }
        let present = self.present();
        let now = self.now;
        let mut n = vec![];
        for (id, r) in self.reqs.iter_mut() {
            if r.gone.is_none() && !present.contains(id) {
                let h = how
                    .iter()
                    .find(|(i, _)| i.is_none() || i.as_ref() == Some(id))
                    .map(|x| x.1)
                    .unwrap_or(How::Reverted);
                r.gone = Some((now, h));
                n.push((*id, h));
            }
        }
        for (id, h) in n {
            self.log(format!("request {} {h:?}", hex(&id)));
            self.count("outcomes", &format!("requests {h:?}").to_lowercase());
            self.on_gone(id);
        }
    }

    fn present(&self) -> HashSet<[u8; 32]> {
        let mut s = HashSet::new();
        for q in &self.own {
            if let Some((_, _, items)) = parse(&self.chain.data(q)) {
                s.extend(items.iter().map(|i| i.id));
            }
        }
        s
    }

    fn slot(&mut self) {
        if self.stalled {
            let t = self.now + SLOT_MS;
            self.at(t, Ev::Slot);
            return;
        }
        // the block of the current slot
        let now = self.now;
        let mut block = vec![];
        let mut rest = vec![];
        for l in std::mem::take(&mut self.mempool) {
            if l.at <= now {
                block.push(l);
            } else {
                rest.push(l);
            }
        }
        self.mempool = rest;
        for i in (1..block.len()).rev() {
            let j = self.rng.idx(i + 1);
            block.swap(i, j);
        }
        let recent: HashSet<Hash> = self.chain.slot_hashes.iter().rev().take(150).map(|x| Hash::new_from_array(x.1)).collect();
        let mut done = vec![];
        for mut l in block {
            match l.sig {
                Some(s) => {
                    if self.statuses.contains_key(&s) {
                        continue;
                    }
                    if !recent.contains(&l.tx.message.recent_blockhash) {
                        self.count("outcomes", "transactions dropped: blockhash");
                        continue;
                    }
                }
                None => l.tx.message.recent_blockhash = self.chain.blockhash(),
            }
            self.land(&l);
            done.push(l);
            if self.over {
                return;
            }
        }
        let s = self.chain.slot;
        if let Some(sv) = self.saves.get_mut(&s) {
            sv.done.extend(done);
        }
        self.emit_changes(Feed::WebSocket);
        let e = self.rng.u64();
        let gap = if self.rng.chance(1, 20) { 2 } else { 1 };
        self.chain.advance(gap, 0, e);
        self.chain.time = 1_800_000_000 + (self.now / 1000) as i64;
        self.save();
        self.flap();
        self.watch();
        self.note_state();
        let jitter = self.rng.below(60);
        let t = self.now + SLOT_MS - 30 + jitter;
        self.at(t, Ev::Slot);
    }

    fn fork(&mut self, depth: u64, keep: u8) {
        let tip = self.chain.slot;
        let Some((&s, _)) = self.saves.range(..=tip.saturating_sub(depth)).next_back() else { return };
        let mut redo = vec![];
        let later: Vec<u64> = self.saves.range(s..).map(|x| *x.0).collect();
        let snap = self.saves[&s].snap.clone();
        for k in later {
            let sv = self.saves.remove(&k).unwrap();
            redo.extend(sv.done);
            self.blockhashes.retain(|_, v| *v != k);
        }
        let e = self.rng.u64();
        self.chain.restore(&snap, e);
        let e = self.rng.u64();
        self.chain.advance(tip + 1 - s, 0, e);
        self.chain.time = 1_800_000_000 + (self.now / 1000) as i64;
        self.save();
        self.statuses.retain(|_, v| v.0 < s);
        for mut l in redo {
            if l.user.map(|u| u.2).unwrap_or(false) || self.rng.chance(keep as u64, 100) {
                l.at = self.now + self.rng.below(3 * SLOT_MS);
                self.mempool.push(l);
            }
        }
        let present = self.present();
        let now = self.now;
        let mut back = 0;
        for (id, r) in self.reqs.iter_mut() {
            if present.contains(id) {
                if r.gone.take().is_some() {
                    back += 1;
                }
            } else if r.slot >= s {
                r.gone = Some((now, How::Reverted));
            }
        }
        // what the feeds showed last is not what is on the chain now; they say so only for
        // accounts that the new fork writes
        for q in self.own.clone().into_iter().chain([self.foreign]) {
            if let Some(a) = self.chain.get(&q) {
                self.shown.insert(q, a);
            }
        }
        self.log(format!("fork: back to slot {s}, {back} answered requests are pending again"));
        for _ in 0..back {
            self.count("outcomes", "answered requests pending again after a fork");
        }
    }

    // ---- feeds

    fn emit_changes(&mut self, kind: Feed) {
        // the two kinds of feed never coexist in a run
        if self.setup.map(|s| s.0) != Some(kind == Feed::Laser) {
            return;
        }
        let mut keys = self.own.clone();
        keys.push(self.foreign);
        for k in keys {
            let cur = self.chain.get(&k);
            if cur.as_ref() == self.shown.get(&k) {
                continue;
            }
            match cur {
                Some(a) => {
                    self.shown.insert(k, a.clone());
                    let slot = self.chain.slot;
                    self.publish(k, &a, slot, false);
                }
                None => {
                    self.shown.remove(&k);
                }
            }
        }
    }

    fn publish(&mut self, k: Pubkey, a: &AccountSharedData, slot: u64, undecodable: bool) {
        for i in 0..self.subs.len() {
            let s = &self.subs[i];
            if s.dead || s.tx.is_closed() || !matches(&s.filter, &k, a) {
                continue;
            }
            let u = FeedItem::Update(Update {
                slot,
                key: k.to_bytes(),
                owner: a.owner().to_bytes(),
                lamports: a.lamports(),
                data: a.data().to_vec(),
                undecodable,
                tag: 0,
            });
            self.push_feed(i, u);
        }
    }

    fn push_feed(&mut self, i: usize, u: FeedItem) {
        let loss = self.fault(|f| if let Fault::FeedLoss(p) = f { Some(*p) } else { None });
        if self.hit(loss) {
            self.count("faults", "feed update lost");
            return;
        }
        let slow = self.fault(|f| if let Fault::FeedSlow(m) = f { Some(*m as u64) } else { None }).unwrap_or(0);
        if slow > 0 {
            self.count("faults", "feed update delayed");
        }
        let mut t = self.now + 15 + self.rng.below(90) + if slow > 0 { self.rng.below(slow) } else { 0 };
        let reorder = self.fault(|f| if let Fault::FeedReorder(p) = f { Some(*p) } else { None });
        if self.hit(reorder) {
            self.count("faults", "feed update reordered");
            t += self.rng.below(3_000);
        } else {
            t = t.max(self.subs[i].last);
            self.subs[i].last = t;
        }
        let dup = self.fault(|f| if let Fault::FeedDup(p) = f { Some(*p) } else { None });
        if self.hit(dup) {
            self.count("faults", "feed update duplicated");
            let later = t + self.rng.below(2_500);
            self.at(later, Ev::Deliver(i, u.clone()));
        }
        self.at(t, Ev::Deliver(i, u));
    }

    fn end_subs(&mut self, why: &str, pct: u64) {
        for i in 0..self.subs.len() {
            if !self.subs[i].tx.is_closed() && self.rng.chance(pct, 100) {
                let err = self.rng.chance(1, 2);
                self.count("faults", why);
                self.at(self.now, Ev::SubEnd(i, err));
            }
        }
    }

    fn flap(&mut self) {
        if let Some(p) = self.fault(|f| if let Fault::FeedFlap(p) = f { Some(*p) } else { None }) {
            self.end_subs("feed disconnected", p as u64);
        }
    }

    // ---- RPC

    fn view(&self, back: u64) -> (u64, Snapshot) {
        let want = self.chain.slot.saturating_sub(back);
        if back == 0 {
            return (self.chain.slot, self.chain.snapshot());
        }
        match self.saves.range(..=want).next_back().or(self.saves.iter().next()) {
            Some((s, v)) => (*s, v.snap.clone()),
            None => (self.chain.slot, self.chain.snapshot()),
        }
    }

    fn arrive(&mut self, id: u64) {
        let Some(c) = self.calls.get(&id) else { return };
        if !self.procs.get(&c.inst).map(|p| p.up).unwrap_or(false) {
            return;
        }
        let (method, params, back, garbage, fail_after) = (c.method.clone(), c.params.clone(), c.back, c.garbage, c.fail_after);
        let mut r = if garbage && method != "sendTransaction" { Ok(Value::Null) } else { self.answer(id, &method, &params, back) };
        if garbage || fail_after {
            let inst = self.calls[&id].inst;
            if method != "getProgramAccounts" {
                self.blur(inst);
            }
        }
        if garbage {
            self.count("faults", "malformed RPC answer");
            r = Ok(self.nonsense(&method));
            if let Some(c) = self.calls.get_mut(&id) {
                c.shows.clear();
            }
        } else if fail_after {
            self.count("faults", "RPC answer lost");
            r = Err(RpcFail::Transport("connection reset by peer".into()));
            if let Some(c) = self.calls.get_mut(&id) {
                c.shows.clear();
            }
        }
        let t = self.now + 1 + self.rng.below(50);
        self.at(t, Ev::Reply(id, r));
    }

    fn nonsense(&mut self, method: &str) -> Value {
        let slot = self.chain.slot;
        match (method, self.rng.below(4)) {
            ("getLatestBlockhash", 0) => json!({"context": {"slot": slot}, "value": {"blockhash": "0OIl", "lastValidBlockHeight": 1}}),
            ("getLatestBlockhash", 1) => json!({"context": {"slot": "many"}, "value": null}),
            ("getProgramAccounts", 0) => json!([{"pubkey": "not a key", "account": {}}]),
            ("getProgramAccounts", 1) => json!([{"pubkey": self.own[0].to_string(), "account": {"lamports": 1, "data": ["%%%", "base64"], "owner": VRF.to_string(), "executable": false, "rentEpoch": 0, "space": 3}}]),
            ("getProgramAccounts", 2) => json!([]),
            ("sendTransaction", 0) => json!("not a signature"),
            ("sendTransaction", 1) => json!(Signature::from([7u8; 64]).to_string()),
            ("getSignatureStatuses", 0) => json!({"context": {"slot": slot}, "value": []}),
            ("getSignatureStatuses", 1) => json!({"context": {"slot": slot}, "value": [null, null, null]}),
            (_, 2) => json!({"unexpected": [1, 2, 3]}),
            (_, 3) => json!("<html>502 Bad Gateway</html>"),
            _ => Value::Null,
        }
    }

    fn answer(&mut self, id: u64, method: &str, params: &Value, back: u64) -> RpcResult {
        let bad = || RpcFail::Node(-32602, "Invalid params".into());
        match method {
            "getVersion" => Ok(json!({"solana-core": "3.0.0", "feature-set": 1u32})),
            "getHealth" => Ok(json!("ok")),
            "getSlot" => Ok(json!(self.view(back).0)),
            "getBlockHeight" => Ok(json!(self.view(back).0)),
            "getLatestBlockhash" => {
                let (slot, s) = self.view(back);
                let h = Hash::new_from_array(s.slot_hashes.last().unwrap().1);
                Ok(json!({"context": {"slot": slot, "apiVersion": "3.0.0"}, "value": {"blockhash": h.to_string(), "lastValidBlockHeight": slot + 150}}))
            }
            "isBlockhashValid" => {
                let (slot, s) = self.view(back);
                let h: Hash = params[0].as_str().and_then(|s| s.parse().ok()).ok_or(bad())?;
                let ok = s.slot_hashes.iter().rev().take(150).any(|x| x.1 == h.to_bytes());
                Ok(json!({"context": {"slot": slot}, "value": ok}))
            }
            "getProgramAccounts" => {
                let (slot, s) = self.view(back);
                let program: Pubkey = params[0].as_str().and_then(|s| s.parse().ok()).ok_or(bad())?;
                let cfg = &params[1];
                let mut shows: Vec<(Pubkey, AccountSharedData, bool)> = s
                    .accounts
                    .iter()
                    .filter(|(_, a)| a.owner() == &program && a.lamports() > 0)
                    .map(|(k, a)| (*k, a.clone(), false))
                    .collect();
                for f in &self.forged {
                    shows.retain(|x| x.0 != f.key);
                    shows.push((f.key, f.acc.clone(), true));
                }
                let filters: Vec<solana_client::rpc_filter::RpcFilterType> = match cfg.get("filters") {
                    None | Some(Value::Null) => vec![],
                    Some(f) => serde_json::from_value(f.clone()).map_err(|_| bad())?,
                };
                shows.retain(|x| filters.iter().all(|f| allows(f, x.1.data())));
                for i in (1..shows.len()).rev() {
                    let j = self.rng.idx(i + 1);
                    shows.swap(i, j);
                }
                let slice = cfg.get("dataSlice").filter(|v| !v.is_null()).cloned();
                let enc = cfg["encoding"].as_str().unwrap_or("base58").to_string();
                let list: Vec<Value> = shows
                    .iter()
                    .map(|(k, a, _)| {
                        let mut d = a.data().to_vec();
                        if let Some(s) = &slice {
                            let o = s["offset"].as_u64().unwrap_or(0) as usize;
                            let l = s["length"].as_u64().unwrap_or(0) as usize;
                            d = d.get(o..(o + l).min(d.len())).unwrap_or(&[]).to_vec();
                        }
                        json!({"pubkey": k.to_string(), "account": account_json(a, d, &enc)})
                    })
                    .collect();
                if slice.is_none() {
                    if let Some(c) = self.calls.get_mut(&id) {
                        c.shows = shows;
                    }
                }
                Ok(if cfg["withContext"].as_bool() == Some(true) {
                    json!({"context": {"slot": slot}, "value": list})
                } else {
                    json!(list)
                })
            }
            "getAccountInfo" | "getMultipleAccounts" => {
                let (slot, s) = self.view(back);
                let keys: Vec<Pubkey> = match &params[0] {
                    Value::String(x) => vec![x.parse().map_err(|_| bad())?],
                    Value::Array(v) => v.iter().filter_map(|x| x.as_str().and_then(|x| x.parse().ok())).collect(),
                    _ => return Err(bad()),
                };
                let enc = params[1]["encoding"].as_str().unwrap_or("base64").to_string();
                let mut shows = vec![];
                let list: Vec<Value> = keys
                    .iter()
                    .map(|k| match self.forged.iter().find(|f| f.key == *k).map(|f| (f.acc.clone(), true)).or_else(|| {
                        s.accounts.get(k).filter(|a| a.lamports() > 0).map(|a| (a.clone(), false))
                    }) {
                        Some((a, f)) => {
                            shows.push((*k, a.clone(), f));
                            let d = a.data().to_vec();
                            account_json(&a, d, &enc)
                        }
                        None => Value::Null,
                    })
                    .collect();
                if let Some(c) = self.calls.get_mut(&id) {
                    c.shows = shows;
                }
                Ok(if method == "getAccountInfo" {
                    json!({"context": {"slot": slot}, "value": list[0]})
                } else {
                    json!({"context": {"slot": slot}, "value": list})
                })
            }
            "getBalance" => {
                let (slot, s) = self.view(back);
                let k: Pubkey = params[0].as_str().and_then(|s| s.parse().ok()).ok_or(bad())?;
                let l = s.accounts.get(&k).map(|a| a.lamports()).unwrap_or(0);
                Ok(json!({"context": {"slot": slot}, "value": l}))
            }
            "getMinimumBalanceForRentExemption" => Ok(json!(Rent::default().minimum_balance(params[0].as_u64().unwrap_or(0) as usize))),
            "getSignatureStatuses" => {
                let view = self.view(back).0;
                let v: Vec<Value> = params[0]
                    .as_array()
                    .ok_or(bad())?
                    .iter()
                    .map(|s| {
                        let st = s.as_str().and_then(|s| s.parse::<Signature>().ok()).and_then(|s| self.statuses.get(&s));
                        match st {
                            Some((slot, err)) if *slot <= view => {
                                let status = match err {
                                    None => json!({"Ok": null}),
                                    Some(e) => json!({"Err": e}),
                                };
                                let depth = view - slot;
                                let (conf, name) = if depth > 31 {
                                    (Value::Null, "finalized")
                                } else if depth > 2 {
                                    (json!(depth), "confirmed")
                                } else {
                                    (json!(0), "processed")
                                };
                                json!({"slot": slot, "confirmations": conf, "status": status, "err": err, "confirmationStatus": name})
                            }
                            _ => Value::Null,
                        }
                    })
                    .collect();
                Ok(json!({"context": {"slot": view}, "value": v}))
            }
            "sendTransaction" | "simulateTransaction" => {
                use base64::Engine;
                let s = params[0].as_str().ok_or(bad())?;
                let raw = if params[1]["encoding"].as_str() == Some("base64") {
                    base64::engine::general_purpose::STANDARD.decode(s).map_err(|_| bad())?
                } else {
                    bs58::decode(s).into_vec().map_err(|_| bad())?
                };
                if raw.len() > 1232 {
                    self.count("outcomes", "transactions too large");
                    return Err(RpcFail::Node(-32602, "base64 encoded too large".into()));
                }
                let tx: Transaction = bincode::deserialize(&raw).map_err(|_| bad())?;
                if tx.verify().is_err() {
                    return Err(RpcFail::Node(-32003, "Transaction signature verification failure".into()));
                }
                let sig = tx.signatures[0];
                let sim = method == "simulateTransaction";
                if sim || params[1]["skipPreflight"].as_bool() != Some(true) {
                    let recent = self.chain.slot_hashes.iter().rev().take(150).any(|x| x.1 == tx.message.recent_blockhash.to_bytes());
                    let o = self.execute(tx.clone(), false);
                    if sim {
                        let err = (!o.ok).then(|| json!({"InstructionError": [1, {"Custom": 1}]}));
                        return Ok(json!({"context": {"slot": self.chain.slot}, "value": {"err": err, "logs": []}}));
                    }
                    if !recent {
                        return Err(RpcFail::Node(-32002, "Transaction simulation failed: Blockhash not found".into()));
                    }
                    if !o.ok {
                        return Err(RpcFail::Node(-32002, format!("Transaction simulation failed: {}", o.err)));
                    }
                }
                if self.known_sigs.insert(sig) || !self.statuses.contains_key(&sig) && !self.mempool.iter().any(|l| l.sig == Some(sig)) {
                    let lost = self.fault(|f| if let Fault::TxLoss(p) = f { Some(*p) } else { None });
                    if self.hit(lost) {
                        self.count("faults", "transaction lost");
                    } else {
                        let late = self.fault(|f| if let Fault::TxSlow(n) = f { Some(*n as u64) } else { None }).unwrap_or(0);
                        if late > 0 {
                            self.count("faults", "transaction delayed");
                        }
                        let at = self.now + self.rng.below(250) + late * self.rng.below(SLOT_MS);
                        self.mempool.push(Landing { tx, sig: Some(sig), at, user: None });
                    }
                }
                Ok(json!(sig.to_string()))
            }
            _ => Err(RpcFail::Node(-32601, "Method not found".into())),
        }
    }

    /// Rules on everything the service signs.
    fn signed(&mut self, inst: Inst, params: &Value) {
        use base64::Engine;
        self.rule("C17");
        let raw = params[0].as_str().and_then(|s| {
            if params[1]["encoding"].as_str() == Some("base64") {
                base64::engine::general_purpose::STANDARD.decode(s).ok()
            } else {
                bs58::decode(s).into_vec().ok()
            }
        });
        let Some(tx) = raw.and_then(|r| bincode::deserialize::<Transaction>(&r).ok()) else {
            self.violate("C17", "the service sent something that is not a transaction".into());
            return;
        };
        if self.in_idle {
            self.sends_idle += 1;
        }
        let keys = &tx.message.account_keys;
        if keys.first() != Some(&self.oracle) || tx.message.header.num_required_signatures != 1 {
            self.violate("C17", "a transaction signed for or by somebody else than the oracle".into());
            return;
        }
        let mut real = vec![];
        for ix in &tx.message.instructions {
            match keys.get(ix.program_id_index as usize) {
                Some(p) if *p == solana_sdk_ids::compute_budget::id() => {}
                Some(p) => real.push((*p, ix.clone())),
                None => real.push((Pubkey::default(), ix.clone())),
            }
        }
        if real.len() != 1 || real[0].0 != VRF {
            self.violate("C17", format!("a transaction with {} instructions besides compute-budget settings, of {:?}", real.len(), real.iter().map(|r| r.0).collect::<Vec<_>>()));
            return;
        }
        let ix = &real[0].1;
        let acc: Vec<Pubkey> = ix.accounts.iter().map(|i| keys.get(*i as usize).copied().unwrap_or_default()).collect();
        let writable = |i: usize| tx.message.is_maybe_writable(ix.accounts[i] as usize, None);
        match ix.data.first() {
            Some(4) if ix.data.len() == 8 + 32 * 5 && acc.len() >= 5 => {
                let f = |i: usize| <[u8; 32]>::try_from(&ix.data[8 + 32 * i..40 + 32 * i]).unwrap();
                let (id, out) = (f(0), f(1));
                self.log(format!("{inst} sends answer to {}", hex(&id)));
                self.count("ops", "answer sent");
                let q = acc[3];
                let own = (0..=255u8).map(|i| queue_pda(&self.oracle, i)).any(|k| k == q);
                if acc[0] != self.oracle || !own {
                    self.violate("C17", format!("an answer for queue {q}, which is not one of this oracle's"));
                    return;
                }
                let known = self.procs.get(&inst).and_then(|p| p.seen.get(&(q, id))).cloned();
                let Some(known) = known else {
                    self.violate("C17", format!("an answer to {}, a request never shown to the service in queue {q}", hex(&id)));
                    return;
                };
                let metas: Vec<Pubkey> = acc[5..].to_vec();
                if !known.iter().any(|(p, m)| *p == acc[4] && m.iter().map(|x| x.0).collect::<Vec<_>>() == metas) {
                    self.violate("C17", format!("an answer to {} with a callback or accounts that are not the request's", hex(&id)));
                    return;
                }
                if !known.iter().any(|(p, m)| *p == acc[4] && m.len() == metas.len() && m.iter().enumerate().all(|(i, x)| !x.1 || writable(5 + i) || reserved(&x.0))) {
                    self.violate("C17", format!("an answer to {} whose accounts are not writable as requested", hex(&id)));
                    return;
                }
                if let Some(t) = self.procs[&inst].absent.get(&(q, id)).copied() {
                    self.rule("C16");
                    if self.now > t + GONE_GRACE {
                        self.violate("C16", format!("an answer to {} sent {} ms after the service saw that the request is gone", hex(&id), self.now - t));
                        return;
                    }
                }
                if let Some(r) = self.reqs.get_mut(&id) {
                    r.attempt = Some(self.now);
                    r.attempts += 1;
                }
                match self.answers.get(&id) {
                    None => {
                        self.answers.insert(id, out);
                        if !proof_ok(&id, &out, &f(2), &f(3), &f(4)) {
                            self.violate("C17", format!("an answer to {} whose proof does not verify", hex(&id)));
                        }
                    }
                    Some(o) if *o != out => {
                        self.violate("C17", format!("two different answers to request {}", hex(&id)));
                    }
                    Some(_) => {
                        // re-check some of the repetitions
                        if self.rng.chance(1, 8) && !proof_ok(&id, &out, &f(2), &f(3), &f(4)) {
                            self.violate("C17", format!("an answer to {} whose proof does not verify", hex(&id)));
                        }
                    }
                }
            }
            Some(9) if ix.data.len() == 9 && acc.len() == 2 => {
                let idx = ix.data[8];
                self.log(format!("{inst} sends purge of queue {idx}"));
                self.count("ops", "purge sent");
                if acc[0] != self.oracle || acc[1] != queue_pda(&self.oracle, idx) {
                    self.violate("C17", format!("a purge of {} for {}", acc[1], acc[0]));
                    return;
                }
                let old = self.procs.get(&inst).and_then(|p| p.oldest.get(&acc[1]).copied());
                let max = self.max_slot;
                match old {
                    Some(s) if max.saturating_sub(s) > TTL => {}
                    _ => {
                        self.violate("C17", format!("a purge of queue {idx}, which never showed an expired request"));
                        return;
                    }
                }
                if self.calm {
                    // nothing hides the truth from the service
                    let qi = self.own.iter().position(|k| *k == acc[1]);
                    let recent = self.reqs.values().any(|r| {
                        Some(r.q as usize) == qi
                            && r.slot + TTL < self.chain.slot + 1
                            && r.gone.map(|g| g.0 + 12_000 > self.now).unwrap_or(true)
                    });
                    if !recent {
                        self.violate("C17", format!("a purge of queue {idx}, which has no expired request"));
                    }
                }
            }
            d => {
                let d = d.copied();
                self.violate("C17", format!("the service signed VRF instruction {d:?} with {} bytes and {} accounts", ix.data.len(), acc.len()));
            }
        }
    }

    /// A call of the service fails: it may give up on what it tracks.
    fn blur(&mut self, inst: Inst) {
        if let Some(p) = self.procs.get_mut(&inst) {
            for t in p.track.values_mut() {
                t.exact = false;
            }
        }
    }

    /// The service was shown an account.
    fn showed(&mut self, inst: Inst, k: &Pubkey, data: &[u8], feed: Option<u64>, vague: bool) {
        if !self.procs.contains_key(&inst) {
            return;
        }
        let parsed = parse(data);
        let lenient = lenient_items(data);
        let own = self.own.contains(k) || (0..=255u8).any(|i| queue_pda(&self.oracle, i) == *k);
        let now = self.now;
        let p = self.procs.get_mut(&inst).unwrap();
        if !own {
            return;
        }
        let Some((count, _, items)) = parsed else { return };
        let here: HashSet<[u8; 32]> = lenient.iter().chain(items.iter()).map(|i| i.id).collect();
        p.absent.retain(|(q, id), _| q != k || !here.contains(id));
        for ((q, id), _) in p.seen.iter() {
            // a malformed queue says nothing about what is gone
            if q == k && !here.contains(id) && !vague {
                p.absent.entry((*q, *id)).or_insert(now);
            }
        }
        for (it, prog) in lenient.iter().map(|i| (i, i.program)).chain(items.iter().map(|i| (i, i.program))) {
            let e = p.seen.entry((*k, it.id)).or_default();
            let v = (prog, it.metas.clone());
            if !e.contains(&v) {
                e.push(v);
            }
            let o = p.oldest.entry(*k).or_insert(it.slot);
            *o = (*o).min(it.slot);
        }
        let t = p.track.entry(*k).or_insert_with(|| Track { exact: true, min_slot: u64::MAX, ..Default::default() });
        if vague {
            t.vague = now;
            t.exact = false;
        }
        if t.last.last().map(|l| l.0 == now && !(l.2 && feed.is_some())).unwrap_or(false) {
            t.exact = false;
        }
        t.last.push((now, count, feed.is_some()));
        for i in &items {
            t.min_slot = t.min_slot.min(i.slot);
        }
        let ids: BTreeSet<[u8; 32]> = items.iter().map(|i| i.id).collect();
        let gone: Vec<[u8; 32]> = t.tracked.keys().filter(|i| !ids.contains(*i)).copied().collect();
        for id in gone {
            let (slot, since) = t.tracked.remove(&id).unwrap();
            t.left.insert(id);
            if since + 25_000 < now {
                // the service may have given up on it in between
                t.exact = false;
            }
            if let Some(s) = feed {
                t.sum += s.saturating_sub(slot) as f64;
                t.n += 1;
            }
        }
        for i in &items {
            if t.left.contains(&i.id) {
                t.exact = false;
            }
            t.tracked.entry(i.id).or_insert((i.slot, now));
        }
    }

    // ---- processes

    fn start(&mut self, replica: usize, control: bool) {
        self.start_as(replica, control, None)
    }

    /// `identity`: what the operator configured by mistake
    fn start_as(&mut self, replica: usize, control: bool, identity: Option<String>) {
        let odd = identity.is_some();
        let inst = self.next_inst;
        self.next_inst += 1;
        let (laser, preflight, http, _, _, _) = self.setup.unwrap();
        let set = |k: &str, v: Option<String>| match v {
            Some(v) => std::env::set_var(k, v),
            None => std::env::remove_var(k),
        };
        set("VRF_ORACLE_IDENTITY", Some(identity.unwrap_or_else(|| chain::keys::cast()[O0 as usize].kp.to_base58_string())));
        set("RPC_URL", Some("http://node.sim:8899".into()));
        set("WEBSOCKET_URL", Some("ws://node.sim:8900".into()));
        set("LASERSTREAM_API_KEY", laser.then(|| leak::API_KEY.into()));
        set("LASERSTREAM_ENDPOINT", laser.then(|| "https://laser.sim".into()));
        set("VRF_ORACLE_HTTP_PORT", http.then(|| "8080".into()));
        set("VRF_ORACLE_SKIP_PREFLIGHT", Some((!preflight).to_string()));
        let h = simrt::start(inst, oraclelib::SIM_SINGLE_THREAD, oraclelib::SIM_WORKERS, async {
            oraclelib::main().await.map_err(|e| {
                // as the language's runtime does
                if leak::capturing() {
                    eprintln!("Error: {e:?}");
                }
                format!("{e:#}")
            })
        });
        let what = if odd { "malformed identity" } else { "replica" };
        self.log(format!("service {inst} ({what} {replica}) starts"));
        self.procs.insert(
            inst,
            Proc {
                replica,
                up: !odd,
                started: self.now,
                paused_until: 0,
                handle: Some(h),
                http: None,
                seen: HashMap::new(),
                oldest: HashMap::new(),
                absent: HashMap::new(),
                track: HashMap::new(),
                calls: BTreeMap::new(),
                idle0: BTreeMap::new(),
                alive_min: usize::MAX,
                control,
            },
        );
    }

    fn up(&self) -> Vec<Inst> {
        self.procs.iter().filter(|p| p.1.up).map(|p| *p.0).collect()
    }

    fn nth_up(&self, i: u8) -> Option<Inst> {
        let u = self.up();
        (!u.is_empty()).then(|| u[i as usize % u.len()])
    }

    /// C15: a running service never ends.
    fn check_mains(&mut self) {
        let mut ended = vec![];
        for (i, p) in self.procs.iter_mut() {
            if p.up && p.handle.as_ref().map(|h| h.is_finished()).unwrap_or(false) {
                p.up = false;
                ended.push((*i, p.handle.take()));
            }
        }
        for (i, h) in ended {
            use std::task::{Context, Poll, Waker};
            let mut h = h.unwrap();
            let why = match std::pin::Pin::new(&mut h).poll_it(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(Ok(Ok(()))) => "its main function returned".to_string(),
                Poll::Ready(Ok(Err(e))) => format!("its main function returned the error {e}"),
                Poll::Ready(Err(e)) if e.is_panic() => {
                    let p = e.into_panic();
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                    format!("its main task panicked: {}", m.unwrap_or_default())
                }
                Poll::Ready(Err(e)) => format!("its main task ended: {e}"),
                Poll::Pending => "its main task ended".into(),
            };
            self.violate("C15", format!("service {i} is down: {}", runner::trim(&why, 300)));
            // a supervisor would restart it
            let r = self.procs[&i].replica;
            self.at(self.now + 10_000, Ev::Start(r));
        }
    }

    // ---- steps

    fn user_request(&mut self, q: Pubkey, own: Option<u8>, kind: Kind, high: bool, metas: u8, args: u16, probe: bool) {
        self.seeds += 1;
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&self.seeds.to_le_bytes());
        self.requests_user = self.requests_user.wrapping_add(1);
        let payer = if self.requests_user % 2 == 0 { key(U0) } else { key(U1) };
        let program = match kind {
            Kind::Reenter => programs::CONS_H,
            _ if self.seeds % 2 == 0 => CONS_A,
            _ => CONS_B,
        };
        let mut until = 0u64;
        let b = match kind {
            Kind::Ok | Kind::Fat | Kind::Grabby | Kind::Nowhere => behave::OK,
            Kind::Fail => behave::FAIL,
            Kind::Panic => behave::PANIC,
            Kind::Flaky(ms) => {
                until = self.chain.slot + ms as u64 / SLOT_MS;
                behave::FLAKY
            }
            Kind::Reenter => behave::REENTER,
        };
        let mut a: Vec<u8> = (0..args.min(200)).map(|i| i as u8).collect();
        a.extend_from_slice(&BEHAVE);
        a.push(b);
        a.extend_from_slice(&until.to_le_bytes());
        let n = if kind == Kind::Fat { 20 } else { metas as usize };
        let mut m: Vec<sdk::types::SerializableAccountMeta> = (0..n)
            .map(|i| sdk::types::SerializableAccountMeta {
                pubkey: Pubkey::new_from_array([0x60 + i as u8; 32]),
                is_signer: i % 3 == 0,
                is_writable: i % 2 == 1,
            })
            .collect();
        if kind == Kind::Grabby {
            for k in [self.oracle, q, queue_pda(&self.oracle, 1), VRF] {
                m.push(sdk::types::SerializableAccountMeta { pubkey: k, is_signer: true, is_writable: k != VRF });
            }
        }
        let p = sdk::instructions::RequestRandomnessParams {
            payer,
            oracle_queue: q,
            callback_program_id: program,
            callback_discriminator: vec![1, 2, 3, 4, 5, 6, 7, 8],
            accounts_metas: Some(m),
            caller_seed: seed,
            callback_args: Some(a),
        };
        let ix = if high {
            sdk::instructions::create_request_randomness_ix(p)
        } else {
            sdk::instructions::create_request_regular_randomness_ix(p)
        };
        let ix = proxied(&program, &ix, true);
        let tx = Transaction::new_with_payer(&[ix], Some(&payer));
        let at = self.now;
        self.mempool.push(Landing { tx, sig: None, at, user: own.map(|q| (q, kind, probe)) });
    }

    fn step(&mut self, i: usize) {
        self.cur_step = i;
        let op = self.steps[i].op;
        let d = format!("{op:?}");
        self.count("ops", d.split([' ', '(', '{']).next().unwrap_or(""));
        self.log(format!("step {i}: {d}"));
        match op {
            Op::Setup { .. } => {}
            Op::Req { q, kind, high, copies, metas, args } => {
                let q = q % 3;
                let k = self.own[q as usize];
                for _ in 0..copies.min(40) {
                    self.user_request(k, Some(q), kind, high, metas.min(19), args, false);
                }
            }
            Op::Foreign(n) => {
                for _ in 0..n.min(10) {
                    let k = self.foreign;
                    self.user_request(k, None, Kind::Ok, false, 0, 0, false);
                }
            }
            Op::NewQueue(q) => {
                let q = q % 5;
                if self.chain.get(&self.own[q as usize]).is_none() {
                    for ix in api::initialize_oracle_queue(self.oracle, self.oracle, self.idx[q as usize], Some(6_000)) {
                        let tx = Transaction::new_with_payer(&[ix], Some(&self.oracle));
                        self.mempool.push(Landing { tx, sig: None, at: self.now, user: None });
                    }
                }
            }
            Op::Fault(f, ms) => {
                let id = self.seq;
                let d = format!("{f:?}");
                self.count("faults", &format!("window: {}", d.split('(').next().unwrap_or("")));
                self.windows.push(Window { f, until: self.now + ms as u64, id });
                match f {
                    Fault::FeedDown => self.end_subs("feed disconnected", 100),
                    Fault::FeedDead => {
                        for s in self.subs.iter_mut() {
                            s.dead = true;
                        }
                        self.count("faults", "feed half open");
                    }
                    Fault::Stall => {
                        self.stalled = true;
                        let t = self.now + ms as u64;
                        self.at(t, Ev::StallEnd);
                    }
                    _ => {}
                }
            }
            Op::Forge { how, q, snapshot } => self.forge(how, q % 3, snapshot),
            Op::Noise => {
                for i in 0..self.subs.len() {
                    if !self.subs[i].tx.is_closed() && self.subs[i].feed == Feed::Laser {
                        self.push_feed(i, FeedItem::Noise);
                    }
                }
            }
            Op::Crash { i, down } => {
                if let Some(inst) = self.nth_up(i) {
                    self.count("faults", "service crashed");
                    self.log(format!("service {inst} crashes"));
                    simrt::kill(inst);
                    let p = self.procs.get_mut(&inst).unwrap();
                    p.up = false;
                    p.handle = None;
                    p.http = None;
                    let r = p.replica;
                    for s in self.subs.iter_mut().filter(|s| s.inst == inst) {
                        s.tx.close();
                        s.dead = true;
                    }
                    let t = self.now + down as u64;
                    self.at(t, Ev::Start(r));
                }
            }
            Op::Pause { i, ms } => {
                if let Some(inst) = self.nth_up(i) {
                    self.count("faults", "service stalled");
                    self.log(format!("service {inst} stalls"));
                    simrt::pause(inst, true);
                    let t = self.now + ms as u64;
                    let p = self.procs.get_mut(&inst).unwrap();
                    p.paused_until = p.paused_until.max(t);
                    for t in p.track.values_mut() {
                        t.exact = false;
                    }
                    p.absent.clear();
                    self.at(t, Ev::Resume(inst));
                }
            }
            Op::Fork { depth, keep } => {
                self.count("faults", "chain fork");
                self.fork(depth as u64, keep);
            }
            Op::Skip(n) => {
                self.count("faults", "slots skipped");
                let e = self.rng.u64();
                self.chain.advance(n as u64, 0, e);
                self.save();
            }
            Op::Stats { i, odd } => self.ask_stats(i, odd),
            Op::Wait => {}
        }
    }

    fn forge(&mut self, how: Forgery, q: u8, snapshot: bool) {
        let own = self.own[q as usize];
        let cur = self.chain.get(&own);
        let idx = self.idx[q as usize];
        let mut data = cur.as_ref().map(|a| a.data().to_vec()).unwrap_or_else(|| {
            let mut d = QUEUE_DISC.to_vec();
            d.resize(3_000, 0);
            d[12] = 16;
            d[16] = idx;
            d
        });
        let mut owner = VRF;
        let mut k = own;
        let mut undecodable = false;
        let mut tag = 1;
        let random_key = Pubkey::new_from_array(self.rng.bytes32());
        match how {
            Forgery::Unrelated => {
                // looks like a queue of this oracle, is not
                k = random_key;
                put_item(&mut data, idx, &self.rng.bytes32(), self.chain.slot);
            }
            Forgery::Short => data.truncate(8 + self.rng.idx(12)),
            Forgery::Disc => data.truncate(8),
            Forgery::Cut(n) => data.truncate(n as usize),
            Forgery::Noise => {
                let n = data.len();
                let b = self.rng.bytes(n - 24);
                data[24..].copy_from_slice(&b);
                data[12..16].copy_from_slice(&((n - 8) as u32).to_le_bytes());
                // mostly used items
                let mut i = 24;
                while i + ITEM < n {
                    data[i + 91] = 1;
                    data[i + 84] = 0;
                    i += ITEM;
                }
            }
            Forgery::Count(n) => data[8..12].copy_from_slice(&n.to_le_bytes()),
            Forgery::Lengths => {
                let id = self.rng.bytes32();
                put_item(&mut data, idx, &id, self.chain.slot);
                for b in &mut data[24 + 72..24 + 90] {
                    *b = 0xFF;
                }
            }
            Forgery::Owner => owner = random_key,
            Forgery::Undecodable => undecodable = true,
            Forgery::BadKey => tag = simrt::BAD_KEY,
            Forgery::Empty => data.clear(),
            Forgery::OtherKind => {
                k = random_key;
                data = vec![1, 0, 0, 0, 0, 0, 0, 0];
                data.resize(100, 7);
            }
        }
        self.count("faults", &format!("forged account: {:?}", how).split('(').next().unwrap().to_string());
        let mut a = AccountSharedData::new(50_000_000, data.len(), &owner);
        a.set_data_from_slice(&data);
        if snapshot {
            let until = self.now + 32_000;
            self.forged.push(Forged { key: k, acc: a.clone(), how, until });
        }
        // a lying feed does not filter
        let slot = self.chain.slot;
        for i in 0..self.subs.len() {
            let s = &self.subs[i];
            if s.dead || s.tx.is_closed() {
                continue;
            }
            let u = FeedItem::Update(Update {
                slot,
                key: k.to_bytes(),
                owner: owner.to_bytes(),
                lamports: 50_000_000,
                data: data.clone(),
                undecodable,
                tag,
            });
            self.push_feed(i, u);
        }
    }

    fn ask_stats(&mut self, i: u8, odd: u8) {
        let Some(inst) = self.nth_up(i) else { return };
        let p = &self.procs[&inst];
        let Some(tx) = p.http.clone() else {
            if self.setup.unwrap().2 && self.now > p.started + 50 && p.paused_until <= self.now {
                self.violate("C18", "the service does not listen on its statistics port".into());
            }
            return;
        };
        if p.paused_until > self.now {
            return;
        }
        let (a, b) = tokio::io::duplex(64 * 1024);
        if tx.send(b).is_err() {
            self.violate("C18", "the statistics server is gone".into());
            return;
        }
        self.count("ops", "statistics asked");
        let asked = self.now;
        self.tasks.push((inst, asked, odd));
        let w = WORLD.with(|w| w.borrow().clone()).unwrap();
        tokio::spawn(AssertSend(Box::pin(async move {
            let r = tokio::time::timeout(Duration::from_secs(8), http(a, odd)).await;
            let mut w = w.borrow_mut();
            w.now = simrt::now_ms();
            w.got_stats(inst, asked, odd, r.ok());
        })));
    }

    fn got_stats(&mut self, inst: Inst, asked: u64, odd: u8, r: Option<std::io::Result<(u16, Vec<u8>)>>) {
        let now = self.now;
        let p = &self.procs[&inst];
        let disturbed = !p.up || p.paused_until > asked || self.over;
        self.log(format!("statistics of {inst}: {}", match &r {
            None => "no answer".into(),
            Some(Err(e)) => e.to_string(),
            Some(Ok((c, b))) => format!("{c} {}", runner::trim(&String::from_utf8_lossy(b), 300)),
        }));
        if self.prop == "C24" {
            self.rule("C24");
            if let Some(l) = r.as_ref().and_then(|r| r.as_ref().ok()).and_then(|(_, b)| leak::secrets().scan(b)) {
                self.violate("C24", format!("an HTTP answer carries {l}"));
            }
        }
        if disturbed {
            return;
        }
        self.rule("C18");
        match r {
            None => self.violate("C18", "the statistics endpoint does not answer".into()),
            Some(Err(e)) => self.violate("C18", format!("the statistics endpoint does not answer: {e}")),
            Some(Ok((code, body))) => {
                if odd == 1 || odd == 2 {
                    if code != 404 {
                        self.violate("C18", format!("a request that is not for the statistics got status {code}"));
                    }
                    return;
                }
                if odd == 3 {
                    return;
                }
                let v: Option<Value> = serde_json::from_slice(&body).ok();
                let (Some(v), 200) = (v, code) else {
                    self.violate("C18", format!("status {code}, body {:?}", runner::trim(&String::from_utf8_lossy(&body), 200)));
                    return;
                };
                let (Some(qs), Some(av)) = (v["queues"].as_object(), v["avg_response_slots"].as_object()) else {
                    self.violate("C18", format!("not the statistics: {v}"));
                    return;
                };
                let mut bad = vec![];
                let own: Vec<String> = (0..=255u8).map(|i| queue_pda(&self.oracle, i).to_string()).collect();
                for k in qs.keys().chain(av.keys()) {
                    if !own.contains(k) {
                        bad.push(format!("{k} is not a queue of this oracle"));
                    }
                }
                let p = &self.procs[&inst];
                for (k, t) in &p.track {
                    let name = k.to_string();
                    // what it was shown last; several things at one moment are in any order
                    let sure: Option<u64> = t.last.iter().rev().map(|l| l.0).find(|x| *x < asked);
                    let Some(sure) = sure else { continue };
                    let mut ok: BTreeSet<u64> = t.last.iter().filter(|l| l.0 >= sure && l.0 <= now).map(|l| l.1 as u64).collect();
                    if t.vague > 0 && t.vague + 1 >= sure {
                        ok.extend(t.last.iter().map(|l| l.1 as u64));
                    }
                    match qs.get(&name).and_then(|v| v.as_u64()) {
                        None if t.vague > 0 => {}
                        None => bad.push(format!("queue {name} is missing")),
                        Some(n) if !ok.contains(&n) => bad.push(format!("queue {name} is said to have {n} requests; the last snapshot has {ok:?}")),
                        Some(_) => {}
                    }
                    let settled = t.last.iter().all(|l| l.0 < asked || l.0 > now);
                    match av.get(&name) {
                        None => {
                            if t.exact && settled && t.n > 0 {
                                bad.push(format!("no average for queue {name} after {} completions", t.n));
                            }
                        }
                        Some(a) => {
                            let a = a.as_f64().unwrap_or(f64::NAN);
                            let top = (self.max_slot + 1).saturating_sub(t.min_slot) as f64;
                            if !(a.is_finite() && a >= 0.0 && a <= top) {
                                bad.push(format!("queue {name} has average {a}"));
                            } else if t.exact && settled {
                                let want = if t.n > 0 { t.sum / t.n as f64 } else { 0.0 };
                                if (a - want).abs() > 1e-6 * (1.0 + want) {
                                    bad.push(format!("queue {name} has average {a}; the mean of its {} completions is {want}", t.n));
                                }
                            }
                        }
                    }
                }
                if p.track.values().any(|t| t.exact && t.n > 0) {
                    self.count("must", "C18: exact averages");
                }
                if let Some(m) = bad.first() {
                    let m = m.clone();
                    self.violate("C18", m);
                }
            }
        }
    }

    // ---- rules over time

    fn on_gone(&mut self, id: [u8; 32]) {
        let r = self.reqs[&id].clone();
        let Some((_, how)) = r.gone else { return };
        if how == How::Purged && self.chain.slot <= r.slot + TTL {
            self.violate("C14", format!("request {} was purged before it expired", hex(&id)));
        }
        if self.calm && how == How::Purged && (r.kind.healthy() || matches!(r.kind, Kind::Flaky(_))) {
            self.rule("C14");
            self.violate("C14", format!("request {} ({:?}) was purged, not fulfilled, on a healthy network", hex(&id), r.kind));
        }
        if self.calm && how == How::Fulfilled {
            self.rule("C14");
        }
    }

    /// Every slot.
    fn watch(&mut self) {
        let now = self.now;
        let slot = self.chain.slot;
        if self.calm {
            let first = self.procs.values().map(|p| p.started).min().unwrap_or(0);
            let mut bad = vec![];
            let mut n = 0;
            for (id, r) in &self.reqs {
                if r.gone.is_some() {
                    continue;
                }
                n += 1;
                if r.kind.healthy() {
                    let limit = if r.made >= first + 5_000 { 20_000 } else { 60_000 };
                    if now > r.made + limit {
                        bad.push(format!("request {} is not fulfilled {} s after it was made on a healthy network", hex(id), limit / 1000));
                    }
                } else if slot > r.slot + TTL + 150 {
                    bad.push(format!("request {} ({:?}) is not purged 60 s after it expired", hex(id), r.kind));
                } else if slot <= r.slot + TTL {
                    let last = r.attempt.unwrap_or(r.made);
                    if now > last + 60_000 {
                        bad.push(format!("request {} ({:?}) was not tried for 60 s", hex(id), r.kind));
                    }
                }
            }
            for _ in 0..n {
                self.rule("C14");
            }
            if let Some(m) = bad.first() {
                let m = m.clone();
                self.violate("C14", m);
            }
        }
        self.check_mains();
        if self.now % 8 == 0 || self.stopped.is_some() {
            self.rule("C15");
        }
    }

    fn note_state(&mut self) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for q in self.own.iter().take(3) {
            if let Some((n, _, items)) = parse(&self.chain.data(q)) {
                n.min(6).hash(&mut h);
                let mut v: Vec<u8> = items
                    .iter()
                    .take(6)
                    .map(|i| {
                        let age = self.chain.slot.saturating_sub(i.slot);
                        let k = match self.reqs.get(&i.id).map(|r| r.kind) {
                            Some(Kind::Ok) => 0u8,
                            Some(Kind::Flaky(_)) => 1,
                            Some(_) => 2,
                            None => 3,
                        };
                        k * 8 + (age > TTL) as u8 * 4 + (age > 5) as u8 * 2
                    })
                    .collect();
                v.sort_unstable();
                v.hash(&mut h);
            }
        }
        let mut f: Vec<String> = self.windows.iter().map(|w| format!("{:?}", std::mem::discriminant(&w.f))).collect();
        f.sort();
        f.hash(&mut h);
        (self.mempool.len().min(8), self.stalled, self.forged.len().min(3)).hash(&mut h);
        for p in self.procs.values() {
            (p.up, p.paused_until > self.now).hash(&mut h);
        }
        self.subs.iter().filter(|s| !s.tx.is_closed()).count().hash(&mut h);
        if self.states.len() < 20_000 {
            self.states.insert(h.finish());
        }
    }

    fn handle(&mut self, e: Ev) {
        self.expire_windows();
        match e {
            Ev::Slot => self.slot(),
            Ev::Step(i) => self.step(i),
            Ev::Arrive(c) => self.arrive(c),
            Ev::Reply(c, r) => {
                if let Some(call) = self.calls.get_mut(&c) {
                    if let Some(tx) = call.tx.take() {
                        if self.procs.get(&call.inst).map(|p| p.up).unwrap_or(false) {
                            let _ = tx.send(r);
                        } else {
                            self.calls.remove(&c);
                        }
                    }
                }
            }
            Ev::Deliver(i, u) => {
                let s = &self.subs[i];
                if !s.dead && !s.tx.is_closed() {
                    s.tx.send(u);
                }
            }
            Ev::SubEnd(i, err) => {
                let s = &self.subs[i];
                if err && s.feed == Feed::Laser {
                    s.tx.send(FeedItem::Error("stream broken".into()));
                }
                s.tx.close();
                let inst = s.inst;
                self.log(format!("subscription of {inst} ends"));
            }
            Ev::Start(r) => {
                if !self.procs.values().any(|p| p.up && p.replica == r) {
                    self.start(r, false);
                }
            }
            Ev::Odd(n) => {
                let i = self.next_inst;
                self.count("ops", "start with a malformed identity");
                self.start_as(1000 + n as usize, false, Some(chain::secrets::malformed(O0, n)));
                self.at(self.now + 5_000, Ev::OddEnd(i));
            }
            Ev::OddEnd(i) => simrt::kill(i),
            Ev::Resume(i) => {
                let p = self.procs.get(&i).unwrap();
                if p.up && p.paused_until <= self.now {
                    self.procs.get_mut(&i).unwrap().absent.clear();
                    simrt::pause(i, false);
                    self.log(format!("service {i} resumes"));
                }
            }
            Ev::StallEnd => {
                let more = self.windows.iter().any(|w| w.f == Fault::Stall);
                if !more {
                    self.stalled = false;
                }
            }
            Ev::Stop => self.stop(),
            Ev::Probe => {
                for q in 0..3u8 {
                    let k = self.own[q as usize];
                    if self.chain.get(&k).is_some() {
                        self.user_request(k, Some(q), Kind::Ok, true, 0, 0, true);
                    }
                }
            }
            Ev::ProbeCheck => {
                self.rule("C15");
                let bad: Vec<String> = self
                    .reqs
                    .iter()
                    .filter(|(_, r)| r.probe && r.gone.is_none())
                    .map(|(id, _)| hex(id))
                    .collect();
                if let Some(b) = bad.first() {
                    self.violate("C15", format!("request {b}, made {} s after all faults stopped, is still not answered {} s later", PROBE_AT / 1000, PROBE_LIMIT / 1000));
                }
                self.ask_stats(0, 0);
            }
            Ev::Settled => {
                self.rule("C13");
                let stop = self.stopped.unwrap();
                let mut left: Vec<(String, Kind, u64)> = self
                    .reqs
                    .iter()
                    .filter(|(_, r)| r.gone.is_none() && r.made <= stop + PROBE_AT)
                    .map(|(id, r)| (hex(id), r.kind, r.made))
                    .collect();
                left.sort_by_key(|l| l.2);
                if let Some((id, kind, made)) = left.first() {
                    let m = format!(
                        "request {id} ({kind:?}), made at {:.1} s, is still in its queue {} s after the faults stopped ({} such requests)",
                        *made as f64 / 1000.0,
                        SETTLE / 1000,
                        left.len()
                    );
                    self.violate("C13", m);
                }
                self.ask_stats(0, 0);
                self.ask_stats(1, 0);
            }
            Ev::Control => {
                if self.reqs.values().all(|r| r.gone.is_some()) {
                    self.start(90, true);
                } else {
                    self.over = true;
                }
            }
            Ev::IdleStart => {
                self.in_idle = true;
                for p in self.procs.values_mut() {
                    p.idle0 = p.calls.clone();
                }
            }
            Ev::IdleSample => {
                for (i, p) in self.procs.iter_mut() {
                    p.alive_min = p.alive_min.min(simrt::alive(*i));
                }
            }
            Ev::IdleEnd => self.idle_check(),
            Ev::Watch => {}
            Ev::End => self.over = true,
        }
    }

    fn stop(&mut self) {
        self.log("all faults stop".into());
        self.windows.clear();
        self.forged.clear();
        self.stalled = false;
        self.stopped = Some(self.now);
        self.cur_step = self.steps.len().saturating_sub(1);
        for i in self.up() {
            let p = self.procs.get_mut(&i).unwrap();
            p.paused_until = 0;
            p.absent.clear();
            simrt::pause(i, false);
        }
        let n = self.setup.unwrap().3 as usize;
        for r in 0..n {
            if !self.procs.values().any(|p| p.up && p.replica == r) {
                self.start(r, false);
            }
        }
        let t = self.now;
        // a new request makes the feed show the whole queue, which would hide a lost update
        if self.prop != "C13" || self.rng.chance(1, 3) {
            self.at(t + PROBE_AT, Ev::Probe);
            self.at(t + PROBE_AT + PROBE_LIMIT, Ev::ProbeCheck);
        }
        self.at(t + SETTLE, Ev::Settled);
        if self.idle {
            self.at(t + SETTLE + 9_000, Ev::Control);
            self.at(t + IDLE_FROM, Ev::IdleStart);
            for k in 0..9 {
                self.at(t + IDLE_FROM + 1_000 + k * 13_700, Ev::IdleSample);
            }
            self.at(t + IDLE_TO, Ev::IdleEnd);
            self.at(t + IDLE_TO + 1, Ev::End);
        } else {
            self.at(t + SETTLE + 9_000, Ev::End);
        }
    }

    fn idle_check(&mut self) {
        let Some(c) = self.procs.values().find(|p| p.control && p.up) else { return };
        let diff = |p: &Proc| -> BTreeMap<String, u64> {
            p.calls.iter().map(|(k, v)| (k.clone(), v - p.idle0.get(k).copied().unwrap_or(0))).collect()
        };
        let (cd, ca) = (diff(c), c.alive_min);
        let mut bad = vec![];
        let mut n = 0;
        if self.sends_idle > 0 {
            bad.push(format!("{} transactions sent while there was nothing to do", self.sends_idle));
        }
        for (i, p) in self.procs.iter().filter(|p| p.1.up && !p.1.control) {
            n += 1;
            if p.alive_min > ca {
                bad.push(format!("service {i} keeps {} tasks alive when idle; one that was just started keeps {ca}", p.alive_min));
            }
            for (m, v) in diff(p) {
                let b = cd.get(&m).copied().unwrap_or(0);
                if v > b + 2 + b / 3 {
                    bad.push(format!("service {i} made {v} {m} calls in {} idle seconds; one that was just started made {b}", (IDLE_TO - IDLE_FROM) / 1000));
                }
            }
        }
        for _ in 0..n {
            self.rule("C16");
        }
        for b in bad {
            self.violate("C16", b);
        }
    }
}

trait PollIt {
    type Out;
    fn poll_it(self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Out>;
}
impl<T> PollIt for std::pin::Pin<&mut tokio::task::JoinHandle<T>> {
    type Out = Result<T, tokio::task::JoinError>;
    fn poll_it(self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Out> {
        std::future::Future::poll(self, cx)
    }
}

fn reserved(k: &Pubkey) -> bool {
    use std::sync::OnceLock;
    static R: OnceLock<HashSet<Pubkey>> = OnceLock::new();
    R.get_or_init(|| [VRF, CONS_A, CONS_B, programs::CONS_H].into_iter().collect()).contains(k)
}

fn put_item(data: &mut [u8], q: u8, id: &[u8; 32], slot: u64) {
    if data.len() < 24 + ITEM + 8 {
        return;
    }
    data[..8].copy_from_slice(&QUEUE_DISC);
    data[8..12].copy_from_slice(&1u32.to_le_bytes());
    data[12..16].copy_from_slice(&((16 + ITEM) as u32).to_le_bytes());
    data[16] = q;
    let b = &mut data[24..24 + ITEM];
    b.fill(0);
    b[..8].copy_from_slice(&slot.to_le_bytes());
    b[8..40].copy_from_slice(id);
    b[40..72].copy_from_slice(CONS_A.as_ref());
    b[91] = 1;
}

/// The items the program's own reader finds in data that is not a well-formed queue.
fn lenient_items(data: &[u8]) -> Vec<Item> {
    if data.len() < 8 + HEADER {
        return vec![];
    }
    let mut d = data[8..].to_vec();
    let r = std::panic::catch_unwind(move || {
        let acc = d.clone();
        let Ok(q) = api::QueueAccount::load(&mut d) else { return vec![] };
        q.iter_items()
            .map(|i| Item {
                id: i.id,
                slot: i.slot,
                program: Pubkey::new_from_array(i.callback_program_id),
                metas: i
                    .account_metas(&acc)
                    .iter()
                    .map(|m| (Pubkey::new_from_array(m.pubkey), m.is_writable != 0))
                    .collect(),
                high: i.priority_request == 1,
            })
            .collect()
    });
    r.unwrap_or_default()
}

fn proof_ok(id: &[u8; 32], out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], s: &[u8; 32]) -> bool {
    use curve25519_dalek::ristretto::CompressedRistretto;
    use curve25519_dalek::Scalar;
    let pt = |b: &[u8; 32]| CompressedRistretto(*b).decompress();
    let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(*s)) else { return false };
    let (Some(pk), Some(_), Some(_), Some(_)) = (pt(&chain::keys::cast()[O0 as usize].pk), pt(out), pt(cb), pt(ch)) else {
        return false;
    };
    ephemeral_vrf::vrf::verify_vrf(
        pk,
        id,
        CompressedRistretto(*out),
        (CompressedRistretto(*cb), CompressedRistretto(*ch), s),
    )
}

fn account_json(a: &AccountSharedData, data: Vec<u8>, enc: &str) -> Value {
    use base64::Engine;
    let d = if enc == "base58" || enc == "binary" {
        json!([bs58::encode(&data).into_string(), "base58"])
    } else {
        json!([base64::engine::general_purpose::STANDARD.encode(&data), "base64"])
    };
    json!({"lamports": a.lamports(), "data": d, "owner": a.owner().to_string(), "executable": false, "rentEpoch": u64::MAX, "space": data.len()})
}

fn matches(f: &AccountFilter, k: &Pubkey, a: &AccountSharedData) -> bool {
    (f.owners.is_empty() || f.owners.contains(&a.owner().to_string()))
        && (f.keys.is_empty() || f.keys.contains(&k.to_string()))
        && f.data_size.map(|n| n as usize == a.data().len()).unwrap_or(true)
        && f.memcmp.iter().all(|(o, b)| a.data().get(*o..*o + b.len()) == Some(b.as_slice()))
}

fn allows(f: &solana_client::rpc_filter::RpcFilterType, data: &[u8]) -> bool {
    use solana_client::rpc_filter::RpcFilterType as T;
    match f {
        T::DataSize(n) => data.len() as u64 == *n,
        T::Memcmp(m) => match m.bytes() {
            Some(b) => data.get(m.offset()..m.offset() + b.len()) == Some(b.as_slice()),
            None => false,
        },
        T::TokenAccountState => false,
    }
}

struct AssertSend<F>(std::pin::Pin<Box<F>>);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: std::future::Future> std::future::Future for AssertSend<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

async fn http(mut io: tokio::io::DuplexStream, odd: u8) -> std::io::Result<(u16, Vec<u8>)> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let req: &[u8] = match odd {
        1 => b"GET /other HTTP/1.1\r\nHost: s\r\nConnection: close\r\n\r\n",
        2 => b"POST /stats HTTP/1.1\r\nHost: s\r\nContent-Length: 2\r\nConnection: close\r\n\r\nhi",
        3 => b"NONSENSE\r\n\r\n",
        _ => b"GET /stats HTTP/1.1\r\nHost: s\r\nConnection: close\r\n\r\n",
    };
    if odd == 4 {
        // in two parts
        io.write_all(&req[..9]).await?;
        tokio::time::sleep(Duration::from_millis(700)).await;
        io.write_all(&req[9..]).await?;
    } else {
        io.write_all(req).await?;
    }
    let mut b = vec![];
    io.read_to_end(&mut b).await?;
    let at = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| std::io::Error::other("no HTTP answer"))?;
    let head = String::from_utf8_lossy(&b[..at]).to_string();
    let code = head.split(' ').nth(1).and_then(|c| c.parse().ok()).unwrap_or(0);
    Ok((code, b[at + 4..].to_vec()))
}

thread_local! {
    pub static WORLD: RefCell<Option<Rc<RefCell<World>>>> = const { RefCell::new(None) };
}

struct SimNode(Rc<RefCell<World>>);

impl simrt::Node for SimNode {
    fn rpc(&self, inst: Inst, url: &str, _timeout: Duration, method: String, params: Value) -> (u64, oneshot::Receiver<RpcResult>) {
        let (tx, rx) = oneshot::channel();
        let mut w = self.0.borrow_mut();
        w.now = simrt::now_ms();
        let id = w.next_call;
        w.next_call += 1;
        w.count("ops", &format!("rpc {method}"));
        if w.prop == "C24" {
            w.rule("C24");
            if let Some(l) = leak::secrets().scan(url.as_bytes()).or_else(|| leak::secrets().scan_json(&params)) {
                w.violate("C24", format!("a {method} call to the node carries {l}"));
            }
        }
        if let Some(p) = w.procs.get_mut(&inst) {
            *p.calls.entry(method.clone()).or_default() += 1;
        }
        if method == "sendTransaction" {
            w.signed(inst, &params);
        }
        w.expire_windows();
        let mut c = Call {
            inst,
            method,
            params,
            tx: Some(tx),
            fail_after: false,
            garbage: false,
            back: 0,
            shows: vec![],
            at: w.now,
        };
        let hang = w.fault(|f| if let Fault::RpcHang(p) = f { Some(*p) } else { None });
        if w.hit(hang) {
            w.count("faults", "RPC call never answered");
            w.blur(inst);
            w.calls.insert(id, c);
            return (id, rx);
        }
        let slow = w.fault(|f| if let Fault::RpcSlow(m) = f { Some(*m as u64) } else { None }).unwrap_or(0);
        if slow > 0 {
            w.count("faults", "RPC call slowed");
        }
        let lat = 2 + w.rng.below(45) + if slow > 0 { w.rng.below(slow) } else { 0 };
        let now = w.now;
        let err = w.fault(|f| if let Fault::RpcErr(p) = f { Some(*p) } else { None });
        if w.hit(err) {
            if w.rng.chance(1, 3) {
                c.fail_after = true;
            } else {
                w.count("faults", "RPC error");
                if c.method != "getProgramAccounts" {
                    w.blur(inst);
                }
                let r = if w.rng.chance(1, 2) {
                    RpcFail::Transport("connection refused".into())
                } else {
                    RpcFail::Node(-32005, "Node is behind".into())
                };
                w.calls.insert(id, c);
                w.at(now + lat, Ev::Reply(id, Err(r)));
                return (id, rx);
            }
        }
        let garbage = w.fault(|f| if let Fault::RpcGarbage(p) = f { Some(*p) } else { None });
        c.garbage = w.hit(garbage);
        if let Some(b) = w.fault(|f| if let Fault::RpcStale(n) = f { Some(*n as u64) } else { None }) {
            w.count("faults", "stale node");
            c.back = b;
        }
        w.calls.insert(id, c);
        w.at(now + lat, Ev::Arrive(id));
        (id, rx)
    }

    fn replied(&self, call: u64) {
        let mut w = self.0.borrow_mut();
        w.now = simrt::now_ms();
        if let Some(c) = w.calls.remove(&call) {
            for (k, a, forged) in c.shows {
                if a.owner() == &VRF {
                    w.showed(c.inst, &k, a.data(), None, forged);
                }
            }
        }
    }

    fn subscribe(&self, inst: Inst, kind: Feed, url: &str, filter: AccountFilter) -> Result<chan::Rx<FeedItem>, String> {
        let mut w = self.0.borrow_mut();
        w.now = simrt::now_ms();
        w.expire_windows();
        w.count("ops", "subscribe");
        if w.prop == "C24" {
            w.rule("C24");
            if let Some(l) = leak::secrets().scan(url.as_bytes()) {
                w.violate("C24", format!("the address of a feed carries {l}"));
            }
        }
        if w.windows.iter().any(|x| x.f == Fault::FeedDown) {
            w.count("faults", "subscription refused");
            w.log(format!("{inst} cannot subscribe"));
            return Err("connection refused".into());
        }
        w.log(format!("{inst} subscribes"));
        let (tx, rx) = chan::channel();
        let last = w.now;
        w.subs.push(Sub { inst, feed: kind, filter, tx, dead: false, last });
        Ok(rx)
    }

    fn http_listen(&self, inst: Inst, _port: u16) -> tokio::sync::mpsc::UnboundedReceiver<tokio::io::DuplexStream> {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        if let Some(p) = self.0.borrow_mut().procs.get_mut(&inst) {
            p.http = Some(tx);
        }
        rx
    }

    fn delivered(&self, inst: Inst, item: &FeedItem) {
        let mut w = self.0.borrow_mut();
        w.now = simrt::now_ms();
        if let FeedItem::Update(u) = item {
            let k = Pubkey::new_from_array(u.key);
            w.count("outcomes", "feed updates delivered");
            if u.undecodable || u.tag == simrt::BAD_KEY {
                return;
            }
            let strange = u.owner != VRF.to_bytes();
            if strange {
                // only one of the two sources looks at the owner
                if let Some(t) = w.procs.get_mut(&inst).and_then(|p| p.track.get_mut(&k)) {
                    t.vague = simrt::now_ms();
                    t.exact = false;
                }
            }
            w.showed(inst, &k, &u.data, Some(u.slot), strange || u.tag == 1);
        }
    }
}

pub fn run(prop: &str, seed: u64, steps: &[Step], stop_on: bool, tracing: bool) -> RunOut {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let world = Rc::new(RefCell::new(World::new(prop, seed, steps, stop_on, tracing)));
        WORLD.with(|w| *w.borrow_mut() = Some(world.clone()));
        let (laser, preflight, http, replicas, queues, outage, jitter) = match steps.first().map(|s| s.op) {
            Some(Op::Setup { laser, preflight, http, replicas, queues, outage, jitter }) => {
                (laser, preflight, http, replicas.clamp(1, 2), queues.clamp(1, 3), outage, jitter)
            }
            _ => (false, false, true, 1, 1, 0, 0),
        };
        simrt::begin(seed, jitter as u64, Rc::new(SimNode(world.clone())));
        {
            let mut w = world.borrow_mut();
            w.setup = Some((laser, preflight, http, replicas, queues, outage));
            for q in w.own.clone().into_iter().chain([w.foreign]) {
                if let Some(a) = w.chain.get(&q) {
                    w.shown.insert(q, a);
                }
            }
            if outage > 0 {
                w.count("faults", "node unreachable at start-up");
                w.windows.push(Window { f: Fault::RpcErr(100), until: outage as u64, id: 0 });
            }
            w.at(0, Ev::Slot);
            for r in 0..replicas {
                let t = if r == 0 { 0 } else { 700 };
                w.at(t, Ev::Start(r as usize));
            }
            let mut t = 0;
            for i in 0..steps.len() {
                t += steps[i].gap as u64;
                w.at(t, Ev::Step(i));
            }
            let end = t.max(outage as u64) + 1;
            w.at(end, Ev::Stop);
            if prop == "C24" && seed % 4 == 0 {
                w.at(10_000 + seed % 7_919, Ev::Odd(seed / 4));
            }
        }
        let wake = world.borrow().wake.clone();
        loop {
            simrt::tick();
            let now = simrt::now_ms();
            let next = {
                let mut w = world.borrow_mut();
                w.now = now;
                if w.over {
                    break;
                }
                match w.heap.peek().map(|t| t.0) {
                    Some(t) if t <= now => {
                        let e = w.heap.pop().unwrap();
                        w.handle(e.2);
                        None
                    }
                    Some(t) => Some(t),
                    None => break,
                }
            };
            if let Some(t) = next {
                let until = simrt::epoch() + Duration::from_millis(t);
                tokio::select! {
                    biased;
                    _ = wake.notified() => {}
                    _ = tokio::time::sleep_until(until) => {}
                }
            } else {
                // let everything that this event woke run first
                tokio::task::yield_now().await;
            }
        }
    });
    let w = WORLD.with(|w| w.borrow_mut().take()).unwrap();
    let mut w = w.borrow_mut();
    let mut out = std::mem::take(&mut w.out);
    out.states = w.states.iter().copied().collect();
    out.states.sort_unstable();
    out.seconds = w.now as f64 / 1000.0;
    std::mem::forget(rt);
    out
}
