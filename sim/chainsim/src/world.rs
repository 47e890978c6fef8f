//! The simulated world: a base layer and an ephemeral rollup running the real program, the cast
//! of actors, and the execution of one history.
mod cli;
mod client;
mod draw;
pub use draw::draw_rules;
use crate::model::{self, *};
use crate::ops::*;
use chain::keys::*;
use chain::programs::*;
use chain::rng::splitmix;
use chain::svm::{Chain, Outcome, Snapshot, Tx};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::traits::Identity;
use curve25519_dalek::Scalar;
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk as sdk;
use client::{Client, Wanted};
use solana_account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_loader_v3_interface::state::UpgradeableLoaderState;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_rent::Rent;
use solana_sdk::hash::{hash, hashv};
use solana_sdk_ids::{bpf_loader_upgradeable, system_program, sysvar};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

pub struct Layer {
    pub chain: Chain,
    pub model: Model,
}

/// what the model says must happen when a transaction is delivered undisturbed
#[derive(Clone, Debug)]
pub enum Must {
    None,
    Request { qk: Pubkey, disc: usize, metas: usize, args: usize, sdk_ok: bool },
    Provide { qk: Pubkey, id: Id, kind: u8, until: u64, benign: bool, it: Box<model::Req> },
    Purge { qk: Pubkey },
    AdminInit,
    Add { by: Pubkey, id: Pubkey },
    Remove { by: Pubkey, id: Pubkey },
    Init { oracle: Pubkey, qk: Pubkey, target: usize, n: usize },
    Close { oracle: Pubkey, qk: Pubkey },
    Delegate { qk: Pubkey },
    Undelegate { qk: Pubkey },
    Commit { qk: Pubkey },
}

#[derive(Clone)]
pub enum After {
    None,
    Delegated(Pubkey),
    Scheduled(Pubkey),
    Committed(Pubkey),
    /// the request as its author meant it
    Truth(Pubkey, Box<model::Req>, usize),
    Donated(Pubkey, u64),
}

#[derive(Clone)]
pub struct Built {
    pub tx: Tx,
    pub must: Must,
    pub after: After,
    pub er: bool,
    pub halt: Option<u64>,
    pub step: usize,
    pub honest_proof: bool,
    /// the same with one byte of the caller's seed changed, and which
    pub twin: Option<(Tx, usize)>,
}

struct Saved {
    base: Snapshot,
    er: Snapshot,
    bm: Model,
    em: Model,
    sched: HashSet<Pubkey>,
    filter: Option<HashSet<Pubkey>>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub txs: u64,
    pub ok: u64,
    pub failed: u64,
    pub slots: u64,
    pub seconds: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub rules: BTreeMap<&'static str, u64>,
    pub ops: BTreeMap<&'static str, u64>,
    pub requests: u64,
    pub fulfilled: u64,
    pub purged: u64,
    pub states: HashSet<u64>,
    pub must: BTreeMap<&'static str, u64>,
}

pub struct World {
    pub base: Layer,
    pub er: Layer,
    sched: HashSet<Pubkey>,
    saves: Vec<Saved>,
    pending: Vec<(usize, Built)>,
    pub viol: Vec<(usize, Violation)>,
    pub stats: Stats,
    secrets: HashMap<[u8; 32], Scalar>,
    /// every fulfilment seen on chain: id, output, base commitment, hash commitment, scalar, key
    seen: Vec<(Id, [u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32])>,
    now: usize,
    pub digest: u64,
    entropy: u64,
    fakes: u64,
    fake_keys: HashSet<Pubkey>,
    client: Client,
    /// accounts as `readers` saw them last
    read: HashMap<(bool, Pubkey), (u64, solana_sdk::hash::Hash)>,
    /// only the tree's code, whatever the steps say
    pub alone: bool,
    /// try requests after another block as well
    pub elsewhere: bool,
    pub twins: bool,
    twist: Option<(usize, u8)>,
    /// ask the library's verifier about every proof (C02)
    pub verify: bool,
    /// the program has the heap and the instructions that the runtime would give it
    pub bounded: bool,
    /// published and new code meet in this history
    mixed: bool,
    pub trace: Option<Vec<String>>,
}

fn mix(d: &mut u64, v: u64) {
    *d ^= v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(d);
    *d = d.rotate_left(17).wrapping_mul(0xD6E8_FEB8_6659_FD93);
}
fn mixb(d: &mut u64, b: &[u8]) {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        mix(d, u64::from_le_bytes(x));
    }
    mix(d, b.len() as u64);
}

pub fn consumer(i: u8) -> Pubkey {
    let p = [CONS_A, CONS_B, CONS_H, CONS_M, CONS_N][i as usize % 5];
    if i > 2 && !is_anchor(&p) {
        return CONS_B;
    }
    p
}

fn ids_of(data: &[u8]) -> HashSet<Id> {
    view(data).map(|v| v.items.iter().map(|i| i.id).collect()).unwrap_or_default()
}

/// ids that the transaction's requests got
fn made(o: &Outcome, before: &HashSet<Id>) -> HashSet<Id> {
    o.calls
        .iter()
        .filter(|c| c.program == VRF && c.ok && matches!(c.data.first(), Some(3 | 8)))
        .flat_map(|c| c.post.iter().flat_map(|a| ids_of(&a.data)))
        .filter(|i| !before.contains(i))
        .collect()
}

/// another account of the same kind
fn kin(a: &Pubkey, k: usize) -> Pubkey {
    let who = [O0, O1, M, X, EPH, C0, U0, ADMIN];
    let programs: Vec<Pubkey> = (0..5).map(consumer).chain([VRF]).collect();
    let kinds: [Vec<Pubkey>; 5] = [
        who.iter().map(|w| key(*w)).collect(),
        who.iter().map(|w| oracle_data_key(&key(*w))).collect(),
        who.iter().flat_map(|w| (0..3).map(|i| qkey(Q { o: *w, i }))).collect(),
        programs.iter().map(|p| identity(p).0).collect(),
        programs,
    ];
    for kind in kinds {
        if kind.contains(a) {
            let other: Vec<_> = kind.iter().filter(|o| *o != a).collect();
            return *other[k % other.len()];
        }
    }
    *a
}

fn program_data_key() -> Pubkey {
    Pubkey::find_program_address(&[VRF.as_ref()], &bpf_loader_upgradeable::id()).0
}

fn program_data(auth: Option<Pubkey>) -> AccountSharedData {
    let d = bincode::serialize(&UpgradeableLoaderState::ProgramData {
        slot: 1,
        upgrade_authority_address: auth,
    })
    .unwrap();
    let mut data = d;
    data.resize(UpgradeableLoaderState::size_of_programdata_metadata() + 16, 0);
    let mut a = AccountSharedData::new(
        Rent::default().minimum_balance(data.len()),
        data.len(),
        &bpf_loader_upgradeable::id(),
    );
    a.set_data_from_slice(&data);
    a
}

fn qkey(q: Q) -> Pubkey {
    static CACHE: OnceLock<std::sync::Mutex<HashMap<Q, Pubkey>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    *c.lock().unwrap().entry(q).or_insert_with(|| queue_key(&key(q.o), q.i))
}

pub fn static_secrets() -> HashMap<[u8; 32], Scalar> {
    let mut m = HashMap::new();
    for a in cast() {
        m.insert(a.pk, a.sk);
    }
    for s in [Scalar::ZERO, Scalar::ONE, -Scalar::ONE] {
        m.insert((s * G).compress().to_bytes(), s);
    }
    m
}

/// the VRF key registered for `id`
pub fn reg_key(id: Who, variant: u8) -> [u8; 32] {
    let own = cast()[id as usize].pk;
    if id != M {
        return own;
    }
    match variant {
        1 => [0; 32],
        2 => G.compress().to_bytes(),
        3 => cast()[O0 as usize].pk,
        4 => [0xF3; 32],
        5 => (-Scalar::ONE * G).compress().to_bytes(),
        6 => {
            // a non-canonical encoding
            let mut b = [0xFF; 32];
            b[31] = 0x7F;
            b
        }
        _ => own,
    }
}

impl World {
    pub fn new(salt: u64, start_slot: u64) -> World {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&salt.to_le_bytes());
        let progs = base_programs();
        // the program that schedules commits exists on the rollup only
        let on_base: Vec<_> = progs.iter().filter(|p| p.0 != MAGIC).copied().collect();
        let mut base = Chain::new(&on_base, s, start_slot, 1_700_000_000);
        s[31] = 1;
        let mut er = Chain::new(&progs, s, start_slot, 1_700_000_000);
        er.writable_filter = Some(HashSet::new());
        for w in 0..N as u8 {
            base.fund(key(w), 1_000_000_000_000);
            er.fund(key(w), 1_000_000_000_000);
        }
        base.fund(identity(&VRF).0, 10_000_000);
        er.fund(identity(&VRF).0, 10_000_000);
        let auth = Some(key(ADMIN));
        base.set(program_data_key(), program_data(auth));
        let bm = Model {
            authority: auth,
            ..Default::default()
        };
        let em = Model {
            er: true,
            ..Default::default()
        };
        World {
            base: Layer { chain: base, model: bm },
            er: Layer { chain: er, model: em },
            sched: HashSet::new(),
            saves: vec![],
            pending: vec![],
            viol: vec![],
            stats: Stats::default(),
            secrets: static_secrets(),
            seen: vec![],
            now: 0,
            digest: salt,
            entropy: salt,
            fakes: 0,
            fake_keys: HashSet::new(),
            client: Client(false),
            read: HashMap::new(),
            alone: false,
            elsewhere: false,
            twins: false,
            twist: None,
            verify: false,
            bounded: false,
            mixed: false,
            trace: None,
        }
    }

    fn layer(&self, er: bool) -> &Layer {
        if er {
            &self.er
        } else {
            &self.base
        }
    }

    fn fault(&mut self, k: &'static str) {
        *self.stats.faults.entry(k).or_default() += 1;
    }

    // ---------------------------------------------------------------- building

    fn meta_key(&self, sel: u8, r: &crate::ops::Req) -> Pubkey {
        match sel {
            250 => key(r.q.o),
            249 => qkey(r.q),
            248 => identity(&VRF).0,
            247 => CONS_A,
            246 => oracles_key(),
            245 => oracle_data_key(&key(r.q.o)),
            244 => VRF,
            _ => Pubkey::new_from_array(hashv(&[b"meta", &[sel]]).to_bytes()),
        }
    }

    fn req_args(&self, r: &crate::ops::Req) -> (Vec<u8>, u8, u64) {
        match r.args {
            Args::Plain(n) => ((0..n).map(|i| (i as u8).wrapping_mul(7) ^ r.seed).collect(), 0, 0),
            Args::Behave { kind, param, pad } => {
                let until = self.base.chain.slot + param as u64;
                let mut v: Vec<u8> = (0..pad).map(|i| i as u8).collect();
                v.extend_from_slice(&BEHAVE);
                v.push(kind);
                v.extend_from_slice(&until.to_le_bytes());
                (v, kind, until)
            }
        }
    }

    fn request_ix(&self, r: &crate::ops::Req) -> (Instruction, model::Req) {
        let (mut args, _, _) = self.req_args(r);
        let program = consumer(r.cons);
        let mut seed = [r.seed; 32];
        if let Some((i, x)) = self.twist {
            seed[i] ^= x;
        }
        let mut disc: Vec<u8> = (0..r.disc).map(|i| 0x10 + i * 3 + r.seed % 3).collect();
        if is_anchor(&program) {
            let note = !args.is_empty();
            disc = anchor_disc(&program, note);
            if note {
                // (the note adds 13 bytes)
                args.truncate(args.len().saturating_sub(13));
                args = anchor_note(&program, r.metas.len() as u8, args);
            }
        }
        let metas: Vec<(Pubkey, bool)> = r
            .metas
            .iter()
            .map(|(s, w)| {
                let ro = matches!(*s, 247 | 244);
                (self.meta_key(*s, r), *w && !ro)
            })
            .collect();
        // a request may mark accounts as signers; the callback must not sign
        let asked: Option<Vec<([u8; 32], bool, bool)>> = if metas.is_empty() && r.seed % 2 == 0 {
            None
        } else {
            let f = |(i, (k, w)): (usize, &(Pubkey, bool))| (k.to_bytes(), (i as u8 + r.seed) % 5 == 0, *w);
            Some(metas.iter().enumerate().map(f).collect())
        };
        let ix = if is_anchor(&program) {
            let args = if args.is_empty() { None } else { Some(args.clone()) };
            let style = (r.seed / 2) % 3;
            anchor_request(&program, style, &key(r.payer), &qkey(r.q), r.high, seed, asked, args)
        } else {
            let w = Wanted {
                payer: key(r.payer),
                queue: qkey(r.q),
                program,
                disc: disc.clone(),
                metas: asked,
                seed,
                args: if args.is_empty() && r.seed % 2 == 0 { None } else { Some(args.clone()) },
            };
            self.client.request(r.high, w)
        };
        let truth = model::Req {
            id: [0; 32],
            slot: 0,
            high: r.high,
            program,
            disc,
            metas,
            args,
        };
        (ix, truth)
    }

    fn pick_target(&self, er: bool, q: Q, t: &Target, last: Option<Id>) -> Option<(Id, model::Req)> {
        let l = self.layer(er);
        let items = |q: Q| l.model.queues.get(&qkey(q)).map(|x| x.items.clone()).unwrap_or_default();
        let dummy = |id: Id| model::Req {
            id,
            slot: 0,
            high: false,
            program: CONS_A,
            disc: vec![],
            metas: vec![],
            args: vec![],
        };
        match t {
            Target::Pending(n) => {
                let v = items(q);
                if v.is_empty() {
                    return None;
                }
                let x = v[*n as usize % v.len()].clone();
                Some((x.id, x))
            }
            Target::Last => {
                if let Some(id) = last {
                    return Some((id, dummy(id)));
                }
                items(q).last().map(|x| (x.id, x.clone()))
            }
            Target::Resolved(n) => {
                if self.seen.is_empty() {
                    return None;
                }
                let id = self.seen[*n as usize % self.seen.len()].0;
                // a fork may have made it pending again
                let again = items(q).into_iter().find(|i| i.id == id);
                Some((id, again.unwrap_or_else(|| dummy(id))))
            }
            Target::Other(o, n) => {
                let v = items(*o);
                if v.is_empty() {
                    return None;
                }
                let x = v[*n as usize % v.len()].clone();
                Some((x.id, x))
            }
            Target::Random(x) => {
                let id = hashv(&[&x.to_le_bytes()]).to_bytes();
                Some((id, dummy(id)))
            }
        }
    }

    fn prove(&self, l: &Layer, owner: Who, id: &Id, m: &ProofMut) -> [[u8; 32]; 4] {
        let sk = l
            .model
            .recs
            .get(&key(owner))
            .and_then(|r| self.secrets.get(&r.pk).copied())
            .unwrap_or(cast()[owner as usize].sk);
        let honest = |sk: Scalar, id: &Id| self.client.prove(sk, id);
        let mut p = honest(sk, id);
        match m {
            ProofMut::None => {}
            ProofMut::Flip { field, bit } => {
                p[*field as usize % 4][(*bit as usize / 8) % 32] ^= 1 << (bit % 8);
            }
            ProofMut::SwapCommit => p.swap(1, 2),
            ProofMut::Key(w) => p = honest(cast()[*w as usize % N].sk, id),
            ProofMut::Input(x) => p = honest(sk, &hashv(&[b"other", &x.to_le_bytes()]).to_bytes()),
            ProofMut::Point { field, val } => {
                let mut nc = [0xFF; 32];
                nc[31] = 0x7F;
                let mut neg = [0u8; 32];
                neg[0] = 1;
                let pts: [[u8; 32]; 8] = [
                    [0; 32],
                    G.compress().to_bytes(),
                    nc,
                    neg,
                    (-CompressedRistretto(p[0]).decompress().unwrap_or(G)).compress().to_bytes(),
                    p[1],
                    p[2],
                    cast()[owner as usize].pk,
                ];
                p[*field as usize % 3] = pts[*val as usize % 8];
            }
            ProofMut::Scalar(v) => {
                let ell: [u8; 32] = [
                    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde,
                    0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
                ];
                let cur = Scalar::from_bytes_mod_order(p[3]);
                p[3] = match v {
                    0 => [0; 32],
                    1 => Scalar::ONE.to_bytes(),
                    2 => (-cur).to_bytes(),
                    3 => {
                        // s + l: the same residue, not canonical
                        let mut r = p[3];
                        let mut c = 0u16;
                        for i in 0..32 {
                            let t = r[i] as u16 + ell[i] as u16 + c;
                            r[i] = t as u8;
                            c = t >> 8;
                        }
                        r
                    }
                    4 => [0xFF; 32],
                    _ => (cur + Scalar::ONE).to_bytes(),
                };
            }
            ProofMut::Replay(n) => {
                if !self.seen.is_empty() {
                    let x = &self.seen[*n as usize % self.seen.len()];
                    p = [x.1, x.2, x.3, x.4];
                }
            }
            ProofMut::Weak { drop, kind } => {
                let own = (sk * G).compress().to_bytes();
                let pk = l.model.recs.get(&key(owner)).map(|r| r.pk).unwrap_or(own);
                p = forge(sk, pk, id, *drop, *kind)
            }
        }
        p
    }

    fn provide_ix(&self, er: bool, q: Q, id: Id, it: &model::Req, m: &ProofMut) -> Instruction {
        let p = self.prove(self.layer(er), q.o, &id, m);
        let mut ix = self.client.provide(key(q.o), qkey(q), it.program, id, p);
        ix.accounts.extend(it.metas.iter().map(|(k, w)| AccountMeta {
            pubkey: *k,
            is_signer: false,
            is_writable: *w,
        }));
        ix
    }

    fn acc(&mut self, er: bool, s: &AccSel) -> Pubkey {
        match s {
            AccSel::Who(w) => key(*w),
            AccSel::Oracles => oracles_key(),
            AccSel::OracleData(w) => oracle_data_key(&key(*w)),
            AccSel::Queue(w, i) => qkey(Q { o: *w, i: *i }),
            AccSel::Identity(c) => identity(&consumer(*c)).0,
            AccSel::VrfIdentity => identity(&VRF).0,
            AccSel::Program(n) => {
                [VRF, CONS_A, CONS_B, CONS_H, DLP, MAGIC, sysvar::clock::id(), system_program::id()][*n as usize % 8]
            }
            AccSel::SlotHashes => sysvar::slot_hashes::id(),
            AccSel::ProgramData => program_data_key(),
            AccSel::Record(w, i) => record_pda(&qkey(Q { o: *w, i: *i })).0,
            AccSel::UndelBuffer(w, i) => undelegate_buffer_pda(&qkey(Q { o: *w, i: *i })).0,
            AccSel::Random(n) => Pubkey::new_from_array(hashv(&[b"rnd", &n.to_le_bytes()]).to_bytes()),
            AccSel::Fake { owner, image, patch } => {
                let src = self.acc(er, image);
                let zeroed = if let AccSel::Random(n) = **image { Some([8, 56, 400, 9000][n as usize % 4]) } else { None };
                self.fake(er, src, *owner, *patch, zeroed)
            }
        }
    }

    /// an account the attacker prepared, with contents copied from `src`
    fn fake(&mut self, er: bool, src: Pubkey, owner: u8, patch: u8, zeroed: Option<usize>) -> Pubkey {
        let l = if er { &mut self.er } else { &mut self.base };
        let mut data = l.chain.data(&src);
        match patch {
            1 => {
                // the attacker's VRF key in a copied record
                if data.len() >= 40 {
                    data[8..40].copy_from_slice(&cast()[M as usize].pk);
                }
            }
            2 => {
                for b in data.iter_mut().skip(8).take(4) {
                    *b = 0;
                }
            }
            3 => data = vec![0; [16, 56, 128, 1000][owner as usize % 4]],
            4 => {
                let x = key(X).to_bytes();
                for w in [ADMIN, ADMIN2, O0, O1, EPH, C0, C1, U0, M] {
                    let k = key(w).to_bytes();
                    let mut i = 0;
                    while i + 32 <= data.len() {
                        if data[i..i + 32] == k {
                            data[i..i + 32].copy_from_slice(&x);
                            i += 32;
                        } else {
                            i += 1;
                        }
                    }
                }
            }
            _ => {}
        }
        if owner == 1 {
            data = vec![0; zeroed.unwrap_or(data.len().max(8))];
        }
        if owner == 2 {
            data = vec![];
        }
        let own = [CONS_H, DLP, system_program::id()][owner as usize % 3];
        let mut a = AccountSharedData::new(Rent::default().minimum_balance(data.len()), data.len(), &own);
        a.set_data_from_slice(&data);
        self.fakes += 1;
        let k = Pubkey::new_from_array(hashv(&[b"fake", &self.fakes.to_le_bytes()]).to_bytes());
        l.chain.set(k, a);
        self.fake_keys.insert(k);
        k
    }

    /// the plain instructions of an operation
    fn ixs(&mut self, er: bool, op: &Op, last: Option<Id>) -> Option<(Pubkey, Vec<Instruction>, Must, After)> {
        let cl = self.client;
        Some(match op {
            Op::AdminInit { by } => {
                (key(*by), vec![cl.initialize(key(*by))], Must::AdminInit, After::None)
            }
            Op::Modify { by, id, add, key: kv } => {
                let (b, i) = (key(*by), key(*id));
                if *add {
                    let pk = reg_key(*id, *kv);
                    (b, vec![cl.add_oracle(b, i, pk)], Must::Add { by: b, id: i }, After::None)
                } else {
                    (b, vec![cl.remove_oracle(b, i)], Must::Remove { by: b, id: i }, After::None)
                }
            }
            Op::Init { payer, q, size, steps } => {
                let mut v = cl.initialize_oracle_queue(key(*payer), key(q.o), q.i, Some(*size));
                if *steps > 1 {
                    v.truncate(*steps as usize - 1);
                }
                let n = v.len();
                let must = Must::Init { oracle: key(q.o), qk: qkey(*q), target: *size as usize, n };
                (key(*payer), v, must, After::None)
            }
            Op::Close { q } => (
                key(q.o),
                vec![cl.close_oracle_queue(key(q.o), q.i)],
                Must::Close { oracle: key(q.o), qk: qkey(*q) },
                After::None,
            ),
            Op::Request(r) => {
                let (ix, truth) = self.request_ix(r);
                let must = Must::Request {
                    qk: qkey(r.q),
                    disc: truth.disc.len(),
                    metas: truth.metas.len(),
                    args: truth.args.len(),
                    sdk_ok: true,
                };
                let n = r.copies.max(1) as usize;
                (
                    key(r.payer),
                    vec![ix; n],
                    if n == 1 { must } else { Must::None },
                    After::Truth(qkey(r.q), Box::new(truth), n),
                )
            }
            Op::Provide { q, t, m } => {
                let (id, it) = self.pick_target(er, *q, t, last)?;
                let ix = self.provide_ix(er, *q, id, &it, m);
                let pos = it.args.windows(3).rposition(|w| w == BEHAVE);
                let kind = pos.and_then(|p| it.args.get(p + 3).copied()).unwrap_or(0);
                let until = pos
                    .and_then(|p| it.args.get(p + 4..p + 12))
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .unwrap_or(0);
                let special = [
                    key(q.o),
                    qkey(*q),
                    identity(&VRF).0,
                    oracle_data_key(&key(q.o)),
                    oracles_key(),
                ];
                let benign = !it.metas.iter().any(|x| special.contains(&x.0))
                    && it.program != CONS_H
                    && matches!(m, ProofMut::None);
                (key(q.o), vec![ix], Must::Provide { qk: qkey(*q), id, kind, until, benign, it: Box::new(it) }, After::None)
            }
            Op::Purge { q, by } => (
                key(*by),
                vec![cl.purge_expired_requests(key(q.o), q.i)],
                Must::Purge { qk: qkey(*q) },
                After::None,
            ),
            Op::Delegate { q } => (
                key(q.o),
                vec![cl.delegate_oracle_queue(key(q.o), qkey(*q), q.i)],
                Must::Delegate { qk: qkey(*q) },
                After::Delegated(qkey(*q)),
            ),
            Op::Undelegate { q } => (
                key(q.o),
                vec![cl.undelegate_oracle_queue(key(q.o), qkey(*q), q.i)],
                Must::Undelegate { qk: qkey(*q) },
                After::Scheduled(qkey(*q)),
            ),
            _ => return None,
        })
    }

    /// honest consumers request through their own program
    fn wrap(&self, ixs: Vec<Instruction>, op: &Op) -> Vec<Instruction> {
        match op {
            // (the Anchor consumers' instructions already are their own)
            Op::Request(r) if is_anchor(&consumer(r.cons)) => ixs,
            Op::Request(r) => ixs.iter().map(|i| proxied(&consumer(r.cons), i, true)).collect(),
            _ => ixs,
        }
    }

    fn build(&mut self, st: &Step, n: usize) -> Option<Built> {
        let mut b = Built {
            tx: Tx { payer: key(X), ixs: vec![] },
            must: Must::None,
            after: After::None,
            er: st.er,
            halt: st.halt.map(|h| h as u64),
            step: n,
            honest_proof: matches!(&st.op, Op::Provide { m: ProofMut::None, .. }),
            twin: None,
        };
        match &st.op {
            Op::Attack { base, muts, via } => {
                let (_, ixs, _, _) = self.ixs(st.er, base, None)?;
                let mut ix = ixs.into_iter().next()?;
                let mut via = *via || matches!(&**base, Op::Request(r) if !is_anchor(&consumer(r.cons)));
                for m in muts {
                    self.mutate(st.er, &mut ix, m, &mut via);
                }
                let hid = identity(&CONS_H).0;
                for a in ix.accounts.iter_mut() {
                    if a.is_signer {
                        let mine = who(&a.pubkey).map(attacker).unwrap_or(false)
                            || self.fake_keys.contains(&a.pubkey)
                            || (via && a.pubkey == hid);
                        if !mine {
                            a.is_signer = false;
                        }
                    }
                }
                b.tx.ixs = vec![if via { proxied(&CONS_H, &ix, true) } else { ix }];
                self.fault("hostile transaction");
            }
            Op::Bundle(ops) => {
                let mut last = None;
                for o in ops {
                    let Some((p, ixs, _, _)) = self.ixs(st.er, o, last) else { continue };
                    if b.tx.ixs.is_empty() {
                        b.tx.payer = p;
                    }
                    let ixs = self.wrap(ixs, o);
                    b.tx.ixs.extend(ixs);
                    if let Op::Request(r) = o {
                        // a requester can compute the id in advance: dry run
                        let tx = b.tx.clone();
                        let l = if st.er { &mut self.er } else { &mut self.base };
                        let o = l.chain.execute(&tx, None, false);
                        let qk = qkey(r.q);
                        if let Some(c) = o.calls.iter().rev().find(|c| c.program == VRF && c.ok) {
                            if let Some(i) = c.metas.iter().position(|m| m.key == qk) {
                                if let Some(Ok(v)) = c.post.get(i).map(|a| view(&a.data)) {
                                    last = v.items.last().map(|i| i.id);
                                }
                            }
                        }
                    }
                }
                if b.tx.ixs.is_empty() {
                    return None;
                }
                self.fault("several operations in one transaction");
            }
            Op::Commit { q } => {
                let qk = qkey(*q);
                if !self.sched.contains(&qk) {
                    return None;
                }
                let acc = self.er.chain.get(&qk)?;
                let args = CommitArgs { lamports: acc.lamports(), data: acc.data().to_vec() };
                let mut data = DLP_COMMIT.to_vec();
                data.extend_from_slice(&bincode::serialize(&args).unwrap());
                b.er = false;
                b.tx = Tx {
                    payer: key(VAL),
                    ixs: vec![Instruction {
                        program_id: DLP,
                        accounts: vec![
                            AccountMeta::new(key(VAL), true),
                            AccountMeta::new(qk, false),
                            AccountMeta::new_readonly(VRF, false),
                            AccountMeta::new(undelegate_buffer_pda(&qk).0, false),
                            AccountMeta::new(record_pda(&qk).0, false),
                            AccountMeta::new(metadata_pda(&qk).0, false),
                            AccountMeta::new_readonly(system_program::id(), false),
                        ],
                        data,
                    }],
                };
                b.must = Must::Commit { qk };
                b.after = After::Committed(qk);
            }
            Op::Donate { to, amount } => {
                let k = self.acc(st.er, to);
                b.tx = Tx {
                    payer: key(X),
                    ixs: vec![solana_system_interface::instruction::transfer(&key(X), &k, *amount)],
                };
                b.after = After::Donated(k, *amount);
            }
            op => {
                let (p, ixs, must, after) = self.ixs(st.er, op, None)?;
                b.tx = Tx { payer: p, ixs: self.wrap(ixs, op) };
                b.must = must;
                b.after = after;
                if self.twins && matches!(op, Op::Request(_)) {
                    let k = (self.digest % 32) as usize;
                    self.twist = Some((k, 1 << (self.digest / 32 % 8)));
                    if let Some((payer, ixs, _, _)) = self.ixs(st.er, op, None) {
                        b.twin = Some((Tx { payer, ixs: self.wrap(ixs, op) }, k));
                    }
                    self.twist = None;
                }
            }
        }
        Some(b)
    }

    fn mutate(&mut self, er: bool, ix: &mut Instruction, m: &Mut, via: &mut bool) {
        let n = ix.accounts.len();
        match m {
            Mut::SetAcc(i, s) => {
                let k = self.acc(er, s);
                if n > 0 {
                    ix.accounts[*i as usize % n].pubkey = k;
                    if k == identity(&CONS_H).0 {
                        *via = true;
                    }
                }
            }
            Mut::Kin(i, k) => {
                if n > 0 {
                    let a = &mut ix.accounts[*i as usize % n].pubkey;
                    *a = kin(a, *k as usize);
                }
            }
            Mut::FakeAt(i, owner, patch) => {
                if n > 0 {
                    let k = self.fake(er, ix.accounts[*i as usize % n].pubkey, *owner, *patch, None);
                    ix.accounts[*i as usize % n].pubkey = k;
                }
            }
            Mut::Signer(i, v) => {
                if n > 0 {
                    ix.accounts[*i as usize % n].is_signer = *v;
                }
            }
            Mut::Writable(i, v) => {
                if n > 0 {
                    ix.accounts[*i as usize % n].is_writable = *v;
                }
            }
            Mut::Swap(a, b) => {
                if n > 0 {
                    ix.accounts.swap(*a as usize % n, *b as usize % n)
                }
            }
            Mut::Dup(a, b) => {
                if n > 0 {
                    ix.accounts[*b as usize % n] = ix.accounts[*a as usize % n].clone();
                }
            }
            Mut::Drop(i) => {
                if n > 0 {
                    ix.accounts.remove(*i as usize % n);
                }
            }
            Mut::Append(s) => {
                let k = self.acc(er, s);
                ix.accounts.push(AccountMeta::new_readonly(k, false));
            }
            Mut::Flip(o, b) => {
                if !ix.data.is_empty() {
                    let l = ix.data.len();
                    ix.data[*o as usize % l] ^= 1 << (b % 8);
                }
            }
            Mut::Trunc(k) => {
                let l = ix.data.len().saturating_sub(*k as usize + 1);
                ix.data.truncate(l);
            }
            Mut::Extend(k) => ix.data.extend(std::iter::repeat_n(0xA5, *k as usize)),
            Mut::Tag(t) => {
                if !ix.data.is_empty() {
                    ix.data[0] = *t;
                }
            }
            Mut::Byte(o, v) => {
                if let Some(b) = ix.data.get_mut(*o as usize) {
                    *b = *v;
                }
            }
            Mut::Impersonate(w) => {
                let from = key(*w);
                let to = if matches!(*w, O0 | O1 | EPH | C0) && self.fakes % 2 == 0 { key(M) } else { key(X) };
                for a in ix.accounts.iter_mut() {
                    if a.pubkey == from {
                        a.pubkey = to;
                    }
                }
            }
            Mut::Raw(d) => {
                ix.data = d.clone();
                ix.accounts.clear();
            }
        }
    }

    // ---------------------------------------------------------------- progress rules

    fn expected(&self, b: &Built) -> Option<(&'static [&'static str], String)> {
        let l = self.layer(b.er);
        let (m, c) = (&l.model, &l.chain);
        let slot = c.slot;
        let open = |qk: &Pubkey| m.queues.get(qk).filter(|q| !q.delegated);
        match &b.must {
            Must::None => None,
            Must::Request { qk, disc, metas, args, sdk_ok } => {
                let q = open(qk)?;
                if *disc > 8 || *metas > 20 || *args > 512 || !sdk_ok {
                    return None;
                }
                let item = std::mem::size_of::<api::QueueItem>();
                let need = item + disc + metas * std::mem::size_of::<api::CompactAccountMeta>() + args;
                let v = view(&c.data(qk)).ok()?;
                let start = if v.items.is_empty() { std::mem::size_of::<api::Queue>() } else { v.end };
                let start = start.div_ceil(8) * 8;
                if start + need > q.size - 8 {
                    return None;
                }
                Some((&["C03", "C12"], format!("a request that fits ({need} bytes at {start} of {}) was refused", q.size - 8)))
            }
            Must::Provide { qk, id, kind, until, benign, it: built } => {
                let q = open(qk)?;
                let it = q.items.iter().find(|i| &i.id == id)?;
                // built for the request as it is now (a fork may have brought it back since)
                if built.program != it.program || built.metas != it.metas {
                    return None;
                }
                let rec = m.recs.get(&q.owner)?;
                if !benign || slot <= it.slot || !self.secrets.contains_key(&rec.pk) {
                    return None;
                }
                if cast()[who(&q.owner)? as usize].pk != rec.pk {
                    return None;
                }
                let ok = match *kind {
                    behave::FAIL | behave::PANIC | behave::FORWARD | behave::REENTER => false,
                    behave::FLAKY => slot >= *until,
                    _ => true,
                };
                if !ok {
                    return None;
                }
                let props: &'static [&'static str] =
                    if is_anchor(&it.program) { &["C02", "C06", "C12"] } else { &["C02", "C06"] };
                Some((props, format!("a valid fulfilment of a request made in slot {} was refused in slot {slot}", it.slot)))
            }
            Must::Purge { qk } => {
                open(qk)?;
                Some((&["C07"], "a purge of an open queue was refused".into()))
            }
            Must::AdminInit => {
                if b.er || m.oracles.is_some() {
                    return None;
                }
                Some((&["C08"], "the registry could not be initialised".into()))
            }
            Must::Add { by, id } => {
                if b.er || Some(*by) != m.authority || m.oracles.is_none() || m.recs.contains_key(id) {
                    return None;
                }
                Some((&["C08"], format!("the admin could not add oracle {id}")))
            }
            Must::Remove { by, id } => {
                if b.er || Some(*by) != m.authority || !m.recs.contains_key(id) || m.open(id) != 0 {
                    return None;
                }
                Some((&["C08"], format!("the admin could not remove oracle {id}, which has no open queue")))
            }
            Must::Init { oracle, qk, target, n } => {
                if b.er || m.queues.contains_key(qk) || *target < 28 {
                    return None;
                }
                let rec = m.recs.get(oracle)?;
                if slot.saturating_sub(rec.slot) < TIMELOCK {
                    return None;
                }
                let acc = c.get(qk);
                let cur = acc.as_ref().map(|a| a.data().len()).unwrap_or(0);
                if acc.map(|a| a.owner() != &VRF && a.owner() != &system_program::id()).unwrap_or(false) {
                    return None;
                }
                let steps = target.saturating_sub(cur).div_ceil(STEP_BYTES).max(1);
                if *n > steps {
                    return None;
                }
                Some((&["C10"], format!("initialising a queue of {target} bytes (now {cur}) was refused")))
            }
            Must::Close { oracle, qk } => {
                if b.er {
                    return None;
                }
                let q = open(qk)?;
                if !q.items.is_empty() || !m.recs.contains_key(oracle) {
                    return None;
                }
                Some((&["C10"], "the owner could not close its empty queue".into()))
            }
            Must::Delegate { qk } => {
                let q = open(qk)?;
                // the address may have been delegated while no queue existed there
                if b.er || q.size > STEP_BYTES || c.get(&record_pda(qk).0).is_some() {
                    return None;
                }
                Some((&["C11"], "the owner could not delegate its queue".into()))
            }
            Must::Undelegate { qk } => {
                if !b.er {
                    return None;
                }
                open(qk)?;
                Some((&["C11"], "the owner could not ask for its queue back".into()))
            }
            Must::Commit { qk } => {
                if !self.sched.contains(qk) || !m.queues.get(qk).map(|q| q.delegated).unwrap_or(false) {
                    return None;
                }
                Some((&["C11"], "the hand-back of a delegated queue failed".into()))
            }
        }
    }

    // ---------------------------------------------------------------- running

    fn report(&mut self, step: usize, prop: &'static str, msg: String) {
        self.viol.push((step, Violation { prop, msg, known: None }));
    }

    fn deliver(&mut self, b: Built) {
        if !self.bounded {
            return self.deliver1(b);
        }
        let l = if b.er { &self.er } else { &self.base };
        let qk = match &b.must {
            Must::Request { qk, .. } | Must::Provide { qk, .. } | Must::Purge { qk } => Some(*qk),
            _ => None,
        };
        let pending = qk.and_then(|qk| l.model.queues.get(&qk)).map_or(0, |q| q.items.len());
        let had = self.viol.len();
        let must = self.stats.must.values().sum::<u64>();
        self.deliver1(b);
        // what the rules allow has to work, however long the queue
        if pending > 100 {
            *self.stats.rules.entry("C27").or_default() += (self.stats.must.values().sum::<u64>() > must) as u64;
            for i in had..self.viol.len() {
                let (step, v) = &self.viol[i];
                if v.known.is_none() && (v.prop == "C07" || v.prop == "C03" || v.prop == "C06") {
                    let msg = format!("with {pending} requests pending: {}", v.msg);
                    self.viol.push((*step, Violation { prop: "C27", msg, known: None }));
                }
            }
        }
    }

    /// Anybody can check a proof with the library; it has to know the same output for an input
    /// as the program does.
    fn library_verdicts(&mut self, b: &Built) {
        let l = if b.er { &self.er } else { &self.base };
        let mut bad = None;
        let mut n = 0;
        for ix in b.tx.ixs.iter().filter(|i| i.program_id == VRF && i.data.first() == Some(&4)) {
            let Some(d) = ix.data.get(8..168) else { continue };
            let rec = ix.accounts.get(3).and_then(|a| l.model.queues.get(&a.pubkey)).and_then(|q| l.model.recs.get(&q.owner));
            let Some((rec, sk)) = rec.and_then(|r| Some((r, self.secrets.get(&r.pk)?))) else { continue };
            let id: Id = d[..32].try_into().unwrap();
            let out: [u8; 32] = d[32..64].try_into().unwrap();
            let said = model::check_proof(&rec.pk, &id, &out, &d[64..96], &d[96..128], &d[128..160]);
            n += 1;
            let right = ephemeral_vrf::vrf::compute_vrf(*sk, &id).0.to_bytes() == out;
            if said && !right {
                bad = Some("the library's verifier accepts a proof of another output than the oracle's unique one");
            }
            if !said && right && b.honest_proof {
                bad = Some("the library's verifier rejects the proof that its prover made");
            }
        }
        *self.stats.rules.entry("C02").or_default() += n;
        if let Some(m) = bad {
            self.report(b.step, "C02", m.into());
        }
    }

    fn deliver1(&mut self, b: Built) {
        let expected = self.expected(&b);
        if let After::Committed(qk) = &b.after {
            // what the rollup has for the queue right now is what it commits
            if let Some(q) = self.er.model.queues.get(qk) {
                let lam = self.er.chain.lamports(qk);
                self.base.model.returning.insert(*qk, (q.items.clone(), lam));
            }
            // a transaction prepared earlier carries an older state: prepare it again
            if let Some(acc) = self.er.chain.get(qk) {
                let args = CommitArgs { lamports: acc.lamports(), data: acc.data().to_vec() };
                let mut b2 = b.clone();
                let mut data = DLP_COMMIT.to_vec();
                data.extend_from_slice(&bincode::serialize(&args).unwrap());
                b2.tx.ixs[0].data = data;
                return self.deliver2(b2, expected);
            }
            return;
        }
        self.deliver2(b, expected)
    }

    fn deliver2(&mut self, b: Built, expected: Option<(&'static [&'static str], String)>) {
        if self.verify {
            self.library_verdicts(&b);
        }
        let l = if b.er { &mut self.er } else { &mut self.base };
        let requests = self.elsewhere
            && b.tx.ixs.iter().any(|i| i.program_id == VRF || i.accounts.iter().any(|a| a.pubkey == VRF));
        let elsewhere = requests.then(|| {
            let keys: HashSet<_> = b.tx.ixs.iter().flat_map(|i| &i.accounts).map(|a| a.pubkey).collect();
            let before: HashSet<Id> = keys.iter().flat_map(|k| ids_of(&l.chain.data(k))).collect();
            (made(&l.chain.execute_elsewhere(&b.tx, self.digest as usize), &before), before)
        });
        let twin = b.twin.as_ref().map(|(tx, k)| {
            let keys: HashSet<_> = tx.ixs.iter().flat_map(|i| &i.accounts).map(|a| a.pubkey).collect();
            let before: HashSet<Id> = keys.iter().flat_map(|k| ids_of(&l.chain.data(k))).collect();
            ((made(&l.chain.execute(tx, None, false), &before), before), *k)
        });
        l.chain.bounded = self.bounded;
        // counting is slow: now and then, where many requests are pending
        let queue = match (&b.must, &b.after) {
            (Must::Purge { qk }, _) => Some((qk, 4)),
            (_, After::Truth(qk, ..)) => Some((qk, 500)),
            (Must::Provide { qk, .. }, _) => Some((qk, u64::MAX)),
            _ => None,
        };
        let count = self.bounded
            && queue.is_some_and(|(qk, n)| {
                l.model.queues.get(qk).is_some_and(|q| q.items.len() > 300) && self.digest % n == 0
            });
        chain::meter::COUNT.with(|c| c.set(count));
        let o = l.chain.execute(&b.tx, b.halt, true);
        chain::meter::COUNT.with(|c| c.set(false));
        if self.bounded && queue.is_some() && (expected.is_some() || matches!(b.after, After::Truth(..))) {
            let pending = queue.and_then(|(qk, _)| l.model.queues.get(qk)).map_or(0, |q| q.items.len());
            *self.stats.rules.entry("C27").or_default() += (pending > 100) as u64;
            let what = if o.heap > chain::meter::HEAP {
                Some("32 KiB heap")
            } else if o.steps > chain::meter::STEPS {
                Some("1,400,000 instructions")
            } else {
                None
            };
            if std::env::var("METER").is_ok() {
                eprintln!("heap {} steps {} pending {pending} {:?}", o.heap, o.steps, b.must);
            }
            if let Some(what) = what {
                let msg = format!("with {pending} requests pending, the program ran out of the runtime's {what}");
                self.viol.push((b.step, Violation { prop: "C27", msg, known: None }));
            }
        }
        if let Some((other, k)) = twin.filter(|_| o.ok) {
            let here = made(&o, &other.1);
            *self.stats.rules.entry("C12").or_default() += here.len() as u64;
            if here.iter().any(|i| other.0.contains(i)) {
                let msg = format!("a request's id is the same with another byte {k} in the caller's seed: the SDK or the program loses it");
                self.viol.push((b.step, Violation { prop: "C12", msg, known: None }));
            }
        }
        if let Some((there, before)) = elsewhere.filter(|_| o.ok) {
            let here = made(&o, &before);
            *self.stats.rules.entry("C26").or_default() += here.len() as u64;
            if here.iter().any(|i| there.contains(i)) {
                let msg = "a request got the id that it would have got after another block: its randomness could be known before that block".to_string();
                self.viol.push((b.step, Violation { prop: "C26", msg, known: None }));
            }
        }
        self.stats.txs += 1;
        if let Some(t) = &mut self.trace {
            let names = ["initialize", "modify oracle", "init queue", "request (high)", "fulfil", "delegate", "undelegate", "close", "request", "purge"];
            let calls: Vec<String> = o
                .calls
                .iter()
                .filter(|c| c.program == VRF)
                .map(|c| format!("{}{}", c.data.first().and_then(|t| names.get(*t as usize)).unwrap_or(&"other"), if c.ok { "" } else { " (refused)" }))
                .collect();
            t.push(format!(
                "step {} slot {}{}: {} -> {}{}",
                b.step,
                o.slot,
                if b.er { " rollup" } else { "" },
                calls.join(", "),
                if o.ok { "committed" } else { "failed " },
                o.err
            ));
        }
        mixb(&mut self.digest, o.err.as_bytes());
        mix(&mut self.digest, o.calls.len() as u64 ^ (o.ok as u64) << 32);
        if o.halted {
            self.fault("program stopped part way");
        }
        if o.ok {
            self.stats.ok += 1;
        } else {
            self.stats.failed += 1;
        }
        if let Some((props, why)) = expected {
            if !o.halted {
                for p in props {
                    *self.stats.must.entry(p).or_default() += 1;
                    if !o.ok {
                        let log = o.logs.iter().rev().take(3).cloned().collect::<Vec<_>>().join(" | ");
                        self.report(b.step, p, format!("{why}: {} [{log}]", o.err));
                    }
                }
            }
        }
        if o.ok {
            self.committed(&b, &o);
        }
    }

    fn committed(&mut self, b: &Built, o: &Outcome) {
        let l = if b.er { &mut self.er } else { &mut self.base };
        if let After::Donated(k, n) = &b.after {
            if let Some(q) = l.model.queues.get_mut(k) {
                q.base += n;
            }
        }
        let res_before = l.model.resolved.len();
        let mut out = vec![];
        after_tx(&mut l.model, &l.chain, o, &self.secrets, &mut out, &mut self.stats.rules);
        let purged = l.model.resolved.len() - res_before;
        // SDK truth
        if let After::Truth(qk, t, n) = &b.after {
            *self.stats.rules.entry("C12").or_default() += 1;
            if let Ok(v) = view(&l.chain.data(qk)) {
                for it in v.items.iter().rev().take(*n) {
                    let mut want = (**t).clone();
                    want.id = it.id;
                    want.slot = o.slot;
                    if *it != want {
                        out.push(Violation {
                            prop: "C12",
                            msg: format!("the SDK's request was stored as {it:?} instead of {want:?}"),
                            known: None,
                        });
                    }
                }
            }
        }
        for v in out {
            self.viol.push((b.step, v));
        }
        let mut ful = 0;
        for c in &o.calls {
            if c.ok && is_anchor(&c.program) {
                let k = match (c.parent.is_some(), c.program == CONS_M) {
                    (true, true) => "callback accepted by the Anchor consumer",
                    (true, false) => "callback accepted by the old-Anchor consumer",
                    (false, true) => "request accepted through the Anchor consumer",
                    (false, false) => "request accepted through the old-Anchor consumer",
                };
                *self.stats.ops.entry(k).or_default() += 1;
            }
            if c.program != VRF || !c.ok {
                continue;
            }
            match c.data.first() {
                Some(3 | 8) => self.stats.requests += 1,
                Some(4) if c.data.len() >= 168 => {
                    ful += 1;
                    self.stats.fulfilled += 1;
                    let f = |a: usize| -> [u8; 32] { c.data[a..a + 32].try_into().unwrap() };
                    let rec = (f(8), f(40), f(72), f(104), f(136));
                    let owner = c.metas[0].key;
                    let pk = self.layer(b.er).model.recs.get(&owner).map(|r| r.pk).unwrap_or([0; 32]);
                    let mut out = vec![];
                    if who(&owner).map(|w| !attacker(w)).unwrap_or(false) {
                        adversary(&rec, &pk, &self.seen, &mut out);
                        *self.stats.rules.entry("C20").or_default() += 1;
                    }
                    for v in out {
                        self.viol.push((b.step, v));
                    }
                    self.seen.push((rec.0, rec.1, rec.2, rec.3, rec.4, pk));
                }
                _ => {}
            }
        }
        self.stats.purged += (purged as u64).saturating_sub(ful);
        match &b.after {
            After::Delegated(qk) => self.to_rollup(qk),
            After::Scheduled(qk) => {
                if b.er {
                    if let Some(q) = self.er.model.queues.get_mut(qk) {
                        q.delegated = true;
                        self.sched.insert(*qk);
                        if let Some(mut a) = self.er.chain.get(qk) {
                            a.set_owner(DLP);
                            self.er.chain.set(*qk, a);
                        }
                    }
                }
            }
            After::Committed(qk) => {
                self.sched.remove(qk);
                if let Some(q) = self.er.model.queues.remove(qk) {
                    let ids = self.er.model.ids.get(qk).cloned().unwrap_or_default();
                    self.base.model.ids.entry(*qk).or_default().extend(ids);
                    let slot = self.base.chain.slot;
                    if let Some(i) = q.items.iter().find(|i| i.slot > slot) {
                        self.viol.push((
                            b.step,
                            Violation {
                                prop: "C11",
                                known: Some("rollup-slot-ahead-of-base"),
                                msg: format!(
                                    "a request made in rollup slot {} came back while the base layer is at slot {slot}: it can be neither fulfilled nor purged until the base layer gets there",
                                    i.slot
                                ),
                            },
                        ));
                    }
                }
                self.er.chain.remove(qk);
                if let Some(f) = &mut self.er.chain.writable_filter {
                    f.remove(qk);
                }
            }
            _ => {}
        }
    }

    fn to_rollup(&mut self, qk: &Pubkey) {
        let Some(q) = self.base.model.queues.get(qk).cloned() else {
            return;
        };
        if !q.delegated || self.er.model.queues.contains_key(qk) {
            return;
        }
        let Some(mut a) = self.base.chain.get(qk) else {
            return;
        };
        a.set_owner(VRF);
        self.er.chain.set(*qk, a);
        if let Some(f) = &mut self.er.chain.writable_filter {
            f.insert(*qk);
        }
        let mut q = q;
        q.delegated = false;
        let ids = self.base.model.ids.get(qk).cloned().unwrap_or_default();
        self.er.model.ids.insert(*qk, ids);
        let od = oracle_data_key(&q.owner);
        if let (Some(acc), Some(rec)) = (self.base.chain.get(&od), self.base.model.recs.get(&q.owner)) {
            self.er.chain.set(od, acc);
            self.er.model.recs.insert(q.owner, rec.clone());
        }
        self.er.model.queues.insert(*qk, q);
    }

    /// the chain goes on from an earlier state
    fn switch(&mut self, s: Saved, n: usize) {
        self.entropy = self.entropy.wrapping_mul(31).wrapping_add(n as u64 + 1);
        self.base.chain.restore(&s.base, self.entropy);
        self.er.chain.restore(&s.er, self.entropy ^ 1);
        self.base.model = s.bm;
        self.er.model = s.em;
        self.sched = s.sched;
        self.er.chain.writable_filter = s.filter;
    }

    fn save(&mut self) {
        if self.saves.len() >= 24 {
            self.saves.remove(0);
        }
        let s = self.state();
        self.saves.push(s);
    }

    fn state(&self) -> Saved {
        Saved {
            base: self.base.chain.snapshot(),
            er: self.er.chain.snapshot(),
            bm: self.base.model.clone(),
            em: self.er.model.clone(),
            sched: self.sched.clone(),
            filter: self.er.chain.writable_filter.clone(),
        }
    }

    fn state_hash(&self) -> u64 {
        let mut d = 7u64;
        for l in [&self.base, &self.er] {
            mix(&mut d, l.model.recs.len() as u64);
            for q in l.model.queues.values() {
                mix(&mut d, who(&q.owner).unwrap_or(99) as u64 * 300 + q.idx as u64);
                mix(&mut d, q.delegated as u64 + 2 * (q.size as u64 / 512));
                for i in &q.items {
                    let age = l.chain.slot.saturating_sub(i.slot);
                    let a = match age {
                        0 => 0,
                        1 => 1,
                        2..=239 => 2,
                        240 => 3,
                        _ => 4,
                    };
                    mix(
                        &mut d,
                        a | (i.high as u64) << 4 | ((i.disc.len() + 33 * i.metas.len() + i.args.len()) as u64) << 8,
                    );
                }
            }
        }
        d
    }

    pub fn run(&mut self, steps: &[Step], stop: &dyn Fn(&Violation) -> bool) {
        for st in steps {
            if self.alone {
                break;
            }
            if let Op::Upgrade { er } = &st.op {
                let l = if *er { &mut self.er } else { &mut self.base };
                l.chain.old = true;
            }
            self.mixed |= st.old || matches!(st.op, Op::Upgrade { .. });
        }
        for (n, st) in steps.iter().enumerate() {
            self.now = n;
            self.client = Client(!self.alone && (st.old || self.layer(st.er).chain.old));
            self.step(st, n);
            while let Some(i) = self.pending.iter().position(|(at, _)| *at <= n) {
                let (_, b) = self.pending.remove(i);
                self.deliver(b);
            }
            if self.mixed {
                self.readers(n);
            }
            let h = self.state_hash();
            if self.stats.states.len() < 200_000 {
                self.stats.states.insert(h);
            }
            mix(&mut self.digest, h);
            if self.viol.iter().any(|(_, v)| stop(v)) {
                return;
            }
        }
        let rest: Vec<Built> = self.pending.drain(..).map(|x| x.1).collect();
        for b in rest {
            self.deliver(b);
        }
        self.delivered_rules(steps.len());
    }

    /// readers built with the published library see what the tree's see
    fn readers(&mut self, n: usize) {
        let mut bad = vec![];
        let mut done = 0;
        for l in [&self.base, &self.er] {
            for qk in l.model.queues.keys() {
                let Some(a) = l.chain.get(qk) else { continue };
                if Some(&(a.lamports(), hash(a.data()))) == self.read.get(&(l.model.er, *qk)) {
                    continue;
                }
                self.read.insert((l.model.er, *qk), (a.lamports(), hash(a.data())));
                done += 1;
                let new = view(a.data()).map(|v| (v.header_len, v.index, v.items));
                let old = client::old_view(a.data());
                match (new, old) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), Err(_)) => {}
                    (Ok(a), Ok(b)) => bad.push(format!(
                        "queue {qk}: {} requests (index {}) to the published reader, {} (index {}) to the new one, or their contents differ",
                        b.2.len(), b.1, a.2.len(), a.1
                    )),
                    (Ok(_), Err(e)) => bad.push(format!("queue {qk}: the published reader fails: {e}")),
                    (Err(e), Ok(_)) => bad.push(format!("queue {qk}: readable by the published reader only: {e}")),
                }
            }
            let reg = l.chain.data(&oracles_key());
            if !reg.is_empty() && !l.model.er {
                done += 1;
                let new = api::Oracles::try_from_bytes_with_discriminator(&reg).ok().map(|o| o.oracles.clone());
                if new != client::old_registry(&reg) {
                    bad.push("the registry reads differently with the published library".into());
                }
            }
            for id in l.model.recs.keys() {
                let d = l.chain.data(&oracle_data_key(id));
                let new = api::Oracle::try_from_acc(&d).map(|o| (o.vrf_pubkey.0, o.registration_slot, o.open_queue as u64));
                if new != client::old_record(&d) {
                    bad.push(format!("the record of oracle {id} reads differently with the published library"));
                }
            }
        }
        *self.stats.rules.entry("C23").or_default() += done;
        for m in bad {
            self.report(n, "C23", m);
        }
    }

    fn step(&mut self, st: &Step, n: usize) {
        let name = match &st.op {
            Op::Slots { .. } => "slots",
            Op::AdminInit { .. } => "initialize",
            Op::Modify { .. } => "modify oracle",
            Op::Authority { .. } => "set upgrade authority",
            Op::Init { .. } => "init queue",
            Op::Close { .. } => "close queue",
            Op::Request(_) => "request",
            Op::Provide { .. } => "fulfil",
            Op::Purge { .. } => "purge",
            Op::Delegate { .. } => "delegate",
            Op::Undelegate { .. } => "undelegate",
            Op::Commit { .. } => "commit and hand back",
            Op::Attack { .. } => "attack",
            Op::Bundle(_) => "bundle",
            Op::Setup { .. } => "setup",
            Op::Fork { .. } => "fork",
            Op::Upgrade { .. } => "upgrade",
            Op::Donate { .. } => "donate",
            Op::Rnd { .. } => "sdk helper",
            Op::Draw { .. } => "series of draws",
            Op::Cli { .. } => "command line",
        };
        *self.stats.ops.entry(name).or_default() += 1;
        match &st.op {
            Op::Slots { n: k, dt, er } => {
                self.save();
                self.entropy = self.entropy.wrapping_add(0x1234_5678_9ABC);
                let e = self.entropy;
                self.stats.slots += *k as u64;
                let secs = (*k as i64 * 2 / 5).max(0);
                self.stats.seconds += secs as u64;
                if *dt < 0 || *dt > 600 {
                    self.fault("clock jump");
                }
                self.base.chain.advance(*k as u64, secs + *dt as i64, e);
                self.er.chain.advance(*k as u64 * (*er).max(1) as u64, secs + *dt as i64, e ^ 1);
            }
            Op::Fork { back } => {
                let k = (*back as usize).min(self.saves.len());
                if k == 0 {
                    return;
                }
                let at = self.saves.len() - k;
                self.saves.truncate(at + 1);
                let s = self.saves.pop().unwrap();
                self.switch(s, n);
                self.fault("chain fork");
            }
            Op::Upgrade { er } => {
                let l = if *er { &mut self.er } else { &mut self.base };
                l.chain.old = false;
                self.fault("program upgraded");
            }
            Op::Authority { to } => {
                let a = to.map(key);
                self.base.model.authority = a;
                self.base.chain.set(program_data_key(), program_data(a));
            }
            Op::Setup { queues } => self.setup(queues, n),
            Op::Cli { .. } => self.cli(st, n),
            Op::Draw { seed, lo, hi, n: k } => {
                *self.stats.rules.entry("C25").or_default() += 7;
                for m in draw_rules(*seed, (*lo).min(*hi), *hi, *k) {
                    self.report(n, "C25", m);
                }
            }
            Op::Rnd { v, lo, hi } => {
                let out = rnd_rules(v, *lo, *hi);
                *self.stats.rules.entry("C12").or_default() += 8;
                for m in out {
                    self.report(n, "C12", m);
                }
            }
            _ => {
                let Some(b) = self.build(st, n) else { return };
                if st.lost {
                    self.fault("transaction lost");
                    return;
                }
                if st.late > 0 {
                    self.fault("transaction delayed");
                    self.pending.push((n + st.late as usize, b.clone()));
                } else {
                    self.deliver(b.clone());
                }
                if st.dup {
                    self.fault("transaction duplicated");
                    self.pending.push((n + st.late as usize / 2 + 1, b));
                }
            }
        }
    }

    fn setup(&mut self, queues: &[(Q, u32)], n: usize) {
        let mut go = |w: &mut World, op: Op| {
            if let Some(b) = w.build(&step(op), n) {
                w.deliver(b);
            }
        };
        go(self, Op::AdminInit { by: ADMIN });
        for o in [O0, O1, M, EPH] {
            go(self, Op::Modify { by: ADMIN, id: o, add: true, key: 0 });
        }
        self.entropy += 1;
        let e = self.entropy;
        self.base.chain.advance(200, 80, e);
        self.er.chain.advance(200, 80, e);
        for (q, s) in queues {
            go(self, Op::Init { payer: U0, q: *q, size: *s, steps: 1 });
        }
    }
}

fn transcript(drop: u8, out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], pk: &[u8; 32], id: &Id) -> Scalar {
    let parts: [&[u8]; 6] = [api::VRF_PREFIX_CHALLENGE, out, cb, ch, pk, id];
    let mut v = vec![];
    for (i, p) in parts.iter().enumerate() {
        if drop >> i & 1 == 0 {
            v.extend_from_slice(p);
        }
    }
    let mut w = api::VRF_PREFIX_HASH_TO_SCALAR.to_vec();
    w.extend_from_slice(&hash(&v).to_bytes());
    Scalar::from_bytes_mod_order(hash(&w).to_bytes())
}

pub fn hash_exponent(id: &Id) -> Scalar {
    let mut v = api::VRF_PREFIX_HASH_TO_POINT.to_vec();
    v.extend_from_slice(id);
    Scalar::from_bytes_mod_order(hash(&v).to_bytes())
}

/// A dishonest key holder's attempt at a second output, against weakened verifiers.
fn forge(sk: Scalar, pk: [u8; 32], id: &Id, drop: u8, kind: u8) -> [[u8; 32]; 4] {
    let h = hash_exponent(id) * G;
    let sc = |t: &[u8]| Scalar::from_bytes_mod_order(hashv(&[b"forge", t, id]).to_bytes());
    let (k, k2, x) = (sc(b"k"), sc(b"k2"), sc(b"x"));
    let z = [0u8; 32];
    let c = |p: RistrettoPoint| p.compress().to_bytes();
    match kind {
        0 => {
            let (cb, ch) = (c(k * G), c(k2 * h));
            let e = transcript(drop | 2, &z, &cb, &ch, &pk, id);
            let s = k + e * sk;
            let out = e.invert() * (s * h - k2 * h);
            [c(out), cb, ch, s.to_bytes()]
        }
        1 => {
            let out = x * h;
            let cb = c(k * G);
            let e = transcript(drop | 8, &c(out), &cb, &z, &pk, id);
            let s = k + e * sk;
            [c(out), cb, c(s * h - e * out), s.to_bytes()]
        }
        2 => {
            let out = x * h;
            let ch = c(k * h);
            let e = transcript(drop | 4, &c(out), &z, &ch, &pk, id);
            let s = k + e * x;
            [c(out), c(s * G - e * (sk * G)), ch, s.to_bytes()]
        }
        3 => {
            let out = x * h;
            let (cb, ch) = (c(k * G), c(k * h));
            let e = transcript(drop & 0, &c(out), &cb, &ch, &pk, id);
            [c(out), cb, ch, (k + e * x).to_bytes()]
        }
        4 => {
            let out = x * h;
            let (cb, ch) = (c(k * G), c(k2 * h));
            let e = transcript(0, &c(out), &cb, &ch, &pk, id);
            [c(out), cb, ch, (k + e * sk).to_bytes()]
        }
        // the two relations checked together, as one weighted sum
        9..=12 => {
            let out = x * G;
            let (cb, ch) = (c(k * G), c(k2 * G));
            let e = transcript(0, &c(out), &cb, &ch, &pk, id);
            let one = Scalar::ONE;
            let (a, b) = [(one, one), (one, -one), (one, e), (e, one)][kind as usize - 9];
            let s = (a * (k + e * sk) + b * (k2 + e * x)) * (a + b * hash_exponent(id)).invert();
            [c(out), cb, ch, s.to_bytes()]
        }
        // one of the points is no point
        6..=8 => {
            let mut junk = hashv(&[b"junk", id]).to_bytes();
            junk[31] |= 0x80;
            let mut p = [c(x * h), c(k * G), c(k * h)];
            p[kind as usize - 6] = junk;
            let e = transcript(drop & 0, &p[0], &p[1], &p[2], &pk, id);
            let y = if kind == 8 && drop % 2 == 0 || kind == 6 { sk } else { x };
            [p[0], p[1], p[2], (k + e * y).to_bytes()]
        }
        _ => [c(x * h), c(k * G), c(k * h), k.to_bytes()],
    }
}

type Proof = (Id, [u8; 32], [u8; 32], [u8; 32], [u8; 32]);

/// Nonces that can be derived without the secret, the ways a prover might derive them.
fn public_nonces(p: &Proof, pk: &[u8; 32]) -> Vec<Scalar> {
    use hkdf::Hkdf;
    use sha2::{Digest, Sha256, Sha512};
    let (id, out) = (&p.0[..], &p.1[..]);
    let h = (hash_exponent(&p.0) * G).compress().to_bytes();
    let (pk, h) = (&pk[..], &h[..]);
    let tag = &b"VRF-Ephem-Nonce"[..];
    let mut all = vec![];
    for ikm in [vec![id], vec![pk], vec![out], vec![h], vec![pk, id], vec![id, pk], vec![out, id], vec![pk, out], vec![h, id], vec![pk, h], vec![pk, out, id]] {
        let ikm = ikm.concat();
        for salt in [Some(tag), None] {
            let mut okm = [0u8; 64];
            Hkdf::<Sha512>::new(salt, &ikm).expand(b"VRF-Nonce", &mut okm).unwrap();
            all.push(Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap()));
        }
        for pre in [&tag[..], &[]] {
            let m = [pre, &ikm].concat();
            all.push(Scalar::from_bytes_mod_order(Sha256::digest(&m).into()));
            all.push(Scalar::from_bytes_mod_order_wide(&Sha512::digest(&m).into()));
        }
    }
    all
}

/// What an observer of public data can do. `p`: id, output, commitments, scalar.
fn adversary(
    p: &Proof,
    pk: &[u8; 32],
    seen: &[(Id, [u8; 32], [u8; 32], [u8; 32], [u8; 32], [u8; 32])],
    out: &mut Vec<Violation>,
) {
    let mut bad = |known: Option<&'static str>, msg: String| out.push(Violation { prop: "C20", msg, known });
    let Some(pkp) = CompressedRistretto(*pk).decompress() else {
        return;
    };
    let h = hash_exponent(&p.0);
    if (h * pkp).compress().to_bytes() == p.1 {
        bad(
            Some("hash-to-point-known-log"),
            "the output equals H(request)·pk, which anyone can compute from the oracle's public key as soon as the request is made".into(),
        );
    }
    // guesses that do not use the oracle's secret
    let guesses: [(&str, [u8; 32]); 5] = [
        ("the identity point", RistrettoPoint::identity().compress().to_bytes()),
        ("the hashed request", (h * G).compress().to_bytes()),
        ("the public key", *pk),
        ("the base point", G.compress().to_bytes()),
        ("the request id", p.0),
    ];
    for (what, g) in guesses {
        if g == p.1 {
            bad(None, format!("the output is {what}"));
        }
    }
    for s in seen {
        if s.0 != p.0 && s.1 == p.1 {
            bad(None, "the output repeats the output of an earlier request".into());
        }
        if s.0 != p.0 && s.2 == p.2 && s.5 == *pk {
            bad(None, "two proofs of one oracle share a nonce: its secret key follows from them".into());
        }
    }
    // the prover is public: does the nonce depend on the secret at all?
    for mine in [cast()[M as usize].sk, Scalar::ONE] {
        let (_, (cb, _, _)) = ephemeral_vrf::vrf::compute_vrf(mine, &p.0);
        if cb.to_bytes() == p.2 {
            bad(None, "the proof's nonce does not depend on the secret key: the key follows from one proof".into());
        }
    }
    if public_nonces(p, pk).into_iter().any(|k| (k * G).compress().to_bytes() == p.2) {
        bad(None, "the proof's nonce is computed from public data alone: the key follows from one proof".into());
    }
    if p.2 == [0; 32] {
        bad(None, "the proof's nonce is zero: the key follows from one proof".into());
    }
}

/// C23: the key registered for an identity is the one a service of either version proves with.
pub fn same_keys() -> Vec<String> {
    let mut bad = vec![];
    for i in 0..64u8 {
        let seed = solana_sdk::hash::hash(&[b'k', i]).to_bytes();
        let kp = solana_sdk::signature::Keypair::new_from_array(seed);
        let (a, b) = (ephemeral_vrf::vrf::generate_vrf_keypair(&kp), pinned_vrf::vrf::generate_vrf_keypair(&kp));
        if a.1.compress().to_bytes() != b.1.compress().to_bytes() {
            bad.push("an identity's VRF key is not the one the published version derives: what is registered for it is no longer its key".into());
            break;
        }
    }
    bad
}

/// Static part of the adversary: is a VRF key derivable from the public identity?
pub fn key_rules() -> Vec<String> {
    use hkdf::Hkdf;
    use sha2::{Digest, Sha256, Sha512};
    let mut bad = vec![];
    let mut sks = HashSet::new();
    for (w, a) in cast().iter().enumerate() {
        if !sks.insert(a.sk.to_bytes()) {
            bad.push(format!("two identities ({w}) derive the same VRF secret"));
        }
        let pkb = a.key.to_bytes();
        let mut cands: Vec<Scalar> = vec![Scalar::ZERO, Scalar::ONE, Scalar::from_bytes_mod_order(pkb)];
        let h: [u8; 32] = Sha256::digest(pkb).into();
        cands.push(Scalar::from_bytes_mod_order(h));
        for ikm in [pkb.to_vec(), vec![], [pkb, pkb].concat(), vec![0; 32], vec![0; 64], [[0; 32], pkb].concat()] {
            for salt in [Some(&b"VRF-Solana-SecretKey"[..]), None] {
                let hk = Hkdf::<Sha512>::new(salt, &ikm);
                let mut okm = [0u8; 64];
                hk.expand(b"VRF-Key", &mut okm).unwrap();
                cands.push(Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap()));
            }
        }
        if cands.contains(&a.sk) {
            bad.push("an oracle's VRF secret is derivable from its public identity".into());
        }
    }
    // the secrets and the nonces take any value: every bit of them varies
    let (mut sk01, mut k01) = ([[0u8; 32]; 2], [[0u8; 32]; 2]);
    let varies = |acc: &mut [[u8; 32]; 2], b: [u8; 32]| {
        for (j, b) in b.into_iter().enumerate() {
            acc[0][j] |= !b;
            acc[1][j] |= b;
        }
    };
    for i in 0..160u32 {
        let seed = Sha256::digest([&b"entropy"[..], &i.to_le_bytes()].concat()).into();
        let kp = solana_sdk::signature::Keypair::new_from_array(seed);
        let (sk, _) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
        varies(&mut sk01, sk.to_bytes());
        let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(sk, &seed);
        let (cb, ch) = (cb.to_bytes(), ch.to_bytes());
        let c = transcript(0, &out.to_bytes(), &cb, &ch, &(sk * G).compress().to_bytes(), &seed);
        let k = s - c * sk;
        // (a proof of another form says nothing here)
        if (k * G).compress().to_bytes() == cb {
            varies(&mut k01, k.to_bytes());
        }
    }
    let bits = |acc: &[[u8; 32]; 2]| (0..32).map(|j| (acc[0][j] & acc[1][j]).count_ones()).sum::<u32>();
    // (the group's order has 252 bits and a little, the highest is almost never set)
    if bits(&sk01) < 251 {
        bad.push(format!("the VRF secrets vary in {} bits only", bits(&sk01)));
    }
    if k01[0] != [0; 32] && bits(&k01) < 251 {
        bad.push(format!("the proofs' nonces vary in {} bits only", bits(&k01)));
    }
    // every byte of the identity's secret must matter
    let base = [0x33u8; 32];
    let mut all = HashSet::new();
    for i in 0..=32usize {
        let mut s = base;
        if i < 32 {
            s[i] ^= 0x41;
        }
        let kp = solana_sdk::signature::Keypair::new_from_array(s);
        let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
        if sk * G != pk {
            bad.push("generate_vrf_keypair returns a mismatched key pair".into());
        }
        if !all.insert(sk.to_bytes()) {
            bad.push(format!("byte {i} of the identity's secret does not affect the VRF secret"));
        }
    }
    bad
}

/// The SDK's helpers on one delivered value.
pub fn rnd_rules(v: &[u8], lo: u8, hi: u8) -> Vec<String> {
    let mut b = [0u8; 32];
    for (i, x) in v.iter().take(32).enumerate() {
        b[i] = *x;
    }
    let mut bad = vec![];
    let quiet = chain::native::QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(|| sdk::rnd::random_u8_with_range(&b, lo, hi));
    match r {
        Ok(x) if x >= lo && x <= hi => {}
        Ok(x) => bad.push(format!("random_u8_with_range({lo}, {hi}) gave {x} for {b:02x?}")),
        Err(_) => bad.push(format!("random_u8_with_range({lo}, {hi}) panicked for {b:02x?}")),
    }
    // every range
    let at = std::cell::Cell::new((0u8, 0u8));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for lo in 0..=255u8 {
            for hi in lo..=255 {
                at.set((lo, hi));
                let x = sdk::rnd::random_u8_with_range(&b, lo, hi);
                if x < lo || x > hi {
                    return Some(x);
                }
            }
        }
        None
    }));
    let (lo, hi) = at.get();
    match r {
        Ok(None) => {}
        Ok(Some(x)) => bad.push(format!("random_u8_with_range({lo}, {hi}) gave {x} for {b:02x?}")),
        Err(_) => bad.push(format!("random_u8_with_range({lo}, {hi}) panicked for {b:02x?}")),
    }
    let r = std::panic::catch_unwind(|| {
        (
            sdk::rnd::random_u8(&b),
            sdk::rnd::random_u32(&b),
            sdk::rnd::random_i32(&b),
            sdk::rnd::random_u64(&b),
            sdk::rnd::random_i64(&b),
            sdk::rnd::random_bool(&b),
        )
    });
    chain::native::QUIET.with(|q| q.set(quiet));
    match r {
        Ok(x) => {
            if x.1 as i32 != x.2 || x.3 as i64 != x.4 {
                bad.push("signed and unsigned helpers disagree".into());
            }
        }
        Err(_) => bad.push(format!("a randomness helper panicked for {b:02x?}")),
    }
    bad
}
