//! The operations a simulated history is made of, and the seeded generator of histories.
//! All references are relative ("the 3rd pending request"), so that any sub-list of a history
//! is itself a history: this is what the minimiser relies on.
use chain::keys::*;
use chain::programs::behave;
use chain::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Q {
    pub o: Who,
    pub i: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Target {
    Pending(u16),
    /// newest pending
    Last,
    Resolved(u16),
    Other(Q, u16),
    Random(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ProofMut {
    None,
    Flip { field: u8, bit: u16 },
    SwapCommit,
    Key(Who),
    /// valid proof by the same key for another input
    Input(u64),
    Point { field: u8, val: u8 },
    Scalar(u8),
    /// forge against a transcript with some parts missing
    Weak { drop: u8, kind: u8 },
    Replay(u16),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Args {
    Plain(u16),
    Behave { kind: u8, param: u32, pad: u16 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Req {
    pub payer: Who,
    /// 0 = consumer A, 1 = B, 2 = hostile H, 3 and 4 = written with Anchor
    pub cons: u8,
    pub q: Q,
    pub high: bool,
    pub seed: u8,
    pub disc: u8,
    pub metas: Vec<(u8, bool)>,
    pub args: Args,
    pub copies: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AccSel {
    Who(Who),
    Oracles,
    OracleData(Who),
    Queue(Who, u8),
    Identity(u8),
    VrfIdentity,
    Program(u8),
    SlotHashes,
    ProgramData,
    Record(Who, u8),
    UndelBuffer(Who, u8),
    /// attacker-made account: owner 0 = hostile program, 1 = delegation program (zeroed),
    /// 2 = system; content copied from another account
    Fake { owner: u8, image: Box<AccSel>, patch: u8 },
    Random(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Mut {
    SetAcc(u8, AccSel),
    /// replace an account by another of the same kind
    Kin(u8, u8),
    /// replace an account by an attacker-made copy of it (owner and patch as for `Fake`;
    /// patch 4: with the attacker's key in place of everybody else's)
    FakeAt(u8, u8, u8),
    Signer(u8, bool),
    Writable(u8, bool),
    Swap(u8, u8),
    Dup(u8, u8),
    Drop(u8),
    Append(AccSel),
    Flip(u16, u8),
    Trunc(u16),
    Extend(u8),
    Tag(u8),
    Byte(u16, u8),
    /// replace a key everywhere by the attacker's
    Impersonate(Who),
    /// data of another kind of instruction altogether
    Raw(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Cmd {
    Initialize,
    Add { id: Who, key: u8 },
    Remove { id: Who },
    Init { id: Who, i: u8, size: Option<u32> },
    Delegate(AccSel),
    Undelegate(AccSel),
    Close(AccSel),
    Derive,
    List,
    Help,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CliFault {
    None,
    /// the `at`th call fails, after it took effect or before
    RpcError { at: u8, effect: bool },
    /// the tool dies at the `at`th call
    Kill { at: u8, effect: bool },
    /// the node accepts the transaction, which is never executed
    Lost,
    /// the transaction is executed at this poll of its status
    Late(u8),
    /// the transaction is executed in a block that a fork drops at this poll of its status
    Dropped(u8),
    /// the node answers reads with the state of this many blocks ago
    Stale(u8),
    /// delayed transactions of others land just before the call
    Race(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// `er`: how much faster the rollup's slots advance
    Slots { n: u32, dt: i32, er: u8 },
    AdminInit { by: Who },
    Modify { by: Who, id: Who, add: bool, key: u8 },
    Authority { to: Option<Who> },
    Init { payer: Who, q: Q, size: u32, steps: u8 },
    Close { q: Q },
    Request(Req),
    Provide { q: Q, t: Target, m: ProofMut },
    Purge { q: Q, by: Who },
    Delegate { q: Q },
    Undelegate { q: Q },
    Commit { q: Q },
    Attack { base: Box<Op>, muts: Vec<Mut>, via: bool },
    Bundle(Vec<Op>),
    /// registry, oracles and queues ready for use, through the program's own instructions
    Setup { queues: Vec<(Q, u32)> },
    /// the chain switches to a fork that starts `back` blocks ago
    Fork { back: u16 },
    Donate { to: AccSel, amount: u64 },
    /// a run of the command line tool; `tick`: slots that pass between its calls
    Cli {
        by: Who,
        cmd: Cmd,
        fault: CliFault,
        #[serde(default)]
        tick: u8,
        /// where the key (`% 3`) and the node (`/ 3`) are given: as an argument, in the environment,
        /// or as an argument while the environment has another one; `/ 9 - 1`: how the key is malformed
        #[serde(default)]
        env: u8,
    },
    /// the VRF program of the layer, so far the published one, is replaced by the tree's
    Upgrade { er: bool },
    /// `n` draws with the SDK's helpers
    Draw { seed: u64, lo: u8, hi: u8, n: u32 },
    /// the SDK's helpers on a value
    Rnd { v: Vec<u8>, lo: u8, hi: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub op: Op,
    /// on the rollup rather than the base layer
    #[serde(default)]
    pub er: bool,
    /// delivered this many steps later
    #[serde(default)]
    pub late: u8,
    #[serde(default)]
    pub dup: bool,
    #[serde(default)]
    pub lost: bool,
    /// the virtual machine stops at this system call
    #[serde(default)]
    pub halt: Option<u16>,
    /// built with the published libraries
    #[serde(default)]
    pub old: bool,
}

pub fn step(op: Op) -> Step {
    Step {
        op,
        er: false,
        late: 0,
        dup: false,
        lost: false,
        halt: None,
        old: false,
    }
}

/// What the generator leans towards; one profile per property.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub steps: (u64, u64),
    pub w: [u32; 18],
    pub faults: bool,
    pub small_queues: bool,
    pub er: bool,
    pub setup: bool,
}
// weights: 0 slots 1 admininit 2 modify 3 authority 4 init 5 close 6 request 7 provide 8 purge
// 9 delegate 10 undelegate 11 commit 12 attack 13 bundle 14 fork 15 donate 16 rnd 17 cli
pub fn profile(prop: &str) -> Profile {
    let base = Profile {
        name: "mixed",
        steps: (30, 140),
        w: [30, 1, 4, 1, 5, 4, 45, 40, 8, 3, 3, 3, 20, 6, 2, 2, 2, 0],
        faults: true,
        small_queues: false,
        er: false,
        setup: true,
    };
    match prop {
        "C01" => Profile { name: "C01", w: [30, 0, 0, 0, 0, 1, 45, 55, 6, 1, 1, 1, 10, 8, 2, 0, 0, 0], ..base },
        "C02" => Profile { name: "C02", w: [25, 0, 3, 0, 0, 0, 30, 80, 2, 0, 0, 0, 10, 2, 1, 0, 0, 0], ..base },
        "C03" => Profile { name: "C03", w: [25, 0, 0, 0, 1, 1, 70, 50, 6, 1, 1, 1, 3, 10, 1, 1, 0, 0], small_queues: true, ..base },
        "C04" => Profile { name: "C04", w: [30, 0, 0, 0, 2, 3, 50, 40, 12, 3, 3, 3, 5, 6, 2, 6, 0, 0], ..base },
        "C05" => Profile { name: "C05", w: [14, 0, 0, 0, 1, 1, 60, 45, 3, 1, 1, 1, 2, 12, 3, 0, 0, 0], ..base },
        "C06" => Profile { name: "C06", w: [25, 0, 0, 0, 0, 0, 45, 50, 2, 0, 0, 0, 4, 20, 3, 0, 0, 0], ..base },
        "C07" => Profile { name: "C07", w: [40, 0, 0, 0, 3, 1, 60, 25, 35, 2, 2, 2, 10, 4, 1, 0, 0, 0], ..base },
        "C08" => Profile { name: "C08", w: [20, 3, 25, 3, 10, 6, 15, 12, 5, 2, 2, 2, 50, 3, 1, 4, 0, 0], setup: false, ..base },
        "C09" => Profile { name: "C09", w: [15, 0, 2, 0, 5, 3, 30, 15, 3, 3, 2, 2, 60, 3, 1, 0, 0, 0], ..base },
        "C10" => Profile { name: "C10", w: [25, 1, 15, 1, 40, 25, 25, 20, 10, 4, 3, 3, 20, 4, 1, 3, 0, 0], setup: false, ..base },
        "C11" => Profile { name: "C11", w: [20, 0, 1, 0, 3, 2, 45, 35, 6, 16, 14, 14, 25, 2, 1, 0, 0, 0], er: true, ..base },
        "C12" => Profile { name: "C12", w: [25, 0, 0, 0, 0, 0, 55, 45, 3, 0, 0, 0, 0, 2, 1, 0, 25, 0], ..base },
        "C25" => Profile { name: "C25", steps: (30, 80), w: [20, 0, 0, 0, 0, 0, 50, 60, 2, 1, 1, 1, 0, 6, 1, 0, 2, 0], er: true, ..base },
        "C19" => Profile { name: "C19", w: [25, 0, 0, 0, 0, 0, 55, 60, 2, 0, 0, 0, 20, 6, 1, 0, 0, 0], ..base },
        "C21" => Profile { name: "C21", steps: (20, 70), w: [25, 1, 6, 1, 8, 3, 12, 8, 3, 4, 4, 8, 3, 0, 1, 2, 0, 60], setup: true, er: true, ..base },
        "C22" => Profile { name: "C22", steps: (20, 70), w: [20, 0, 1, 0, 12, 5, 20, 8, 2, 8, 4, 6, 0, 0, 1, 1, 0, 50], setup: true, er: true, ..base },
        "C23" => Profile { name: "C23", w: [35, 1, 6, 1, 8, 6, 50, 40, 12, 5, 4, 6, 4, 6, 2, 2, 0, 0], er: true, ..base },
        "C26" => Profile { name: "C26", w: [30, 0, 0, 0, 1, 1, 50, 30, 3, 1, 1, 1, 40, 6, 2, 0, 0, 0], er: true, ..base },
        "C27" => Profile { name: "C27", w: [30, 0, 0, 0, 1, 1, 40, 40, 20, 1, 1, 1, 0, 3, 1, 0, 0, 0], ..base },
        "C20" => Profile { name: "C20", w: [25, 0, 3, 0, 0, 0, 50, 55, 2, 0, 0, 0, 2, 3, 1, 0, 0, 0], ..base },
        _ => base,
    }
}

const EXTRA: [Who; 3] = [C0, C1, C2];

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub prop: String,
    cli: bool,
    queues: Vec<Q>,
    er_rate: u8,
}

impl Gen {
    pub fn new(seed: u64, prop: &str) -> Self {
        Gen {
            r: Rng::new(seed),
            p: profile(prop),
            prop: prop.into(),
            cli: prop == "C21" || prop == "C22",
            queues: vec![],
            er_rate: 1,
        }
    }

    fn who_user(&mut self) -> Who {
        *self.r.pick(&[U0, U1, U2, U0, X])
    }
    fn q(&mut self) -> Q {
        if self.queues.is_empty() || self.r.chance(1, 40) {
            return Q {
                o: *self.r.pick(&[O0, O1, M, EPH, C0]),
                i: self.r.below(3) as u8,
            };
        }
        *self.r.pick(&self.queues)
    }
    fn size(&mut self) -> u32 {
        if self.p.small_queues {
            return match self.r.below(6) {
                0 => self.r.range(28, 160) as u32,
                1..=3 => self.r.range(200, 900) as u32,
                4 => self.r.range(900, 3000) as u32,
                _ => self.r.range(9000, 12000) as u32,
            };
        }
        match self.r.below(12) {
            0 => self.r.range(0, 40) as u32,
            1 => 10_240,
            2 => self.r.range(10_230, 10_250) as u32,
            3 => self.r.range(20_000, 31_000) as u32,
            4 => self.r.range(100, 900) as u32,
            _ => self.r.range(2000, 9900) as u32,
        }
    }
    fn metas(&mut self) -> Vec<(u8, bool)> {
        let n = match self.r.below(20) {
            0 => self.r.range(15, 20),
            1 => self.r.range(21, 24),
            2 => 20,
            _ => self.r.below(5),
        };
        // the oracle at the end of a long list
        let end = if n > 5 && self.r.chance(1, 4) { n - 1 } else { n };
        (0..n)
            .map(|i| {
                let sel = match self.r.below(60) {
                    _ if i == end => 250,
                    0 => 250,     // the oracle itself
                    1..=2 => 249, // the queue
                    3 => 248,     // the VRF identity
                    4 => 247,     // consumer A, read only
                    5 => 246,     // the registry
                    6 => 245,     // record of the oracle
                    _ => self.r.below(40) as u8,
                };
                (sel, self.r.chance(1, 2))
            })
            .collect()
    }
    fn args(&mut self, cons: u8) -> Args {
        if cons == 2 && self.r.chance(1, 2) {
            let kind = *self.r.pick(&[behave::FORWARD, behave::FORWARD, behave::REENTER, behave::FAIL, behave::PANIC]);
            return Args::Behave {
                kind,
                param: 0,
                pad: self.r.below(20) as u16,
            };
        }
        match self.r.below(16) {
            0 => Args::Behave { kind: behave::FAIL, param: 0, pad: self.r.below(30) as u16 },
            1 => Args::Behave { kind: behave::PANIC, param: 0, pad: self.r.below(30) as u16 },
            2..=3 => Args::Behave {
                kind: behave::FLAKY,
                param: self.r.range(1, 60) as u32,
                pad: self.r.below(30) as u16,
            },
            4 => Args::Plain(self.r.range(500, 512) as u16),
            9 => Args::Plain(self.r.range(200, 400) as u16),
            5 => Args::Plain(self.r.range(513, 520) as u16),
            6..=8 => Args::Plain(0),
            _ => Args::Plain(self.r.below(120) as u16),
        }
    }
    fn request(&mut self) -> Req {
        let cons = match self.prop.as_str() {
            "C19" => *self.r.pick(&[0, 1, 2, 2, 2, 3, 4]),
            "C12" => *self.r.pick(&[0, 1, 2, 3, 3, 4, 4]),
            // (the Anchor consumers use the tree's SDK)
            "C23" => *self.r.pick(&[0, 0, 1, 2]),
            _ if self.r.chance(1, 12) => 3 + self.r.below(2) as u8,
            _ => *self.r.pick(&[0, 0, 1, 2]),
        };
        let same = self.prop == "C05";
        let args = match self.args(cons) {
            _ if same && self.r.chance(4, 5) => Args::Plain(0),
            Args::Behave { pad, .. } if cons > 2 => Args::Plain(pad * 4),
            a => a,
        };
        let mut metas = if same && self.r.chance(4, 5) { vec![] } else { self.metas() };
        if let Args::Behave { kind: behave::FORWARD, .. } = args {
            metas.insert(0, (247, false));
        }
        if let Args::Behave { kind: behave::REENTER, .. } = args {
            metas = vec![(244, false), (249, true)];
        }
        let q = self.q();
        Req {
            payer: self.who_user(),
            cons: if same { self.r.below(2) as u8 } else { cons },
            q,
            high: self.r.chance(1, 2),
            seed: if same { self.r.below(2) as u8 } else { self.r.below(256) as u8 },
            disc: match self.r.below(14) {
                0 => self.r.range(9, 12) as u8,
                1..=8 => 8,
                _ => self.r.below(9) as u8,
            },
            metas,
            args,
            copies: if self.r.chance(1, 6) { self.r.range(2, 4) as u8 } else { 1 },
        }
    }
    fn target(&mut self) -> Target {
        match self.r.below(24) {
            0 => Target::Resolved(self.r.below(64) as u16),
            1 => {
                let q = self.q();
                Target::Other(q, self.r.below(8) as u16)
            }
            2 => Target::Random(self.r.u64()),
            3..=8 => Target::Last,
            _ => Target::Pending(self.r.below(64) as u16),
        }
    }
    fn proof(&mut self) -> ProofMut {
        let honest = if self.prop == "C02" { 2 } else { 14 };
        if self.r.below(honest + 1) != 0 && self.prop != "C02" || self.prop == "C02" && self.r.below(5) < 2 {
            return ProofMut::None;
        }
        match self.r.below(11) {
            0..=1 => ProofMut::Flip { field: self.r.below(4) as u8, bit: self.r.below(256) as u16 },
            2 => ProofMut::SwapCommit,
            3 => ProofMut::Key(self.r.below(N as u64) as u8),
            4 => ProofMut::Input(self.r.u64()),
            5..=6 => ProofMut::Point { field: self.r.below(3) as u8, val: self.r.below(8) as u8 },
            7 => ProofMut::Scalar(self.r.below(6) as u8),
            8 => ProofMut::Replay(self.r.below(32) as u16),
            _ => ProofMut::Weak { drop: self.r.below(64) as u8, kind: self.r.below(13) as u8 },
        }
    }
    fn accsel(&mut self, depth: u8) -> AccSel {
        let w = |r: &mut Rng| *r.pick(&[O0, O1, M, X, EPH, C0, U0, ADMIN]);
        match self.r.below(16) {
            0 => AccSel::Who(w(&mut self.r)),
            1 => AccSel::Oracles,
            2..=3 => AccSel::OracleData(w(&mut self.r)),
            4..=5 => AccSel::Queue(w(&mut self.r), self.r.below(3) as u8),
            6 => AccSel::Identity(self.r.below(3) as u8),
            7 => AccSel::VrfIdentity,
            8 => AccSel::Program(self.r.below(8) as u8),
            9 => AccSel::SlotHashes,
            10 => AccSel::ProgramData,
            11 => AccSel::Record(w(&mut self.r), self.r.below(2) as u8),
            12 => AccSel::UndelBuffer(w(&mut self.r), self.r.below(2) as u8),
            13 => AccSel::Random(self.r.u64() as u32),
            _ if depth == 0 => AccSel::Fake {
                owner: self.r.below(3) as u8,
                image: Box::new(self.accsel(1)),
                patch: self.r.below(4) as u8,
            },
            _ => AccSel::Oracles,
        }
    }
    fn muts(&mut self) -> Vec<Mut> {
        let n = *self.r.pick(&[1, 1, 1, 2, 2, 3]);
        (0..n)
            .map(|_| match self.r.below(20) {
                0..=1 => Mut::FakeAt(self.r.below(8) as u8, *self.r.pick(&[0, 0, 0, 0, 1, 2]), *self.r.pick(&[4, 4, 4, 0, 1, 2])),
                2..=4 => Mut::Kin(self.r.below(8) as u8, self.r.below(40) as u8),
                5..=6 => {
                    let s = self.accsel(0);
                    Mut::SetAcc(self.r.below(8) as u8, s)
                }
                7..=9 => Mut::Signer(self.r.below(6) as u8, self.r.chance(1, 3)),
                10 => Mut::Writable(self.r.below(6) as u8, self.r.chance(1, 2)),
                11 => Mut::Swap(self.r.below(6) as u8, self.r.below(6) as u8),
                12 => Mut::Dup(self.r.below(6) as u8, self.r.below(6) as u8),
                13 => Mut::Drop(self.r.below(6) as u8),
                14 => {
                    let s = self.accsel(0);
                    Mut::Append(s)
                }
                15 => Mut::Flip(self.r.below(80) as u16, self.r.below(8) as u8),
                16 => match self.r.below(3) {
                    0 => Mut::Trunc(self.r.below(60) as u16),
                    1 => Mut::Extend(self.r.below(40) as u8),
                    _ => Mut::Byte(self.r.range(8, 90) as u16, self.r.below(256) as u8),
                },
                17 => Mut::Tag(*self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 196])),
                _ => Mut::Impersonate(*self.r.pick(&[ADMIN, O0, O1, U0, EPH, C0])),
            })
            .collect()
    }

    fn attack(&mut self) -> Op {
        let kinds: &[u8] = match self.prop.as_str() {
            "C08" => &[0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 9],
            "C09" => &[3, 3, 3, 3, 3, 3, 4, 7],
            "C10" => &[2, 2, 3, 5, 5, 5, 8, 1],
            "C11" => &[6, 6, 7, 7, 7, 9, 9, 3, 5, 4, 8],
            "C02" => &[4],
            "C26" => &[3],
            "C07" => &[8],
            "C19" | "C01" => &[4, 4, 3, 8],
            _ => &[1, 2, 3, 4, 5, 6, 7, 8],
        };
        let base = match *self.r.pick(kinds) {
            0 => Op::AdminInit { by: X },
            1 => Op::Modify {
                by: *self.r.pick(&[ADMIN, X, M, O0]),
                id: *self.r.pick(&[X, M, O0, O1, C0, C1]),
                add: self.r.chance(1, 2),
                key: 0,
            },
            2 => Op::Init { payer: X, q: self.q(), size: self.size(), steps: 1 },
            3 => {
                let mut q = self.request();
                q.cons = *self.r.pick(&[0, 1, 2, 2, 2]);
                q.payer = *self.r.pick(&[X, X, U0]);
                // recent blocks of the requester's own
                if self.prop == "C26" && self.r.chance(2, 3) {
                    let muts = vec![match self.r.below(4) {
                        0 => Mut::SetAcc(4, self.accsel(0)),
                        k => Mut::FakeAt(4, k as u8 - 1, 0),
                    }];
                    return Op::Attack { base: Box::new(Op::Request(q)), muts, via: true };
                }
                Op::Request(q)
            }
            // somebody else's request, fulfilled with the attacker's own key and record
            4 if self.r.chance(1, 3) => {
                let q = self.q();
                let i = if self.r.chance(1, 2) { q.i } else { 0 };
                let t = Target::Other(q, self.r.below(8) as u16);
                let mut muts = vec![Mut::SetAcc(3, AccSel::Queue(q.o, q.i))];
                if self.r.chance(1, 3) {
                    muts.extend(self.muts());
                }
                let base = Box::new(Op::Provide { q: Q { o: M, i }, t, m: ProofMut::None });
                return Op::Attack { base, muts, via: self.r.chance(1, 2) };
            }
            // the attacker's own queue, fulfilled under another oracle's record and key
            4 if self.r.chance(1, 3) => {
                let w = *self.r.pick(&[O0, O1, EPH, C0]);
                let t = Target::Pending(self.r.below(8) as u16);
                let i = self.queues.iter().find(|q| q.o == M).map(|q| q.i).unwrap_or(0);
                let muts = vec![Mut::SetAcc(2, AccSel::OracleData(w))];
                let base = Box::new(Op::Provide { q: Q { o: M, i }, t, m: ProofMut::Key(w) });
                return Op::Attack { base, muts, via: self.r.chance(1, 2) };
            }
            // another program called back
            4 if self.r.chance(1, 4) => {
                let base = Box::new(Op::Provide { q: self.q(), t: self.target(), m: ProofMut::None });
                return Op::Attack { base, muts: vec![Mut::Kin(4, self.r.below(40) as u8)], via: self.r.chance(1, 3) };
            }
            4 => Op::Provide { q: self.q(), t: self.target(), m: self.proof() },
            5 => Op::Close { q: self.q() },
            6 => Op::Delegate { q: self.q() },
            9 => Op::Undelegate { q: self.q() },
            8 => Op::Purge { q: self.q(), by: X },
            // hand-back driven by the attacker
            _ => {
                let mut data = chain::programs::EXTERNAL_UNDELEGATE.to_vec();
                let o = *self.r.pick(&[C0, C1, O0, O1, X, M]);
                let seeds: Vec<Vec<u8>> = match self.r.below(4) {
                    0 => vec![b"oracles".to_vec()],
                    1 => vec![b"oracle".to_vec(), key(o).to_bytes().to_vec()],
                    _ => vec![b"queue".to_vec(), key(o).to_bytes().to_vec(), vec![self.r.below(2) as u8]],
                };
                let tgt = match seeds.len() {
                    1 => AccSel::Oracles,
                    2 => AccSel::OracleData(o),
                    _ => AccSel::Queue(o, seeds[2][0]),
                };
                data.extend_from_slice(&borsh::to_vec(&seeds).unwrap());
                let len = *self.r.pick(&[1u8, 2, 3]);
                let buf = if self.r.chance(3, 4) {
                    AccSel::Fake { owner: 1, image: Box::new(AccSel::Random(len as u32)), patch: 3 }
                } else {
                    AccSel::UndelBuffer(o, 0)
                };
                let mut muts = vec![
                    Mut::Raw(data),
                    Mut::Append(tgt),
                    Mut::Writable(0, true),
                    Mut::Append(buf),
                    Mut::Signer(1, true),
                    Mut::Writable(1, true),
                    Mut::Append(AccSel::Who(X)),
                    Mut::Signer(2, true),
                    Mut::Writable(2, true),
                    Mut::Append(AccSel::Program(7)),
                ];
                if self.r.chance(1, 4) {
                    muts.extend(self.muts());
                }
                return Op::Attack { base: Box::new(Op::AdminInit { by: X }), muts, via: false };
            }
        };
        let muts = self.muts();
        let via = self.r.chance(1, 2);
        Op::Attack { base: Box::new(base), muts, via }
    }

    fn slots(&mut self) -> Op {
        let n = match self.prop.as_str() {
            "C05" => match self.r.below(3) {
                0 => 0,
                _ => 1,
            },
            "C07" => match self.r.below(10) {
                0..=3 => self.r.range(1, 12) as u32,
                4..=5 => self.r.range(236, 244) as u32,
                6..=7 => self.r.range(100, 140) as u32,
                // ages that look young in fewer bits
                8 if self.r.chance(1, 3) => 65_536 + self.r.range(0, 200) as u32,
                8 if self.r.chance(1, 8) => u32::MAX - self.r.range(0, 20) as u32,
                _ => self.r.range(20, 60) as u32,
            },
            "C08" | "C10" => match self.r.below(6) {
                0..=1 => self.r.range(1, 4) as u32,
                2 => self.r.range(196, 204) as u32,
                3 => self.r.range(90, 110) as u32,
                4 => self.r.range(200, 300) as u32,
                _ => self.r.range(20, 60) as u32,
            },
            _ => match self.r.below(24) {
                0 => self.r.range(230, 250) as u32,
                1 => self.r.range(50, 120) as u32,
                2..=4 => self.r.range(2, 10) as u32,
                _ => 1,
            },
        };
        let dt = match self.r.below(12) {
            0 => -(self.r.range(1, 100_000) as i32),
            1 => self.r.range(1000, 1_000_000) as i32,
            2..=4 => 0,
            _ => 1,
        };
        Op::Slots { n: n.max(1), dt, er: self.er_rate }
    }

    fn cli(&mut self) -> Op {
        let mut by = *self.r.pick(&[O0, O0, O1, M, EPH, ADMIN, ADMIN, X, C0]);
        let queue = |g: &mut Self, by: &mut Who| {
            if g.r.chance(1, 10) {
                return g.accsel(0);
            }
            let q = g.q();
            match g.r.below(8) {
                // somebody else's queue, a copy of one's own
                0 => {}
                1 => {
                    let image = Box::new(AccSel::Queue(q.o, q.i));
                    *by = q.o;
                    return AccSel::Fake { owner: 0, image, patch: 0 };
                }
                _ => *by = q.o,
            }
            AccSel::Queue(q.o, q.i)
        };
        let pick = if self.prop == "C22" && self.r.chance(3, 4) { self.r.range(19, 23) } else { self.r.below(24) };
        let cmd = match pick {
            0 => Cmd::Initialize,
            1..=3 => {
                by = *self.r.pick(&[ADMIN, ADMIN, ADMIN, ADMIN2, X, M]);
                Cmd::Add { id: *self.r.pick(&[O0, O1, M, C0, C1, C2, EPH, ADMIN]), key: 0 }
            }
            4..=5 => {
                by = *self.r.pick(&[ADMIN, ADMIN, ADMIN, ADMIN2, X, M]);
                Cmd::Remove { id: *self.r.pick(&[O0, O1, M, C0, C1, C2, EPH, ADMIN]) }
            }
            6..=9 => {
                let q = if self.r.chance(1, 3) { self.q() } else { Q { o: by, i: self.index() } };
                if self.r.chance(7, 8) {
                    by = q.o;
                }
                if by == q.o && !self.queues.contains(&q) && self.queues.len() < 14 {
                    self.queues.push(q);
                }
                let size = match self.r.below(4) {
                    0 => None,
                    1 if self.r.chance(1, 2) => Some(self.r.range(2, 33) as u32 * 10_240 - self.r.below(3) as u32),
                    1 => Some(*self.r.pick(&[0, 1, 27, 28, 400_000, 1 << 24])),
                    _ => Some(self.size()),
                };
                Cmd::Init { id: q.o, i: q.i, size }
            }
            10..=12 => Cmd::Delegate(queue(self, &mut by)),
            13..=15 => Cmd::Undelegate(queue(self, &mut by)),
            16..=18 => Cmd::Close(queue(self, &mut by)),
            19 if self.r.chance(1, 4) => Cmd::Help,
            19 => Cmd::Derive,
            _ => {
                by = self.q().o;
                Cmd::List
            }
        };
        let at = |r: &mut Rng| match r.below(3) {
            0 => r.range(1, 8) as u8,
            _ => r.range(1, 3) as u8,
        };
        let fault = match self.r.below(20) {
            0..=1 => CliFault::RpcError { at: at(&mut self.r), effect: false },
            2..=3 => CliFault::RpcError { at: at(&mut self.r), effect: true },
            4 => CliFault::Kill { at: at(&mut self.r), effect: self.r.chance(1, 2) },
            5 => CliFault::Lost,
            10 => CliFault::Dropped(self.r.below(4) as u8),
            6..=7 => CliFault::Late(self.r.range(1, 24) as u8),
            8 => CliFault::Stale(self.r.below(6) as u8),
            9 => CliFault::Race(at(&mut self.r)),
            _ => CliFault::None,
        };
        let tick = match self.r.below(8) {
            0 => 1,
            1 => *self.r.pick(&[10, 70, 160, 250]),
            _ => 0,
        };
        let mut env = if self.r.chance(1, 2) { 0 } else { self.r.below(9) as u8 };
        if self.r.chance(1, 20) {
            env += 9 * self.r.range(1, 6) as u8;
        }
        Op::Cli { by, cmd, fault, tick, env }
    }
    fn index(&mut self) -> u8 {
        match self.r.below(4) {
            0 => self.r.below(4) as u8,
            1 => self.r.below(256) as u8,
            _ => *self.r.pick(&[0, 9, 10, 15, 16, 19, 20, 31, 32, 63, 64, 99, 100, 101, 127, 128, 199, 200, 254, 255]),
        }
    }

    fn op(&mut self) -> Op {
        let w = self.p.w;
        match self.r.weighted(&w) {
            0 => self.slots(),
            1 => Op::AdminInit { by: *self.r.pick(&[ADMIN, U0]) },
            2 => Op::Modify {
                by: *self.r.pick(&[ADMIN, ADMIN, ADMIN, ADMIN2, X]),
                id: *self.r.pick(&[O0, O1, M, C0, C1, C2, C0, C1, EPH]),
                add: self.r.chance(3, 5),
                key: if self.prop == "C02" || self.prop == "C20" { self.r.below(8) as u8 } else { 0 },
            },
            3 => Op::Authority { to: *self.r.pick(&[Some(ADMIN), Some(ADMIN), Some(ADMIN2), None]) },
            4 => {
                let o = *self.r.pick(&[O0, O1, M, C0, EPH, C1]);
                let i = if self.cli { self.index() } else { *self.r.pick(&[0, 1, 2, 255]) };
                let q = Q { o, i };
                if !self.queues.contains(&q) && self.queues.len() < 8 {
                    self.queues.push(q);
                }
                Op::Init {
                    payer: *self.r.pick(&[U0, U1, o]),
                    q,
                    size: self.size(),
                    steps: *self.r.pick(&[1, 1, 1, 2, 3]),
                }
            }
            5 => Op::Close { q: self.q() },
            6 => Op::Request(self.request()),
            7 => Op::Provide { q: self.q(), t: self.target(), m: self.proof() },
            8 => Op::Purge { q: self.q(), by: *self.r.pick(&[U0, U1, X, O0]) },
            9 => Op::Delegate { q: self.q() },
            10 => Op::Undelegate { q: self.q() },
            11 => Op::Commit { q: self.q() },
            12 => self.attack(),
            13 => {
                let q = self.q();
                let n = self.r.range(2, 4);
                Op::Bundle(
                    (0..n)
                        .map(|i| match self.r.below(if i == 0 { 2 } else { 6 }) {
                            0..=1 => {
                                let mut x = self.request();
                                x.q = q;
                                x.copies = 1;
                                if self.r.chance(3, 4) {
                                    x.args = Args::Plain(self.r.below(40) as u16);
                                    x.metas = vec![];
                                    x.disc = 8;
                                }
                                Op::Request(x)
                            }
                            2..=4 => Op::Provide {
                                q,
                                t: if self.r.chance(3, 4) { Target::Last } else { Target::Pending(self.r.below(8) as u16) },
                                m: ProofMut::None,
                            },
                            _ => Op::Purge { q, by: X },
                        })
                        .collect(),
                )
            }
            14 => Op::Fork { back: self.r.range(1, 12) as u16 },
            15 => {
                let to = match self.r.below(3) {
                    0 => {
                        let q = self.q();
                        AccSel::Queue(q.o, q.i)
                    }
                    1 => AccSel::OracleData(*self.r.pick(&EXTRA)),
                    _ => self.accsel(1),
                };
                Op::Donate { to, amount: *self.r.pick(&[900_000, 2_000_000, 100_000_000, 1, 60_000_000_000]) }
            }
            17 => self.cli(),
            _ if self.prop == "C25" => {
                let width = match self.r.below(4) {
                    0 => self.r.range(1, 255),
                    1 => self.r.range(126, 131),
                    _ => *self.r.pick(&[1, 5, 9, 11, 15, 19, 51, 99, 199, 254, 255]),
                };
                let lo = *self.r.pick(&[0, 1, 255 - width, self.r.clone().below(256 - width)]) as u8;
                Op::Draw { seed: self.r.u64(), lo, hi: lo.saturating_add(width as u8), n: self.r.range(400_000, 1_200_000) as u32 }
            }
            _ => {
                let mut v = self.r.bytes(32);
                match self.r.below(4) {
                    0 => v = vec![255; 32],
                    1 => v = vec![0; 32],
                    2 => {
                        let b = self.r.below(256) as u8;
                        let n = self.r.idx(33);
                        for x in v.iter_mut().take(n) {
                            *x = b;
                        }
                    }
                    _ => {}
                }
                let (lo, hi) = match self.r.below(6) {
                    0 => (0, 255),
                    1 => {
                        let a = self.r.below(256) as u8;
                        (a, a)
                    }
                    2 => (1, 6),
                    3 => (0, *self.r.pick(&[127, 128, 1, 2, 254, 253])),
                    _ => {
                        let a = self.r.below(256) as u8;
                        (a, self.r.range(a as u64, 255) as u8)
                    }
                };
                Op::Rnd { v, lo, hi }
            }
        }
    }

    /// A big queue with hundreds of requests, or with tens of kilobytes of them.
    fn crowd(&mut self, out: &mut Vec<Step>) {
        let q = Q { o: *self.r.pick(&[O0, O1, M]), i: 7 };
        let many = self.r.chance(1, 2);
        let (size, txs, args) = if self.prop == "C27" {
            let size = *self.r.pick(&[60_000, 80_000, 102_400]) as u32;
            (size, if many { size as u64 / 384 } else { self.r.range(100, 160) }, 0)
        } else if many {
            (self.r.range(30_000, 40_000) as u32, self.r.range(60, 80), 0)
        } else {
            (self.r.range(68_000, 81_920) as u32, self.r.range(25, 32), 500)
        };
        out.push(step(Op::Init { payer: U0, q, size, steps: 0 }));
        for _ in 0..txs {
            let mut r = self.request();
            r.q = q;
            r.copies = 4;
            r.disc = 8;
            r.metas = vec![];
            r.args = Args::Plain(args);
            out.push(step(Op::Request(r)));
            if self.r.chance(1, 12) {
                out.push(step(Op::Slots { n: self.r.range(1, 30) as u32, dt: 0, er: 1 }));
            }
        }
        self.queues = vec![q];
    }
    pub fn history(&mut self) -> Vec<Step> {
        let mut out = vec![];
        self.er_rate = if self.p.er && self.r.chance(1, 3) { 8 } else { 1 };
        if self.p.setup || self.r.chance(1, 3) {
            let mut qs = vec![];
            let mut cand = vec![
                Q { o: O0, i: 0 },
                Q { o: O0, i: 1 },
                Q { o: O1, i: 0 },
                Q { o: M, i: 0 },
                Q { o: EPH, i: 0 },
            ];
            let mut n = self.r.range(1, 4);
            if self.cli {
                for _ in 0..6 {
                    cand.push(Q { o: *self.r.pick(&[O0, O0, O1, M]), i: self.index() });
                }
                cand.sort_by_key(|q| (q.o, q.i));
                cand.dedup();
                n = 5;
            }
            for _ in 0..n {
                let k = self.r.idx(cand.len());
                let q = cand.remove(k);
                let size = if self.p.small_queues { self.size() } else { *self.r.pick(&[9500, 9500, 3000, 900, 20_000]) };
                qs.push((q, size.max(28)));
                self.queues.push(q);
            }
            out.push(step(Op::Setup { queues: qs }));
        } else {
            if self.r.chance(9, 10) {
                out.push(step(Op::AdminInit { by: ADMIN }));
            }
            let k = self.r.below(3);
            for o in [O0, M, O1].iter().take(k as usize) {
                out.push(step(Op::Modify { by: ADMIN, id: *o, add: true, key: 0 }));
            }
            if self.r.chance(1, 2) {
                out.push(step(Op::Slots { n: self.r.range(190, 210) as u32, dt: 1, er: 1 }));
            }
        }
        let mut n = self.r.range(self.p.steps.0, self.p.steps.1);
        // a few runs with a crowded queue
        let crowded = match self.prop.as_str() {
            "C01" | "C03" | "C04" | "C05" | "C07" | "C11" | "C22" => 50,
            "C27" => 3,
            _ => 0,
        };
        if crowded > 0 && self.p.setup && self.r.chance(1, crowded) {
            self.crowd(&mut out);
            n /= 2;
        }
        // a few runs without any fault, so that progress is exercised undisturbed
        let faults = self.p.faults && self.r.chance(4, 5);
        for _ in 0..n {
            let op = self.op();
            let mut s = step(op);
            s.er = self.p.er && self.r.chance(1, 2) || matches!(s.op, Op::Undelegate { .. });
            if let Op::Cli { cmd, .. } = &s.op {
                let undelegates = matches!(cmd, Cmd::Undelegate(_));
                s.er = self.r.chance(if undelegates { 5 } else { 1 }, 6);
            }
            if faults {
                match self.r.below(30) {
                    0..=1 => s.late = self.r.range(1, 12) as u8,
                    2 => s.dup = true,
                    3 => {
                        s.dup = true;
                        s.late = self.r.range(1, 12) as u8
                    }
                    4 => s.lost = true,
                    5..=6 => s.halt = Some(self.r.below(24) as u16),
                    _ => {}
                }
            }
            out.push(s);
        }
        // faults stop; progress is checked on what is left
        if self.r.chance(1, 2) {
            out.push(step(Op::Slots { n: self.r.range(1, 3) as u32, dt: 1, er: 1 }));
            for _ in 0..self.r.below(12) {
                let q = self.q();
                out.push(step(Op::Provide { q, t: Target::Pending(0), m: ProofMut::None }));
            }
            let q = self.q();
            out.push(step(Op::Slots { n: 241, dt: 1, er: 1 }));
            out.push(step(Op::Purge { q, by: U0 }));
            out.push(step(Op::Close { q }));
        }
        if self.prop == "C23" {
            let rate = *self.r.pick(&[0, 4, 8]);
            for s in out.iter_mut() {
                s.old = self.r.below(8) < rate;
            }
            for er in [false, true] {
                if rate == 0 || self.r.chance(3, 4) {
                    let at = self.r.below(out.len() as u64 + 1) as usize;
                    out.insert(at, step(Op::Upgrade { er }));
                }
            }
        }
        out
    }
}
