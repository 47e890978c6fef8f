//! The steps of a history and their generator.
use chain::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Ok,
    Fail,
    Panic,
    /// fails until this many ms after it was made
    Flaky(u32),
    /// so many accounts that the fulfilment may not fit into a transaction
    Fat,
    /// calls back a program that does not exist
    Nowhere,
    /// passes the oracle's own key and queue as writable callback accounts
    Grabby,
    /// re-enters the program
    Reenter,
}
impl Kind {
    pub fn healthy(&self) -> bool {
        matches!(self, Kind::Ok)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fault {
    /// calls answered with an error, per cent; every third one takes effect before the error
    RpcErr(u8),
    /// calls never answered, per cent
    RpcHang(u8),
    /// every call takes this much longer, ms
    RpcSlow(u16),
    /// reads lag this many slots behind
    RpcStale(u8),
    /// answers of the wrong shape, per cent
    RpcGarbage(u8),
    /// transactions accepted by the node and lost, per cent
    TxLoss(u8),
    /// transactions land this many slots later
    TxSlow(u8),
    FeedLoss(u8),
    FeedDup(u8),
    FeedReorder(u8),
    FeedSlow(u16),
    /// subscriptions end and new ones are refused
    FeedDown,
    /// subscriptions that exist when it begins stay open and never deliver again
    FeedDead,
    /// subscriptions end at random, per cent per slot
    FeedFlap(u8),
    /// the chain produces no slots
    Stall,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Forgery {
    /// another oracle's queue address with this oracle's index
    Unrelated,
    /// too short for a queue header
    Short,
    /// only a discriminator
    Disc,
    /// the queue's own address, cut off somewhere
    Cut(u16),
    /// the queue's own address, random bytes after the header
    Noise,
    /// the queue's own address, a count that is not the number of items
    Count(u32),
    /// the queue's own address, lengths that run out of the account
    Lengths,
    /// the queue's own address, owned by somebody else
    Owner,
    /// data that cannot be decoded
    Undecodable,
    /// a key that cannot be read
    BadKey,
    /// empty data
    Empty,
    /// another account kind of the program
    OtherKind,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Setup {
        laser: bool,
        preflight: bool,
        http: bool,
        replicas: u8,
        queues: u8,
        /// node unreachable for this long at start-up, ms
        outage: u32,
        jitter: u8,
    },
    Req { q: u8, kind: Kind, high: bool, copies: u8, metas: u8, args: u16 },
    /// requests in another oracle's queue
    Foreign(u8),
    NewQueue(u8),
    Fault(Fault, u32),
    Forge { how: Forgery, q: u8, snapshot: bool },
    /// feed traffic without an account
    Noise,
    Crash { i: u8, down: u32 },
    Pause { i: u8, ms: u32 },
    Fork { depth: u8, keep: u8 },
    /// skipped slots
    Skip(u16),
    Stats { i: u8, odd: u8 },
    Wait,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    /// ms after the previous step
    pub gap: u32,
    pub op: Op,
}

pub struct Profile {
    pub steps: (u64, u64),
    /// Req, Foreign, NewQueue, Fault, Forge, Noise, Crash, Pause, Fork, Skip, Stats, Wait
    pub w: [u32; 12],
    /// Ok Fail Panic Flaky Fat Nowhere Grabby Reenter
    pub kinds: [u32; 8],
    pub note: &'static str,
}

pub fn profile(name: &str) -> Profile {
    let p = |steps, w, kinds, note| Profile { steps, w, kinds, note };
    match name {
        "C13" => p((6, 26), [30, 3, 1, 26, 3, 1, 6, 4, 10, 3, 1, 6], [20, 2, 0, 3, 1, 0, 1, 0], "every fault"),
        "C14" => p((5, 24), [60, 6, 2, 0, 4, 2, 0, 0, 0, 0, 4, 14], [24, 5, 2, 5, 2, 2, 2, 1], "healthy network, hostile requests"),
        "C15" => p((5, 22), [16, 3, 1, 40, 18, 2, 5, 2, 2, 2, 2, 6], [16, 1, 0, 0, 1, 1, 1, 0], "RPC, feed and data faults"),
        "C16" => p((5, 26), [26, 3, 1, 26, 5, 2, 6, 3, 3, 1, 1, 8], [20, 3, 0, 2, 1, 1, 0, 0], "every fault, then quiet"),
        "C17" => p((6, 26), [34, 10, 2, 16, 20, 2, 6, 2, 6, 4, 1, 5], [14, 3, 1, 3, 3, 2, 5, 1], "forged accounts, foreign queues, replicas"),
        "C18" => p((8, 30), [34, 6, 2, 10, 4, 2, 3, 2, 2, 2, 36, 6], [24, 1, 0, 1, 1, 0, 0, 0], "statistics queried throughout"),
        _ => p((6, 26), [30, 5, 2, 18, 8, 2, 5, 3, 6, 3, 8, 6], [14, 3, 1, 3, 2, 1, 2, 1], "mixed"),
    }
}

pub fn history(seed: u64, name: &str) -> Vec<Step> {
    let mut r = Rng::new(seed);
    let p = profile(name);
    let n = r.range(p.steps.0, p.steps.1);
    let calm = name == "C14" || (name == "C18" && r.chance(1, 2));
    let clean = name == "C18" && calm;
    let queues = *r.pick(&[1, 1, 1, 2, 3]);
    let replicas = if calm && name != "C14" { 1 } else { *r.pick(&[1, 1, 1, 1, 2, 2]) };
    let mut v = vec![Step {
        gap: 0,
        op: Op::Setup {
            laser: r.chance(1, 2),
            preflight: r.chance(1, 4),
            http: name == "C18" || r.chance(1, 2),
            replicas,
            queues,
            outage: if !calm && r.chance(1, 4) { *r.pick(&[1_500, 10_000, 40_000]) } else { 0 },
            jitter: *r.pick(&[0, 8, 60, 140]),
        },
    }];
    let mut fails = 0u32;
    // many hopeless requests at once, sometimes
    let max_fails = if matches!(name, "C14" | "C13") && r.chance(1, 6) { 60 } else { 3 };
    for _ in 0..n {
        let gap = match r.below(10) {
            0..=2 => r.range(0, 30),
            3..=5 => r.range(0, 1_000),
            6..=8 => r.range(200, 6_000),
            _ => r.range(3_000, 45_000),
        } as u32;
        let mut w = p.w;
        if calm {
            for i in [3, 6, 7, 8, 9] {
                w[i] = 0;
            }
            if clean {
                w[4] = 0;
            }
        }
        let dur = |r: &mut Rng| *r.pick(&[300u32, 1_500, 5_000, 12_000, 35_000, 70_000]);
        let op = match r.weighted(&w) {
            0 => {
                let mut k = p.kinds;
                if fails >= max_fails || clean {
                    for i in [1, 2, 3, 4, 5, 7] {
                        k[i] = 0;
                    }
                }
                let kind = match r.weighted(&k) {
                    0 => Kind::Ok,
                    1 => Kind::Fail,
                    2 => Kind::Panic,
                    3 => Kind::Flaky(*r.pick(&[500, 4_000, 12_000, 20_000])),
                    4 => Kind::Fat,
                    5 => Kind::Nowhere,
                    6 => Kind::Grabby,
                    _ => Kind::Reenter,
                };
                let crowd = kind == Kind::Ok || max_fails > 3;
                let copies = if crowd && r.chance(1, if max_fails > 3 { 2 } else { 8 }) { r.range(2, 24) as u8 } else { 1 };
                if kind != Kind::Ok {
                    fails += copies as u32;
                }
                Op::Req {
                    q: r.below(queues as u64) as u8,
                    kind,
                    high: r.chance(1, 2),
                    copies,
                    metas: match r.below(9) {
                        0 | 1 => r.below(8) as u8,
                        2 => r.range(8, 20) as u8,
                        _ => 0,
                    },
                    args: if r.chance(1, 3) { r.below(60) as u16 } else { 0 },
                }
            }
            1 => Op::Foreign(r.range(1, 4) as u8),
            2 => Op::NewQueue(r.range(0, 4) as u8),
            3 => {
                let pct = |r: &mut Rng| *r.pick(&[15u8, 50, 90, 100]);
                let f = match r.below(15) {
                    0 | 1 => Fault::RpcErr(pct(&mut r)),
                    2 => Fault::RpcHang(pct(&mut r)),
                    3 => Fault::RpcSlow(*r.pick(&[100, 900, 6_000])),
                    4 => Fault::RpcStale(*r.pick(&[1, 4, 20, 40])),
                    5 => Fault::RpcGarbage(pct(&mut r)),
                    6 => Fault::TxLoss(pct(&mut r)),
                    7 => Fault::TxSlow(*r.pick(&[1, 4, 30])),
                    8 => Fault::FeedLoss(pct(&mut r)),
                    9 => Fault::FeedDup(pct(&mut r)),
                    10 => Fault::FeedReorder(pct(&mut r)),
                    11 => Fault::FeedSlow(*r.pick(&[300, 4_000, 20_000])),
                    12 => Fault::FeedDown,
                    13 => {
                        if r.chance(1, 2) {
                            Fault::FeedDead
                        } else {
                            Fault::FeedFlap(*r.pick(&[5, 40]))
                        }
                    }
                    _ => Fault::Stall,
                };
                Op::Fault(f, dur(&mut r))
            }
            4 => {
                let how = match r.below(12) {
                    0 => Forgery::Unrelated,
                    1 => Forgery::Short,
                    2 => Forgery::Disc,
                    3 => Forgery::Cut(r.range(20, 400) as u16),
                    4 => Forgery::Noise,
                    5 => Forgery::Count(*r.pick(&[0, 1, 7, u32::MAX])),
                    6 => Forgery::Lengths,
                    7 => Forgery::Owner,
                    8 => Forgery::Undecodable,
                    10 => Forgery::BadKey,
                    9 => Forgery::Empty,
                    _ => Forgery::OtherKind,
                };
                Op::Forge { how: if calm { Forgery::Unrelated } else { how }, q: r.below(queues as u64) as u8, snapshot: r.chance(1, 3) }
            }
            5 => Op::Noise,
            6 => Op::Crash { i: r.below(2) as u8, down: dur(&mut r) },
            7 => Op::Pause { i: r.below(2) as u8, ms: dur(&mut r) },
            8 => Op::Fork { depth: *r.pick(&[1, 1, 2, 4, 12, 30]), keep: *r.pick(&[0, 50, 100]) },
            9 => Op::Skip(*r.pick(&[1, 5, 60, 245])),
            10 => Op::Stats { i: r.below(2) as u8, odd: if r.chance(1, 6) { r.range(1, 4) as u8 } else { 0 } },
            _ => Op::Wait,
        };
        // several things at the same moment, often
        let gap = if r.chance(1, 5) { 0 } else { gap };
        v.push(Step { gap, op });
        if name == "C13" && matches!(op, Op::Req { .. }) && r.chance(1, 6) {
            // a fork around the moment the answer lands, which the feed may not have shown
            if r.chance(1, 2) {
                let f = match r.below(3) {
                    0 => Fault::FeedLoss(100),
                    1 => Fault::FeedSlow(*r.pick(&[4_000, 20_000])),
                    _ => Fault::FeedDead,
                };
                v.push(Step { gap: r.range(50, 600) as u32, op: Op::Fault(f, *r.pick(&[1_500, 5_000, 12_000])) });
            }
            v.push(Step {
                gap: r.range(150, 1_500) as u32,
                op: Op::Fork { depth: *r.pick(&[1, 2, 4]), keep: 0 },
            });
        }
    }
    v
}
