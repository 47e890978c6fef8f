//! Runs of the command line tool. The tool is its own process, built from the repository's source
//! against a client whose node is this module: every RPC call it makes is answered here, from the
//! simulated chain, and its clock is virtual.
use super::*;
use crate::ops::{CliFault, Cmd};
use chain::secrets::{malformed, Secrets};
use base64::prelude::{Engine, BASE64_STANDARD};
use serde_json::{json, Value};
use solana_sdk::signature::Signature;
use solana_sdk::transaction::Transaction;
use std::io::{BufRead, BufReader, Read, Seek, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::process::{Command, Stdio};
use std::time::Duration;

/// a transaction of more bytes does not fit into a packet
const PACKET: usize = 1232;
const MAX_AGE: u64 = 150;
const MAX_CALLS: u32 = 3000;

fn program() -> std::path::PathBuf {
    std::env::var_os("CLISIM").map(Into::into).unwrap_or_else(|| {
        let me = std::env::current_exe().unwrap();
        me.parent().unwrap().join("clisim")
    })
}

fn memfile() -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"cli".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create failed");
        OwnedFd::from_raw_fd(fd).into()
    }
}

type Marks = BTreeMap<Pubkey, (Pubkey, u64, u64)>;

struct Sent {
    tx: Option<Tx>,
    polls: u8,
    blockhash: [u8; 32],
    /// how it went, once it was executed
    done: Option<bool>,
}

struct Session<'a> {
    er: bool,
    by: Who,
    cmd: &'a Cmd,
    named: Option<Pubkey>,
    allowed: HashSet<Pubkey>,
    fault: &'a CliFault,
    tick: u8,
    step: usize,
    calls: u32,
    sent: BTreeMap<String, Sent>,
    effect: bool,
    stale: Option<Snapshot>,
    /// the state to which the chain goes back, and at which poll
    fork: Option<(Saved, u8)>,
    secrets: Secrets,
    msgs: Vec<String>,
}

enum Reply {
    Ok(Value),
    Rpc(i64, String),
    Io(String),
    Kill,
}

impl World {
    fn marks(&self, er: bool) -> Marks {
        let c = &self.layer(er).chain;
        let mut m = Marks::new();
        for o in [VRF, DLP] {
            for (k, a) in c.all_owned(&o) {
                let mut d = 1;
                mixb(&mut d, a.data());
                m.insert(k, (*a.owner(), a.lamports(), d));
            }
        }
        m
    }

    fn cli_key(&mut self, er: bool, a: &AccSel) -> Pubkey {
        self.acc(er, a)
    }

    fn own_queue(&self, er: bool, by: Who, k: &Pubkey) -> Option<Q> {
        let q = self.layer(er).model.queues.get(k)?;
        (q.owner == key(by)).then_some(Q { o: by, i: q.idx })
    }

    pub(super) fn cli(&mut self, st: &Step, n: usize) {
        let Op::Cli { by, cmd, fault, tick, env } = &st.op else { return };
        let (er, by) = (st.er, *by);
        let me = key(by);
        let named = match cmd {
            Cmd::Delegate(a) | Cmd::Undelegate(a) | Cmd::Close(a) => Some(self.cli_key(er, a)),
            Cmd::Init { id, i, .. } => Some(qkey(Q { o: *id, i: *i })),
            _ => None,
        };
        // the command line
        let b58 = |b: &[u8; 32]| Pubkey::new_from_array(*b).to_string();
        let urls = ["http://base", "http://rollup"];
        let odd = env / 9 % 7;
        let secret = |w: Who| match odd {
            0 => cast()[w as usize % N].kp.to_base58_string(),
            k => malformed(w, k as u64 - 1),
        };
        let mut args: Vec<String> = vec![];
        let mut vars: Vec<(&str, String)> = vec![];
        if env / 3 % 3 != 1 {
            args.extend(["--rpc-url".into(), urls[er as usize].into()]);
        }
        if env / 3 % 3 != 0 {
            vars.push(("RPC_URL", urls[(er != (env / 3 % 3 == 2)) as usize].into()));
        }
        if env % 3 != 1 {
            args.extend(["--keypair".into(), secret(by)]);
        }
        if env % 3 != 0 {
            vars.push(("KEYPAIR_BASE58", secret(if env % 3 == 2 { by + 1 } else { by })));
        }
        let cmdline: Vec<String> = match cmd {
            Cmd::Initialize => vec!["initialize".into()],
            Cmd::Add { id, key: v } => vec![
                "add-oracle".into(),
                "--identity".into(),
                key(*id).to_string(),
                "--oracle-pubkey".into(),
                b58(&reg_key(*id, *v)),
            ],
            Cmd::Remove { id } => vec!["remove-oracle".into(), "--identity".into(), key(*id).to_string()],
            Cmd::Init { id, i, size } => {
                let mut v: Vec<String> = vec!["initialize-oracle-queue".into(), "--identity".into(), key(*id).to_string()];
                v.extend(["--index".into(), i.to_string()]);
                if let Some(s) = size {
                    v.extend(["--bytes-to-allocate".into(), s.to_string()]);
                }
                v
            }
            Cmd::Delegate(_) => vec!["delegate-oracle-queue".into(), "--queue".into(), named.unwrap().to_string()],
            Cmd::Undelegate(_) => vec!["undelegate-oracle-queue".into(), "--queue".into(), named.unwrap().to_string()],
            Cmd::Close(_) => vec!["close-oracle-queue".into(), "--queue".into(), named.unwrap().to_string()],
            Cmd::Derive => vec!["derive-pubkey".into()],
            Cmd::List => vec!["list-queue".into()],
            Cmd::Help => vec!["--help".into()],
        };
        let kind = match cmd {
            Cmd::Initialize => "cli initialize",
            Cmd::Add { .. } => "cli add-oracle",
            Cmd::Remove { .. } => "cli remove-oracle",
            Cmd::Init { .. } => "cli initialize-oracle-queue",
            Cmd::Delegate(_) => "cli delegate-oracle-queue",
            Cmd::Undelegate(_) => "cli undelegate-oracle-queue",
            Cmd::Close(_) => "cli close-oracle-queue",
            Cmd::Derive => "cli derive-pubkey",
            Cmd::List => "cli list-queue",
            Cmd::Help => "cli --help",
        };
        *self.stats.ops.entry(kind).or_default() += 1;
        args.extend(cmdline.iter().cloned());
        // what the command may touch, and the operation it stands for
        let mut allowed: HashSet<Pubkey> = named.into_iter().collect();
        let own = named.and_then(|k| self.own_queue(er, by, &k));
        let same: Option<Op> = match cmd {
            Cmd::Initialize => {
                allowed.insert(oracles_key());
                Some(Op::AdminInit { by })
            }
            Cmd::Add { id, key: v } => {
                allowed.extend([oracles_key(), oracle_data_key(&key(*id))]);
                Some(Op::Modify { by, id: *id, add: true, key: *v })
            }
            Cmd::Remove { id } => {
                allowed.extend([oracles_key(), oracle_data_key(&key(*id))]);
                Some(Op::Modify { by, id: *id, add: false, key: 0 })
            }
            Cmd::Init { id, i, size } => {
                allowed.insert(oracle_data_key(&key(*id)));
                let q = Q { o: *id, i: *i };
                (*id == by).then_some(Op::Init { payer: by, q, size: size.unwrap_or(9500), steps: 1 })
            }
            Cmd::Delegate(_) => {
                let k = named.unwrap();
                allowed.extend([record_pda(&k).0, metadata_pda(&k).0]);
                own.map(|q| Op::Delegate { q })
            }
            Cmd::Undelegate(_) => own.map(|q| Op::Undelegate { q }),
            Cmd::Close(_) => {
                allowed.insert(oracle_data_key(&me));
                own.map(|q| Op::Close { q })
            }
            Cmd::Derive | Cmd::List | Cmd::Help => None,
        };
        let mut admissible = matches!(cmd, Cmd::Derive | Cmd::List);
        if let Some(op) = &same {
            if let Some((p, ixs, must, _)) = self.ixs(er, op, None) {
                let bytes = bincode::serialize(&Transaction::new_with_payer(&ixs, Some(&p))).unwrap();
                // (a transaction runs 64 instructions at most, the ones that programs call included)
                let fits = bytes.len() + 200 <= PACKET && 3 * ixs.len() <= 64;
                let b = Built {
                    tx: Tx { payer: p, ixs },
                    must,
                    after: After::None,
                    er,
                    halt: None,
                    step: n,
                    honest_proof: false,
                    twin: None,
                };
                admissible = fits && self.expected(&b).is_some();
            }
        }
        if odd > 0 {
            admissible = false;
            self.fault("cli: malformed key");
        }
        match fault {
            CliFault::None => {}
            CliFault::RpcError { .. } => self.fault("cli: RPC call fails"),
            CliFault::Kill { .. } => self.fault("cli: killed"),
            CliFault::Lost => self.fault("cli: transaction lost"),
            CliFault::Late(_) => self.fault("cli: transaction delayed"),
            CliFault::Dropped(_) => self.fault("cli: transaction dropped by a fork"),
            CliFault::Stale(_) => self.fault("cli: node lags behind"),
            CliFault::Race(_) => self.fault("cli: others' transactions in between"),
        }
        if *tick > 0 {
            self.fault("cli: slots pass between calls");
        }
        let stale = match fault {
            CliFault::Stale(b) if !self.saves.is_empty() => {
                let k = (*b as usize + 1).min(self.saves.len());
                let s = &self.saves[self.saves.len() - k];
                Some(if er { s.er.clone() } else { s.base.clone() })
            }
            _ => None,
        };
        let mut s = Session {
            er,
            by,
            cmd,
            named,
            allowed,
            fault,
            tick: *tick,
            step: n,
            calls: 0,
            sent: BTreeMap::new(),
            effect: false,
            stale,
            fork: None,
            secrets: Secrets::of(by),
            msgs: vec![],
        };
        let funds: Vec<u64> = (0..N as u8).map(|w| self.layer(er).chain.lamports(&key(w))).collect();

        // the process
        let (ours, theirs) = UnixStream::pair().unwrap();
        let out = memfile();
        let mut errs = memfile();
        let mut c = Command::new(program());
        c.args(&args).env_clear().stdin(Stdio::from(OwnedFd::from(theirs)));
        c.stdout(out.try_clone().unwrap()).stderr(errs.try_clone().unwrap());
        c.envs(vars);
        let mut child = c.spawn().expect("the command line tool does not start");
        drop(c);
        ours.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        let mut rd = BufReader::new(ours.try_clone().unwrap());
        let mut wr = ours;
        let mut endless = false;
        let mut killed = false;
        let mut stuck = false;
        loop {
            let mut l = String::new();
            match rd.read_line(&mut l) {
                Ok(0) => break,
                Ok(_) => {}
                Err(e) => {
                    stuck = e.kind() == std::io::ErrorKind::WouldBlock;
                    break;
                }
            }
            let q: Value = serde_json::from_str(&l).unwrap();
            if q["url"].as_str() != Some(urls[er as usize]) && s.msgs.is_empty() {
                s.msgs.push(format!("{}: asked the node {}, which it was not told to use", cmdline.join(" "), q["url"]));
            }
            if let Some(l) = s.secrets.scan_json(&q) {
                s.msgs.push(format!("{}: a call to the node carries {l}", cmdline.join(" ")));
            }
            let r = self.cli_rpc(&mut s, q["method"].as_str().unwrap_or(""), &q["params"]);
            if s.calls > MAX_CALLS {
                endless = true;
                break;
            }
            let v = match r {
                Reply::Ok(v) => json!({ "ok": v }),
                Reply::Rpc(c, m) => json!({ "err": m, "code": c }),
                Reply::Io(m) => json!({ "err": m }),
                Reply::Kill => {
                    killed = true;
                    break;
                }
            };
            if wr.write_all(format!("{v}\n").as_bytes()).is_err() {
                break;
            }
        }
        if killed || endless || stuck {
            let _ = child.kill();
        }
        let code = child.wait().ok().and_then(|x| x.code());
        let mut text = String::new();
        let mut out = out;
        out.rewind().unwrap();
        let _ = out.read_to_string(&mut text);
        let mut printed = vec![];
        errs.rewind().unwrap();
        let _ = errs.read_to_end(&mut printed);
        printed.extend(text.as_bytes());
        if stuck {
            return;
        }
        if let Some(l) = s.secrets.scan(&printed) {
            s.msgs.push(format!("{}: prints {l}", cmdline.join(" ")));
        }
        // a transaction nobody waits for any more still lands
        let held: Vec<String> = s.sent.iter().filter(|x| x.1.tx.is_some()).map(|x| x.0.clone()).collect();
        if !matches!(fault, CliFault::Lost) {
            for h in held {
                self.cli_land(&mut s, &h);
            }
        }
        self.cli_fork(&mut s);
        mixb(&mut self.digest, text.as_bytes());
        mix(&mut self.digest, code.unwrap_or(-1) as u64 ^ (s.calls as u64) << 32);
        if let Some(t) = &mut self.trace {
            t.push(format!(
                "step {n}{}: {} by actor {by} ({} calls) -> {}: {}",
                if er { " rollup" } else { "" },
                cmdline.join(" "),
                s.calls,
                code.map(|c| format!("exit status {c}")).unwrap_or("killed".into()),
                String::from_utf8_lossy(&printed).lines().map(str::trim).collect::<Vec<_>>().join(" / ")
            ));
        }

        // what must hold
        let reads = matches!(cmd, Cmd::Derive | Cmd::List | Cmd::Help);
        let prop = if reads { "C22" } else { "C21" };
        *self.stats.rules.entry(prop).or_default() += 1;
        let what = cmdline.join(" ");
        let mut bad: Vec<String> = std::mem::take(&mut s.msgs);
        if endless {
            bad.push(format!("{what}: still calling the node after {MAX_CALLS} calls"));
        }
        if s.sent.len() > 1 {
            bad.push(format!("{what}: submitted {} transactions", s.sent.len()));
        }
        for (w, f) in funds.iter().enumerate() {
            let race = matches!(fault, CliFault::Race(_));
            if w as u8 != by && !race && self.layer(er).chain.lamports(&key(w as u8)) < *f {
                bad.push(format!("{what}: took lamports of actor {w}"));
            }
        }
        if code == Some(0) {
            if !reads && !s.effect {
                bad.push(format!("{what}: reported success, but what it was asked to do has not happened"));
            }
            match cmd {
                Cmd::Derive => {
                    let want = b58(&cast()[by as usize % N].pk);
                    if !text.split(|c: char| !c.is_ascii_alphanumeric()).any(|t| t == want) {
                        bad.push(format!("{what}: printed {text:?}, the oracle's key is {want}"));
                    }
                }
                // (others' transactions may land between the calls of a listing)
                Cmd::List if !matches!(fault, CliFault::Race(_)) => {
                    *self.stats.rules.entry(prop).or_default() += 1;
                    bad.extend(self.cli_list(&s, &text));
                }
                _ => {}
            }
        } else {
            let calm = *tick == 0 && matches!(fault, CliFault::None);
            if calm && admissible {
                bad.push(format!("{what}: failed ({code:?}), although nothing was in its way"));
            }
            if s.effect && !matches!(fault, CliFault::RpcError { .. } | CliFault::Kill { .. }) {
                bad.push(format!("{what}: reported failure ({code:?}), but its transaction took effect"));
            }
        }
        if admissible && *tick == 0 && matches!(fault, CliFault::None) {
            *self.stats.must.entry(prop).or_default() += 1;
        }
        for m in bad {
            self.report(n, prop, m);
        }
    }

    /// the listing against the accounts the node showed
    fn cli_list(&self, s: &Session, text: &str) -> Vec<String> {
        let mut bad = vec![];
        let me = key(s.by);
        let mut want = BTreeMap::new();
        for i in 0..=255u8 {
            let k = qkey(Q { o: s.by, i });
            let Some(a) = self.cli_account(s, &k) else { continue };
            let Ok(v) = view(a.data()) else { continue };
            want.insert(k.to_string(), (v.items.len(), i, a.owner() != &VRF));
        }
        let after = |l: &str, f: &str| -> Option<String> {
            let p = l.find(&format!("{f}: "))? + f.len() + 2;
            Some(l[p..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect())
        };
        for (k, (items, i, del)) in &want {
            let lines: Vec<&str> = text.lines().filter(|l| l.contains(k.as_str()) && l.contains("items")).collect();
            if lines.len() != 1 {
                bad.push(format!("list-queue: {} lines about queue {i} ({k}) of {me}, which exists", lines.len()));
                continue;
            }
            let l = lines[0];
            let say = (after(l, "items"), after(l, "index"), after(l, "delegated"));
            if say != (Some(items.to_string()), Some(i.to_string()), Some(del.to_string())) {
                bad.push(format!("list-queue: says {l:?} of a queue with {items} items, index {i}, delegated {del}"));
            }
        }
        for l in text.lines().filter(|l| l.contains("items: ") && l.contains("delegated: ")) {
            if !want.keys().any(|k| l.contains(k.as_str())) {
                bad.push(format!("list-queue: {l:?} is no queue of {me}"));
            }
        }
        bad
    }

    fn cli_account(&self, s: &Session, k: &Pubkey) -> Option<AccountSharedData> {
        match &s.stale {
            Some(x) => x.accounts.get(k).cloned().filter(|a| a.lamports() > 0),
            None => self.layer(s.er).chain.get(k),
        }
    }

    fn cli_known(&self, er: bool, h: &[u8; 32]) -> bool {
        let c = &self.layer(er).chain;
        c.slot_hashes.iter().any(|(s, x)| x == h && c.slot - s <= MAX_AGE)
    }

    fn cli_pending(&self, er: bool) -> BTreeMap<Pubkey, Vec<Id>> {
        let q = self.layer(er).model.queues.iter().filter(|q| !q.1.items.is_empty());
        q.map(|(k, q)| (*k, q.items.iter().map(|i| i.id).collect())).collect()
    }

    /// execution of a transaction the tool sent
    fn cli_land(&mut self, s: &mut Session, sig: &str) {
        let Some(x) = s.sent.get_mut(sig) else { return };
        let Some(tx) = x.tx.take() else { return };
        let h = x.blockhash;
        if !self.cli_known(s.er, &h) {
            return;
        }
        let qcount = |w: &World| w.layer(s.er).model.queues.len();
        let before = self.marks(s.er);
        let (ok0, q0) = (self.stats.ok, qcount(self));
        let mut after = After::None;
        for i in &tx.ixs {
            match (i.program_id == VRF, i.data.first()) {
                (true, Some(5)) if i.accounts.len() > 1 => after = After::Delegated(i.accounts[1].pubkey),
                (true, Some(6)) if i.accounts.len() > 1 => after = After::Scheduled(i.accounts[1].pubkey),
                _ => {}
            }
        }
        let pending = self.cli_pending(s.er);
        let prior = s.named.and_then(|k| self.layer(s.er).model.queues.get(&k).map(|q| (q.owner, q.delegated)));
        let had = {
            let m = &self.layer(s.er).model;
            match s.cmd {
                Cmd::Initialize => m.oracles.is_some(),
                Cmd::Add { id, .. } | Cmd::Remove { id } => m.recs.contains_key(&key(*id)),
                _ => prior.is_some(),
            }
        };
        let b = Built { tx, must: Must::None, after, er: s.er, halt: None, step: s.step, honest_proof: false, twin: None };
        self.deliver(b);
        let ok = self.stats.ok > ok0;
        s.sent.get_mut(sig).unwrap().done = Some(ok);
        // touched accounts
        let now = self.marks(s.er);
        for k in before.keys().chain(now.keys()).collect::<std::collections::BTreeSet<_>>() {
            if before.get(k) != now.get(k) && !s.allowed.contains(k) {
                s.msgs.push(format!("{:?}: changed account {k}, which the command does not name", s.cmd));
            }
        }
        if !ok {
            return;
        }
        let left = self.cli_pending(s.er);
        if let Some((k, _)) = pending.iter().find(|(k, ids)| left.get(k) != Some(ids)) {
            s.msgs.push(format!("{:?}: the requests pending in queue {k} are not those of before", s.cmd));
        }
        let me = key(s.by);
        let l = self.layer(s.er);
        let q = s.named.and_then(|k| l.model.queues.get(&k));
        let mine = prior.map(|p| p.0 == me && !p.1).unwrap_or(false);
        s.effect = match s.cmd {
            Cmd::Initialize => !had && l.model.oracles.is_some(),
            Cmd::Add { id, key: v } => {
                !had && l.model.recs.get(&key(*id)).map(|r| r.pk == reg_key(*id, *v)).unwrap_or(false)
            }
            Cmd::Remove { id } => had && !l.model.recs.contains_key(&key(*id)),
            Cmd::Init { id, i, size } => {
                let size = size.unwrap_or(9500) as usize;
                !had && q.map(|q| q.owner == key(*id) && q.idx == *i && q.size == size).unwrap_or(false)
            }
            // (of a queue that is gone, the program delegates the address)
            Cmd::Delegate(_) => {
                mine && q.map(|q| q.delegated).unwrap_or(false)
                    || prior.is_none() && l.chain.get(&record_pda(&s.named.unwrap()).0).is_some()
            }
            // (asking again changes nothing)
            Cmd::Undelegate(_) => prior.map(|p| p.0 == me).unwrap_or(false) && self.sched.contains(&s.named.unwrap()),
            Cmd::Close(_) => mine && q.is_none() && qcount(self) + 1 == q0,
            Cmd::Derive | Cmd::List | Cmd::Help => false,
        };
    }

    /// the block with the tool's transaction is dropped
    fn cli_fork(&mut self, s: &mut Session) {
        if let Some((to, _)) = s.fork.take() {
            self.switch(to, s.step);
            s.sent.values_mut().for_each(|x| x.done = None);
            s.effect = false;
        }
    }

    fn cli_rpc(&mut self, s: &mut Session, method: &str, p: &Value) -> Reply {
        s.calls += 1;
        let at = s.calls;
        mixb(&mut self.digest, method.as_bytes());
        if s.tick > 0 && s.calls > 1 {
            self.cli_advance(s.tick as u64);
        }
        if let CliFault::Race(n) = s.fault {
            if at == *n as u32 {
                for (_, b) in std::mem::take(&mut self.pending) {
                    self.deliver(b);
                }
            }
        }
        let mut ends = |e: bool| match s.fault {
            CliFault::RpcError { at: a, effect } if *a as u32 == at && *effect == e => {
                Some(Reply::Io("connection reset by peer".into()))
            }
            CliFault::Kill { at: a, effect } if *a as u32 == at && *effect == e => Some(Reply::Kill),
            _ => None,
        };
        if let Some(r) = ends(false) {
            return r;
        }
        let later = ends(true);
        let r = self.cli_answer(s, method, p);
        later.unwrap_or(r)
    }

    fn cli_advance(&mut self, k: u64) {
        self.entropy = self.entropy.wrapping_add(0x1234_5678_9ABC);
        let e = self.entropy;
        self.stats.slots += k;
        self.stats.seconds += k * 2 / 5;
        self.base.chain.advance(k, (k * 2 / 5) as i64, e);
        self.er.chain.advance(k, (k * 2 / 5) as i64, e ^ 1);
    }

    fn cli_answer(&mut self, s: &mut Session, method: &str, p: &Value) -> Reply {
        let er = s.er;
        let slot = s.stale.as_ref().map(|x| x.slot).unwrap_or(self.layer(er).chain.slot);
        let ctx = |v: Value| json!({ "context": { "slot": slot, "apiVersion": "3.0.0" }, "value": v });
        let keyp = |v: &Value| v.as_str().and_then(|x| x.parse::<Pubkey>().ok());
        let acc = |a: Option<AccountSharedData>, cfg: &Value| -> Value {
            let Some(a) = a else { return Value::Null };
            let mut d = a.data();
            if let Some(sl) = cfg.get("dataSlice").filter(|x| x.is_object()) {
                let (o, l) = (sl["offset"].as_u64().unwrap_or(0) as usize, sl["length"].as_u64().unwrap_or(0) as usize);
                d = &d[o.min(d.len())..(o + l).min(d.len())];
            }
            json!({
                "lamports": a.lamports(),
                "owner": a.owner().to_string(),
                "data": [BASE64_STANDARD.encode(d), "base64"],
                "executable": a.executable(),
                "rentEpoch": u64::MAX,
                "space": a.data().len(),
            })
        };
        match method {
            "getLatestBlockhash" => {
                let h = match &s.stale {
                    Some(x) => x.slot_hashes.last().unwrap().1,
                    None => self.layer(er).chain.blockhash().to_bytes(),
                };
                let h = Pubkey::new_from_array(h).to_string();
                Reply::Ok(ctx(json!({ "blockhash": h, "lastValidBlockHeight": slot + MAX_AGE })))
            }
            "getAccountInfo" => {
                let Some(k) = keyp(&p[0]) else { return Reply::Rpc(-32602, "Invalid param".into()) };
                Reply::Ok(ctx(acc(self.cli_account(s, &k), &p[1])))
            }
            "getMultipleAccounts" => {
                let ks: Option<Vec<Pubkey>> = p[0].as_array().map(|v| v.iter().filter_map(keyp).collect());
                let Some(ks) = ks.filter(|k| k.len() <= 100) else {
                    return Reply::Rpc(-32602, "Too many inputs provided; max 100".into());
                };
                let v = ks.iter().map(|k| acc(self.cli_account(s, k), &p[1])).collect::<Vec<_>>();
                Reply::Ok(ctx(Value::Array(v)))
            }
            "getBalance" => {
                let k = keyp(&p[0]).unwrap_or_default();
                Reply::Ok(ctx(json!(self.cli_account(s, &k).map(|a| a.lamports()).unwrap_or(0))))
            }
            "getMinimumBalanceForRentExemption" => {
                Reply::Ok(json!(Rent::default().minimum_balance(p[0].as_u64().unwrap_or(0) as usize)))
            }
            "getSlot" | "getBlockHeight" => Reply::Ok(json!(slot)),
            "getHealth" => Reply::Ok(json!("ok")),
            "getVersion" => Reply::Ok(json!({ "solana-core": "3.0.0", "feature-set": 1 })),
            "isBlockhashValid" => {
                let h = keyp(&p[0]).unwrap_or_default().to_bytes();
                Reply::Ok(ctx(json!(self.cli_known(er, &h))))
            }
            // (a test network's node; nothing depends on the funds)
            "requestAirdrop" if s.step % 2 == 0 => Reply::Ok(json!(Signature::default().to_string())),
            "requestAirdrop" => Reply::Rpc(-32600, "Invalid request".into()),
            "sendTransaction" | "simulateTransaction" => {
                let Some(raw) = p[0].as_str().and_then(|x| BASE64_STANDARD.decode(x).ok()) else {
                    return Reply::Rpc(-32602, "invalid encoding".into());
                };
                if raw.len() > PACKET {
                    return Reply::Rpc(-32602, format!("base64 encoded transaction too large: {}", raw.len()));
                }
                let Ok(t) = bincode::deserialize::<Transaction>(&raw) else {
                    return Reply::Rpc(-32602, "failed to deserialize".into());
                };
                self.cli_send(s, t, &p[1], method == "simulateTransaction")
            }
            "getSignatureStatuses" => {
                let sigs: Vec<String> =
                    p[0].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
                let mut v = vec![];
                let due = s.fork.as_mut().map(|f| {
                    f.1 = f.1.saturating_sub(1);
                    f.1
                });
                if due == Some(0) {
                    self.cli_fork(s);
                }
                // (a block that may yet be dropped is not confirmed)
                let (level, votes) = if s.fork.is_some() { ("processed", 0) } else { ("confirmed", 1) };
                for g in sigs {
                    let lost = matches!(s.fault, CliFault::Lost);
                    let due = match s.sent.get_mut(&g) {
                        Some(x) if x.tx.is_some() && !lost => {
                            x.polls = x.polls.saturating_sub(1);
                            x.polls == 0
                        }
                        _ => false,
                    };
                    if due {
                        self.cli_land(s, &g);
                    }
                    if s.sent.get(&g).map(|x| x.done.is_none()).unwrap_or(true) {
                        self.cli_advance(8);
                    }
                    let slot = self.layer(er).chain.slot;
                    v.push(match s.sent.get(&g).and_then(|x| x.done) {
                        None => Value::Null,
                        Some(true) => json!({
                            "slot": slot, "confirmations": votes, "err": null, "status": { "Ok": null },
                            "confirmationStatus": level,
                        }),
                        Some(false) => json!({
                            "slot": slot, "confirmations": votes, "err": { "InstructionError": [1, "Custom"] },
                            "status": { "Err": "AccountInUse" }, "confirmationStatus": level,
                        })
                        .as_object()
                        .map(|o| {
                            let mut o = o.clone();
                            o["err"] = json!("AccountInUse");
                            Value::Object(o)
                        })
                        .unwrap(),
                    });
                }
                Reply::Ok(ctx(Value::Array(v)))
            }
            _ => Reply::Rpc(-32601, "Method not found".into()),
        }
    }

    fn cli_send(&mut self, s: &mut Session, t: Transaction, cfg: &Value, simulate: bool) -> Reply {
        let m = &t.message;
        let req = m.header.num_required_signatures as usize;
        let bytes = m.serialize();
        let signed = t.signatures.len() == req
            && req <= m.account_keys.len()
            && t.signatures.iter().zip(&m.account_keys).all(|(g, k)| g.verify(k.as_ref(), &bytes));
        if !signed && !simulate {
            return Reply::Rpc(-32003, "Transaction signature verification failure".into());
        }
        let h = m.recent_blockhash.to_bytes();
        if !self.cli_known(s.er, &h) {
            return Reply::Rpc(-32002, "Transaction simulation failed: Blockhash not found".into());
        }
        let ixs: Option<Vec<Instruction>> = m
            .instructions
            .iter()
            .map(|i| {
                let accounts: Option<Vec<AccountMeta>> = i
                    .accounts
                    .iter()
                    .map(|a| {
                        let k = *m.account_keys.get(*a as usize)?;
                        Some(AccountMeta {
                            pubkey: k,
                            is_signer: m.is_signer(*a as usize),
                            is_writable: m.is_maybe_writable(*a as usize, None),
                        })
                    })
                    .collect();
                Some(Instruction {
                    program_id: *m.account_keys.get(i.program_id_index as usize)?,
                    accounts: accounts?,
                    data: i.data.clone(),
                })
            })
            .collect();
        let Some(ixs) = ixs else { return Reply::Rpc(-32602, "invalid transaction".into()) };
        let tx = Tx { payer: m.account_keys[0], ixs };
        let sig = t.signatures[0].to_string();
        if simulate {
            return Reply::Rpc(-32601, "Method not found".into());
        }
        if cfg["skipPreflight"] != json!(true) {
            let l = if s.er { &mut self.er } else { &mut self.base };
            let o = l.chain.execute(&tx, None, false);
            if !o.ok {
                return Reply::Rpc(-32002, format!("Transaction simulation failed: {}", o.err));
            }
        }
        if !s.sent.contains_key(&sig) {
            let polls = match s.fault {
                CliFault::Late(k) => *k,
                _ => 0,
            };
            s.sent.insert(sig.clone(), Sent { tx: Some(tx), polls, blockhash: h, done: None });
            if let CliFault::Dropped(k) = s.fault {
                s.fork = Some((self.state(), *k));
            }
            if !matches!(s.fault, CliFault::Late(_) | CliFault::Lost) {
                self.cli_land(s, &sig);
            }
        }
        Reply::Ok(json!(sig))
    }
}
