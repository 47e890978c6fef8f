//! A simulated Solana bank around the real `solana-svm` transaction processor.
use crate::native::{self, Call, TRACE};
use solana_account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_clock::Clock;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program_runtime::execution_budget::{
    SVMTransactionExecutionAndFeeBudgetLimits, SVMTransactionExecutionBudget,
};
use solana_program_runtime::loaded_programs::{BlockRelation, ForkGraph, ProgramCacheEntry};
use solana_rent::Rent;
use solana_sdk::hash::{hashv, Hash};
use solana_sdk_ids::{native_loader, sysvar};
use solana_svm::account_loader::CheckedTransactionDetails;
use solana_svm::transaction_processing_result::ProcessedTransaction;
use solana_svm::transaction_processor::{
    ExecutionRecordingConfig, TransactionBatchProcessor, TransactionProcessingConfig,
    TransactionProcessingEnvironment,
};
use solana_svm_callback::{InvokeContextCallback, TransactionProcessingCallback};
use solana_svm_feature_set::SVMFeatureSet;
use solana_transaction::sanitized::SanitizedTransaction;
use solana_transaction::Transaction;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::num::NonZeroU32;
use std::sync::{Arc, OnceLock, RwLock};

pub type Accounts = BTreeMap<Pubkey, AccountSharedData>;

pub struct Fg;
impl ForkGraph for Fg {
    fn relationship(&self, a: u64, b: u64) -> BlockRelation {
        match a.cmp(&b) {
            std::cmp::Ordering::Less => BlockRelation::Ancestor,
            std::cmp::Ordering::Equal => BlockRelation::Equal,
            std::cmp::Ordering::Greater => BlockRelation::Descendant,
        }
    }
}

struct View(RefCell<Accounts>);
impl InvokeContextCallback for View {}
impl TransactionProcessingCallback for View {
    fn get_account_shared_data(&self, k: &Pubkey) -> Option<(AccountSharedData, u64)> {
        self.0.borrow().get(k).map(|a| (a.clone(), 0))
    }
    fn add_builtin_account(&self, name: &str, id: &Pubkey) {
        let mut a = AccountSharedData::new(1_000_000, name.len(), &native_loader::id());
        a.set_data_from_slice(name.as_bytes());
        a.set_executable(true);
        self.0.borrow_mut().insert(*id, a);
    }
}

pub type VmFn = for<'a> fn(
    *mut solana_program_runtime::solana_sbpf::vm::EbpfVm<
        'a,
        solana_program_runtime::invoke_context::InvokeContext<'static>,
    >,
    u64,
    u64,
    u64,
    u64,
    u64,
);

thread_local! {
    /// the transaction runs on a chain that has the published version of the VRF program
    pub static OLD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

static NATIVE: OnceLock<RwLock<HashSet<Pubkey>>> = OnceLock::new();
pub fn is_native(p: &Pubkey) -> bool {
    NATIVE
        .get()
        .map(|s| s.read().unwrap().contains(p))
        .unwrap_or(false)
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub payer: Pubkey,
    pub ixs: Vec<Instruction>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub calls: Vec<Call>,
    pub logs: Vec<String>,
    pub halted: bool,
    /// number of syscalls the transaction made
    pub syscalls: u64,
    pub slot: u64,
    /// what the calls of the program under test used at most
    pub heap: usize,
    pub steps: u64,
}

#[derive(Clone)]
pub struct Snapshot {
    pub accounts: Accounts,
    pub slot: u64,
    pub time: i64,
    pub slot_hashes: Vec<(u64, [u8; 32])>,
}

pub struct Chain {
    view: View,
    pub slot: u64,
    pub time: i64,
    pub slot_hashes: Vec<(u64, [u8; 32])>,
    base: TransactionBatchProcessor<Fg>,
    proc: TransactionBatchProcessor<Fg>,
    _fg: Arc<RwLock<Fg>>,
    reserved: HashSet<Pubkey>,
    /// accounts that may be written on this chain (ephemeral rollup: only delegated ones)
    pub writable_filter: Option<HashSet<Pubkey>>,
    salt: [u8; 32],
    /// the VRF program here is the published version, not the tree's
    pub old: bool,
    /// the program's heap and instructions are bounded as on chain
    pub bounded: bool,
}

const EPOCH_LEN: u64 = 432_000;

impl Chain {
    pub fn new(programs: &[(Pubkey, &str, VmFn)], salt: [u8; 32], slot: u64, time: i64) -> Self {
        native::install();
        let fg = Arc::new(RwLock::new(Fg));
        let base = TransactionBatchProcessor::new(slot, slot / EPOCH_LEN, Arc::downgrade(&fg), None, None);
        let view = View(RefCell::new(BTreeMap::new()));
        let nat = NATIVE.get_or_init(Default::default);
        for (id, name, f) in programs {
            if !is_native(id) {
                nat.write().unwrap().insert(*id);
            }
            base.add_builtin(&view, *id, name, ProgramCacheEntry::new_builtin(0, name.len(), *f));
        }
        base.add_builtin(
            &view,
            solana_sdk_ids::system_program::id(),
            "system_program",
            ProgramCacheEntry::new_builtin(
                0,
                14,
                solana_system_program::system_processor::Entrypoint::vm,
            ),
        );
        base.add_builtin(
            &view,
            solana_sdk_ids::compute_budget::id(),
            "compute_budget",
            ProgramCacheEntry::new_builtin(0, 14, solana_compute_budget_program::Entrypoint::vm),
        );
        let proc = base.new_from(slot, slot / EPOCH_LEN);
        let mut c = Chain {
            view,
            slot,
            time,
            slot_hashes: vec![],
            base,
            proc,
            _fg: fg,
            reserved: agave_reserved_account_keys::ReservedAccountKeys::new_all_activated().active,
            writable_filter: None,
            salt,
            old: false,
            bounded: false,
        };
        c.slot_hashes.push((slot - 1, c.hash_of(slot - 1, &[])));
        c.refresh();
        c
    }

    fn hash_of(&self, slot: u64, extra: &[u8]) -> [u8; 32] {
        hashv(&[&self.salt, &slot.to_le_bytes(), extra]).to_bytes()
    }

    pub fn blockhash(&self) -> Hash {
        Hash::new_from_array(self.slot_hashes.last().unwrap().1)
    }

    fn put_sysvar(&mut self, id: Pubkey, data: Vec<u8>) {
        let mut a = AccountSharedData::new(
            Rent::default().minimum_balance(data.len()),
            data.len(),
            &sysvar::id(),
        );
        a.set_data_from_slice(&data);
        self.view.0.borrow_mut().insert(id, a);
    }

    fn refresh(&mut self) {
        let epoch = self.slot / EPOCH_LEN;
        let clock = Clock {
            slot: self.slot,
            epoch_start_timestamp: self.time - 10,
            epoch,
            leader_schedule_epoch: epoch + 1,
            unix_timestamp: self.time,
        };
        self.put_sysvar(sysvar::clock::id(), bincode::serialize(&clock).unwrap());
        self.put_sysvar(sysvar::rent::id(), bincode::serialize(&Rent::default()).unwrap());
        self.put_sysvar(
            sysvar::epoch_schedule::id(),
            bincode::serialize(&solana_epoch_schedule::EpochSchedule::without_warmup()).unwrap(),
        );
        // SlotHashes: u64 count then (slot, hash) newest first
        let mut d = vec![];
        let n = self.slot_hashes.len().min(512);
        d.extend_from_slice(&(n as u64).to_le_bytes());
        for (s, h) in self.slot_hashes.iter().rev().take(n) {
            d.extend_from_slice(&s.to_le_bytes());
            d.extend_from_slice(h);
        }
        d.resize(8 + 40 * 512, 0);
        self.put_sysvar(sysvar::slot_hashes::id(), d);
        self.proc = self.base.new_from(self.slot, epoch);
        self.proc.fill_missing_sysvar_cache_entries(&self.view);
    }

    /// Move to a later slot; `dt` is the change of the wall clock, which may be skewed.
    pub fn advance(&mut self, slots: u64, dt: i64, entropy: u64) {
        if slots == 0 {
            return;
        }
        let h = self.hash_of(self.slot + slots - 1, &entropy.to_le_bytes());
        self.slot_hashes.push((self.slot + slots - 1, h));
        if self.slot_hashes.len() > 512 {
            self.slot_hashes.remove(0);
        }
        self.slot += slots;
        self.time += dt;
        self.refresh();
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot {
            accounts: self.view.0.borrow().clone(),
            slot: self.slot,
            time: self.time,
            slot_hashes: self.slot_hashes.clone(),
        }
    }
    pub fn restore(&mut self, s: &Snapshot, entropy: u64) {
        *self.view.0.borrow_mut() = s.accounts.clone();
        self.slot = s.slot;
        self.time = s.time;
        self.slot_hashes = s.slot_hashes.clone();
        // a different fork has a different bank hash
        if let Some(l) = self.slot_hashes.last_mut() {
            l.1 = hashv(&[&l.1, &entropy.to_le_bytes()]).to_bytes();
        }
        self.refresh();
    }

    /// What the transaction would do if the block before this one had been another, one with a
    /// hash that differs in the given byte.
    pub fn execute_elsewhere(&mut self, tx: &Tx, byte: usize) -> Outcome {
        let real = self.slot_hashes.clone();
        if let Some(l) = self.slot_hashes.last_mut() {
            l.1[byte % 32] ^= 0x5A;
        }
        self.refresh();
        let o = self.execute(tx, None, false);
        self.slot_hashes = real;
        self.refresh();
        o
    }

    pub fn get(&self, k: &Pubkey) -> Option<AccountSharedData> {
        self.view.0.borrow().get(k).cloned().filter(|a| a.lamports() > 0)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> Vec<u8> {
        self.get(k).map(|a| a.data().to_vec()).unwrap_or_default()
    }
    pub fn set(&mut self, k: Pubkey, a: AccountSharedData) {
        self.view.0.borrow_mut().insert(k, a);
    }
    pub fn remove(&mut self, k: &Pubkey) {
        self.view.0.borrow_mut().remove(k);
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        let mut v = self.view.0.borrow_mut();
        let a = v.entry(k).or_default();
        a.set_lamports(a.lamports() + lamports);
    }
    pub fn all_owned(&self, owner: &Pubkey) -> Vec<(Pubkey, AccountSharedData)> {
        self.view
            .0
            .borrow()
            .iter()
            .filter(|(_, a)| a.owner() == owner && a.lamports() > 0)
            .map(|(k, a)| (*k, a.clone()))
            .collect()
    }
    pub fn accounts_len(&self) -> usize {
        self.view.0.borrow().len()
    }

    /// Execute a transaction whose signatures were already checked by the caller.
    pub fn execute(&mut self, tx: &Tx, halt_at: Option<u64>, commit: bool) -> Outcome {
        let mut t = Transaction::new_with_payer(&tx.ixs, Some(&tx.payer));
        t.message.recent_blockhash = self.blockhash();
        self.execute_tx(t, halt_at, commit)
    }

    pub fn execute_tx(&mut self, t: Transaction, halt_at: Option<u64>, commit: bool) -> Outcome {
        let mut out = Outcome {
            ok: false,
            err: String::new(),
            calls: vec![],
            logs: vec![],
            halted: false,
            syscalls: 0,
            slot: self.slot,
            heap: 0,
            steps: 0,
        };
        let stx = match SanitizedTransaction::try_from_legacy_transaction(t, &self.reserved) {
            Ok(s) => s,
            Err(e) => {
                out.err = format!("sanitize: {e:?}");
                return out;
            }
        };
        TRACE.with(|x| {
            *x.borrow_mut() = native::Trace {
                halt_at,
                cur_slot: self.slot,
                bounded: self.bounded,
                ..Default::default()
            }
        });
        let check = Ok(CheckedTransactionDetails::new(
            None,
            Ok(SVMTransactionExecutionAndFeeBudgetLimits {
                budget: SVMTransactionExecutionBudget::new_with_defaults(false),
                loaded_accounts_data_size_limit: NonZeroU32::new(64 * 1024 * 1024).unwrap(),
                fee_details: Default::default(),
            }),
        ));
        let env = TransactionProcessingEnvironment {
            blockhash: self.blockhash(),
            blockhash_lamports_per_signature: 5000,
            epoch_total_stake: 0,
            feature_set: SVMFeatureSet::all_enabled(),
            rent: Rent::default(),
        };
        let cfg = TransactionProcessingConfig {
            recording_config: ExecutionRecordingConfig {
                enable_cpi_recording: false,
                enable_log_recording: false,
                enable_return_data_recording: false,
                enable_transaction_balance_recording: false,
            },
            ..Default::default()
        };
        OLD.with(|o| o.set(self.old));
        let res = self.proc.load_and_execute_sanitized_transactions(
            &self.view,
            std::slice::from_ref(&stx),
            vec![check],
            &env,
            &cfg,
        );
        let tr = TRACE.with(|x| std::mem::take(&mut *x.borrow_mut()));
        out.calls = tr.calls;
        out.logs = tr.logs;
        out.halted = tr.halted;
        out.syscalls = tr.syscalls;
        out.heap = tr.heap;
        out.steps = tr.steps;
        match res.processing_results.into_iter().next().unwrap() {
            Err(e) => out.err = format!("{e:?}"),
            Ok(ProcessedTransaction::FeesOnly(f)) => out.err = format!("load: {:?}", f.load_error),
            Ok(ProcessedTransaction::Executed(e)) => match &e.execution_details.status {
                Err(er) => out.err = format!("{er:?}"),
                Ok(()) => {
                    use solana_svm_transaction::svm_message::SVMMessage;
                    if let Some(f) = &self.writable_filter {
                        // ephemeral rollup: an undelegated account cannot be modified there
                        for (i, (k, a)) in e.loaded_transaction.accounts.iter().enumerate() {
                            if stx.is_writable(i) && !f.contains(k) {
                                let old = self.view.0.borrow().get(k).cloned();
                                if old.as_ref().map(|o| o.data() != a.data() || o.owner() != a.owner()).unwrap_or(!a.data().is_empty()) {
                                    out.err = "InvalidWritableAccount".into();
                                    return out;
                                }
                            }
                        }
                    }
                    out.ok = true;
                    if commit {
                        let mut v = self.view.0.borrow_mut();
                        for (i, (k, a)) in e.loaded_transaction.accounts.iter().enumerate() {
                            if stx.is_writable(i) {
                                if a.lamports() == 0 {
                                    v.remove(k);
                                } else {
                                    v.insert(*k, a.clone());
                                }
                            }
                        }
                    }
                }
            },
        }
        out
    }
}
