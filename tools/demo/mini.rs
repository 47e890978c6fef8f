//! A small stand-in for the Solana runtime: accounts in a map, the real program entry point,
//! system program, recorded callbacks.
#![allow(dead_code)]
use ephemeral_vrf_api::prelude::*;
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use solana_system_interface::instruction::SystemInstruction;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub use ephemeral_vrf_api::prelude as api;
pub use solana_program::instruction::AccountMeta as Meta;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

thread_local! {
    pub static SLOT: Cell<u64> = const { Cell::new(1000) };
    pub static TIME: Cell<i64> = const { Cell::new(1_700_000_000) };
    pub static CALLS: RefCell<Vec<Instruction>> = const { RefCell::new(vec![]) };
    static CALLER: Cell<Pubkey> = Cell::new(Pubkey::default());
    static PRIV: RefCell<Vec<(Pubkey, bool, bool)>> = const { RefCell::new(vec![]) };
    /// programs whose calls fail
    pub static FAILING: RefCell<Vec<Pubkey>> = const { RefCell::new(vec![]) };
}

pub const RENT: fn(usize) -> u64 = |n| (n as u64 + 128) * 6960;

struct Stubs;
fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> Result<&'a AccountInfo<'b>, ProgramError> {
    infos.iter().find(|a| a.key == k).ok_or(ProgramError::NotEnoughAccountKeys)
}
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { slot: SLOT.get(), unix_timestamp: TIME.get(), ..Default::default() };
        unsafe { *(p as *mut solana_program::clock::Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = CALLER.get();
        let signers: Vec<Pubkey> = seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, &caller).unwrap())
            .collect();
        for m in &ix.accounts {
            find(infos, &m.pubkey)?;
            let p = PRIV.with(|p| p.borrow().iter().find(|x| x.0 == m.pubkey).cloned());
            let (_, s, w) = p.ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !s && !signers.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !w {
                return Err(ProgramError::Immutable);
            }
        }
        if ix.program_id == solana_system_interface::program::ID {
            let k = |i: usize| find(infos, &ix.accounts[i].pubkey);
            let pay = |from: &AccountInfo, to: &AccountInfo, l: u64| -> ProgramResult {
                if from.owner != &solana_system_interface::program::ID || from.data_len() > 0 {
                    return Err(ProgramError::InvalidArgument);
                }
                let left = from.lamports().checked_sub(l).ok_or(ProgramError::InsufficientFunds)?;
                **from.try_borrow_mut_lamports()? = left;
                let v = to.lamports() + l;
                **to.try_borrow_mut_lamports()? = v;
                Ok(())
            };
            match bincode::deserialize::<SystemInstruction>(&ix.data).unwrap() {
                SystemInstruction::Transfer { lamports } => pay(k(0)?, k(1)?, lamports),
                SystemInstruction::CreateAccount { lamports, space, owner } => {
                    if k(1)?.lamports() > 0 {
                        return Err(ProgramError::Custom(0));
                    }
                    pay(k(0)?, k(1)?, lamports)?;
                    k(1)?.resize(space as usize)?;
                    k(1)?.assign(&owner);
                    Ok(())
                }
                SystemInstruction::Allocate { space } => k(0)?.resize(space as usize),
                SystemInstruction::Assign { owner } => {
                    k(0)?.assign(&owner);
                    Ok(())
                }
                o => panic!("system instruction {o:?}"),
            }
        } else {
            if FAILING.with(|f| f.borrow().contains(&ix.program_id)) {
                return Err(ProgramError::Custom(77));
            }
            CALLS.with(|c| c.borrow_mut().push(ix.clone()));
            Ok(())
        }
    }
}

pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub admin: Keypair,
    pub payer: Keypair,
}

pub struct Oracle1 {
    pub key: Keypair,
    pub id: Pubkey,
    pub queue: Pubkey,
}

impl World {
    pub fn new() -> Self {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let kp = |n: u8| Keypair::new_from_array([n; 32]);
        let mut w = World { accts: BTreeMap::new(), admin: kp(1), payer: kp(2) };
        for k in [w.admin.pubkey(), w.payer.pubkey()] {
            w.fund(k, 1_000_000_000_000);
        }
        let loader = solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");
        let pd = Pubkey::find_program_address(&[ephemeral_vrf_api::ID.as_ref()], &loader).0;
        // UpgradeableLoaderState::ProgramData { slot, upgrade_authority_address }
        let mut d = vec![3u8, 0, 0, 0];
        d.extend(1u64.to_le_bytes());
        d.push(1);
        d.extend(w.admin.pubkey().to_bytes());
        d.extend([0; 64]);
        w.accts.insert(pd, Acct { lamports: RENT(200), data: d, owner: loader });
        let sh = solana_program::sysvar::slot_hashes::ID;
        let mut d = vec![0u8; 16 + 32 + 1000];
        d[0] = 1;
        w.accts.insert(sh, Acct { lamports: 1, data: d, owner: solana_program::pubkey!("Sysvar1111111111111111111111111111111111111") });
        let ix = api::initialize(w.payer.pubkey());
        w.ok(ix);
        w
    }
    pub fn fund(&mut self, k: Pubkey, l: u64) {
        self.accts.entry(k).or_insert(Acct { lamports: 0, data: vec![], owner: solana_system_interface::program::ID }).lamports += l;
    }
    /// to slot s, with a new slot hash
    pub fn slot(&mut self, s: u64) {
        SLOT.set(s);
        TIME.set(1_700_000_000 + s as i64 / 2);
        let d = &mut self.accts.get_mut(&solana_program::sysvar::slot_hashes::ID).unwrap().data;
        let h = solana_program::hash::hash(&s.to_le_bytes());
        d[8..16].copy_from_slice(&(s - 1).to_le_bytes());
        d[16..48].copy_from_slice(h.as_ref());
    }
    pub fn ok(&mut self, ix: Instruction) {
        if let Err(e) = self.run(ix) {
            panic!("unexpectedly failed: {e:?}")
        }
    }
    /// One instruction as one transaction: nothing changes when it fails.
    pub fn run(&mut self, ix: Instruction) -> Result<(), ProgramError> {
        assert_eq!(ix.program_id, ephemeral_vrf_api::ID);
        let mut uniq: Vec<Pubkey> = vec![];
        let mut buf: Vec<u64> = vec![];
        let mut bytes: Vec<u8> = vec![];
        bytes.extend((ix.accounts.len() as u64).to_le_bytes());
        let mut privs: Vec<(Pubkey, bool, bool)> = vec![];
        for m in &ix.accounts {
            match privs.iter_mut().find(|p| p.0 == m.pubkey) {
                Some(p) => {
                    p.1 |= m.is_signer;
                    p.2 |= m.is_writable;
                }
                None => privs.push((m.pubkey, m.is_signer, m.is_writable)),
            }
        }
        for m in &ix.accounts {
            if let Some(i) = uniq.iter().position(|k| *k == m.pubkey) {
                // index of the first meta with this key
                let i = ix.accounts.iter().position(|x| x.pubkey == uniq[i]).unwrap();
                bytes.extend([i as u8, 0, 0, 0, 0, 0, 0, 0]);
                uniq.push(m.pubkey);
                continue;
            }
            uniq.push(m.pubkey);
            let a = self.accts.get(&m.pubkey).cloned().unwrap_or(Acct { owner: solana_system_interface::program::ID, ..Default::default() });
            let p = privs.iter().find(|p| p.0 == m.pubkey).unwrap();
            bytes.extend([255, p.1 as u8, p.2 as u8, 0, 0, 0, 0, 0]);
            bytes.extend(m.pubkey.to_bytes());
            bytes.extend(a.owner.to_bytes());
            bytes.extend(a.lamports.to_le_bytes());
            bytes.extend((a.data.len() as u64).to_le_bytes());
            bytes.extend(&a.data);
            bytes.extend(vec![0; 10240]);
            while bytes.len() % 8 != 0 {
                bytes.push(0)
            }
            bytes.extend(0u64.to_le_bytes());
        }
        bytes.extend((ix.data.len() as u64).to_le_bytes());
        bytes.extend(&ix.data);
        bytes.extend(ix.program_id.to_bytes());
        while bytes.len() % 8 != 0 {
            bytes.push(0)
        }
        buf.resize(bytes.len() / 8, 0);
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), buf.as_mut_ptr() as *mut u8, bytes.len()) };
        let (pid, infos, data) = unsafe { solana_program_entrypoint::deserialize(buf.as_mut_ptr() as *mut u8) };
        CALLER.set(*pid);
        PRIV.with(|p| *p.borrow_mut() = privs.clone());
        let calls = CALLS.with(|c| c.borrow().len());
        let total = |w: &World| privs.iter().map(|p| w.accts.get(&p.0).map(|a| a.lamports).unwrap_or(0)).sum::<u64>();
        let before = total(self);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ephemeral_vrf_program::process_instruction(pid, &infos, data)
        }))
        .unwrap_or(Err(ProgramError::Custom(0xbad)));
        if let Err(e) = r {
            CALLS.with(|c| c.borrow_mut().truncate(calls));
            return Err(e);
        }
        for i in &infos {
            let new = Acct { lamports: i.lamports(), data: i.data.borrow().to_vec(), owner: *i.owner };
            if !i.is_writable {
                continue;
            }
            if new.lamports == 0 {
                self.accts.remove(i.key);
            } else {
                self.accts.insert(*i.key, new);
            }
        }
        assert_eq!(before, total(self), "lamports created or lost");
        Ok(())
    }

    /// registered oracle with a queue of `size` bytes
    pub fn oracle(&mut self, n: u8, size: u32) -> Oracle1 {
        let key = Keypair::new_from_array([100 + n; 32]);
        let id = key.pubkey();
        self.fund(id, 10_000_000_000);
        self.register(&key);
        let s = SLOT.get();
        self.slot(s + 200);
        for ix in api::initialize_oracle_queue(self.payer.pubkey(), id, 0, Some(size)) {
            self.ok(ix);
        }
        Oracle1 { key, id, queue: api::oracle_queue_pda(&id, 0).0 }
    }
    pub fn register(&mut self, key: &Keypair) {
        let pk = ephemeral_vrf::vrf::generate_vrf_keypair(key).1.compress().to_bytes();
        let ix = api::add_oracle(self.admin.pubkey(), key.pubkey(), pk);
        self.ok(ix);
    }
    pub fn request_ix(&self, queue: Pubkey, prog: Pubkey, high: bool, seed: u8, disc: &[u8], metas: &[(Pubkey, bool)], args: &[u8]) -> Instruction {
        use ephemeral_vrf_sdk::instructions as i;
        let p = i::RequestRandomnessParams {
            payer: self.payer.pubkey(),
            oracle_queue: queue,
            callback_program_id: prog,
            callback_discriminator: disc.to_vec(),
            accounts_metas: Some(metas.iter().map(|m| ephemeral_vrf_sdk::types::SerializableAccountMeta { pubkey: m.0, is_signer: false, is_writable: m.1 }).collect()),
            caller_seed: [seed; 32],
            callback_args: Some(args.to_vec()),
        };
        if high { i::create_request_randomness_ix(p) } else { i::create_request_regular_randomness_ix(p) }
    }
    pub fn items(&self, queue: Pubkey) -> Vec<QueueItem> {
        let mut d = self.accts[&queue].data[8..].to_vec();
        let q = QueueAccount::load(&mut d).unwrap();
        q.iter_items().collect()
    }
    pub fn provide_ix(&self, o: &Oracle1, queue: Pubkey, item: &QueueItem) -> Instruction {
        let sk = ephemeral_vrf::vrf::generate_vrf_keypair(&o.key).0;
        let (out, (b, h, s)) = ephemeral_vrf::vrf::compute_vrf(sk, &item.id);
        let mut ix = api::provide_randomness(
            o.id,
            queue,
            Pubkey::new_from_array(item.callback_program_id),
            item.id,
            PodRistrettoPoint(out.to_bytes()),
            PodRistrettoPoint(b.to_bytes()),
            PodRistrettoPoint(h.to_bytes()),
            PodScalar(s.to_bytes()),
        );
        let d = &self.accts[&queue].data[8..];
        ix.accounts.extend(item.account_metas(d).iter().map(|m| AccountMeta { pubkey: Pubkey::new_from_array(m.pubkey), is_signer: false, is_writable: m.is_writable != 0 }));
        ix
    }
    pub fn calls(&self) -> Vec<Instruction> {
        CALLS.with(|c| c.borrow_mut().drain(..).collect())
    }
    pub fn lamports(&self, k: Pubkey) -> u64 {
        self.accts.get(&k).map(|a| a.lamports).unwrap_or(0)
    }
}

pub fn prog(n: u8) -> Pubkey {
    Pubkey::new_from_array([200u8.wrapping_add(n); 32])
}
