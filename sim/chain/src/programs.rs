//! The programs of the simulated chain: the real VRF program and small stand-ins for the
//! consumers, the delegation program and the magic program.
use crate::native_vm;
use crate::svm::VmFn;
use borsh::BorshDeserialize;
use ephemeral_rollups_sdk::consts::{DELEGATION_PROGRAM_ID, MAGIC_PROGRAM_ID};
use serde::{Deserialize, Serialize};
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program::{invoke, invoke_signed};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::sysvar::Sysvar;
use solana_system_interface::{instruction as sys, program as system_program};

pub const VRF: Pubkey = Pubkey::from_str_const("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
/// honest consumers
pub const CONS_A: Pubkey = Pubkey::from_str_const("ConsA11111111111111111111111111111111111111");
pub const CONS_B: Pubkey = Pubkey::from_str_const("ConsB1111111111111111111111111111111111124G");
/// hostile consumer, controlled by the attacker
pub const CONS_H: Pubkey = Pubkey::from_str_const("ConsH11111111111111111111111111111111111111");
/// honest consumers written with Anchor and the SDK's macro (current and old Anchor)
pub const CONS_M: Pubkey = Pubkey::from_str_const("ConsM1111111111111111111111111111111111123A");
pub const CONS_N: Pubkey = Pubkey::from_str_const("ConsN11111111111111111111111111111111111227");
pub const DLP: Pubkey = Pubkey::new_from_array(DELEGATION_PROGRAM_ID.to_bytes());
pub const MAGIC: Pubkey = Pubkey::new_from_array(MAGIC_PROGRAM_ID.to_bytes());

pub const IDENTITY_SEED: &[u8] = b"identity";
pub const PROXY: &[u8; 8] = b"PROXYCPI";
pub const BEHAVE: [u8; 3] = [0xBE, 0x4A, 0xF1];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProxyArgs {
    pub program: [u8; 32],
    pub metas: Vec<([u8; 32], bool, bool)>,
    pub data: Vec<u8>,
    /// sign with the consumer's own identity PDA
    pub sign: bool,
}

/// What a consumer does when called back; chosen by a marker in the callback arguments.
pub mod behave {
    pub const OK: u8 = 0;
    pub const FAIL: u8 = 1;
    /// fails until the slot in the next 8 bytes
    pub const FLAKY: u8 = 2;
    pub const PANIC: u8 = 3;
    /// calls the program in account 1 passing the VRF identity's signature on
    pub const FORWARD: u8 = 4;
    /// calls the VRF program again
    pub const REENTER: u8 = 5;
}

pub fn identity(program: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[IDENTITY_SEED], program)
}

fn proxy(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let a: ProxyArgs =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let ix = Instruction {
        program_id: Pubkey::new_from_array(a.program),
        accounts: a
            .metas
            .iter()
            .map(|(k, s, w)| AccountMeta {
                pubkey: Pubkey::new_from_array(*k),
                is_signer: *s,
                is_writable: *w,
            })
            .collect(),
        data: a.data,
    };
    if a.sign {
        let (_, bump) = identity(me);
        invoke_signed(&ix, infos, &[&[IDENTITY_SEED, &[bump]]])
    } else {
        invoke(&ix, infos)
    }
}

fn consumer(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() >= 8 && &data[..8] == PROXY {
        return proxy(me, infos, &data[8..]);
    }
    let Some(p) = data.windows(3).rposition(|w| w == BEHAVE) else {
        return Ok(());
    };
    let kind = *data.get(p + 3).unwrap_or(&0);
    match kind {
        behave::FAIL => Err(ProgramError::Custom(0xFA11)),
        behave::FLAKY => {
            let until = data
                .get(p + 4..p + 12)
                .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                .unwrap_or(0);
            if Clock::get()?.slot < until {
                return Err(ProgramError::Custom(0xF1A));
            }
            Ok(())
        }
        behave::PANIC => panic!("consumer panics"),
        // only the hostile consumer passes the VRF identity's signature on
        behave::FORWARD if me != &CONS_H => Ok(()),
        behave::FORWARD => {
            let id = infos.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            let target = infos.get(1).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut d = vec![7u8; 8];
            d.extend_from_slice(&[0x42; 32]);
            invoke(
                &Instruction {
                    program_id: *target.key,
                    accounts: vec![AccountMeta::new_readonly(*id.key, true)],
                    data: d,
                },
                infos,
            )
        }
        behave::REENTER => invoke(
            &Instruction {
                program_id: VRF,
                accounts: infos
                    .iter()
                    .map(|i| AccountMeta {
                        pubkey: *i.key,
                        is_signer: i.is_signer,
                        is_writable: i.is_writable,
                    })
                    .collect(),
                data: vec![9, 0, 0, 0, 0, 0, 0, 0, 0],
            },
            infos,
        ),
        _ => Ok(()),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CommitArgs {
    pub lamports: u64,
    pub data: Vec<u8>,
}
/// first bytes of the simulated delegation program's commit-and-undelegate instruction
pub const DLP_COMMIT: [u8; 8] = [0xC0, 0, 0, 0, 0, 0, 0, 0];
pub const EXTERNAL_UNDELEGATE: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];

pub fn record_pda(acct: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"delegation", acct.as_ref()], &DLP)
}
pub fn metadata_pda(acct: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"delegation-metadata", acct.as_ref()], &DLP)
}
pub fn undelegate_buffer_pda(acct: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"undelegate-buffer", acct.as_ref()], &DLP)
}

fn close(a: &AccountInfo, to: &AccountInfo) -> ProgramResult {
    **to.try_borrow_mut_lamports()? += a.lamports();
    **a.try_borrow_mut_lamports()? = 0;
    a.resize(0)?;
    a.assign(&system_program::ID);
    Ok(())
}

fn dlp(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let create = |payer: &AccountInfo, a: &AccountInfo, seeds: &[&[u8]], content: &[u8]| {
        let (k, bump) = Pubkey::find_program_address(seeds, me);
        if &k != a.key {
            return Err(ProgramError::InvalidSeeds);
        }
        let mut s = seeds.to_vec();
        let b = [bump];
        s.push(&b);
        let need = Rent::get()?.minimum_balance(content.len()).saturating_sub(a.lamports());
        invoke(&sys::transfer(payer.key, a.key, need), infos)?;
        invoke_signed(&sys::allocate(a.key, content.len() as u64), infos, &[&s])?;
        invoke_signed(&sys::assign(a.key, me), infos, &[&s])?;
        a.try_borrow_mut_data()?.copy_from_slice(content);
        Ok(())
    };
    if data[..8] == [0; 8] {
        let [payer, acct, owner, buffer, record, metadata, _system] = infos else {
            return Err(ProgramError::NotEnoughAccountKeys);
        };
        if !payer.is_signer || !acct.is_signer || acct.owner != me {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let args = ephemeral_rollups_sdk::types::DelegateAccountArgs::try_from_slice(&data[8..])
            .map_err(|_| ProgramError::InvalidInstructionData)?;
        let seeds: Vec<&[u8]> = args.seeds.iter().map(|s| s.as_slice()).collect();
        if &Pubkey::find_program_address(&seeds, owner.key).0 != acct.key {
            return Err(ProgramError::InvalidSeeds);
        }
        if !acct.data_is_empty() {
            let b = buffer.try_borrow_data()?;
            acct.try_borrow_mut_data()?.copy_from_slice(&b);
        }
        create(payer, record, &[b"delegation", acct.key.as_ref()], owner.key.as_ref())?;
        let md = borsh::to_vec(&args.seeds).unwrap();
        create(payer, metadata, &[b"delegation-metadata", acct.key.as_ref()], &md)?;
        return Ok(());
    }
    if data[..8] == DLP_COMMIT {
        let [validator, acct, owner, buffer, record, metadata, system] = infos else {
            return Err(ProgramError::NotEnoughAccountKeys);
        };
        if !validator.is_signer || acct.owner != me || record.owner != me || metadata.owner != me {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if record.key != &record_pda(acct.key).0 || *record.try_borrow_data()? != owner.key.as_ref()
        {
            return Err(ProgramError::InvalidSeeds);
        }
        let args: CommitArgs =
            bincode::deserialize(&data[8..]).map_err(|_| ProgramError::InvalidInstructionData)?;
        create(validator, buffer, &[b"undelegate-buffer", acct.key.as_ref()], &args.data)?;
        close(acct, validator)?;
        let mut d = EXTERNAL_UNDELEGATE.to_vec();
        d.extend_from_slice(&metadata.try_borrow_data()?);
        let bump = [undelegate_buffer_pda(acct.key).1];
        invoke_signed(
            &Instruction {
                program_id: *owner.key,
                accounts: vec![
                    AccountMeta::new(*acct.key, false),
                    AccountMeta::new(*buffer.key, true),
                    AccountMeta::new(*validator.key, true),
                    AccountMeta::new_readonly(*system.key, false),
                ],
                data: d,
            },
            infos,
            &[&[b"undelegate-buffer", acct.key.as_ref(), &bump]],
        )?;
        if acct.owner != owner.key || *acct.try_borrow_data()? != args.data.as_slice() {
            return Err(ProgramError::Custom(0xD1));
        }
        let now = acct.lamports();
        if now < args.lamports {
            invoke(&sys::transfer(validator.key, acct.key, args.lamports - now), infos)?;
        }
        close(buffer, validator)?;
        close(record, validator)?;
        close(metadata, validator)?;
        return Ok(());
    }
    Err(ProgramError::InvalidInstructionData)
}

/// Stand-in for the rollup's magic program: accepts a schedule request; the driver acts on it.
fn magic(_me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() < 4 || infos.len() < 2 || !infos[0].is_signer {
        return Err(ProgramError::InvalidInstructionData);
    }
    Ok(())
}

#[cfg(feature = "anchor")]
mod anchored;
#[cfg(feature = "anchor")]
pub use anchored::*;
#[cfg(not(feature = "anchor"))]
mod anchored {
    use super::*;
    pub fn is_anchor(_: &Pubkey) -> bool {
        false
    }
    pub fn anchor_request(
        _program: &Pubkey,
        _style: u8,
        _payer: &Pubkey,
        _queue: &Pubkey,
        _high: bool,
        _seed: [u8; 32],
        _metas: Option<Vec<([u8; 32], bool, bool)>>,
        _args: Option<Vec<u8>>,
    ) -> Instruction {
        unreachable!()
    }
    pub fn anchor_disc(_: &Pubkey, _: bool) -> Vec<u8> {
        unreachable!()
    }
    pub fn anchor_note(_: &Pubkey, _: u8, _: Vec<u8>) -> Vec<u8> {
        unreachable!()
    }
    pub fn programs() -> Vec<(Pubkey, &'static str, VmFn)> {
        vec![]
    }
}
#[cfg(not(feature = "anchor"))]
pub use anchored::*;

pub fn is_honest(program: &Pubkey) -> bool {
    program == &CONS_A || program == &CONS_B || is_anchor(program)
}

/// the program of the tree, or the published one where it has not been upgraded yet
fn vrf(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if crate::svm::OLD.with(|o| o.get()) {
        return pinned_program::process_instruction(me, infos, data);
    }
    ephemeral_vrf_program::process_instruction(me, infos, data)
}

native_vm!(vrf_vm, vrf);
native_vm!(consumer_vm, consumer);
native_vm!(dlp_vm, dlp);
native_vm!(magic_vm, magic);

pub fn base_programs() -> Vec<(Pubkey, &'static str, VmFn)> {
    let mut v = vec![
        (VRF, "vrf", vrf_vm as VmFn),
        (CONS_A, "consumer_a", consumer_vm as VmFn),
        (CONS_B, "consumer_b", consumer_vm as VmFn),
        (CONS_H, "consumer_h", consumer_vm as VmFn),
        (DLP, "dlp", dlp_vm as VmFn),
        (MAGIC, "magic", magic_vm as VmFn),
    ];
    v.extend(anchored::programs());
    v
}

pub fn proxied(program: &Pubkey, ix: &Instruction, sign: bool) -> Instruction {
    let (id, _) = identity(program);
    let args = ProxyArgs {
        program: ix.program_id.to_bytes(),
        metas: ix
            .accounts
            .iter()
            .map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable))
            .collect(),
        data: ix.data.clone(),
        sign,
    };
    let mut data = PROXY.to_vec();
    data.extend_from_slice(&bincode::serialize(&args).unwrap());
    let mut accounts: Vec<AccountMeta> = ix
        .accounts
        .iter()
        .map(|m| AccountMeta {
            pubkey: m.pubkey,
            // the identity PDA is signed for inside
            is_signer: m.is_signer && !(sign && m.pubkey == id),
            is_writable: m.is_writable,
        })
        .collect();
    accounts.push(AccountMeta::new_readonly(ix.program_id, false));
    Instruction {
        program_id: *program,
        accounts,
        data,
    }
}
