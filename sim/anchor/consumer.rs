//! An honest consumer program written with Anchor and the SDK's macro, the way the SDK's
//! documentation does it. Compiled twice: with the current Anchor and plain SDK, and with the
//! old Anchor and the SDK's compatibility features.
#![allow(unexpected_cfgs, deprecated)]
use anchor_lang::prelude::*;
use anchor_lang::Discriminator;
use ephemeral_vrf_sdk::anchor::{vrf, VrfProgram};
use ephemeral_vrf_sdk::consts::{IDENTITY, VRF_PROGRAM_IDENTITY};
use ephemeral_vrf_sdk::instructions::{
    create_request_randomness_ix, create_request_regular_randomness_ix, RequestRandomnessParams,
};
use ephemeral_vrf_sdk::rnd;
use ephemeral_vrf_sdk::types::SerializableAccountMeta;

#[cfg(feature = "modern")]
declare_id!("ConsM1111111111111111111111111111111111123A");
#[cfg(feature = "compat")]
declare_id!("ConsN11111111111111111111111111111111111227");

#[derive(AnchorSerialize, AnchorDeserialize, Clone)]
pub struct Wanted {
    pub high: bool,
    pub seed: [u8; 32],
    pub metas: Option<Vec<([u8; 32], bool, bool)>>,
    pub args: Option<Vec<u8>>,
}

/// what the consumer wants to be told when it is called back
#[derive(AnchorSerialize, AnchorDeserialize, Clone)]
pub struct Note {
    pub accounts: u8,
    pub blob: Vec<u8>,
    pub sum: u64,
}

pub fn sum(accounts: u8, blob: &[u8]) -> u64 {
    blob.iter()
        .fold(0xcbf29ce484222325 ^ accounts as u64, |h, b| {
            (h ^ *b as u64).wrapping_mul(0x100000001b3)
        })
}

fn build(w: Wanted, payer: Pubkey, queue: Pubkey) -> ephemeral_vrf_sdk::compat::Instruction {
    let p = RequestRandomnessParams {
        payer,
        oracle_queue: queue,
        callback_program_id: crate::ID,
        callback_discriminator: if w.args.is_some() {
            instruction::ConsumeNote::DISCRIMINATOR.to_vec()
        } else {
            instruction::ConsumePlain::DISCRIMINATOR.to_vec()
        },
        caller_seed: w.seed,
        accounts_metas: w.metas.map(|m| {
            m.into_iter()
                .map(|(k, s, wr)| SerializableAccountMeta {
                    pubkey: Pubkey::new_from_array(k),
                    is_signer: s,
                    is_writable: wr,
                })
                .collect()
        }),
        callback_args: w.args,
    };
    if w.high {
        create_request_randomness_ix(p)
    } else {
        create_request_regular_randomness_ix(p)
    }
}

fn use_randomness(r: &[u8; 32]) -> Result<()> {
    let (lo, hi) = (r[0].min(r[1]), r[0].max(r[1]));
    let v = rnd::random_u8_with_range(r, lo, hi);
    require!(v >= lo && v <= hi, Err::OutOfRange);
    let _ = (rnd::random_u32(r), rnd::random_bool(r));
    Ok(())
}

#[program]
pub mod consumer {
    use super::*;

    pub fn request_macro(ctx: Context<RequestMacro>, w: Wanted) -> Result<()> {
        let ix = build(w, ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key());
        ctx.accounts
            .invoke_signed_vrf(&ctx.accounts.payer.to_account_info(), &ix)?;
        Ok(())
    }

    pub fn request_declared(ctx: Context<RequestDeclared>, w: Wanted) -> Result<()> {
        let ix = build(w, ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key());
        ctx.accounts
            .invoke_signed_vrf(&ctx.accounts.payer.to_account_info(), &ix)?;
        Ok(())
    }

    pub fn request_manual(ctx: Context<RequestManual>, w: Wanted) -> Result<()> {
        let ix = build(w, ctx.accounts.payer.key(), ctx.accounts.oracle_queue.key());
        anchor_lang::solana_program::program::invoke_signed(
            &ix,
            &[
                ctx.accounts.payer.to_account_info(),
                ctx.accounts.program_identity.to_account_info(),
                ctx.accounts.oracle_queue.to_account_info(),
                ctx.accounts.system_program.to_account_info(),
                ctx.accounts.slot_hashes.to_account_info(),
            ],
            &[&[IDENTITY, &[ctx.bumps.program_identity]]],
        )?;
        Ok(())
    }

    pub fn consume_plain(_ctx: Context<Consume>, randomness: [u8; 32]) -> Result<()> {
        use_randomness(&randomness)
    }

    pub fn consume_note(ctx: Context<Consume>, randomness: [u8; 32], note: Note) -> Result<()> {
        require!(note.sum == sum(note.accounts, &note.blob), Err::Garbled);
        require!(
            ctx.remaining_accounts.len() == note.accounts as usize,
            Err::Accounts
        );
        use_randomness(&randomness)
    }
}

#[error_code]
pub enum Err {
    OutOfRange,
    Garbled,
    Accounts,
}

#[vrf]
#[derive(Accounts)]
pub struct RequestMacro<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
}

/// the macro's fields declared by the program itself
#[vrf]
#[derive(Accounts)]
pub struct RequestDeclared<'info> {
    pub system_program: Program<'info, System>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: the slot hashes
    #[account(address = ephemeral_vrf_sdk::compat::slot_hashes::ID)]
    pub slot_hashes: UncheckedAccount<'info>,
    /// CHECK: the identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
}

#[derive(Accounts)]
pub struct RequestManual<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: the identity
    #[account(seeds = [IDENTITY], bump)]
    pub program_identity: UncheckedAccount<'info>,
    /// CHECK: the oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
    /// CHECK: the slot hashes
    #[account(address = ephemeral_vrf_sdk::compat::slot_hashes::ID)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
}

#[derive(Accounts)]
pub struct Consume<'info> {
    /// the VRF program's signature is what makes the randomness trustworthy
    #[account(address = VRF_PROGRAM_IDENTITY)]
    pub vrf_program_identity: Signer<'info>,
}

/// For the simulator's client: the accounts and data of a request through this program.
/// `style`: 0 macro, 1 macro with every field declared, 2 by hand.
pub fn request(
    style: u8,
    payer: [u8; 32],
    queue: [u8; 32],
    w: Wanted,
) -> (Vec<([u8; 32], bool, bool)>, Vec<u8>) {
    use anchor_lang::{InstructionData, ToAccountMetas};
    let k = Pubkey::new_from_array;
    let (payer, oracle_queue) = (k(payer), k(queue));
    let program_identity = Pubkey::find_program_address(&[b"identity"], &ID).0;
    let vrf_program = <VrfProgram as anchor_lang::Id>::id();
    let slot_hashes = ephemeral_vrf_sdk::compat::slot_hashes::ID;
    let system_program = <System as anchor_lang::Id>::id();
    let (m, d) = match style {
        0 => (
            accounts::RequestMacro {
                payer,
                oracle_queue,
                program_identity,
                vrf_program,
                slot_hashes,
                system_program,
            }
            .to_account_metas(None),
            instruction::RequestMacro { w }.data(),
        ),
        1 => (
            accounts::RequestDeclared {
                payer,
                oracle_queue,
                program_identity,
                vrf_program,
                slot_hashes,
                system_program,
            }
            .to_account_metas(None),
            instruction::RequestDeclared { w }.data(),
        ),
        _ => (
            accounts::RequestManual {
                payer,
                oracle_queue,
                program_identity,
                vrf_program,
                slot_hashes,
                system_program,
            }
            .to_account_metas(None),
            instruction::RequestManual { w }.data(),
        ),
    };
    (
        m.iter()
            .map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable))
            .collect(),
        d,
    )
}

/// the callback's discriminator for a request with or without a note
pub fn disc(note: bool) -> Vec<u8> {
    if note {
        instruction::ConsumeNote::DISCRIMINATOR.to_vec()
    } else {
        instruction::ConsumePlain::DISCRIMINATOR.to_vec()
    }
}

pub fn note(accounts: u8, blob: Vec<u8>) -> Vec<u8> {
    let n = Note {
        accounts,
        sum: sum(accounts, &blob),
        blob,
    };
    let mut v = vec![];
    n.serialize(&mut v).unwrap();
    v
}
