//! The consumers written with Anchor and the SDK's macro.
use super::*;

/// Anchor wants the account views to live as long as the accounts, as they do on chain.
unsafe fn forever<T, U>(x: &[T]) -> &'static [U] {
    assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<U>());
    std::slice::from_raw_parts(x.as_ptr().cast(), x.len())
}
fn anchor_modern(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let me = unsafe { &forever::<_, Pubkey>(std::slice::from_ref(me))[0] };
    let infos = unsafe { forever::<_, AccountInfo<'static>>(infos) };
    anchor_modern::entry(me, infos, unsafe { forever(data) })
}
fn anchor_compat(me: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let infos = unsafe {
        forever::<_, solana_program2::account_info::AccountInfo<'static>>(crate::old::to_old(infos))
    };
    let me = unsafe {
        &forever::<_, solana_program2::pubkey::Pubkey>(std::slice::from_ref(me))[0]
    };
    anchor_compat::entry(me, infos, unsafe { forever(data) }).map_err(|e| ProgramError::from(u64::from(e)))
}

/// A request through one of the Anchor consumers; see `anchor/consumer.rs`.
pub fn anchor_request(
    program: &Pubkey,
    style: u8,
    payer: &Pubkey,
    queue: &Pubkey,
    high: bool,
    seed: [u8; 32],
    metas: Option<Vec<([u8; 32], bool, bool)>>,
    args: Option<Vec<u8>>,
) -> Instruction {
    let (p, q) = (payer.to_bytes(), queue.to_bytes());
    let (m, data) = if program == &CONS_M {
        let w = anchor_modern::Wanted { high, seed, metas, args };
        anchor_modern::request(style, p, q, w)
    } else {
        let w = anchor_compat::Wanted { high, seed, metas, args };
        anchor_compat::request(style, p, q, w)
    };
    Instruction {
        program_id: *program,
        accounts: m
            .into_iter()
            .map(|(k, s, w)| AccountMeta {
                pubkey: Pubkey::new_from_array(k),
                is_signer: s,
                is_writable: w,
            })
            .collect(),
        data,
    }
}
pub fn is_anchor(program: &Pubkey) -> bool {
    program == &CONS_M || program == &CONS_N
}
pub fn anchor_disc(program: &Pubkey, note: bool) -> Vec<u8> {
    if program == &CONS_M {
        anchor_modern::disc(note)
    } else {
        anchor_compat::disc(note)
    }
}
pub fn anchor_note(program: &Pubkey, accounts: u8, blob: Vec<u8>) -> Vec<u8> {
    if program == &CONS_M {
        anchor_modern::note(accounts, blob)
    } else {
        anchor_compat::note(accounts, blob)
    }
}

native_vm!(modern_vm, anchor_modern);
native_vm!(compat_vm, anchor_compat);

pub fn programs() -> Vec<(Pubkey, &'static str, VmFn)> {
    vec![
        (CONS_M, "consumer_m", modern_vm as VmFn),
        (CONS_N, "consumer_n", compat_vm as VmFn),
    ]
}
