//! Programs built against the previous major version of the Solana SDK, run through the same
//! machine: the account views share memory, instructions are converted.
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program2 as old;

type OldInfo<'a> = old::account_info::AccountInfo<'a>;
pub type OldEntry =
    fn(&old::pubkey::Pubkey, &[OldInfo], &[u8]) -> Result<(), old::program_error::ProgramError>;

const _: () = assert!(
    std::mem::size_of::<OldInfo<'static>>() == std::mem::size_of::<AccountInfo<'static>>()
        && std::mem::align_of::<OldInfo<'static>>() == std::mem::align_of::<AccountInfo<'static>>()
);

/// Both are `repr(C)` with the same fields (it is the loader's ABI).
pub fn to_old<'x, 'a>(infos: &'x [AccountInfo<'a>]) -> &'x [OldInfo<'a>] {
    unsafe { std::slice::from_raw_parts(infos.as_ptr() as *const OldInfo<'a>, infos.len()) }
}
fn to_new<'x, 'a>(infos: &'x [OldInfo<'a>]) -> &'x [AccountInfo<'a>] {
    unsafe { std::slice::from_raw_parts(infos.as_ptr() as *const AccountInfo<'a>, infos.len()) }
}

struct Stubs;
impl solana_sysvar2::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        ix: &old::instruction::Instruction,
        infos: &[OldInfo],
        seeds: &[&[&[u8]]],
    ) -> Result<(), old::program_error::ProgramError> {
        let ix = Instruction {
            program_id: Pubkey::new_from_array(ix.program_id.to_bytes()),
            accounts: ix
                .accounts
                .iter()
                .map(|m| AccountMeta {
                    pubkey: Pubkey::new_from_array(m.pubkey.to_bytes()),
                    is_signer: m.is_signer,
                    is_writable: m.is_writable,
                })
                .collect(),
            data: ix.data.clone(),
        };
        crate::native::call(&ix, to_new(infos), seeds)
            .map_err(|e: ProgramError| old::program_error::ProgramError::from(u64::from(e)))
    }
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
}

pub fn install() {
    solana_sysvar2::program_stubs::set_syscall_stubs(Box::new(Stubs));
}
