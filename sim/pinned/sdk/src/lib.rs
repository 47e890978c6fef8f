pub mod compat;
pub mod consts;
pub mod instructions;
pub mod pda;
pub mod types;
pub use compat::Pubkey;
pub const fn id() -> Pubkey {
    consts::VRF_PROGRAM_ID
}
