//! The fixed cast of the simulation. Every key is derived from its number.
use curve25519_dalek::Scalar;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::sync::OnceLock;

pub type Who = u8;
pub const ADMIN: Who = 0;
pub const ADMIN2: Who = 1;
pub const O0: Who = 2;
pub const O1: Who = 3;
/// a registered oracle controlled by the attacker
pub const M: Who = 4;
/// oracle whose queue 0 is the default ephemeral queue
pub const EPH: Who = 5;
pub const C0: Who = 6;
pub const C1: Who = 7;
pub const C2: Who = 8;
pub const U0: Who = 10;
pub const U1: Who = 11;
pub const U2: Who = 12;
/// the attacker's wallet
pub const X: Who = 13;
/// rollup validator
pub const VAL: Who = 14;
pub const N: usize = 16;

pub fn attacker(w: Who) -> bool {
    w == X || w == M
}

pub struct Actor {
    pub kp: Keypair,
    pub key: Pubkey,
    pub sk: Scalar,
    pub pk: [u8; 32],
}

static CAST: OnceLock<Vec<Actor>> = OnceLock::new();
pub fn cast() -> &'static [Actor] {
    CAST.get_or_init(|| {
        (0..N)
            .map(|i| {
                let seed = |s: String| solana_program::hash::hash(s.as_bytes()).to_bytes();
                let seed = match i as u8 {
                    EPH => [0xE9; 32],
                    // the address begins as O0's
                    O1 => seed("actor 467605x".into()),
                    // the address ends as O0's
                    C0 => seed("actor 66082x".into()),
                    _ => seed(format!("actor {i}")),
                };
                let kp = Keypair::new_from_array(seed);
                let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
                Actor {
                    key: kp.pubkey(),
                    sk,
                    pk: pk.compress().to_bytes(),
                    kp,
                }
            })
            .collect()
    })
}
pub fn key(w: Who) -> Pubkey {
    cast()[w as usize % N].key
}
pub fn who(k: &Pubkey) -> Option<Who> {
    cast().iter().position(|a| &a.key == k).map(|i| i as u8)
}
