H = "mod mini;\nuse mini::*;\n"
R = "program/src/request_randomness.rs"
V = "vrf/src/vrf.rs"
SH = "solana_program::sysvar::slot_hashes::ID"
BUGS = [
dict(id="c26-own-recent-blocks", property="C26",
 needs="a requester that passes an account of its own in place of the slot hashes",
 breaks="the block a request's id is bound to is of the requester's choosing: the randomness can be known long before the request",
 edits=[(R, "    slothashes_account_info.is_sysvar(&slot_hashes::id())?;\n", "")],
 files={"main.rs": H + r'''
fn attempt(block: u8) -> Option<[u8; 32]> {
    SLOT.set(1000);
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    let sh = ''' + SH + r''';
    let mine = prog(77);
    let mut a = w.accts[&sh].clone();
    a.data.fill(9);
    a.owner = prog(78);
    w.accts.insert(mine, a);
    w.accts.get_mut(&sh).unwrap().data[16..48].fill(block);
    let mut ix = w.request_ix(o.queue, prog(0), true, 1, &[1], &[], &[]);
    for m in ix.accounts.iter_mut() {
        if m.pubkey == sh {
            m.pubkey = mine;
        }
    }
    w.run(ix).ok()?;
    Some(w.items(o.queue)[0].id)
}
fn main() {
    let (a, b) = (attempt(1), attempt(2));
    assert!(a.is_none() || a != b, "the id is the same whatever the block before is");
}
'''}),
dict(id="c26-block-before-last", property="C26",
 needs="comparing what is known when: two forks that part at the block before the request",
 breaks="ids are bound to an older block than the last one: the randomness is known a block early",
 edits=[(R, "try_borrow_data()?[16..48]", "try_borrow_data()?[56..88]")],
 files={"main.rs": H + r'''
fn attempt(block: u8) -> [u8; 32] {
    SLOT.set(1000);
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    w.accts.get_mut(&''' + SH + r''').unwrap().data[16..48].fill(block);
    let ix = w.request_ix(o.queue, prog(0), true, 1, &[1], &[], &[]);
    w.ok(ix);
    w.items(o.queue)[0].id
}
fn main() {
    assert!(attempt(1) != attempt(2), "the id is the same whatever the block before is");
}
'''}),
dict(id="c20-nonce-from-public-key", property="C20",
 needs="one fulfilment, from which anybody who reads the code can compute the oracle's secret",
 breaks="the proof's nonce is derived from the public key and the input: k is public, and sk = (s - k) / c",
 edits=[(V, "    let ikm = [&sk.to_bytes()[..], input].concat();", "    let ikm = [&pk.compress().to_bytes()[..], input].concat();")],
 files={"main.rs": r'''
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::scalar::Scalar;
use hkdf::Hkdf;
use sha2::Sha512;
// the nonce as anybody can guess it, from the public key
fn main() {
    let kp = solana_sdk::signature::Keypair::new_from_array([7; 32]);
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
    let input = [3u8; 32];
    let (_, (cb, _, _)) = ephemeral_vrf::vrf::compute_vrf(sk, &input);
    let hk = Hkdf::<Sha512>::new(Some(b"VRF-Ephem-Nonce"), &[pk.compress().to_bytes(), input].concat());
    let mut okm = [0u8; 64];
    hk.expand(b"VRF-Nonce", &mut okm).unwrap();
    let k = Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap());
    assert!((k * G).compress() != cb, "the nonce is computed from public data");
}
'''}),
dict(id="c20-short-secret", property="C20",
 needs="an attacker who searches the 2^32 secrets that are left",
 breaks="only four bytes of the derived key material reach the VRF secret: it can be found by search from the public key",
 edits=[(V, "    hkdf.expand(b\"VRF-Key\", &mut okm)\n        .expect(\"HKDF expansion failed\");\n", "    hkdf.expand(b\"VRF-Key\", &mut okm[..4])\n        .expect(\"HKDF expansion failed\");\n")],
 files={"main.rs": r'''
// the secrets of many identities: which bits ever differ?
fn main() {
    let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
    for i in 0..128u8 {
        let kp = solana_sdk::signature::Keypair::new_from_array([i; 32]);
        let b = ephemeral_vrf::vrf::generate_vrf_keypair(&kp).0.to_bytes();
        for j in 0..32 {
            ones[j] |= b[j];
            zeros[j] |= !b[j];
        }
    }
    let bits: u32 = (0..32).map(|j| (ones[j] & zeros[j]).count_ones()).sum();
    assert!(bits >= 250, "the secrets vary in {bits} bits only");
}
'''}),
]
