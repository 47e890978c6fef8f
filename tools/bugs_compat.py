H = "mod mini;\nuse mini::*;\nuse ephemeral_vrf_api::prelude::*;\nuse solana_sdk::signature::Signer;\n"
Q = "api/src/state/queue.rs"
BUGS = [
dict(id="c23-item-flags-swapped", property="C23",
 needs="a request of regular priority that is pending while the program is upgraded (or an oracle service built before)",
 breaks="the used flag and the priority of a stored request change places: the pending requests of the accounts written before are gone, or no longer found",
 edits=[(Q, "    pub priority_request: u8,\n    pub used: u8, // Flag: 1 = used, 0 = free (logically removed)\n", "    pub used: u8, // Flag: 1 = used, 0 = free (logically removed)\n    pub priority_request: u8,\n")],
 files={"main.rs": H + r'''
// a queue account as the deployed program wrote it: one request of regular priority
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    let s = SLOT.get();
    let d = &mut w.accts.get_mut(&o.queue).unwrap().data;
    let (item, id) = (8 + 16, [0x5au8; 32]);
    d[8..12].copy_from_slice(&1u32.to_le_bytes());
    d[12..16].copy_from_slice(&(16 + 96 + 8u32).to_le_bytes());
    d[item..item + 8].copy_from_slice(&s.to_le_bytes());
    d[item + 8..item + 40].copy_from_slice(&id);
    d[item + 40..item + 72].copy_from_slice(prog(0).as_ref());
    for (at, v) in [(72, 112u32), (76, 115), (80, 115)] {
        d[item + at..item + at + 4].copy_from_slice(&v.to_le_bytes());
    }
    d[item + 84..item + 86].copy_from_slice(&3u16.to_le_bytes());
    d[item + 91] = 1; // in use
    d[item + 96..item + 99].copy_from_slice(&[1, 2, 3]);
    w.fund(o.queue, 500_000);
    w.slot(s + 1);
    let it = w.items(o.queue);
    assert_eq!(it.len(), 1, "the pending request is not there any more");
    assert!(it[0].id == id && it[0].priority_request == 0);
    let ix = w.provide_ix(&o, o.queue, &it[0]);
    w.ok(ix);
    let c = w.calls();
    assert!(c.len() == 1 && c[0].data[..3] == [1, 2, 3], "no callback");
}
'''}),
dict(id="c23-record-fields-swapped", property="C23",
 needs="an oracle registered, with a number of open queues, before the upgrade of the program",
 breaks="the registration slot and the number of open queues change places in the oracle's record: records written before mean something else, so that their queues cannot be counted and closed",
 edits=[("api/src/state/oracle.rs", "    pub registration_slot: u64,\n    pub open_queue: u64,\n", "    pub open_queue: u64,\n    pub registration_slot: u64,\n")],
 files={"main.rs": H + r'''
// the record as the deployed program wrote it: discriminator, key, registration slot, open queues
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    let k = oracle_data_pda(&o.id).0;
    let d = &w.accts[&k].data;
    let at = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    assert!(at(40) == 1000, "registered in slot 1000, the record says {}", at(40));
    assert!(at(48) == 1, "one queue, the record says {}", at(48));
}
'''}),
dict(id="c23-request-accounts-reordered", property="C23",
 needs="a consumer program built with the SDK as published, after the upgrade of the program",
 breaks="requests expect the accounts in another order: the requests of every deployed consumer are refused",
 edits=[("program/src/request_randomness.rs", "    let [signer_info, program_identity_info, oracle_queue_info, system_program_info, slothashes_account_info] =\n", "    let [signer_info, program_identity_info, oracle_queue_info, slothashes_account_info, system_program_info] =\n"),
   ("sdk/src/instructions.rs", """            compat::latest::AccountMeta::new_readonly(compat::latest::system_program::ID, false),
            compat::latest::AccountMeta::new_readonly(compat::latest::slot_hashes::ID, false),
""", """            compat::latest::AccountMeta::new_readonly(compat::latest::slot_hashes::ID, false),
            compat::latest::AccountMeta::new_readonly(compat::latest::system_program::ID, false),
""")],
 files={"main.rs": H + r'''
// the instruction as consumers in the field build it
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    let mut ix = w.request_ix(o.queue, prog(0), true, 1, &[1, 2, 3], &[], &[]);
    let payer = w.payer.pubkey();
    let id = solana_program::pubkey::Pubkey::find_program_address(&[b"identity"], &prog(0)).0;
    let m = Meta::new_readonly;
    ix.accounts = vec![
        Meta::new(payer, true),
        m(id, true),
        Meta::new(o.queue, false),
        m(solana_system_interface::program::ID, false),
        m(solana_program::sysvar::slot_hashes::ID, false),
    ];
    w.ok(ix);
    assert_eq!(w.items(o.queue).len(), 1);
}
'''}),
dict(id="c23-key-derivation", property="C23",
 needs="an oracle that was registered before its service is replaced by the new build",
 breaks="the service derives another VRF key from the same identity: what is registered is no longer its key, and its proofs are refused",
 edits=[("vrf/src/vrf.rs", "    let sk = Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap());\n    let pk", "    let sk = Scalar::from_bytes_mod_order_wide(&okm);\n    let pk")],
 files={"main.rs": r'''
// the key of the identity [7; 32], as registered for it by the released tool
fn main() {
    use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_TABLE, scalar::Scalar};
    let kp = solana_sdk::signature::Keypair::new_from_array([7; 32]);
    let hk = hkdf::Hkdf::<sha2::Sha512>::new(Some(b"VRF-Solana-SecretKey"), &kp.to_bytes());
    let mut okm = [0u8; 32];
    hk.expand(b"VRF-Key", &mut okm).unwrap();
    let registered = &Scalar::from_bytes_mod_order(okm) * RISTRETTO_BASEPOINT_TABLE;
    let now = ephemeral_vrf::vrf::generate_vrf_keypair(&kp).1;
    assert!(registered == now, "the identity's VRF key has changed");
}
'''}),
dict(id="c23-challenge-domain", property="C23",
 needs="an oracle service built before the upgrade of the program, or after it against the deployed program",
 breaks="prover and verifier agree on a new domain tag, so that the proofs of the running services are refused from the upgrade on",
 edits=[("api/src/consts.rs", 'b"VRF-Ephem-Challenge"', 'b"VRF-Ephem-Challenge-v2"'), ("vrf/src/consts.rs", 'b"VRF-Ephem-Challenge"', 'b"VRF-Ephem-Challenge-v2"')],
 files={"main.rs": H + r"""
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, scalar::Scalar};
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};
fn h(parts: &[&[u8]]) -> Scalar {
    Scalar::from_bytes_mod_order(solana_sdk::hash::hash(&parts.concat()).to_bytes())
}
// a proof as the running services make it
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    let s = SLOT.get();
    let ix = w.request_ix(o.queue, prog(0), true, 1, &[1, 2, 3], &[], &[]);
    w.ok(ix);
    w.slot(s + 1);
    let it = w.items(o.queue)[0];
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&o.key);
    let p = h(&[b"VRF-Ephem-HashToPoint", &it.id]) * G;
    let k = Scalar::from(123456789u64);
    let [out, cb, ch] = [sk * p, k * G, k * p].map(|x| x.compress().to_bytes());
    let t = solana_sdk::hash::hash(&[&b"VRF-Ephem-Challenge"[..], &out, &cb, &ch, &pk.compress().to_bytes(), &it.id].concat()).to_bytes();
    let c = h(&[b"VRF-Ephem-HashToScalar", &t]);
    let ix = ephemeral_vrf_api::prelude::provide_randomness(
        o.id, o.queue, prog(0), it.id,
        PodRistrettoPoint(out), PodRistrettoPoint(cb), PodRistrettoPoint(ch), PodScalar((k + c * sk).to_bytes()),
    );
    w.ok(ix);
    assert_eq!(w.calls().len(), 1);
}
"""}),
]
