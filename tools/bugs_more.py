H = "mod mini;\nuse mini::*;\n"
Q = "api/src/state/queue.rs"
FORGE = r'''
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use solana_program::hash::hash;
/// a proof of the output `x * G` that satisfies the sum of the two relations
fn forge(sk: Scalar, id: &[u8; 32], x: Scalar) -> [[u8; 32]; 4] {
    let pk = sk * G;
    let sc = |b: Vec<u8>| Scalar::from_bytes_mod_order(hash(&b).to_bytes());
    let eta = sc([b"VRF-Ephem-HashToPoint".to_vec(), id.to_vec()].concat());
    let (k, k2) = (Scalar::from(42u64), Scalar::from(43u64));
    let out = (x * G).compress().to_bytes();
    let cb = (k * G).compress().to_bytes();
    let ch = (k2 * G).compress().to_bytes();
    let t = hash(&[b"VRF-Ephem-Challenge".to_vec(), out.to_vec(), cb.to_vec(), ch.to_vec(), pk.compress().to_bytes().to_vec(), id.to_vec()].concat());
    let e = sc([b"VRF-Ephem-HashToScalar".to_vec(), t.to_bytes().to_vec()].concat());
    let s = (k + e * sk + k2 + e * x) * (Scalar::ONE + eta).invert();
    [out, cb, ch, s.to_bytes()]
}
'''
BUGS = [
dict(id="c02-checks-summed", property="C02",
 needs="an oracle that wants to choose its output: one equation in place of two can be solved for any output",
 breaks="the two relations of the proof are checked as one sum, without independent weights; an output that is not the unique one is accepted",
 edits=[("api/src/verify.rs", "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    // Both relations at once\n    match (\n        add_ristretto(&lhs_base, &lhs_hash),\n        add_ristretto(&rhs_base, &rhs_hash),\n    ) {\n        (Some(lhs), Some(rhs)) => lhs == rhs,\n        _ => false,\n    }\n")],
 files={"main.rs": H + FORGE + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    let ix = w.request_ix(o.queue, prog(0), false, 1, &[1], &[], &[9; 21]);
    w.ok(ix);
    w.slot(s + 1);
    let it = w.items(o.queue)[0];
    let (sk, _) = ephemeral_vrf::vrf::generate_vrf_keypair(&o.key);
    let p = forge(sk, &it.id, Scalar::from(123456789u64));
    let mut ix = w.provide_ix(&o, o.queue, &it);
    let n = ix.data.len() - 128;
    for (i, f) in p.iter().enumerate() {
        ix.data[n + 32 * i..n + 32 * i + 32].copy_from_slice(f);
    }
    assert!(w.run(ix).is_err(), "accepted an output the oracle chose freely");
    let ix = w.provide_ix(&o, o.queue, &it);
    w.ok(ix);
    let _ = CompressedRistretto(p[0]);
}
'''}),
dict(id="c02-library-sums", property="C02",
 needs="an oracle that makes up a proof for somebody who checks it off chain, with the library's verifier",
 breaks="the library accepts an output that is not the unique one (the program does not)",
 edits=[("vrf/src/vrf.rs", "    lhs_base == rhs_base && lhs_hash == rhs_hash\n", "    // Both relations at once\n    lhs_base + lhs_hash == rhs_base + rhs_hash\n")],
 files={"main.rs": H + FORGE + r'''
fn main() {
    let w = World::new();
    let key = solana_sdk::signature::Keypair::new();
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&key);
    let id = [7; 32];
    let p = forge(sk, &id, Scalar::from(123456789u64));
    let c = |b: [u8; 32]| CompressedRistretto(b);
    let s = Scalar::from_canonical_bytes(p[3]).unwrap();
    assert!(!ephemeral_vrf::vrf::verify_vrf(pk, &id, c(p[0]), (c(p[1]), c(p[2]), s)), "accepted an output the oracle chose freely");
    let (out, proof) = ephemeral_vrf::vrf::compute_vrf(sk, &id);
    assert!(ephemeral_vrf::vrf::verify_vrf(pk, &id, out, proof), "refused an honest proof");
    drop(w);
}
'''}),
dict(id="c01-oracle-listed-late", property="C01",
 needs="a request with more than eight callback accounts, the oracle's own account behind the eighth",
 breaks="the oracle's account is handed, writable, to a callback program of the requester's choice",
 edits=[("program/src/provide_randomness.rs", "                metas\n                    .iter()\n                    .any(|acc|", "                // the rest only fits with lookup tables, which oracles do not use\n                metas\n                    .iter()\n                    .take(8)\n                    .any(|acc|")],
 files={"main.rs": H + r'''
fn main() {
    use solana_sdk::signature::Signer;
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    for at in [0usize, 3, 7, 8, 15, 19] {
        let metas: Vec<_> = (0..20).map(|i| if i == at { (o.key.pubkey(), true) } else { (prog(20 + i as u8), false) }).collect();
        let ix = w.request_ix(o.queue, prog(0), false, at as u8, &[1], &metas, &[9; 21]);
        w.ok(ix);
    }
    w.slot(2001);
    for it in w.items(o.queue) {
        let ix = w.provide_ix(&o, o.queue, &it);
        assert!(w.run(ix).is_err(), "the oracle's account went to the callback");
    }
}
'''}),
dict(id="c12-seed-tagged", property="C12",
 needs="a caller whose seeds differ in the last byte only, in the same place of the queue",
 breaks="the SDK overwrites the last byte of the caller's seed, so it never reaches the request",
 edits=[("sdk/src/instructions.rs", "            caller_seed: params.caller_seed,\n", "            // the last byte tells requests of the SDK from hand-made ones\n            caller_seed: {\n                let mut seed = params.caller_seed;\n                seed[31] = 0x5d;\n                seed\n            },\n")],
 files={"main.rs": H + r'''
fn main() {
    let ids: std::collections::HashSet<[u8; 32]> = (0..4u8)
        .map(|last| {
            let mut w = World::new();
            let o = w.oracle(1, 9500);
            w.slot(2000);
            let mut seed = [7; 32];
            seed[31] = last;
            let mut ix = w.request_ix(o.queue, prog(0), false, 7, &[1], &[], &[9; 21]);
            let mine = ephemeral_vrf_sdk::instructions::create_request_regular_randomness_ix(ephemeral_vrf_sdk::instructions::RequestRandomnessParams {
                payer: ix.accounts[0].pubkey,
                oracle_queue: o.queue,
                callback_program_id: prog(0),
                callback_discriminator: vec![1],
                accounts_metas: None,
                caller_seed: seed,
                callback_args: Some(vec![9; 21]),
            });
            assert_eq!(mine.accounts.len(), ix.accounts.len());
            ix.data = mine.data;
            w.ok(ix);
            w.items(o.queue)[0].id
        })
        .collect();
    assert_eq!(ids.len(), 4, "callers' seeds have no effect on the id");
}
'''}),
]
