H = "mod mini;\nuse mini::*;\n"
Q = "api/src/state/queue.rs"
BUGS = [
dict(id="c03-add-no-trim", property="C03",
 needs="the last request of the queue has a length that is not a multiple of eight, so that removing it does not move the cursor; then further requests",
 breaks="space of removed requests at the end of the queue is not reclaimed, so a drained queue does not have its full capacity back",
 edits=[(Q, "        self.trim_trailing_holes();\n\n        // Pre-compute", "        // Trailing holes were dropped when their item was removed\n\n        // Pre-compute")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 2000);
    for round in 0..30u8 {
        let s = SLOT.get();
        for i in 0..3 {
            let ix = w.request_ix(o.queue, prog(0), false, i, &[1, 2, 3], &[(prog(5), true)], &[9; 21]);
            if let Err(e) = w.run(ix) {
                panic!("round {round}: request refused though the queue was drained: {e:?}")
            }
        }
        w.slot(s + 1);
        for it in w.items(o.queue) {
            let ix = w.provide_ix(&o, o.queue, &it);
            w.ok(ix);
        }
        assert_eq!(w.items(o.queue).len(), 0);
    }
}
'''}),
dict(id="c03-trim-first-hole", property="C03",
 needs="at least three pending requests, one in the middle resolved first, then another request or the removal of the last one",
 breaks="requests behind a hole are cut off the queue: the reported contents lose pending requests",
 edits=[(Q, """            if item.used == 1 {
                last_used_end_aligned = next;
            }
""", """            if item.used == 0 {
                break;
            }
            last_used_end_aligned = next;
""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 3000);
    let s = SLOT.get();
    for i in 0..4 {
        let ix = w.request_ix(o.queue, prog(0), false, i, &[1, 2, 3], &[(prog(5), true)], &[9; 24]);
        w.ok(ix);
    }
    w.slot(s + 1);
    let it = w.items(o.queue);
    let ix = w.provide_ix(&o, o.queue, &it[1]);
    w.ok(ix);
    let ix = w.request_ix(o.queue, prog(0), false, 9, &[1, 2, 3], &[(prog(5), true)], &[9; 24]);
    w.ok(ix);
    let now: Vec<_> = w.items(o.queue).iter().map(|i| i.id).collect();
    for k in [0, 2, 3] {
        assert!(now.contains(&it[k].id), "pending request {k} vanished from the queue");
    }
}
'''}),
dict(id="c04-late-answer-cheaper", property="C04",
 needs="a high-priority request that is answered after it expired but before anybody purges it",
 breaks="the oracle gets the regular price for it; the rest of the fee stays in the queue for good",
 edits=[("program/src/provide_randomness.rs", "        let cost = if removed_item.priority_request == 1 {", """        // an answer that comes too late does not earn the priority fee
        let age = Clock::get()?.slot.saturating_sub(removed_item.slot);
        let cost = if removed_item.priority_request == 1 && age <= QUEUE_TTL_SLOTS {""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    let ix = w.request_ix(o.queue, prog(0), true, 1, &[1], &[], &[9; 21]);
    w.ok(ix);
    w.slot(s + 245);
    let a = w.lamports(o.id);
    let it = w.items(o.queue);
    let ix = w.provide_ix(&o, o.queue, &it[0]);
    w.ok(ix);
    assert_eq!(w.lamports(o.id) - a, 800_000, "fee paid for a late answer to a high-priority request");
}
'''}),
dict(id="c07-priority-patience", property="C07",
 needs="a high-priority request that expired less than another time-to-live ago when somebody purges",
 breaks="a purge leaves expired high-priority requests in the queue",
 edits=[("program/src/purge_expired_requests.rs", "        let age = current_slot.saturating_sub(item.slot);", """        // requests that paid more are waited for longer
        let age = current_slot.saturating_sub(item.slot) >> item.priority_request;""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    for i in 0..2 {
        let ix = w.request_ix(o.queue, prog(0), i == 1, i, &[1], &[], &[9; 21]);
        w.ok(ix);
    }
    w.slot(s + 241);
    w.ok(api::purge_expired_requests(o.id, 0));
    assert_eq!(w.items(o.queue).len(), 0, "expired requests left");
}
'''}),
dict(id="c01-find-removed", property="C01",
 needs="a request fulfilled while a later one is still pending (its bytes stay in the queue as a hole), and the same fulfilment sent again",
 breaks="a fulfilment of an already resolved request is accepted again and resolves another request with foreign randomness",
 edits=[(Q, """            if item.used == 1 {
                if &item.id == id {
                    return Some((current, item));
                }
                current += 1;
            }
""", """            if &item.id == id {
                return Some((current, item));
            }
            if item.used == 1 {
                current += 1;
            }
""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    for i in 0..3 {
        let ix = w.request_ix(o.queue, prog(0), false, i, &[1], &[], &[9; 21]);
        w.ok(ix);
    }
    w.slot(s + 1);
    let it = w.items(o.queue);
    let ix = w.provide_ix(&o, o.queue, &it[0]);
    w.ok(ix.clone());
    assert!(w.run(ix).is_err(), "the same fulfilment was accepted twice");
    assert_eq!(w.items(o.queue).len(), 2);
}
'''}),
dict(id="c02-challenge-unbound", property="C02",
 needs="an oracle that wants to choose its output: with the commitment left out of the challenge it can solve for that commitment",
 breaks="a proof can be forged for any output, so an output that is not the unique VRF output is accepted",
 edits=[("api/src/verify.rs", "        commitment_hash_compressed.0.to_vec(),\n", ""),
        ("vrf/src/vrf.rs", "        commitment_hash.compress().to_bytes().to_vec(),\n", ""),
        ("vrf/src/vrf.rs", "        commitment_hash_compressed.to_bytes().to_vec(),\n", "")],
 files={"main.rs": H + r'''
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::scalar::Scalar;
use solana_program::hash::hash;
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    let s = SLOT.get();
    let ix = w.request_ix(o.queue, prog(0), false, 1, &[1], &[], &[9; 21]);
    w.ok(ix);
    w.slot(s + 1);
    let it = w.items(o.queue)[0];
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&o.key);
    let sc = |b: Vec<u8>| Scalar::from_bytes_mod_order(hash(&b).to_bytes());
    let h = sc([b"VRF-Ephem-HashToPoint".to_vec(), it.id.to_vec()].concat()) * G;
    let want = Scalar::from(123456789u64) * G; // the output of our choice
    let k = Scalar::from(42u64);
    let cb = (k * G).compress().to_bytes();
    let ch = hash(&[b"VRF-Ephem-Challenge".to_vec(), want.compress().to_bytes().to_vec(), cb.to_vec(), pk.compress().to_bytes().to_vec(), it.id.to_vec()].concat());
    let c = sc([b"VRF-Ephem-HashToScalar".to_vec(), ch.to_bytes().to_vec()].concat());
    let sig = k + c * sk;
    let com = (sig * h - c * want).compress().to_bytes();
    let mut ix = w.provide_ix(&o, o.queue, &it);
    let n = ix.data.len();
    // input, output, commitment_base, commitment_hash, scalar
    ix.data[n - 128..n - 96].copy_from_slice(&want.compress().to_bytes());
    ix.data[n - 96..n - 64].copy_from_slice(&cb);
    ix.data[n - 64..n - 32].copy_from_slice(&com);
    ix.data[n - 32..].copy_from_slice(&sig.to_bytes());
    assert!(w.run(ix).is_err(), "accepted an output the oracle chose freely");
    let ix = w.provide_ix(&o, o.queue, &it);
    w.ok(ix);
}
'''}),
dict(id="c05-client-id", property="C05",
 needs="an identical request in the same slot, after a purge of expired requests made the queue length repeat",
 breaks="the stored id is computed apart from the one the duplicate test looks for: two pending requests share an id and so the randomness",
 edits=[("program/src/request_randomness.rs", "            id: combined_hash.to_bytes(),\n", """            // An id clients can compute ahead of the transaction
            id: hashv(&[
                &slothash,
                &args.caller_seed,
                &args.callback_program_id.to_bytes(),
                &idx.to_le_bytes(),
            ])
            .to_bytes(),
""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    let old = w.request_ix(o.queue, prog(0), false, 7, &[1], &[], &[9; 21]);
    w.ok(old);
    w.slot(2300);
    let ix = w.request_ix(o.queue, prog(0), false, 1, &[1], &[], &[9; 21]);
    w.ok(ix.clone());
    w.ok(api::purge_expired_requests(o.id, 0));
    assert_eq!(w.items(o.queue).len(), 1);
    w.ok(ix);
    let v = w.items(o.queue);
    assert_eq!(v.len(), 2);
    assert!(v[0].id != v[1].id, "two requests share an id");
}
'''}),
dict(id="c06-slot-from-slothashes", property="C06",
 needs="a fulfilment submitted in the very slot the request was made in",
 breaks="the recorded slot is the last hashed slot, one too old, so a request can be fulfilled in its own slot",
 edits=[("program/src/request_randomness.rs", "    let slot = Clock::get()?.slot;\n", "    let slot = u64::from_le_bytes(\n        slothashes_account_info.try_borrow_data()?[8..16]\n            .try_into()\n            .map_err(|_| ProgramError::UnsupportedSysvar)?,\n    );\n")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    let ix = w.request_ix(o.queue, prog(0), false, 1, &[1], &[], &[9; 21]);
    w.ok(ix);
    let a = w.items(o.queue)[0];
    let p = w.provide_ix(&o, o.queue, &a);
    assert!(w.run(p.clone()).is_err(), "fulfilled in the slot of the request");
    w.slot(2001);
    w.ok(p);
}
'''}),
dict(id="c08-programdata-unchecked", property="C08",
 needs="an attacker who passes an account of their own laid out like the program's ProgramData account",
 breaks="anybody can name themselves upgrade authority and change the oracle registry",
 edits=[("api/src/loaders.rs", "        return Err(ProgramError::InvalidAccountData);\n    }\n\n    let program_account_data", "    }\n\n    let program_account_data")],
 files={"main.rs": H + r'''
use solana_sdk::signature::{Keypair, Signer};
fn main() {
    let mut w = World::new();
    let evil = Keypair::new_from_array([66; 32]);
    w.fund(evil.pubkey(), 10_000_000_000);
    let mut ix = api::add_oracle(evil.pubkey(), evil.pubkey(), [7; 32]);
    assert!(w.run(ix.clone()).is_err());
    let pd = ix.accounts[3].pubkey;
    let mut fake = w.accts[&pd].clone();
    fake.data[13..45].copy_from_slice(&evil.pubkey().to_bytes());
    fake.owner = prog(3);
    w.accts.insert(prog(4), fake);
    ix.accounts[3].pubkey = prog(4);
    assert!(w.run(ix).is_err(), "a stranger registered an oracle");
}
'''}),
dict(id="c09-regular-unsigned", property="C09",
 needs="a regular (not high priority) request made directly by somebody who is not the named callback program",
 breaks="anybody can enqueue regular requests that call back a program that never asked",
 edits=[("program/src/request_randomness.rs", """    program_identity_info
        .has_seeds(&[IDENTITY], &args.callback_program_id)?
        .is_signer()?;
""", """    program_identity_info.has_seeds(&[IDENTITY], &args.callback_program_id)?;
    if high_priority {
        program_identity_info.is_signer()?;
    }
""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    for high in [true, false] {
        let mut ix = w.request_ix(o.queue, prog(0), high, 1, &[1], &[], &[9; 21]);
        w.ok(ix.clone());
        ix.accounts[1].is_signer = false;
        assert!(w.run(ix).is_err(), "request accepted without the program's signature");
    }
}
'''}),
dict(id="c10-big-queue-uncounted", property="C10",
 needs="a queue bigger than one allocation step (10,240 bytes), then the removal of its oracle",
 breaks="queues allocated in several steps are not counted as open, so an oracle with an open queue can be removed",
 edits=[("program/src/initialize_oracle_queue.rs", "    // Finalize PDA size if needed\n    if oracle_queue_info.owner != &ephemeral_vrf_api::ID {\n", "    // Finalize PDA size if needed\n    let fresh = oracle_queue_info.owner != &ephemeral_vrf_api::ID;\n    if fresh {\n"),
        ("program/src/initialize_oracle_queue.rs", "    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);\n", "    if fresh {\n        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);\n    }\n")],
 files={"main.rs": H + r'''
use solana_sdk::signature::Signer;
fn main() {
    for size in [9000, 25000] {
        let mut w = World::new();
        let o = w.oracle(1, size);
        let ix = api::remove_oracle(w.admin.pubkey(), o.id);
        assert!(w.run(ix).is_err(), "oracle with an open queue of {size} bytes removed");
    }
}
'''}),
dict(id="c11-undelegate-anyone", property="C11",
 needs="somebody else's signature on an undelegation of a delegated queue, on the rollup",
 breaks="anybody, not only the owning oracle, can have a delegated queue taken off the rollup",
 edits=[("program/src/undelegate_oracle_queue.rs", """    let pda_seeds: &[&[u8]] = &[QUEUE, &authority_info.key.to_bytes(), &[args.index]];
    oracle_queue_info
        .is_writable()?
        .has_seeds(pda_seeds, &ephemeral_vrf_api::ID)?;
""", """    let queue_index = Queue::try_from_bytes(&oracle_queue_info.try_borrow_data()?)?.index;
    if queue_index != args.index {
        return Err(EphemeralVrfError::InvalidQueueIndex.into());
    }
    oracle_queue_info
        .is_writable()?
        .has_owner(&ephemeral_vrf_api::ID)?;
""")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9000);
    let p = w.oracle(2, 9000);
    w.fund(api::MAGIC_CONTEXT_ID, 1_000_000);
    w.fund(api::MAGIC_PROGRAM_ID, 1_000_000);
    // as on the rollup, where the queue belongs to the program
    let bad = api::undelegate_oracle_queue(p.id, o.queue, 0);
    assert!(w.run(bad).is_err(), "undelegated by another oracle");
    w.calls();
    let good = api::undelegate_oracle_queue(o.id, o.queue, 0);
    w.ok(good);
    assert_eq!(w.calls().len(), 1);
}
'''}),
dict(id="c12-writable-signer-meta", property="C12",
 needs="a request whose callback account list has an entry marked both signer and writable",
 breaks="that account is stored as read-only, so the callback cannot write it",
 edits=[(Q, "            is_writable: val.is_writable as u8,\n", "            // accounts the callback needs as signers can not be provided by the oracle\n            is_writable: (val.is_writable && !val.is_signer) as u8,\n")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    use ephemeral_vrf_sdk::instructions as i;
    use solana_sdk::signature::Signer;
    for signer in [false, true] {
        let ix = i::create_request_regular_randomness_ix(i::RequestRandomnessParams {
            payer: w.payer.pubkey(),
            oracle_queue: o.queue,
            callback_program_id: prog(0),
            callback_discriminator: vec![1],
            accounts_metas: Some(vec![ephemeral_vrf_sdk::types::SerializableAccountMeta { pubkey: prog(9), is_signer: signer, is_writable: true }]),
            caller_seed: [signer as u8; 32],
            callback_args: None,
        });
        w.ok(ix);
    }
    let d = w.accts[&o.queue].data[8..].to_vec();
    for it in w.items(o.queue) {
        assert_eq!(it.account_metas(&d)[0].is_writable, 1, "stored as read-only");
    }
}
'''}),
dict(id="c19-callback-of-choice", property="C19",
 needs="an oracle that passes another program than the requested one as the callback program",
 breaks="a consumer that made no request is called with the VRF identity's signature",
 edits=[("program/src/provide_randomness.rs", "    callback_program_info.has_address(&Pubkey::new_from_array(removed_item.callback_program_id))?;\n", ""),
        ("program/src/provide_randomness.rs", "        program_id: Pubkey::new_from_array(removed_item.callback_program_id),\n        accounts", "        program_id: *callback_program_info.key,\n        accounts")],
 files={"main.rs": H + r'''
fn main() {
    let mut w = World::new();
    let o = w.oracle(1, 9500);
    w.slot(2000);
    let ix = w.request_ix(o.queue, prog(0), false, 1, &[1], &[], &[9; 21]);
    w.ok(ix);
    w.slot(2001);
    let it = w.items(o.queue)[0];
    let good = w.provide_ix(&o, o.queue, &it);
    let mut bad = good.clone();
    bad.accounts[4].pubkey = prog(7);
    assert!(w.run(bad).is_err(), "called a program that did not ask");
    w.ok(good);
    assert_eq!(w.calls()[0].program_id, prog(0));
}
'''}),
dict(id="c20-nonce-reuse", property="C20",
 needs="two fulfilments by the same oracle, from which anybody can compute its secret",
 breaks="the proof's nonce is the same for every request; two proofs give away the oracle's secret key and with it every later output",
 edits=[("vrf/src/vrf.rs", "    let ikm = [&sk.to_bytes()[..], input].concat();\n", "    let ikm = [&sk.to_bytes()[..], &pk.compress().to_bytes()[..]].concat();\n")],
 files={"main.rs": r'''
use curve25519_dalek::scalar::Scalar;
use ephemeral_vrf::vrf::*;
use solana_program::hash::hash;
fn main() {
    let kp = solana_sdk::signature::Keypair::new_from_array([9; 32]);
    let (sk, pk) = generate_vrf_keypair(&kp);
    let c = |input: &[u8; 32]| {
        let (o, (b, h, s)) = compute_vrf(sk, input);
        assert!(verify_vrf(pk, input, o, (b, h, s)));
        let ch = hash(&[b"VRF-Ephem-Challenge".to_vec(), o.to_bytes().to_vec(), b.to_bytes().to_vec(), h.to_bytes().to_vec(), pk.compress().to_bytes().to_vec(), input.to_vec()].concat());
        (Scalar::from_bytes_mod_order(hash(&[b"VRF-Ephem-HashToScalar".to_vec(), ch.to_bytes().to_vec()].concat()).to_bytes()), s)
    };
    let ((c1, s1), (c2, s2)) = (c(&[1; 32]), c(&[2; 32]));
    let guess = (s1 - s2) * (c1 - c2).invert();
    assert!(guess != sk, "the secret key follows from two public proofs");
}
'''}),
dict(id="c20-key-from-public", property="C20",
 needs="nobody's secrets: the VRF key can be derived from the oracle's address",
 breaks="the VRF secret is derived from the public half of the identity, so all its outputs are predictable",
 edits=[("vrf/src/vrf.rs", "    let hkdf = Hkdf::<Sha512>::new(Some(b\"VRF-Solana-SecretKey\"), &keypair.to_bytes());\n", "    let hkdf = Hkdf::<Sha512>::new(Some(b\"VRF-Solana-SecretKey\"), &keypair.to_bytes()[32..]);\n")],
 files={"main.rs": r'''
use curve25519_dalek::scalar::Scalar;
use ephemeral_vrf::vrf::*;
use hkdf::Hkdf;
use solana_sdk::signature::Signer;
fn main() {
    let kp = solana_sdk::signature::Keypair::new_from_array([9; 32]);
    let (sk, _) = generate_vrf_keypair(&kp);
    let h = Hkdf::<sha2::Sha512>::new(Some(b"VRF-Solana-SecretKey"), &kp.pubkey().to_bytes());
    let mut okm = [0u8; 64];
    h.expand(b"VRF-Key", &mut okm).unwrap();
    let guess = Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap());
    assert!(guess != sk, "the secret key follows from the oracle's address");
}
'''}),
]
