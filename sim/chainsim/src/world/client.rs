//! What operators, oracles and users build their transactions with: the tree's libraries, or the
//! published ones.
use super::*;

macro_rules! call {
    ($old:expr, $f:ident ( $($a:expr),* )) => {
        if $old {
            pinned_api::prelude::$f($($a),*)
        } else {
            ephemeral_vrf_api::prelude::$f($($a),*)
        }
    };
}

macro_rules! request {
    ($sdk:ident, $high:expr, $r:expr) => {{
        let r = $r;
        let p = $sdk::instructions::RequestRandomnessParams {
            payer: r.payer,
            oracle_queue: r.queue,
            callback_program_id: r.program,
            callback_discriminator: r.disc,
            accounts_metas: r.metas.map(|m| {
                m.into_iter()
                    .map(|(k, s, w)| $sdk::types::SerializableAccountMeta {
                        pubkey: k.into(),
                        is_signer: s,
                        is_writable: w,
                    })
                    .collect()
            }),
            caller_seed: r.seed,
            callback_args: r.args,
        };
        if $high {
            $sdk::instructions::create_request_randomness_ix(p)
        } else {
            $sdk::instructions::create_request_regular_randomness_ix(p)
        }
    }};
}

pub struct Wanted {
    pub payer: Pubkey,
    pub queue: Pubkey,
    pub program: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Option<Vec<([u8; 32], bool, bool)>>,
    pub seed: [u8; 32],
    pub args: Option<Vec<u8>>,
}

/// `.0`: the published libraries
#[derive(Clone, Copy, Default)]
pub struct Client(pub bool);

impl Client {
    pub fn request(self, high: bool, w: Wanted) -> Instruction {
        if self.0 {
            request!(pinned_sdk, high, w)
        } else {
            request!(ephemeral_vrf_sdk, high, w)
        }
    }
    pub fn prove(self, sk: Scalar, id: &Id) -> [[u8; 32]; 4] {
        let (o, (cb, ch, s)) =
            if self.0 { pinned_vrf::vrf::compute_vrf(sk, id) } else { ephemeral_vrf::vrf::compute_vrf(sk, id) };
        [o.to_bytes(), cb.to_bytes(), ch.to_bytes(), s.to_bytes()]
    }
    pub fn provide(self, oracle: Pubkey, queue: Pubkey, program: Pubkey, id: Id, p: [[u8; 32]; 4]) -> Instruction {
        let [o, cb, ch] = [p[0], p[1], p[2]].map(PodRistrettoPoint);
        call!(self.0, provide_randomness(oracle, queue, program, id, o, cb, ch, PodScalar(p[3])))
    }
    pub fn initialize(self, by: Pubkey) -> Instruction {
        call!(self.0, initialize(by))
    }
    pub fn add_oracle(self, by: Pubkey, id: Pubkey, pk: [u8; 32]) -> Instruction {
        call!(self.0, add_oracle(by, id, pk))
    }
    pub fn remove_oracle(self, by: Pubkey, id: Pubkey) -> Instruction {
        call!(self.0, remove_oracle(by, id))
    }
    pub fn initialize_oracle_queue(self, by: Pubkey, id: Pubkey, i: u8, size: Option<u32>) -> Vec<Instruction> {
        call!(self.0, initialize_oracle_queue(by, id, i, size)).to_vec()
    }
    pub fn close_oracle_queue(self, id: Pubkey, i: u8) -> Instruction {
        call!(self.0, close_oracle_queue(id, i))
    }
    pub fn purge_expired_requests(self, id: Pubkey, i: u8) -> Instruction {
        call!(self.0, purge_expired_requests(id, i))
    }
    pub fn delegate_oracle_queue(self, by: Pubkey, queue: Pubkey, i: u8) -> Instruction {
        call!(self.0, delegate_oracle_queue(by, queue, i))
    }
    pub fn undelegate_oracle_queue(self, by: Pubkey, queue: Pubkey, i: u8) -> Instruction {
        call!(self.0, undelegate_oracle_queue(by, queue, i))
    }
}

/// a queue as readers built with the published library see it
pub fn old_view(data: &[u8]) -> Result<(usize, u8, Vec<model::Req>), String> {
    use pinned_api::prelude::{Queue, QueueAccount};
    std::panic::catch_unwind(|| {
        let h = Queue::try_from_bytes(data).map_err(|e| format!("{e:?}"))?;
        let (len, index) = (h.len(), h.index);
        let mut body = data[8..].to_vec();
        let q = QueueAccount::load(&mut body).map_err(|e| format!("{e:?}"))?;
        let f = |it: pinned_api::prelude::QueueItem| model::Req {
            id: it.id,
            slot: it.slot,
            high: it.priority_request == 1,
            program: Pubkey::new_from_array(it.callback_program_id),
            disc: it.callback_discriminator(q.acc).to_vec(),
            metas: it
                .account_metas(q.acc)
                .iter()
                .map(|m| m.to_account_meta())
                .map(|a| (a.pubkey, a.is_writable))
                .collect(),
            args: it.callback_args(q.acc).to_vec(),
        };
        let items = q.iter_items().map(f).collect();
        Ok((len, index, items))
    })
    .unwrap_or_else(|_| Err("the reader panicked".into()))
}

/// an oracle's record: key, slot of registration, open queues
pub fn old_record(d: &[u8]) -> Option<([u8; 32], u64, u64)> {
    use pinned_api::prelude::Oracle;
    use pinned_api::steel::AccountDeserialize;
    let o = <Oracle as AccountDeserialize>::try_from_bytes(d).ok()?;
    Some((o.vrf_pubkey.0, o.registration_slot, o.open_queue as u64))
}

pub fn old_registry(d: &[u8]) -> Option<Vec<Pubkey>> {
    pinned_api::prelude::Oracles::try_from_bytes_with_discriminator(d).ok().map(|o| o.oracles.clone())
}
