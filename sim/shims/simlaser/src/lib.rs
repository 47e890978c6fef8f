//! helius-laserstream as the service sees it: its types, and streams of the simulated feed.
pub use helius_laserstream::*;
use futures_core::Stream;
use grpc::subscribe_request_filter_accounts_filter::Filter;
use grpc::subscribe_request_filter_accounts_filter_memcmp::Data;
use grpc::subscribe_update::UpdateOneof;
use grpc::{SubscribeRequest, SubscribeUpdate, SubscribeUpdateAccount, SubscribeUpdateAccountInfo, SubscribeUpdatePing};
use simrt::chan::Rx;
use simrt::{AccountFilter, Feed, FeedItem};
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct StreamHandle;
impl StreamHandle {
    pub async fn write(&self, _r: SubscribeRequest) -> Result<(), LaserstreamError> {
        Ok(())
    }
}

struct Sub {
    inst: u32,
    endpoint: String,
    filter: Option<AccountFilter>,
    rx: Option<Rx<FeedItem>>,
    over: bool,
}

impl Stream for Sub {
    type Item = Result<SubscribeUpdate, LaserstreamError>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.over {
            return Poll::Ready(None);
        }
        if let Some(f) = self.filter.take() {
            // the real stream connects when it is first polled
            match simrt::node().subscribe(self.inst, Feed::Laser, &self.endpoint, f) {
                Ok(rx) => self.rx = Some(rx),
                Err(e) => {
                    self.over = true;
                    return Poll::Ready(Some(Err(LaserstreamError::ConnectionError(e))));
                }
            }
        }
        match self.rx.as_ref().unwrap().poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => {
                self.over = true;
                Poll::Ready(None)
            }
            Poll::Ready(Some(i)) => {
                if let Some(n) = simrt::try_node() {
                    n.delivered(self.inst, &i);
                }
                Poll::Ready(Some(match i {
                    FeedItem::Error(e) => Err(LaserstreamError::ConnectionError(e)),
                    FeedItem::Noise => Ok(SubscribeUpdate {
                        update_oneof: Some(UpdateOneof::Ping(SubscribeUpdatePing {})),
                        ..Default::default()
                    }),
                    FeedItem::Update(u) => Ok(SubscribeUpdate {
                        filters: vec!["oracle".into()],
                        update_oneof: Some(UpdateOneof::Account(SubscribeUpdateAccount {
                            account: (!u.undecodable).then(|| SubscribeUpdateAccountInfo {
                                pubkey: u.key[..if u.tag == simrt::BAD_KEY { 31 } else { 32 }].to_vec(),
                                lamports: u.lamports,
                                owner: u.owner.to_vec(),
                                executable: false,
                                rent_epoch: u64::MAX,
                                data: u.data.clone(),
                                write_version: u.tag,
                                txn_signature: None,
                            }),
                            slot: u.slot,
                            is_startup: false,
                        })),
                        ..Default::default()
                    }),
                }))
            }
        }
    }
}

pub fn subscribe(
    config: LaserstreamConfig,
    request: SubscribeRequest,
) -> (impl Stream<Item = Result<SubscribeUpdate, LaserstreamError>>, StreamHandle) {
    let mut f = AccountFilter { owners: vec![], memcmp: vec![], data_size: None, keys: vec![] };
    for a in request.accounts.values() {
        f.owners.extend(a.owner.iter().cloned());
        f.keys.extend(a.account.iter().cloned());
        for x in &a.filters {
            match &x.filter {
                Some(Filter::Memcmp(m)) => {
                    let b = match &m.data {
                        Some(Data::Bytes(b)) => b.clone(),
                        Some(Data::Base58(s)) => bs58::decode(s).into_vec().unwrap_or_default(),
                        Some(Data::Base64(s)) => {
                            use base64::Engine;
                            base64::engine::general_purpose::STANDARD.decode(s).unwrap_or_default()
                        }
                        None => vec![],
                    };
                    f.memcmp.push((m.offset as usize, b));
                }
                Some(Filter::Datasize(n)) => f.data_size = Some(*n),
                _ => {}
            }
        }
    }
    (
        Sub {
            inst: simrt::current_inst().unwrap_or(u32::MAX),
            endpoint: config.endpoint.clone(),
            filter: Some(f),
            rx: None,
            over: false,
        },
        StreamHandle,
    )
}
