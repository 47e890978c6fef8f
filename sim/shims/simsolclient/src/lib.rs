//! solana-client as the service sees it: the real client with the simulated node behind it.
pub use solana_client::*;

pub mod nonblocking {
    pub use solana_client::nonblocking::*;
    pub mod rpc_client {
        pub use solana_client::nonblocking::rpc_client::*;
        use solana_client::client_error::{ClientError, ClientErrorKind};
        use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
        use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
        use solana_commitment_config::CommitmentConfig;
        use solana_rpc_client::rpc_client::RpcClientConfig;
        use std::time::Duration;

        pub struct SimSender {
            url: String,
            timeout: Duration,
        }

        #[async_trait::async_trait]
        impl RpcSender for SimSender {
            async fn send(
                &self,
                request: RpcRequest,
                params: serde_json::Value,
            ) -> solana_client::client_error::Result<serde_json::Value> {
                simrt::maybe_yield().await;
                let inst = simrt::current_inst().unwrap_or(u32::MAX);
                let (call, rx) = simrt::node().rpc(inst, &self.url, self.timeout, request.to_string(), params);
                let limit = self.timeout;
                let r = match simrt::reply_within(limit, rx).await {
                    Some(r) => {
                        simrt::node().replied(call);
                        r
                    }
                    None => Err(simrt::RpcFail::Transport("operation timed out".into())),
                };
                r.map_err(|e| match e {
                    simrt::RpcFail::Transport(m) => ClientError::new_with_request(
                        ClientErrorKind::Io(std::io::Error::other(m)),
                        request,
                    ),
                    simrt::RpcFail::Node(code, message) => ClientError::new_with_request(
                        ClientErrorKind::RpcError(RpcError::RpcResponseError {
                            code,
                            message,
                            data: RpcResponseErrorData::Empty,
                        }),
                        request,
                    ),
                })
            }
            fn get_transport_stats(&self) -> RpcTransportStats {
                RpcTransportStats::default()
            }
            fn url(&self) -> String {
                self.url.clone()
            }
        }

        pub struct RpcClient(solana_client::nonblocking::rpc_client::RpcClient);
        impl std::ops::Deref for RpcClient {
            type Target = solana_client::nonblocking::rpc_client::RpcClient;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        const TIMEOUT: Duration = Duration::from_secs(30);
        impl RpcClient {
            fn make(url: String, timeout: Duration, cfg: RpcClientConfig) -> Self {
                RpcClient(solana_client::nonblocking::rpc_client::RpcClient::new_sender(
                    SimSender { url, timeout },
                    cfg,
                ))
            }
            pub fn new(url: String) -> Self {
                Self::new_with_commitment(url, CommitmentConfig::default())
            }
            pub fn new_with_commitment(url: String, c: CommitmentConfig) -> Self {
                Self::make(url, TIMEOUT, RpcClientConfig::with_commitment(c))
            }
            pub fn new_with_timeout(url: String, t: Duration) -> Self {
                Self::make(url, t, RpcClientConfig::with_commitment(CommitmentConfig::default()))
            }
            pub fn new_with_timeout_and_commitment(url: String, t: Duration, c: CommitmentConfig) -> Self {
                Self::make(url, t, RpcClientConfig::with_commitment(c))
            }
            pub fn new_with_timeouts_and_commitment(
                url: String,
                t: Duration,
                c: CommitmentConfig,
                initial: Duration,
            ) -> Self {
                Self::make(
                    url,
                    t,
                    RpcClientConfig { commitment_config: c, confirm_transaction_initial_timeout: Some(initial) },
                )
            }
        }
    }
}

pub mod pubsub_client {
    use simcrossbeam::{Mapped, Receiver};
    use simrt::{AccountFilter, Feed, FeedItem};
    use solana_account_decoder::{UiAccount, UiAccountEncoding};
    use solana_client::rpc_config::RpcProgramAccountsConfig;
    use solana_client::rpc_filter::{MemcmpEncodedBytes, RpcFilterType};
    use solana_client::rpc_response::{Response, RpcKeyedAccount, RpcResponseContext};
    use solana_pubkey::Pubkey;
    pub use solana_pubsub_client::pubsub_client::PubsubClientError;
    use std::marker::PhantomData;

    pub struct PubsubClient;
    pub struct PubsubClientSubscription<T>(PhantomData<fn() -> T>);
    pub type PubsubProgramClientSubscription = PubsubClientSubscription<Response<RpcKeyedAccount>>;
    pub type ProgramSubscription = (PubsubProgramClientSubscription, Receiver<Response<RpcKeyedAccount>>);

    impl<T> PubsubClientSubscription<T> {
        pub fn send_unsubscribe(&self) -> Result<(), PubsubClientError> {
            Ok(())
        }
        pub fn shutdown(&mut self) -> std::thread::Result<()> {
            Ok(())
        }
    }

    impl PubsubClient {
        pub fn program_subscribe(
            url: &str,
            program: &Pubkey,
            config: Option<RpcProgramAccountsConfig>,
        ) -> Result<ProgramSubscription, PubsubClientError> {
            let config = config.unwrap_or_default();
            let mut f = AccountFilter {
                owners: vec![program.to_string()],
                memcmp: vec![],
                data_size: None,
                keys: vec![],
            };
            for x in config.filters.iter().flatten() {
                match x {
                    RpcFilterType::DataSize(n) => f.data_size = Some(*n),
                    RpcFilterType::Memcmp(m) => {
                        f.memcmp.push((m.offset(), m.bytes().map(|b| b.to_vec()).unwrap_or_default()))
                    }
                    RpcFilterType::TokenAccountState => {}
                }
            }
            let _ = MemcmpEncodedBytes::Bytes(vec![]);
            let encoding = config.account_config.encoding.unwrap_or(UiAccountEncoding::Binary);
            let inst = simrt::current_inst().unwrap_or(u32::MAX);
            let rx = simrt::node()
                .subscribe(inst, Feed::WebSocket, url, f)
                .map_err(PubsubClientError::ConnectionClosed)?;
            let map = move |i: FeedItem| {
                if let Some(n) = simrt::try_node() {
                    n.delivered(inst, &i);
                }
                let FeedItem::Update(u) = i else { return None };
                let acc = solana_account_of(&u);
                let key = Pubkey::new_from_array(u.key);
                let mut ui: UiAccount =
                    solana_account_decoder::encode_ui_account(&key, &acc, encoding, None, None);
                if u.undecodable {
                    ui.data = solana_account_decoder::UiAccountData::Binary(
                        "*not base64*".into(),
                        UiAccountEncoding::Base64,
                    );
                }
                Some(Response {
                    context: RpcResponseContext { slot: u.slot, api_version: None },
                    value: RpcKeyedAccount {
                        pubkey: if u.tag == simrt::BAD_KEY { "not a key".into() } else { key.to_string() },
                        account: ui,
                    },
                })
            };
            Ok((PubsubClientSubscription(PhantomData), Receiver::from_source(Mapped(rx, map))))
        }
    }

    fn solana_account_of(u: &simrt::Update) -> solana_account::Account {
        solana_account::Account {
            lamports: u.lamports,
            data: u.data.clone(),
            owner: Pubkey::new_from_array(u.owner),
            executable: false,
            rent_epoch: u64::MAX,
        }
    }
}
