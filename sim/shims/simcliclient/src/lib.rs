//! solana-client as the command line tool sees it: the real client, whose node is the simulator at
//! the other end of file descriptor 0. Sleeping takes no time: the runtime's clock is virtual.
pub use solana_client::*;

use solana_client::client_error::{ClientError, ClientErrorKind, Result};
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_commitment_config::CommitmentConfig;
use solana_rpc_client::rpc_client::RpcClientConfig;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::os::unix::net::UnixStream;
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

fn line() -> &'static Mutex<BufReader<UnixStream>> {
    static L: OnceLock<Mutex<BufReader<UnixStream>>> = OnceLock::new();
    L.get_or_init(|| Mutex::new(BufReader::new(unsafe { UnixStream::from_raw_fd(0) })))
}

/// time passes only while everything waits
fn virtual_time() {
    static DONE: Mutex<Vec<tokio::runtime::Id>> = Mutex::new(vec![]);
    let h = tokio::runtime::Handle::current();
    if h.runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
        let mut d = DONE.lock().unwrap();
        if !d.contains(&h.id()) {
            d.push(h.id());
            tokio::time::pause();
        }
    }
}

struct SimSender {
    url: String,
}

#[async_trait::async_trait]
impl RpcSender for SimSender {
    async fn send(&self, request: RpcRequest, params: serde_json::Value) -> Result<serde_json::Value> {
        virtual_time();
        let mut buf = String::new();
        {
            let mut s = line().lock().unwrap();
            let q = serde_json::json!({ "url": self.url, "method": request.to_string(), "params": params });
            let sent = s.get_mut().write_all(format!("{q}\n").as_bytes());
            if sent.is_err() || s.read_line(&mut buf).unwrap_or(0) == 0 {
                // killed
                std::process::abort();
            }
        }
        let mut v: serde_json::Value = serde_json::from_str(&buf).unwrap();
        if let Some(ok) = v.get_mut("ok") {
            return Ok(ok.take());
        }
        let message = v["err"].as_str().unwrap_or("error").to_string();
        let kind = match v["code"].as_i64() {
            Some(code) => {
                ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message, data: RpcResponseErrorData::Empty })
            }
            None => ClientErrorKind::Io(std::io::Error::other(message)),
        };
        Err(ClientError::new_with_request(kind, request))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        self.url.clone()
    }
}

macro_rules! client {
    ($real:ty, $url:ty) => {
        pub struct RpcClient($real);
        impl std::ops::Deref for RpcClient {
            type Target = $real;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl RpcClient {
            fn make(url: $url, c: RpcClientConfig) -> Self {
                RpcClient(<$real>::new_sender(SimSender { url: url.to_string() }, c))
            }
            pub fn new(url: $url) -> Self {
                Self::make(url, RpcClientConfig::with_commitment(CommitmentConfig::default()))
            }
            pub fn new_with_commitment(url: $url, c: CommitmentConfig) -> Self {
                Self::make(url, RpcClientConfig::with_commitment(c))
            }
            pub fn new_with_timeout(url: $url, _: Duration) -> Self {
                Self::new(url)
            }
            pub fn new_with_timeout_and_commitment(url: $url, _: Duration, c: CommitmentConfig) -> Self {
                Self::new_with_commitment(url, c)
            }
            pub fn new_with_timeouts_and_commitment(url: $url, _: Duration, c: CommitmentConfig, t: Duration) -> Self {
                let cfg = RpcClientConfig { commitment_config: c, confirm_transaction_initial_timeout: Some(t) };
                Self::make(url, cfg)
            }
        }
    };
}

pub mod rpc_client {
    use super::*;
    pub use solana_client::rpc_client::*;
    client!(solana_client::rpc_client::RpcClient, impl ToString);
}
pub mod nonblocking {
    pub use solana_client::nonblocking::*;
    pub mod rpc_client {
        use super::super::*;
        pub use solana_client::nonblocking::rpc_client::*;
        client!(solana_client::nonblocking::rpc_client::RpcClient, String);
    }
}
