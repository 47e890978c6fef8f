//! hyper as the service sees it: the real HTTP implementation, listening inside the simulation.
pub use hyper::*;
pub use server::Server;

pub mod server {
    pub use hyper::server::*;
    use hyper::service::Service;
    use hyper::{Body, Request, Response};
    use std::error::Error as StdError;
    use std::future::Future;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub mod conn {
        pub use hyper::server::conn::*;
        pub struct AddrStream(pub(crate) std::net::SocketAddr);
        impl AddrStream {
            pub fn remote_addr(&self) -> std::net::SocketAddr {
                self.0
            }
            pub fn local_addr(&self) -> std::net::SocketAddr {
                self.0
            }
        }
    }
    use conn::AddrStream;

    pub struct Server(Pin<Box<dyn Future<Output = hyper::Result<()>> + Send>>);
    pub struct Builder(SocketAddr);
    impl Server {
        pub fn bind(addr: &SocketAddr) -> Builder {
            Builder(*addr)
        }
        pub fn try_bind(addr: &SocketAddr) -> hyper::Result<Builder> {
            Ok(Builder(*addr))
        }
    }
    impl Builder {
        pub fn serve<M, S, E, F>(self, mut make: M) -> Server
        where
            M: for<'a> Service<&'a AddrStream, Response = S, Error = E, Future = F> + Send + 'static,
            F: Future<Output = Result<S, E>> + Send,
            S: Service<Request<Body>, Response = Response<Body>> + Send + 'static,
            S::Future: Send + 'static,
            S::Error: Into<Box<dyn StdError + Send + Sync>>,
            E: Into<Box<dyn StdError + Send + Sync>>,
        {
            // listening starts with bind
            let inst = simrt::current_inst().unwrap_or(u32::MAX);
            let mut rx = simrt::node().http_listen(inst, self.0.port());
            Server(Box::pin(async move {
                while let Some(io) = rx.recv().await {
                    let from = AddrStream(([127, 0, 0, 1], 40000).into());
                    let f = make.call(&from);
                    if let Ok(svc) = f.await {
                        simrt::spawn(async move {
                            let _ = hyper::server::conn::Http::new().serve_connection(io, svc).await;
                        });
                    }
                }
                Ok(())
            }))
        }
    }
    impl Future for Server {
        type Output = hyper::Result<()>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.as_mut().poll(cx)
        }
    }
}
