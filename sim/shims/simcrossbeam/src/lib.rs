//! crossbeam-channel as the service sees it: receivers of the simulated feed.
pub use crossbeam_channel::*;
use simrt::chan::{Rx, Try};
use std::time::Duration;

pub struct Receiver<T>(Box<dyn Source<T> + Send + Sync>);

pub trait Source<T> {
    fn try_next(&self) -> Try<T>;
    fn block(&self, d: Option<Duration>) -> Result<Option<T>, ()>;
    fn len(&self) -> usize;
}

pub struct Mapped<A, F>(pub Rx<A>, pub F);
impl<A, T, F: Fn(A) -> Option<T>> Source<T> for Mapped<A, F> {
    fn try_next(&self) -> Try<T> {
        loop {
            match self.0.try_next() {
                Try::Item(a) => {
                    if let Some(t) = (self.1)(a) {
                        return Try::Item(t);
                    }
                }
                Try::Empty => return Try::Empty,
                Try::Closed => return Try::Closed,
            }
        }
    }
    fn block(&self, d: Option<Duration>) -> Result<Option<T>, ()> {
        loop {
            match self.0.block(d)? {
                None => return Ok(None),
                Some(a) => {
                    if let Some(t) = (self.1)(a) {
                        return Ok(Some(t));
                    }
                }
            }
        }
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

impl<T> Receiver<T> {
    pub fn from_source(s: impl Source<T> + Send + Sync + 'static) -> Self {
        Receiver(Box::new(s))
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.block(None).ok().flatten().ok_or(RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        match self.0.block(Some(d)) {
            Ok(Some(t)) => Ok(t),
            Ok(None) => Err(RecvTimeoutError::Disconnected),
            Err(()) => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        match self.0.try_next() {
            Try::Item(t) => Ok(t),
            Try::Empty => Err(TryRecvError::Empty),
            Try::Closed => Err(TryRecvError::Disconnected),
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.try_recv().ok())
    }
}
