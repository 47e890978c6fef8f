//! A channel whose receiver can be awaited or can block its task.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

struct Inner<T> {
    q: VecDeque<T>,
    closed: bool,
    gone: bool,
    wakers: Vec<Waker>,
}
pub struct Tx<T>(Arc<Mutex<Inner<T>>>);
pub struct Rx<T>(Arc<Mutex<Inner<T>>>);
impl<T> Clone for Tx<T> {
    fn clone(&self) -> Self {
        Tx(self.0.clone())
    }
}

pub fn channel<T>() -> (Tx<T>, Rx<T>) {
    let a = Arc::new(Mutex::new(Inner { q: VecDeque::new(), closed: false, gone: false, wakers: vec![] }));
    (Tx(a.clone()), Rx(a))
}

fn wake(v: Vec<Waker>) {
    for w in v {
        w.wake();
    }
}

impl<T> Tx<T> {
    pub fn send(&self, t: T) {
        let mut i = self.0.lock().unwrap();
        if i.closed {
            return;
        }
        i.q.push_back(t);
        let w = std::mem::take(&mut i.wakers);
        drop(i);
        wake(w);
    }
    pub fn close(&self) {
        let mut i = self.0.lock().unwrap();
        i.closed = true;
        let w = std::mem::take(&mut i.wakers);
        drop(i);
        wake(w);
    }
    /// closed, or nobody listens any more
    pub fn is_closed(&self) -> bool {
        let i = self.0.lock().unwrap();
        i.closed || i.gone
    }
}

pub enum Try<T> {
    Item(T),
    Empty,
    Closed,
}

impl<T> Rx<T> {
    pub fn try_next(&self) -> Try<T> {
        let mut i = self.0.lock().unwrap();
        match i.q.pop_front() {
            Some(t) => Try::Item(t),
            None if i.closed => Try::Closed,
            None => Try::Empty,
        }
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
    pub fn close(&self) {
        let mut i = self.0.lock().unwrap();
        i.gone = true;
        i.closed = true;
        let w = std::mem::take(&mut i.wakers);
        drop(i);
        wake(w);
    }
    pub fn poll_next(&self, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut i = self.0.lock().unwrap();
        match i.q.pop_front() {
            Some(t) => Poll::Ready(Some(t)),
            None if i.closed => Poll::Ready(None),
            None => {
                i.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    /// Blocks the calling task. None: closed. Err: timed out.
    pub fn block(&self, limit: Option<Duration>) -> Result<Option<T>, ()> {
        let until = limit.map(|d| tokio::time::Instant::now() + d);
        if let (Some(u), Some(w)) = (until, crate::current_waker()) {
            tokio::spawn(async move {
                tokio::time::sleep_until(u).await;
                w.wake();
            });
        }
        loop {
            match self.try_next() {
                Try::Item(t) => return Ok(Some(t)),
                Try::Closed => return Ok(None),
                Try::Empty => {
                    if until.map(|u| tokio::time::Instant::now() >= u).unwrap_or(false) {
                        return Err(());
                    }
                    let w = crate::current_waker().expect("a blocking call outside a task");
                    self.0.lock().unwrap().wakers.push(w);
                    crate::co::suspend();
                }
            }
        }
    }
}

impl<T> Drop for Rx<T> {
    fn drop(&mut self) {
        if let Ok(mut i) = self.0.lock() {
            i.gone = true;
        }
    }
}
