//! Stand-in for the `oneshot` crate (unavailable offline): same interface for what mintlayer uses.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

struct Inner<T> { val: Option<T>, tx_alive: bool, rx_alive: bool, waker: Option<Waker> }
struct Shared<T> { m: Mutex<Inner<T>>, c: Condvar }
pub struct Sender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RecvError;
impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel sender has been dropped") } }
impl std::error::Error for RecvError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TryRecvError { Empty, Disconnected }
impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for TryRecvError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RecvTimeoutError { Timeout, Disconnected }
impl std::fmt::Display for RecvTimeoutError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for RecvTimeoutError {}
pub struct SendError<T>(T);
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel receiver has been dropped") } }
impl<T> std::error::Error for SendError<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = Arc::new(Shared { m: Mutex::new(Inner { val: None, tx_alive: true, rx_alive: true, waker: None }), c: Condvar::new() });
    (Sender(s.clone()), Receiver(s))
}

impl<T> Sender<T> {
    pub fn send(self, v: T) -> Result<(), SendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.rx_alive { return Err(SendError(v)); }
        g.val = Some(v);
        Ok(())
    }
    pub fn is_closed(&self) -> bool { !self.0.m.lock().unwrap().rx_alive }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let w = { let mut g = self.0.m.lock().unwrap(); g.tx_alive = false; g.waker.take() };
        self.0.c.notify_all();
        if let Some(w) = w { w.wake() }
    }
}
impl<T> Receiver<T> {
    pub fn recv(self) -> Result<T, RecvError> { self.recv_ref() }
    pub fn recv_ref(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(v) = g.val.take() { return Ok(v); }
            if !g.tx_alive { return Err(RecvError); }
            g = self.0.c.wait(g).unwrap();
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let end = std::time::Instant::now() + d;
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(v) = g.val.take() { return Ok(v); }
            if !g.tx_alive { return Err(RecvTimeoutError::Disconnected); }
            let left = end.saturating_duration_since(std::time::Instant::now());
            if left.is_zero() { return Err(RecvTimeoutError::Timeout); }
            g = self.0.c.wait_timeout(g, left).unwrap().0;
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        match g.val.take() { Some(v) => Ok(v), None if g.tx_alive => Err(TryRecvError::Empty), None => Err(TryRecvError::Disconnected) }
    }
    pub fn is_closed(&self) -> bool { !self.0.m.lock().unwrap().tx_alive }
}
impl<T> Drop for Receiver<T> { fn drop(&mut self) { if let Ok(mut g) = self.0.m.lock() { g.rx_alive = false; } } }
impl<T> Future for Receiver<T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.0.m.lock().unwrap();
        if let Some(v) = g.val.take() { return Poll::Ready(Ok(v)); }
        if !g.tx_alive { return Poll::Ready(Err(RecvError)); }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
