pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use crate::rt;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;

struct Inner<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    bound: Option<usize>,
    // messages taken so far (a rendezvous send waits for its message)
    taken: u64,
    sent: u64,
    receiving: usize,
}
struct Chan<T>(RefCell<Inner<T>>);
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>, std::marker::PhantomData<std::cell::Cell<()>>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan(RefCell::new(Inner { q: VecDeque::new(), senders: 1, receiver: true, bound: None, taken: 0, sent: 0, receiving: 0 })));
    (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Arc::new(Chan(RefCell::new(Inner { q: VecDeque::new(), senders: 1, receiver: true, bound: Some(n), taken: 0, sent: 0, receiving: 0 })));
    (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point();
        let mut i = self.0 .0.borrow_mut();
        if !i.receiver {
            return Err(SendError(t));
        }
        i.q.push_back(t);
        i.sent += 1;
        Ok(())
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::point();
        let c = &self.0 .0;
        let bound = c.borrow().bound.unwrap();
        let cap = bound.max(1);
        rt::block_on(
            "SyncSender::send",
            &|| {
                let i = c.borrow();
                !i.receiver || i.q.len() < cap
            },
            None,
        );
        let mut i = c.borrow_mut();
        if !i.receiver {
            return Err(SendError(t));
        }
        i.q.push_back(t);
        i.sent += 1;
        let my = i.sent;
        drop(i);
        if bound == 0 {
            rt::block_on(
                "SyncSender::send",
                &|| {
                    let i = c.borrow();
                    !i.receiver || i.taken >= my
                },
                None,
            );
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        rt::point();
        let mut i = self.0 .0.borrow_mut();
        if !i.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        let b = i.bound.unwrap();
        if (b == 0 && i.receiving == 0) || (b > 0 && i.q.len() >= b) || (b == 0 && !i.q.is_empty()) {
            return Err(TrySendError::Full(t));
        }
        i.q.push_back(t);
        i.sent += 1;
        Ok(())
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0 .0.borrow_mut().senders += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                rt::point();
                self.0 .0.borrow_mut().senders -= 1;
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($n))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);

impl<T> Receiver<T> {
    fn take(&self) -> Option<T> {
        let mut i = self.0 .0.borrow_mut();
        let r = i.q.pop_front();
        if r.is_some() {
            i.taken += 1;
        }
        r
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::point();
        let c = &self.0 .0;
        c.borrow_mut().receiving += 1;
        rt::block_on(
            "Receiver::recv",
            &|| {
                let i = c.borrow();
                !i.q.is_empty() || i.senders == 0
            },
            None,
        );
        c.borrow_mut().receiving -= 1;
        self.take().ok_or(RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        rt::point();
        let dl = rt::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
        let c = &self.0 .0;
        c.borrow_mut().receiving += 1;
        let ok = rt::block_on(
            "Receiver::recv_timeout",
            &|| {
                let i = c.borrow();
                !i.q.is_empty() || i.senders == 0
            },
            Some(dl),
        );
        c.borrow_mut().receiving -= 1;
        if !ok {
            return Err(RecvTimeoutError::Timeout);
        }
        self.take().ok_or(RecvTimeoutError::Disconnected)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point();
        if let Some(t) = self.take() {
            return Ok(t);
        }
        if self.0 .0.borrow().senders == 0 {
            Err(TryRecvError::Disconnected)
        } else {
            Err(TryRecvError::Empty)
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        rt::point();
        let mut i = self.0 .0.borrow_mut();
        i.receiver = false;
        let q = std::mem::take(&mut i.q);
        drop(i);
        drop(q);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver")
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
