//! Stands in for `crossmist::tokio` or `crossmist::smol` where crossmist is built without that feature: the blocking API behind the same interface.

use crossmist::{KillHandle, Object};
use std::io::{Error, Result};
use std::os::fd::{AsRawFd, RawFd};

pub struct Sender<T: Object>(crossmist::Sender<T>);
pub struct Receiver<T: Object>(crossmist::Receiver<T>);
pub struct Duplex<S: Object, R: Object>(crossmist::Duplex<S, R>);
pub struct Child<T: Object>(crossmist::Child<T>);

macro_rules! common {
    ($n:ident $($p:ident)*) => {
        impl<$($p: Object),*> TryFrom<crossmist::$n<$($p),*>> for $n<$($p),*> {
            type Error = Error;
            fn try_from(x: crossmist::$n<$($p),*>) -> Result<Self> {
                Ok($n(x))
            }
        }
        impl<$($p: Object),*> AsRawFd for $n<$($p),*> {
            fn as_raw_fd(&self) -> RawFd {
                self.0.as_raw_fd()
            }
        }
    };
}
common!(Sender T);
common!(Receiver T);
common!(Duplex S R);
impl<T: Object> Sender<T> {
    pub async fn send(&mut self, v: &T) -> Result<()> {
        self.0.send(v)
    }
}
impl<T: Object> Receiver<T> {
    pub async fn recv(&mut self) -> Result<Option<T>> {
        self.0.recv()
    }
}
impl<S: Object, R: Object> Duplex<S, R> {
    pub async fn send(&mut self, v: &S) -> Result<()> {
        self.0.send(v)
    }
    pub async fn recv(&mut self) -> Result<Option<R>> {
        self.0.recv()
    }
    pub async fn request(&mut self, v: &S) -> Result<R> {
        self.0.request(v)
    }
    pub fn into_sender(self) -> Sender<S> {
        Sender(self.0.into_sender())
    }
    pub fn into_receiver(self) -> Receiver<R> {
        Receiver(self.0.into_receiver())
    }
}
impl<T: Object> Child<T> {
    pub async fn join(self) -> Result<T> {
        self.0.join()
    }
    pub fn id(&self) -> i32 {
        self.0.id()
    }
    pub fn get_kill_handle(&self) -> KillHandle {
        self.0.get_kill_handle()
    }
}
pub fn channel<T: Object>() -> Result<(Sender<T>, Receiver<T>)> {
    crossmist::channel().map(|(a, b)| (Sender(a), Receiver(b)))
}
pub fn duplex<A: Object, B: Object>() -> Result<(Duplex<A, B>, Duplex<B, A>)> {
    crossmist::duplex().map(|(a, b)| (Duplex(a), Duplex(b)))
}
