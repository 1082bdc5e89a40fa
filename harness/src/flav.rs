//! Channel endpoints of the three flavours behind one interface, and ways to run them.

use crate::own::Own;
use crossmist::Object;
use std::future::Future;
use std::io::Result;
use std::os::fd::{AsRawFd, RawFd};
use std::pin::Pin;

#[cfg(not(feature = "smol"))]
use crate::stub as cs;
#[cfg(not(feature = "tokio"))]
use crate::stub as ct;
#[cfg(feature = "smol")]
use crossmist::smol as cs;
#[cfg(feature = "tokio")]
use crossmist::tokio as ct;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fl {
    B,
    T,
    S,
    /// A runtime of the harness (`own.rs`)
    C,
}
pub const FLS: [Fl; 3] = [Fl::B, Fl::T, Fl::S];
pub const ASYNC: [Fl; 2] = [Fl::T, Fl::S];
pub const FLS4: [Fl; 4] = [Fl::B, Fl::T, Fl::S, Fl::C];
pub const ASYNC3: [Fl; 3] = [Fl::T, Fl::S, Fl::C];

/// The flavour which is used instead where crossmist was built without the asked one.
pub fn real(f: Fl) -> Fl {
    match f {
        Fl::T if !cfg!(feature = "tokio") => Fl::B,
        Fl::S if !cfg!(feature = "smol") => Fl::B,
        f => f,
    }
}

pub enum Tx<T: Object> {
    B(crossmist::Sender<T>),
    T(ct::Sender<T>),
    S(cs::Sender<T>),
    C(crossmist::asynchronous::Sender<Own, T>),
}
pub enum Rx<T: Object> {
    B(crossmist::Receiver<T>),
    T(ct::Receiver<T>),
    S(cs::Receiver<T>),
    C(crossmist::asynchronous::Receiver<Own, T>),
}
pub enum Dx<S: Object, R: Object> {
    B(crossmist::Duplex<S, R>),
    T(ct::Duplex<S, R>),
    S(cs::Duplex<S, R>),
    C(crossmist::asynchronous::Duplex<Own, S, R>),
}
macro_rules! fd {
    ($s:expr) => {
        match $s {
            Self::B(x) => x.as_raw_fd(),
            Self::T(x) => x.as_raw_fd(),
            Self::S(x) => x.as_raw_fd(),
            Self::C(x) => x.as_raw_fd(),
        }
    };
}
impl<T: Object> Tx<T> {
    /// Convert a blocking endpoint. For tokio, call it inside of a runtime.
    pub fn from_blocking(x: crossmist::Sender<T>, f: Fl) -> Result<Self> {
        Ok(match f {
            Fl::B => Tx::B(x),
            Fl::T => Tx::T(x.try_into()?),
            Fl::S => Tx::S(x.try_into()?),
            Fl::C => Tx::C(x.try_into()?),
        })
    }
    pub async fn send(&mut self, v: &T) -> Result<()> {
        match self {
            Tx::B(x) => x.send(v),
            Tx::T(x) => x.send(v).await,
            Tx::S(x) => x.send(v).await,
            Tx::C(x) => x.send(v).await,
        }
    }
    pub fn raw(&self) -> RawFd {
        fd!(self)
    }
}
impl<T: Object> Rx<T> {
    pub fn from_blocking(x: crossmist::Receiver<T>, f: Fl) -> Result<Self> {
        Ok(match f {
            Fl::B => Rx::B(x),
            Fl::T => Rx::T(x.try_into()?),
            Fl::S => Rx::S(x.try_into()?),
            Fl::C => Rx::C(x.try_into()?),
        })
    }
    pub async fn recv(&mut self) -> Result<Option<T>> {
        match self {
            Rx::B(x) => x.recv(),
            Rx::T(x) => x.recv().await,
            Rx::S(x) => x.recv().await,
            Rx::C(x) => x.recv().await,
        }
    }
    pub fn raw(&self) -> RawFd {
        fd!(self)
    }
}
impl<S: Object, R: Object> Dx<S, R> {
    pub fn from_blocking(x: crossmist::Duplex<S, R>, f: Fl) -> Result<Self> {
        Ok(match f {
            Fl::B => Dx::B(x),
            Fl::T => Dx::T(x.try_into()?),
            Fl::S => Dx::S(x.try_into()?),
            Fl::C => Dx::C(x.try_into()?),
        })
    }
    pub async fn send(&mut self, v: &S) -> Result<()> {
        match self {
            Dx::B(x) => x.send(v),
            Dx::T(x) => x.send(v).await,
            Dx::S(x) => x.send(v).await,
            Dx::C(x) => x.send(v).await,
        }
    }
    pub async fn recv(&mut self) -> Result<Option<R>> {
        match self {
            Dx::B(x) => x.recv(),
            Dx::T(x) => x.recv().await,
            Dx::S(x) => x.recv().await,
            Dx::C(x) => x.recv().await,
        }
    }
    pub async fn request(&mut self, v: &S) -> Result<R> {
        match self {
            Dx::B(x) => x.request(v),
            Dx::T(x) => x.request(v).await,
            Dx::S(x) => x.request(v).await,
            Dx::C(x) => x.request(v).await,
        }
    }
    pub fn into_sender(self) -> Tx<S> {
        match self {
            Dx::B(x) => Tx::B(x.into_sender()),
            Dx::T(x) => Tx::T(x.into_sender()),
            Dx::S(x) => Tx::S(x.into_sender()),
            Dx::C(x) => Tx::C(x.into_sender()),
        }
    }
    pub fn into_receiver(self) -> Rx<R> {
        match self {
            Dx::B(x) => Rx::B(x.into_receiver()),
            Dx::T(x) => Rx::T(x.into_receiver()),
            Dx::S(x) => Rx::S(x.into_receiver()),
            Dx::C(x) => Rx::C(x.into_receiver()),
        }
    }
    pub fn raw(&self) -> RawFd {
        fd!(self)
    }
}
/// A channel whose both ends were created in the flavour. For tokio, call it inside of a runtime.
pub fn channel<T: Object>(f: Fl) -> Result<(Tx<T>, Rx<T>)> {
    Ok(match f {
        Fl::B => {
            let (a, b) = crossmist::channel()?;
            (Tx::B(a), Rx::B(b))
        }
        Fl::T => {
            let (a, b) = ct::channel()?;
            (Tx::T(a), Rx::T(b))
        }
        Fl::S => {
            let (a, b) = cs::channel()?;
            (Tx::S(a), Rx::S(b))
        }
        Fl::C => {
            let (a, b) = crossmist::asynchronous::channel()?;
            (Tx::C(a), Rx::C(b))
        }
    })
}
pub fn duplex<A: Object, B: Object>(f: Fl) -> Result<(Dx<A, B>, Dx<B, A>)> {
    Ok(match f {
        Fl::B => {
            let (a, b) = crossmist::duplex()?;
            (Dx::B(a), Dx::B(b))
        }
        Fl::T => {
            let (a, b) = ct::duplex()?;
            (Dx::T(a), Dx::T(b))
        }
        Fl::S => {
            let (a, b) = cs::duplex()?;
            (Dx::S(a), Dx::S(b))
        }
        Fl::C => {
            let (a, b) = crossmist::asynchronous::duplex()?;
            (Dx::C(a), Dx::C(b))
        }
    })
}

pub fn tokio_rt() -> ::tokio::runtime::Runtime {
    ::tokio::runtime::Builder::new_current_thread().enable_all().build().expect("HARNESS tokio runtime")
}
/// Run a future to completion on the current thread, with the runtime of the flavour.
pub fn drive<F: Future>(f: Fl, fut: F) -> F::Output {
    match f {
        Fl::B => futures_lite::future::block_on(fut),
        Fl::T => tokio_rt().block_on(fut),
        Fl::S => async_io::block_on(fut),
        Fl::C => crate::own::block_on(fut),
    }
}
/// The same, with a tokio runtime available in any flavour (for objects which need one).
pub fn drive_ctx<F: Future>(f: Fl, fut: F) -> F::Output {
    let rt = tokio_rt();
    let _g = rt.enter();
    match f {
        Fl::B => futures_lite::future::block_on(fut),
        Fl::T => rt.block_on(fut),
        Fl::S => async_io::block_on(fut),
        Fl::C => crate::own::block_on(fut),
    }
}
pub async fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    std::future::poll_fn(|cx| {
        std::task::Poll::Ready(match f.as_mut().poll(cx) {
            std::task::Poll::Ready(v) => Some(v),
            std::task::Poll::Pending => None,
        })
    })
    .await
}
/// Start the global reactors, so that their descriptors do not appear later.
pub fn warm_up() {
    warm_smol();
    tokio_rt().block_on(async {
        ::tokio::task::yield_now().await;
    });
}
pub fn warm_smol() {
    async_io::block_on(async {
        let (a, _b) = async_io::Async::<std::os::unix::net::UnixStream>::pair().expect("HARNESS pair");
        a.writable().await.expect("HARNESS writable");
        async_io::Timer::after(std::time::Duration::from_millis(1)).await;
    });
}
pub type Task<'a, O> = Pin<Box<dyn Future<Output = O> + 'a>>;
/// Run several tasks on one single-threaded executor of the flavour (not for blocking ones). Results in order.
pub async fn drive_tasks<O: 'static>(f: Fl, tasks: Vec<Task<'static, O>>) -> Vec<O> {
    match f {
        Fl::B => panic!("HARNESS blocking tasks"),
        Fl::T => {
            let set = ::tokio::task::LocalSet::new();
            set.run_until(async move {
                let hs: Vec<_> = tasks.into_iter().map(::tokio::task::spawn_local).collect();
                let mut out = Vec::new();
                for h in hs {
                    match h.await {
                        Ok(o) => out.push(o),
                        Err(e) => std::panic::resume_unwind(e.into_panic()),
                    }
                }
                out
            })
            .await
        }
        Fl::C => crate::own::all(tasks).await,
        Fl::S => {
            let ex = smol::LocalExecutor::new();
            let hs: Vec<_> = tasks.into_iter().map(|t| ex.spawn(t)).collect();
            ex.run(async move {
                let mut out = Vec::new();
                for h in hs {
                    out.push(h.await);
                }
                out
            })
            .await
        }
    }
}
/// Let other tasks and the reactor run.
pub async fn breathe(f: Fl) {
    match f {
        Fl::B => std::thread::yield_now(),
        Fl::T => ::tokio::task::yield_now().await,
        Fl::S | Fl::C => futures_lite::future::yield_now().await,
    }
}
pub async fn pause(f: Fl, micros: u64) {
    let d = std::time::Duration::from_micros(micros);
    match f {
        Fl::B => std::thread::sleep(d),
        Fl::T => ::tokio::time::sleep(d).await,
        Fl::S => {
            async_io::Timer::after(d).await;
        }
        Fl::C => crate::own::sleep(d).await,
    }
}

/// Values which are handed to another thread that uses them exclusively.
pub struct Hand<T>(pub T);
unsafe impl<T> Send for Hand<T> {}
unsafe impl<T> Sync for Hand<T> {}
impl<T> Hand<T> {
    pub fn get(self) -> T {
        self.0
    }
}
