//! A runtime of our own for the generic asynchronous API: streams which stay in blocking mode (waiting is only avoided by flags of each call), call back late
//! now and then, and wait with poll(2). All of it belongs to one thread.

use crossmist::asynchronous::AsyncStream;
use crossmist::handles::{AsHandle, AsRawHandle, BorrowedHandle, RawHandle};
use crossmist::Object;
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::io::{ErrorKind, Result};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[derive(Debug, Object)]
pub struct Own(UnixStream);

thread_local! {
    static FDS: RefCell<Vec<(i32, i16, Waker)>> = const { RefCell::new(Vec::new()) };
    static TIMES: RefCell<Vec<(Instant, Waker)>> = const { RefCell::new(Vec::new()) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
async fn wait(fd: i32, events: i16) {
    let mut first = true;
    poll_fn(|cx| {
        if !std::mem::replace(&mut first, false) {
            return Poll::Ready(());
        }
        FDS.with(|f| f.borrow_mut().push((fd, events, cx.waker().clone())));
        Poll::Pending
    })
    .await
}
pub async fn sleep(d: Duration) {
    let at = Instant::now() + d;
    poll_fn(|cx| {
        if Instant::now() >= at {
            return Poll::Ready(());
        }
        TIMES.with(|t| t.borrow_mut().push((at, cx.waker().clone())));
        Poll::Pending
    })
    .await
}
async fn late() {
    if CALLS.with(|c| c.replace(c.get() + 1)) % 5 == 3 {
        futures_lite::future::yield_now().await;
    }
}
fn done<T>(r: Result<T>) -> Option<Result<T>> {
    (!matches!(&r, Err(e) if e.kind() == ErrorKind::WouldBlock)).then_some(r)
}
unsafe impl AsyncStream for Own {
    fn try_new(stream: UnixStream) -> Result<Self> {
        Ok(Own(stream))
    }
    fn as_handle(&self) -> BorrowedHandle<'_> {
        self.0.as_handle()
    }
    fn as_raw_handle(&self) -> RawHandle {
        self.0.as_raw_handle()
    }
    const IS_BLOCKING: bool = false;
    async fn blocking_write<T>(&self, mut f: impl FnMut() -> Result<T> + Send) -> Result<T> {
        late().await;
        loop {
            if let Some(r) = done(f()) {
                return r;
            }
            wait(self.0.as_raw_handle(), libc::POLLOUT).await;
        }
    }
    async fn blocking_read<T>(&self, mut f: impl FnMut() -> Result<T> + Send) -> Result<T> {
        late().await;
        loop {
            if let Some(r) = done(f()) {
                return r;
            }
            wait(self.0.as_raw_handle(), libc::POLLIN).await;
        }
    }
}

/// Raised from any thread.
struct Flag(AtomicBool, OwnedFd);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        if !self.0.swap(true, SeqCst) {
            let one = 1u64;
            unsafe { libc::write(self.1.as_raw_fd(), &one as *const u64 as *const _, 8) };
        }
    }
}
/// Wait for something that is registered or for the flag, and wake what waits for it.
fn turn(flag: i32) {
    let mut fds = FDS.with(|f| std::mem::take(&mut *f.borrow_mut()));
    let mut times = TIMES.with(|t| std::mem::take(&mut *t.borrow_mut()));
    let mut p: Vec<libc::pollfd> = fds.iter().map(|x| libc::pollfd { fd: x.0, events: x.1, revents: 0 }).collect();
    p.push(libc::pollfd { fd: flag, events: libc::POLLIN, revents: 0 });
    let ms = times.iter().map(|x| x.0.saturating_duration_since(Instant::now()).as_micros().div_ceil(1000) as i32).min().unwrap_or(-1);
    unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, ms) };
    for (x, p) in std::mem::take(&mut fds).into_iter().zip(p) {
        if p.revents != 0 {
            x.2.wake();
        } else {
            fds.push(x);
        }
    }
    let now = Instant::now();
    for x in std::mem::take(&mut times) {
        if x.0 <= now {
            x.1.wake();
        } else {
            times.push(x);
        }
    }
    FDS.with(|f| f.borrow_mut().extend(fds));
    TIMES.with(|t| t.borrow_mut().extend(times));
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let e = unsafe { OwnedFd::from_raw_fd(libc::eventfd(1, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK)) };
    let flag = Arc::new(Flag(AtomicBool::new(true), e));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    let r = loop {
        let mut n = 0u64;
        unsafe { libc::read(flag.1.as_raw_fd(), &mut n as *mut u64 as *mut _, 8) };
        if flag.0.swap(false, SeqCst) {
            if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                break r;
            }
        } else {
            turn(flag.1.as_raw_fd());
        }
    };
    FDS.with(|f| f.borrow_mut().clear());
    TIMES.with(|t| t.borrow_mut().clear());
    r
}
/// All of the tasks, each polled whenever any of them may go on.
pub async fn all<O>(tasks: Vec<Pin<Box<dyn Future<Output = O>>>>) -> Vec<O> {
    let mut tasks: Vec<_> = tasks.into_iter().map(Some).collect();
    let mut out: Vec<Option<O>> = tasks.iter().map(|_| None).collect();
    poll_fn(move |cx| {
        for (t, o) in tasks.iter_mut().zip(&mut out) {
            if let Some(x) = t {
                if let Poll::Ready(r) = x.as_mut().poll(cx) {
                    *o = Some(r);
                    *t = None;
                }
            }
        }
        if tasks.iter().any(|t| t.is_some()) {
            return Poll::Pending;
        }
        Poll::Ready(out.iter_mut().map(|o| o.take().unwrap()).collect())
    })
    .await
}
