//! Single-threaded stand-in for the parts of tokio which generated code uses: channels, select!, join!, spawn and sleep.
//! Tasks are polled by the harness; time passes when the harness says so. The macros are those of tokio 1.14 (MIT), where
//! select! starts at any of the branches which could complete (the random start of tokio, as a symbolic choice).
#[doc(hidden)]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
#[macro_use]
mod select;
#[macro_use]
mod join;
#[macro_use]
mod try_join;
#[macro_use]
mod pin;

/// what the harness needs
pub mod rt {
    use std::{future::Future, pin::Pin, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};
    static mut PEEK: bool = false;
    static mut SEEN: bool = false;
    static mut READY: u64 = 0;
    static mut ACT: usize = 0;
    pub(crate) static mut NOW: u128 = 0;
    static mut TASKS: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = Vec::new();
    fn first(_: usize) -> usize { 0 }
    pub static mut CHOOSE: fn(usize) -> usize = first;
    pub fn peeking() -> bool { unsafe { PEEK } }
    /// something happened: the tasks have to be polled again
    pub fn act() { unsafe { ACT += 1 } }
    /// a primitive could complete: may it do so (it may not while a select! only asks)
    pub fn take() -> bool { unsafe { if PEEK { SEEN = true; false } else { ACT += 1; true } } }
    pub fn peek_begin() -> bool { unsafe { let s = SEEN; PEEK = true; SEEN = false; s } }
    pub fn peek_end(nested: bool, before: bool) -> bool { unsafe { let s = SEEN; PEEK = nested; SEEN = before || (nested && s); s } }
    pub fn offer(ready: u64) { unsafe { READY = ready } }
    pub fn pick(n: u32) -> u32 {
        let r = unsafe { READY };
        let c = (0..n).filter(|i| r >> i & 1 == 1).count();
        let k = if c < 2 { 0 } else { unsafe { CHOOSE(c) } };
        (0..n).filter(|i| r >> i & 1 == 1).nth(k).unwrap_or(0)
    }
    pub fn spawn(f: Pin<Box<dyn Future<Output = ()>>>) -> usize { unsafe { TASKS.push(Some(f)); act(); TASKS.len() - 1 } }
    pub fn live(i: usize) -> bool { unsafe { TASKS[i].is_some() } }
    pub fn count() -> usize { unsafe { TASKS.len() } }
    pub fn abort(i: usize) { unsafe { let t = TASKS[i].take(); drop(t) } }
    pub fn acts() -> usize { unsafe { ACT } }
    fn waker() -> Waker {
        fn c(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &V) }
        fn n(_: *const ()) {}
        static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
        unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
    }
    /// polls one task once
    pub fn poll(i: usize) {
        let t = unsafe { TASKS[i].take() };
        if let Some(mut t) = t {
            let w = waker();
            if t.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { act() } else { unsafe { TASKS[i] = Some(t) } }
        }
    }
    /// polls all tasks in turn until nothing happens any more
    pub fn settle() {
        for _ in 0..10_000 {
            let a = acts();
            let mut i = 0;
            while i < count() { poll(i); i += 1 }
            if a == acts() { return }
        }
        panic!("the tasks never come to rest")
    }
    pub fn advance(ms: u64) { unsafe { NOW += ms as u128 * 1_000_000; } act() }
}
#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use std::{future::Future, pin::Pin, task::Poll};
        use std::{mem, task::Context};
        pub struct PollFn<F>(F);
        impl<F> Unpin for PollFn<F> {}
        pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<T>>(f: F) -> PollFn<F> { PollFn(f) }
        impl<T, F: FnMut(&mut Context<'_>) -> Poll<T>> Future for PollFn<F> {
            type Output = T;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> { (&mut self.0)(cx) }
        }
        pub fn thread_rng_n(n: u32) -> u32 { crate::rt::pick(n) }
        pub enum MaybeDone<Fut: Future> { Future(Fut), Done(Fut::Output), Gone }
        impl<Fut: Future + Unpin> Unpin for MaybeDone<Fut> {}
        pub fn maybe_done<Fut: Future>(f: Fut) -> MaybeDone<Fut> { MaybeDone::Future(f) }
        impl<Fut: Future> MaybeDone<Fut> {
            pub fn output_mut(self: Pin<&mut Self>) -> Option<&mut Fut::Output> {
                unsafe { match self.get_unchecked_mut() { MaybeDone::Done(r) => Some(r), _ => None } }
            }
            pub fn take_output(self: Pin<&mut Self>) -> Option<Fut::Output> {
                unsafe {
                    let this = self.get_unchecked_mut();
                    match this { MaybeDone::Done(_) => {} _ => return None }
                    if let MaybeDone::Done(o) = mem::replace(this, MaybeDone::Gone) { Some(o) } else { unreachable!() }
                }
            }
        }
        impl<Fut: Future> Future for MaybeDone<Fut> {
            type Output = ();
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
                let r = unsafe {
                    match self.as_mut().get_unchecked_mut() {
                        MaybeDone::Future(a) => match Pin::new_unchecked(a).poll(cx) { Poll::Ready(r) => r, Poll::Pending => return Poll::Pending },
                        MaybeDone::Done(_) => return Poll::Ready(()),
                        MaybeDone::Gone => panic!("MaybeDone polled after value taken"),
                    }
                };
                self.set(MaybeDone::Done(r));
                Poll::Ready(())
            }
        }
    }
}
pub mod sync {
    use std::{cell::UnsafeCell, collections::VecDeque, sync::Arc};
    struct Cell<T>(UnsafeCell<T>);
    unsafe impl<T> Send for Cell<T> {}
    unsafe impl<T> Sync for Cell<T> {}
    impl<T> Cell<T> {
        fn new(t: T) -> Arc<Self> { Arc::new(Cell(UnsafeCell::new(t))) }
        #[allow(clippy::mut_from_ref)]
        fn at(&self) -> &mut T { unsafe { &mut *self.0.get() } }
    }
    pub mod mpsc {
        use super::*;
        use std::{fmt, future::Future, pin::Pin, task::{Context, Poll}};
        pub mod error {
            use std::fmt;
            pub struct SendError<T>(pub T);
            impl<T> fmt::Debug for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SendError { .. }") } }
            impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("channel closed") } }
            impl<T> std::error::Error for SendError<T> {}
            #[derive(Debug)]
            pub enum TrySendError<T> { Full(T), Closed(T) }
            impl<T> fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("no available capacity") } }
            impl<T: fmt::Debug> std::error::Error for TrySendError<T> {}
            #[derive(Debug, PartialEq, Eq, Clone, Copy)]
            pub enum TryRecvError { Empty, Disconnected }
            impl fmt::Display for TryRecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty or closed channel") } }
            impl std::error::Error for TryRecvError {}
        }
        use error::*;
        struct Chan<T> { q: VecDeque<T>, cap: usize, tx: usize, rx: bool }
        macro_rules! ends { ($tx:ident, $rx:ident) => {
            pub struct $tx<T>(Arc<Cell<Chan<T>>>);
            pub struct $rx<T>(Arc<Cell<Chan<T>>>);
            impl<T> Clone for $tx<T> { fn clone(&self) -> Self { self.0.at().tx += 1; $tx(self.0.clone()) } }
            impl<T> Drop for $tx<T> { fn drop(&mut self) { self.0.at().tx -= 1; crate::rt::act() } }
            impl<T> Drop for $rx<T> { fn drop(&mut self) { let c = self.0.at(); c.rx = false; let q = std::mem::take(&mut c.q); drop(q); crate::rt::act() } }
            impl<T> fmt::Debug for $tx<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($tx)) } }
            impl<T> fmt::Debug for $rx<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($rx)) } }
            impl<T> $tx<T> {
                pub fn is_closed(&self) -> bool { !self.0.at().rx }
                pub fn same_channel(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) }
            }
            impl<T> $rx<T> {
                pub fn recv(&mut self) -> Recv<'_, T> { Recv(&self.0) }
                pub fn close(&mut self) { self.0.at().rx = false; crate::rt::act() }
                pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                    let c = self.0.at();
                    match c.q.pop_front() { Some(t) => { crate::rt::act(); Ok(t) } None => Err(if c.tx == 0 || !c.rx { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
                }
            }
        } }
        ends!(UnboundedSender, UnboundedReceiver);
        ends!(Sender, Receiver);
        pub struct Recv<'a, T>(&'a Arc<Cell<Chan<T>>>);
        impl<'a, T> Future for Recv<'a, T> {
            type Output = Option<T>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
                let c = self.0.at();
                if c.q.is_empty() && c.tx != 0 && c.rx { return Poll::Pending }
                if !crate::rt::take() { return Poll::Pending }
                Poll::Ready(c.q.pop_front())
            }
        }
        fn make<T>(cap: usize) -> Arc<Cell<Chan<T>>> { Cell::new(Chan { q: VecDeque::new(), cap, tx: 1, rx: true }) }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let c = make(usize::MAX); (UnboundedSender(c.clone()), UnboundedReceiver(c)) }
        pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) { let c = make(cap); (Sender(c.clone()), Receiver(c)) }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let c = self.0.at();
                if !c.rx { return Err(SendError(t)) }
                c.q.push_back(t);
                crate::rt::act();
                Ok(())
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Sending<'_, T> { Sending(&self.0, Some(t)) }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                let c = self.0.at();
                if !c.rx { return Err(TrySendError::Closed(t)) }
                if c.q.len() >= c.cap { return Err(TrySendError::Full(t)) }
                c.q.push_back(t);
                crate::rt::act();
                Ok(())
            }
        }
        pub struct Sending<'a, T>(&'a Arc<Cell<Chan<T>>>, Option<T>);
        impl<'a, T> Unpin for Sending<'a, T> {}
        impl<'a, T> Future for Sending<'a, T> {
            type Output = Result<(), SendError<T>>;
            fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let c = self.0.at();
                if c.rx && c.q.len() >= c.cap { return Poll::Pending }
                if !crate::rt::take() { return Poll::Pending }
                let t = self.1.take().expect("polled after completion");
                if !c.rx { return Poll::Ready(Err(SendError(t))) }
                c.q.push_back(t);
                Poll::Ready(Ok(()))
            }
        }
    }
    pub mod oneshot {
        use super::*;
        use std::{fmt, future::Future, pin::Pin, task::{Context, Poll}};
        pub mod error {
            #[derive(Debug, PartialEq, Eq, Clone)]
            pub struct RecvError(pub(super) ());
            impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
            impl std::error::Error for RecvError {}
            #[derive(Debug, PartialEq, Eq, Clone)]
            pub enum TryRecvError { Empty, Closed }
        }
        struct Shot<T> { v: Option<T>, tx: bool, rx: bool }
        pub struct Sender<T>(Arc<Cell<Shot<T>>>);
        pub struct Receiver<T>(Arc<Cell<Shot<T>>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = Cell::new(Shot { v: None, tx: true, rx: true }); (Sender(c.clone()), Receiver(c)) }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.at().tx = false; crate::rt::act() } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { let c = self.0.at(); c.rx = false; let v = c.v.take(); drop(v); crate::rt::act() } }
        impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
        impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
        impl<T> Sender<T> {
            pub fn send(self, t: T) -> Result<(), T> { let c = self.0.at(); if !c.rx { return Err(t) } c.v = Some(t); Ok(()) }
            pub fn is_closed(&self) -> bool { !self.0.at().rx }
        }
        impl<T> Receiver<T> {
            pub fn close(&mut self) { self.0.at().rx = false }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { let c = self.0.at(); match c.v.take() { Some(v) => Ok(v), None => Err(if c.tx { error::TryRecvError::Empty } else { error::TryRecvError::Closed }) } }
        }
        impl<T> Unpin for Receiver<T> {}
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let c = self.0.at();
                if c.v.is_none() && c.tx { return Poll::Pending }
                if !crate::rt::take() { return Poll::Pending }
                Poll::Ready(c.v.take().ok_or(error::RecvError(())))
            }
        }
    }
}
pub mod task {
    use std::{future::Future, pin::Pin, task::{Context, Poll}};
    use super::sync::oneshot;
    pub struct JoinHandle<T> { i: usize, rx: oneshot::Receiver<T> }
    #[derive(Debug)]
    pub struct JoinError(());
    impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task failed") } }
    impl std::error::Error for JoinError {}
    impl<T> JoinHandle<T> { pub fn abort(&self) { crate::rt::abort(self.i) } }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.rx).poll(cx).map(|r| r.map_err(|_| JoinError(()))) }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
        let (tx, rx) = oneshot::channel();
        let i = crate::rt::spawn(Box::pin(async move { let _ = tx.send(f.await); }));
        JoinHandle { i, rx }
    }
    pub async fn yield_now() {}
}
pub use task::spawn;
pub mod time {
    pub use std::time::Duration;
    use std::{future::Future, pin::Pin, task::{Context, Poll}};
    pub struct Sleep(u128);
    pub fn sleep(d: Duration) -> Sleep { unsafe { Sleep(crate::rt::NOW + d.as_nanos()) } }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if unsafe { crate::rt::NOW } >= self.0 && crate::rt::take() { Poll::Ready(()) } else { Poll::Pending } }
    }
    pub mod error {
        #[derive(Debug, PartialEq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
        impl std::error::Error for Elapsed {}
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        crate::select! { biased; r = f => Ok(r), _ = sleep(d) => Err(error::Elapsed(())) }
    }
}
