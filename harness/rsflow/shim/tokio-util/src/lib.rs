//! Single-threaded stand-in for tokio_util::sync::CancellationToken
pub mod sync {
    use std::{cell::Cell, future::Future, pin::Pin, sync::Arc, task::{Context, Poll}};
    struct Node { on: Cell<bool>, up: Option<Arc<Node>> }
    unsafe impl Send for Node {}
    unsafe impl Sync for Node {}
    impl Node { fn is(&self) -> bool { self.on.get() || self.up.as_ref().map_or(false, |u| u.is()) } }
    #[derive(Clone)]
    pub struct CancellationToken(Arc<Node>);
    impl std::fmt::Debug for CancellationToken { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("CancellationToken") } }
    impl Default for CancellationToken { fn default() -> Self { Self::new() } }
    impl CancellationToken {
        pub fn new() -> Self { Self(Arc::new(Node { on: Cell::new(false), up: None })) }
        pub fn child_token(&self) -> Self { Self(Arc::new(Node { on: Cell::new(false), up: Some(self.0.clone()) })) }
        pub fn cancel(&self) { self.0.on.set(true); tokio::rt::act(); }
        pub fn is_cancelled(&self) -> bool { self.0.is() }
        pub fn cancelled(&self) -> WaitForCancellationFuture<'_> { WaitForCancellationFuture(self) }
    }
    pub struct WaitForCancellationFuture<'a>(&'a CancellationToken);
    impl<'a> Future for WaitForCancellationFuture<'a> {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if (self.0).0.is() && tokio::rt::take() { Poll::Ready(()) } else { Poll::Pending }
        }
    }
}
