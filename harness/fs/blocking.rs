// Replaces tokio's src/blocking.rs: blocking work runs inline when it is handed over; when its
// result may be picked up is up to the harness.
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

extern "C" {
    /// Is the result still not there? Gets the identity of the waker polling for it.
    fn zh_blocking_pending(waker: usize) -> u8;
}
pub(crate) fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    JoinHandle { r: Some(f()) }
}
#[allow(dead_code)]
pub(crate) fn spawn_mandatory_blocking<F, R>(f: F) -> Option<JoinHandle<R>>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    Some(spawn_blocking(f))
}
pub(crate) struct JoinHandle<R> {
    r: Option<R>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<R> Unpin for JoinHandle<R> {}
impl<R> Future for JoinHandle<R> {
    type Output = Result<R, std::io::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if unsafe { zh_blocking_pending(cx.waker().data() as usize) } != 0 {
            return Poll::Pending;
        }
        Poll::Ready(Ok(self.r.take().expect("polled after completion")))
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt.debug_struct("JoinHandle").finish()
    }
}
