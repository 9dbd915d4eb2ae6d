//! Minimal single-threaded async driving.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};

/// Counts wake-ups.
pub struct CountWaker(pub AtomicUsize);

impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn counting() -> (Arc<CountWaker>, Waker) {
    let c = Arc::new(CountWaker(AtomicUsize::new(0)));
    let w = Waker::from(c.clone());
    (c, w)
}

/// Polls once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>, w: &Waker) -> Poll<F::Output> {
    let mut cx = Context::from_waker(w);
    f.poll(&mut cx)
}

/// Drives a future that nothing else contends with: as long as the future wakes itself it is
/// polled again; `None` if it is pending without having been woken (i.e., stuck).
pub fn drive<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let (c, w) = counting();
    for _ in 0..1_000_000 {
        let before = c.0.load(Ordering::SeqCst);
        match poll_once(f.as_mut(), &w) {
            Poll::Ready(r) => return Some(r),
            Poll::Pending => {
                if c.0.load(Ordering::SeqCst) == before {
                    // Leak the future: dropping it may block on the stuck resource.
                    std::mem::forget(f);
                    return None;
                }
            }
        }
    }
    std::mem::forget(f);
    None
}
