//! `spawn`, `JoinHandle` and friends over `crate::model`.
use crate::model;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

struct Slot<T> {
    out: UnsafeCell<Option<T>>,
    waiter: UnsafeCell<Option<Waker>>,
    done: UnsafeCell<bool>,
}
unsafe impl<T> Send for Slot<T> {}
unsafe impl<T> Sync for Slot<T> {}

/// Reports cancellation to the handle when the task's future goes away unfinished.
struct Finish<T>(Arc<Slot<T>>);
impl<T> Drop for Finish<T> {
    fn drop(&mut self) {
        unsafe {
            *self.0.done.get() = true;
            if let Some(w) = (*self.0.waiter.get()).take() {
                w.wake();
            }
        }
    }
}

pub struct JoinHandle<T> {
    id: usize,
    slot: Arc<Slot<T>>,
}
impl<T> Unpin for JoinHandle<T> {}

#[derive(Debug, Clone)]
pub struct AbortHandle {
    id: usize,
}
impl AbortHandle {
    pub fn abort(&self) {
        model::abort_task(self.id)
    }
    pub fn is_finished(&self) -> bool {
        !model::alive(self.id)
    }
}

pub struct JoinError(());
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError::Cancelled")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("task was cancelled")
    }
}
impl std::error::Error for JoinError {}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let slot = Arc::new(Slot {
        out: UnsafeCell::new(None),
        waiter: UnsafeCell::new(None),
        done: UnsafeCell::new(false),
    });
    let fin = Finish(Arc::clone(&slot));
    let id = model::add_task(Box::pin(async move {
        let v = f.await;
        unsafe {
            *fin.0.out.get() = Some(v);
        }
        drop(fin);
    }));
    JoinHandle { id, slot }
}

pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn(f)
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        model::abort_task(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
    pub fn is_finished(&self) -> bool {
        unsafe { *self.slot.done.get() }
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            if let Some(v) = (*self.slot.out.get()).take() {
                return Poll::Ready(Ok(v));
            }
            if *self.slot.done.get() {
                return Poll::Ready(Err(JoinError(())));
            }
            *self.slot.waiter.get() = Some(cx.waker().clone());
        }
        Poll::Pending
    }
}

/// Lets other tasks run once.
pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(|cx| {
        if yielded {
            return Poll::Ready(());
        }
        yielded = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

/// Tasks that are aborted when the set is dropped.
pub struct JoinSet<T> {
    all: Vec<JoinHandle<T>>,
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { all: Vec::new() }
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.all.push(h);
        a
    }
    pub fn len(&self) -> usize {
        self.all.len()
    }
    pub fn is_empty(&self) -> bool {
        self.all.is_empty()
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.all.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.all.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.all[i]).poll(cx) {
                self.all.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let i = self.all.iter().position(|h| h.is_finished())?;
        match Pin::new(&mut self.all.remove(i)).poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(r) => Some(r),
            Poll::Pending => None,
        }
    }
    pub fn abort_all(&mut self) {
        self.all.iter().for_each(|h| h.abort())
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.all.clear()
    }
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.all.iter().for_each(|h| h.abort())
    }
}
impl<T> fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinSet")
    }
}
