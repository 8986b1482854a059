//! Just enough of `tokio::runtime` for code that names it.
use std::future::Future;
use std::io;

#[derive(Debug, Clone)]
pub struct Handle(());
#[derive(Debug)]
pub struct Runtime(());
#[derive(Debug)]
pub struct Builder(());

impl Handle {
    pub fn current() -> Self {
        Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
}
impl Builder {
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn new_multi_thread() -> Self {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime(()))
    }
}
impl Runtime {
    pub fn new() -> io::Result<Self> {
        Ok(Runtime(()))
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        crate::model::block_on(1000, f).expect("deadlock")
    }
}
