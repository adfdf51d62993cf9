use crate::task::JoinHandle;
use std::future::Future;
use std::io;

pub struct Builder {}

impl Builder {
    pub fn new_current_thread() -> Self {
        Builder {}
    }
    pub fn new_multi_thread() -> Self {
        Builder {}
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime { _p: () })
    }
}

/// A program's runtime.  Its tasks vanish when it is dropped.
pub struct Runtime {
    _p: (),
}

impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Ok(Runtime { _p: () })
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        simrt::process::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
    pub fn handle(&self) -> &Handle {
        &Handle(())
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _d: std::time::Duration) {}
    pub fn enter(&self) -> EnterGuard {
        EnterGuard(())
    }
}

impl Drop for Runtime {
    fn drop(&mut self) {
        if let Some(s) = simrt::current() {
            let n = s.node();
            if n != simrt::NO_NODE {
                s.drop_tasks(n);
            }
        }
    }
}

pub struct EnterGuard(());

#[derive(Clone, Debug)]
pub struct Handle(());

impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        simrt::process::block_on(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
}
