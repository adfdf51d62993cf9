use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

fn sim() -> Arc<simrt::Sim> {
    simrt::current().expect("must be called from within the simulator")
}

enum Repr {
    Cancelled,
    Panic(Box<dyn Any + Send>),
}

pub struct JoinError(Repr);

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.0, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.0, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        match self.0 {
            Repr::Panic(p) => p,
            Repr::Cancelled => panic!("not a panic"),
        }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        match self.0 {
            Repr::Panic(p) => Ok(p),
            r => Err(JoinError(r)),
        }
    }
}

// The panic payload need not be Sync; it is only handed out by value.
unsafe impl Sync for JoinError {}

impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic(...)" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct Inner<T> {
    out: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}

fn finish<T>(inner: &Arc<Mutex<Inner<T>>>, v: Result<T, JoinError>) {
    let w = {
        let mut g = inner.lock().unwrap();
        if g.done {
            return;
        }
        g.done = true;
        g.out = Some(v);
        g.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

struct Task<F: Future> {
    fut: Option<Pin<Box<F>>>,
    inner: Arc<Mutex<Inner<F::Output>>>,
}

impl<F: Future> Future for Task<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let Some(fut) = this.fut.as_mut() else { return Poll::Ready(()) };
        let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx)));
        let out = match res {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(v)) => Ok(v),
            Err(p) => Err(JoinError(Repr::Panic(p))),
        };
        let fut = this.fut.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
        finish(&this.inner, out);
        Poll::Ready(())
    }
}

impl<F: Future> Unpin for Task<F> {}

impl<F: Future> Drop for Task<F> {
    fn drop(&mut self) {
        let fut = self.fut.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
        finish(&self.inner, Err(JoinError(Repr::Cancelled)));
    }
}

pub struct JoinHandle<T> {
    inner: Arc<Mutex<Inner<T>>>,
    id: simrt::TaskId,
}

#[derive(Clone)]
pub struct AbortHandle(simrt::TaskId);
impl AbortHandle {
    pub fn abort(&self) {
        abort(self.0)
    }
}

fn abort(id: simrt::TaskId) {
    if let Some(s) = simrt::current() {
        s.after(0, move |s| s.cancel(id));
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        abort(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.id)
    }
    pub fn is_finished(&self) -> bool {
        self.inner.lock().unwrap().done
    }
}

impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.inner.lock().unwrap();
        match g.out.take() {
            Some(v) => Poll::Ready(v),
            None => {
                assert!(!g.done, "JoinHandle polled after completion");
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let inner = Arc::new(Mutex::new(Inner { out: None, done: false, waker: None }));
    let id = sim().spawn(Box::pin(Task { fut: Some(Box::pin(fut)), inner: inner.clone() }));
    JoinHandle { inner, id }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(|cx| {
        if yielded {
            return Poll::Ready(());
        }
        yielded = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

pub async fn consume_budget() {
    if simrt::coop_yield() {
        yield_now().await
    }
}

pub async fn unconstrained<F: Future>(f: F) -> F::Output {
    f.await
}

/// Set of tasks; results in completion order.
pub struct JoinSet<T> {
    tasks: Vec<JoinHandle<T>>,
}

impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { tasks: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle {
        let h = spawn(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.tasks.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.tasks.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.tasks[i]).poll(cx) {
                    self.tasks.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn abort_all(&mut self) {
        self.tasks.iter().for_each(|t| t.abort())
    }
    pub fn detach_all(&mut self) {
        self.tasks.clear()
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}

impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.tasks.iter().for_each(|t| t.abort())
    }
}
