//! Simulated processes: a program's `main` on its own thread, run only when scheduled.

use crate::{Enter, NodeId, Sim, TaskId};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};

#[derive(PartialEq, Clone, Copy)]
enum Turn {
    Scheduler,
    Process,
}

struct PState {
    turn: Turn,
    kill: bool,
    exit: Option<i32>,
}

pub struct Proc {
    st: Mutex<PState>,
    cv: Condvar,
}

/// Unwinds a process thread that was killed.
struct Killed;
/// Unwinds a process thread that called exit.
pub struct ExitWith(pub i32);

impl Proc {
    /// Lets the process run until it blocks; true when it has ended.
    pub(crate) fn resume(&self) -> bool {
        let mut st = self.st.lock().unwrap();
        if st.exit.is_some() {
            return true;
        }
        st.turn = Turn::Process;
        self.cv.notify_all();
        while st.turn != Turn::Scheduler {
            st = self.cv.wait(st).unwrap();
        }
        st.exit.is_some()
    }

    pub(crate) fn request_kill(&self) {
        self.st.lock().unwrap().kill = true;
    }

    pub(crate) fn exit_code(&self) -> i32 {
        self.st.lock().unwrap().exit.unwrap_or(-1)
    }

    fn wait_turn(&self) {
        let mut st = self.st.lock().unwrap();
        while st.turn != Turn::Process {
            st = self.cv.wait(st).unwrap();
        }
        let kill = st.kill;
        drop(st);
        if kill {
            resume_unwind(Box::new(Killed));
        }
    }

    fn yield_turn(&self) {
        {
            let mut st = self.st.lock().unwrap();
            st.turn = Turn::Scheduler;
            self.cv.notify_all();
        }
        self.wait_turn();
    }

    fn finish(&self, code: i32) {
        let mut st = self.st.lock().unwrap();
        st.exit = Some(code);
        st.turn = Turn::Scheduler;
        self.cv.notify_all();
    }
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sim>, Arc<Proc>, TaskId)>> = const { RefCell::new(None) };
}

/// Starts a process on `node` running `main`.
pub fn spawn(sim: &Arc<Sim>, node: NodeId, main: impl FnOnce() + Send + 'static) -> TaskId {
    let proc = Arc::new(Proc {
        st: Mutex::new(PState { turn: Turn::Scheduler, kill: false, exit: None }),
        cv: Condvar::new(),
    });
    let id = sim.add_slot(node, None, Some(proc.clone()));
    let sim = sim.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| {
                proc.wait_turn();
                let _g: Enter = sim.enter();
                ME.with(|m| *m.borrow_mut() = Some((sim.clone(), proc.clone(), id)));
                main();
            }));
            let code = match r {
                Ok(()) => 0,
                Err(e) => match e.downcast::<ExitWith>() {
                    Ok(e) => e.0,
                    Err(e) if e.is::<Killed>() => -9,
                    Err(_) => 101,
                },
            };
            ME.with(|m| m.borrow_mut().take());
            proc.finish(code);
        })
        .expect("spawn process thread");
    id
}

/// Drives a future on the process's own thread, giving way to the scheduler while it waits.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let (sim, proc, id) = ME
        .with(|m| m.borrow().clone())
        .expect("block_on is only available inside a simulated process");
    let mut fut = Box::pin(fut);
    let waker = sim.lock().tasks[id as usize].waker.clone();
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = Pin::as_mut(&mut fut).poll(&mut cx) {
            return v;
        }
        proc.yield_turn();
    }
}

/// Whether this thread is a simulated process.
pub fn is_process() -> bool {
    ME.with(|m| m.borrow().is_some())
}

/// Ends the calling process.
pub fn exit(code: i32) -> ! {
    resume_unwind(Box::new(ExitWith(code)))
}
