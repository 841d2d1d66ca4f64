//! The simulator under the `tokio` runtime: decides which task runs next, which branch of a
//! `select!` is tried first, and runs blocking tasks as coroutines on stacks of their own, which
//! may start late, be preempted, and stay blocked for long.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use tokio::sim::{set_hooks, stop_coop, BlockingFuture, SimHooks};
use tokio::sync::Notify;

use crate::chooser::{mix64, Chooser};

/// Everything runs on one thread.
pub struct AssertSend<T>(pub T);
unsafe impl<T> Send for AssertSend<T> {}
unsafe impl<T> Sync for AssertSend<T> {}
impl<T: Future> Future for AssertSend<T> {
    type Output = T::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

/// Spawns a task on the current (single-threaded) runtime.
pub fn spawn<T: 'static>(f: impl Future<Output = T> + 'static) -> tokio::task::JoinHandle<AssertSend<T>> {
    tokio::spawn(AssertSend(async move { AssertSend(f.await) }))
}

type Payload = Box<dyn Any + Send>;
type Input = *mut Context<'static>;
type Co = Coroutine<Input, (), Result<(), Payload>, DefaultStack>;

const STACK: usize = 512 * 1024;

thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    /// The coroutine being run and the context it was given.
    static RUNNING: Cell<Option<(*const Yielder<Input, ()>, Input)>> = const { Cell::new(None) };
    static PARTY: Cell<Option<u16>> = const { Cell::new(None) };
    static SIM: RefCell<Option<Rc<Sim>>> = const { RefCell::new(None) };
}

/// How adverse the scheduling is, in permille.
#[derive(Debug, Clone, Default)]
pub struct Weather {
    /// Another task than the first runnable one is chosen.
    pub shuffle: u32,
    /// The last runnable one is chosen.
    pub lifo: u32,
    /// A worker does not start at once.
    pub late: u32,
    /// A worker is suspended when it could go on.
    pub preempt: u32,
}

pub struct Sim {
    pub ch: Chooser,
    pub weather: Weather,
    rot: Cell<u32>,
    pub steps: Cell<u64>,
    pub max_steps: u64,
    pub overrun: Notify,
    pub fingerprint: Cell<u64>,
    live: RefCell<BTreeMap<u64, Option<u16>>>,
    next_worker: Cell<u64>,
    pub workers_started: Cell<u64>,
    pub blocked: Cell<u64>,
    pub preempted: Cell<u64>,
    pub late: Cell<u64>,
    pub max_live: Cell<usize>,
}

fn bump(c: &Cell<u64>) {
    c.set(c.get() + 1);
}

impl Sim {
    pub fn new(ch: Chooser, weather: Weather, max_steps: u64) -> Rc<Self> {
        Rc::new(Self {
            ch,
            weather,
            rot: Cell::new(0),
            steps: Cell::new(0),
            max_steps,
            overrun: Notify::new(),
            fingerprint: Cell::new(0),
            live: RefCell::new(BTreeMap::new()),
            next_worker: Cell::new(0),
            workers_started: Cell::new(0),
            blocked: Cell::new(0),
            preempted: Cell::new(0),
            late: Cell::new(0),
            max_live: Cell::new(0),
        })
    }

    pub fn note(&self, x: u64) {
        self.fingerprint.set(mix64(self.fingerprint.get() ^ mix64(x)));
    }

    /// The number of workers of a party that have not ended yet.
    pub fn live_of(&self, party: u16) -> usize {
        self.live.borrow().values().filter(|p| **p == Some(party)).count()
    }
    pub fn live(&self) -> usize {
        self.live.borrow().len()
    }

    /// Runs the future in a fresh runtime with this simulator in charge. `None` means that the
    /// number of steps ran out.
    pub fn run<T>(self: &Rc<Self>, f: impl Future<Output = T>) -> Option<T> {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                set_hooks(None);
                SIM.with(|s| *s.borrow_mut() = None);
            }
        }
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .expect("runtime");
        SIM.with(|s| *s.borrow_mut() = Some(self.clone()));
        set_hooks(Some(Rc::new(Hooks(self.clone()))));
        let off = Off;
        let r = rt.block_on(async {
            tokio::select! {
                biased;
                _ = self.overrun.notified() => None,
                r = f => Some(r),
            }
        });
        drop(rt);
        drop(off);
        r
    }
}

struct LiveGuard(Rc<Sim>, u64);
impl Drop for LiveGuard {
    fn drop(&mut self) {
        self.0.live.borrow_mut().remove(&self.1);
    }
}

struct Hooks(Rc<Sim>);

impl SimHooks for Hooks {
    fn step(&self) {
        let s = self.0.steps.get() + 1;
        self.0.steps.set(s);
        if s >= self.0.max_steps {
            self.0.overrun.notify_one();
        }
    }

    fn step_time(&self) -> Duration {
        Duration::from_micros(10)
    }

    fn choose_task(&self, n: usize) -> usize {
        let sim = &self.0;
        let i = if sim.weather.lifo > 0 && sim.ch.chance(sim.weather.lifo) {
            n - 1
        } else if sim.weather.shuffle > 0 && sim.ch.chance(sim.weather.shuffle) {
            sim.ch.pick(n)
        } else {
            0
        };
        sim.note(1 + i as u64 * 64 + n as u64);
        i
    }

    fn choose_branch(&self, n: u32) -> u32 {
        let sim = &self.0;
        let rot = sim.rot.get();
        sim.rot.set(rot.wrapping_add(1));
        let b = (sim.ch.pick(n as usize) as u32 + rot) % n;
        sim.note(1 << 20 | b as u64);
        b
    }

    fn blocking(&self, f: Box<dyn FnOnce() + Send>) -> BlockingFuture {
        let sim = self.0.clone();
        let id = sim.next_worker.get();
        sim.next_worker.set(id + 1);
        sim.live.borrow_mut().insert(id, PARTY.get());
        let live = sim.live.borrow().len();
        sim.max_live.set(sim.max_live.get().max(live));
        let guard = LiveGuard(sim.clone(), id);
        Box::pin(AssertSend(async move {
            if sim.weather.late > 0 && sim.ch.chance(sim.weather.late) {
                bump(&sim.late);
                match sim.ch.pick(3) {
                    0 => tokio::task::yield_now().await,
                    1 => {
                        for _ in 0..2 + sim.ch.pick(12) {
                            tokio::task::yield_now().await;
                        }
                    }
                    _ => tokio::time::sleep(Duration::from_millis(1 + sim.ch.pick(60) as u64)).await,
                }
            }
            bump(&sim.workers_started);
            // From here on the task cannot be aborted any more.
            let (tx, rx) = tokio::sync::oneshot::channel();
            spawn(async move {
                let r = Worker::new(f).await;
                drop(guard);
                let _ = tx.send(r);
            });
            match rx.await {
                Ok(Ok(())) => {}
                Ok(Err(p)) => resume_unwind(p),
                Err(_) => panic!("the worker was lost"),
            }
        }))
    }

    fn in_blocking_task(&self) -> bool {
        RUNNING.get().is_some()
    }

    fn preempt(&self) {
        preempt();
    }

    fn block_until(&self, poll: &mut dyn FnMut(&mut Context<'_>) -> bool) {
        let mut first = true;
        loop {
            let (_, cx) = RUNNING.get().expect("in a worker");
            if poll(unsafe { &mut *cx }) {
                break;
            }
            if first {
                bump(&self.0.blocked);
                first = false;
            }
            suspend();
        }
        preempt();
    }
}

fn suspend() {
    let (y, _) = RUNNING.get().expect("in a worker");
    let cx = unsafe { &*y }.suspend(());
    RUNNING.set(Some((y, cx)));
}

/// Possibly suspends the worker we are in.
pub fn preempt() {
    if RUNNING.get().is_none() || std::thread::panicking() {
        return;
    }
    let Some(sim) = SIM.with(|s| s.borrow().clone()) else { return };
    if sim.weather.preempt == 0 || !sim.ch.chance(sim.weather.preempt) {
        return;
    }
    bump(&sim.preempted);
    if sim.ch.pick(3) < 2 {
        for _ in 0..1 + sim.ch.pick(4) {
            let (_, cx) = RUNNING.get().expect("in a worker");
            unsafe { &*cx }.waker().wake_by_ref();
            suspend();
        }
    } else {
        let mut nap = Box::pin(tokio::time::sleep(Duration::from_millis(1 + sim.ch.pick(40) as u64)));
        loop {
            let (_, cx) = RUNNING.get().expect("in a worker");
            if nap.as_mut().poll(unsafe { &mut *cx }).is_ready() {
                break;
            }
            suspend();
        }
    }
}

/// A blocking closure being run as a coroutine.
struct Worker {
    co: Option<Co>,
}

impl Worker {
    fn new(f: Box<dyn FnOnce() + Send>) -> Self {
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
        let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<Input, ()>, cx: Input| {
            RUNNING.set(Some((y as *const _, cx)));
            catch_unwind(AssertUnwindSafe(f))
        });
        Self { co: Some(co) }
    }
}

impl Future for Worker {
    type Output = Result<(), Payload>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        stop_coop();
        let this = self.get_mut();
        let co = this.co.as_mut().expect("polled after the end");
        let outer = RUNNING.take();
        let r = co.resume(cx as *mut Context<'_> as Input);
        RUNNING.set(outer);
        match r {
            CoroutineResult::Yield(()) => Poll::Pending,
            CoroutineResult::Return(r) => {
                let stack = this.co.take().expect("just used").into_stack();
                STACKS.with(|s| s.borrow_mut().push(stack));
                Poll::Ready(r)
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        // A suspended coroutine is unwound.
        let outer = RUNNING.take();
        drop(self.co.take());
        RUNNING.set(outer);
    }
}

/// Counts the polls of a driver, tells its workers apart from those of others, and may do
/// something right before a given poll.
pub struct Driven<F> {
    pub party: u16,
    pub fut: Pin<Box<F>>,
    pub polls: Rc<Cell<u64>>,
    pub at_poll: Option<(u64, Box<dyn FnOnce()>)>,
}

impl<F: Future> Future for Driven<F> {
    type Output = Result<F::Output, Payload>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let k = self.polls.get() + 1;
        self.polls.set(k);
        if self.at_poll.as_ref().is_some_and(|a| a.0 == k) {
            (self.at_poll.take().expect("checked").1)();
        }
        let party = self.party;
        let outer = PARTY.replace(Some(party));
        let r = catch_unwind(AssertUnwindSafe(|| self.fut.as_mut().poll(cx)));
        PARTY.set(outer);
        match r {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(r)) => Poll::Ready(Ok(r)),
            Err(p) => Poll::Ready(Err(p)),
        }
    }
}
