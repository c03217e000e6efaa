//! Deterministic executor. Only woken tasks run; in strict mode only a wake through the waker handed
//! out at a task's latest poll counts. Virtual time advances only when nothing is runnable.
use crate::prng::Rng;
use crate::vclock;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    Random,
    Fifo,
    Lifo,
    /// Random fixed priorities, reshuffled with the given percentage per step.
    Prio(u64),
}

struct Q(Mutex<Vec<(usize, u64)>>);

struct W {
    q: Arc<Q>,
    task: usize,
    gen: u64,
}

impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.q.0.lock().unwrap().push((self.task, self.gen));
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.q.0.lock().unwrap().push((self.task, self.gen));
    }
}

struct Slot {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    name: &'static str,
    gen: u64,
    prio: u64,
    ready: bool,
    since: u64,
}

struct Timer(i64, u64, Box<dyn FnOnce()>);
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
}

#[derive(Default)]
struct TimersIn {
    heap: BinaryHeap<Reverse<Timer>>,
    seq: u64,
}

#[derive(Clone, Default)]
pub struct Timers(Rc<RefCell<TimersIn>>);

impl Timers {
    pub fn at(&self, t: i64, f: impl FnOnce() + 'static) {
        let mut i = self.0.borrow_mut();
        i.seq += 1;
        let s = i.seq;
        i.heap.push(Reverse(Timer(t, s, Box::new(f))));
    }
    pub fn clear(&self) {
        let h = std::mem::take(&mut self.0.borrow_mut().heap);
        drop(h);
    }
    pub fn peek(&self) -> Option<i64> {
        self.next()
    }
    pub fn fire_due(&self) -> bool {
        self.fire()
    }
    fn next(&self) -> Option<i64> {
        self.0.borrow().heap.peek().map(|t| t.0 .0)
    }
    fn fire(&self) -> bool {
        let mut fs = Vec::new();
        {
            let mut i = self.0.borrow_mut();
            while let Some(t) = i.heap.peek() {
                if t.0 .0 > vclock::now() {
                    break;
                }
                fs.push(i.heap.pop().unwrap().0 .2);
            }
        }
        let any = !fs.is_empty();
        for f in fs {
            f()
        }
        any
    }
    pub async fn sleep(&self, d: i64) {
        let t = vclock::now() + d;
        std::future::poll_fn(|cx| {
            if vclock::now() >= t {
                Poll::Ready(())
            } else {
                let w = cx.waker().clone();
                self.at(t, move || w.wake());
                Poll::Pending
            }
        })
        .await
    }
}

#[derive(Clone, Default)]
pub struct Spawner(Rc<RefCell<Vec<(&'static str, Pin<Box<dyn Future<Output = ()>>>)>>>);

impl Spawner {
    pub fn spawn(&self, name: &'static str, f: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((name, Box::pin(f)));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Quiescent,
    Steps,
}

pub struct Exec {
    tasks: Vec<Option<Slot>>,
    q: Arc<Q>,
    pub rng: Rng,
    pub policy: Policy,
    pub strict: bool,
    /// Percentage of steps that poll a task nobody woke (legal, must be harmless).
    pub spurious: u64,
    pub steps: u64,
    /// Hash of the schedule so far.
    pub trace: u64,
    pub timers: Timers,
    pub spawner: Spawner,
    tick: u64,
    /// Grows with everything that happens.
    pub probe: Option<Box<dyn Fn() -> u64>>,
    /// Events so far, and polls since the last.
    idle: (u64, u64),
}

impl Exec {
    pub fn new(rng: Rng, policy: Policy, strict: bool, spurious: u64) -> Self {
        Exec {
            tasks: Vec::new(),
            q: Arc::new(Q(Mutex::new(Vec::new()))),
            rng,
            policy,
            strict,
            spurious,
            steps: 0,
            trace: 0,
            timers: Timers::default(),
            spawner: Spawner::default(),
            tick: 0,
            probe: None,
            idle: (0, 0),
        }
    }

    fn admit(&mut self) {
        let new: Vec<_> = self.spawner.0.borrow_mut().drain(..).collect();
        for (name, fut) in new {
            self.tick += 1;
            let prio = self.rng.u64();
            let slot = Slot { fut, name, gen: 0, prio, ready: true, since: self.tick };
            if let Some(i) = self.tasks.iter().position(|t| t.is_none()) {
                // Reused slots start at a generation no stale waker can match.
                let mut slot = slot;
                slot.gen = self.steps + 1_000_000;
                self.tasks[i] = Some(slot)
            } else {
                self.tasks.push(Some(slot))
            }
        }
        let woken: Vec<_> = self.q.0.lock().unwrap().drain(..).collect();
        for (t, g) in woken {
            if let Some(Some(s)) = self.tasks.get_mut(t) {
                if (!self.strict || g == s.gen) && !s.ready {
                    self.tick += 1;
                    s.ready = true;
                    s.since = self.tick;
                }
            }
        }
    }

    fn pick(&mut self) -> Option<usize> {
        if self.spurious > 0 && self.rng.pct(self.spurious) {
            let live: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].is_some()).collect();
            let any_ready = live.iter().any(|i| self.tasks[*i].as_ref().unwrap().ready);
            if any_ready && !live.is_empty() {
                return Some(self.rng.pick(&live));
            }
        }
        let ready = self.tasks.iter().enumerate().filter_map(|(i, t)| match t {
            Some(s) if s.ready => Some((i, s.since, s.prio)),
            _ => None,
        });
        match self.policy {
            Policy::Random => {
                let v: Vec<usize> = ready.map(|r| r.0).collect();
                if v.is_empty() {
                    None
                } else {
                    Some(self.rng.pick(&v))
                }
            }
            Policy::Fifo => ready.min_by_key(|r| r.1).map(|r| r.0),
            Policy::Lifo => ready.max_by_key(|r| r.1).map(|r| r.0),
            Policy::Prio(p) => {
                let r = ready.max_by_key(|r| r.2).map(|r| r.0);
                if self.rng.pct(p) {
                    for t in self.tasks.iter_mut().flatten() {
                        t.prio = self.rng.u64()
                    }
                }
                r
            }
        }
    }

    /// Runs until quiescent (no runnable task, no timer due before `horizon`) or out of steps.
    pub fn run(&mut self, max_steps: u64, horizon: i64) -> End {
        let limit = self.steps + max_steps;
        loop {
            self.admit();
            let Some(i) = self.pick() else {
                match self.timers.next() {
                    Some(t) if t <= horizon => {
                        if t > vclock::now() {
                            vclock::set(t);
                        }
                        self.timers.fire();
                        self.idle.1 = 0;
                        continue;
                    }
                    _ => return End::Quiescent,
                }
            };
            if self.steps >= limit || self.spun() {
                return End::Steps;
            }
            self.steps += 1;
            self.trace = crate::prng::mix(self.trace ^ (i as u64 + 1));
            crate::runner::heartbeat();
            let slot = self.tasks[i].as_mut().unwrap();
            slot.ready = false;
            slot.gen += 1;
            let w: Waker = Arc::new(W { q: self.q.clone(), task: i, gen: slot.gen }).into();
            let mut cx = Context::from_waker(&w);
            if slot.fut.as_mut().poll(&mut cx).is_ready() {
                self.tasks[i] = None;
                self.idle.1 = 0;
            }
            if let Some(p) = &self.probe {
                let n = p();
                if n == self.idle.0 {
                    self.idle.1 += 1;
                } else {
                    self.idle = (n, 0)
                }
            }
        }
    }

    /// Tasks are woken over and over although nothing happens.
    pub fn spun(&self) -> bool {
        self.idle.1 > 1000 + 100 * self.tasks.len() as u64
    }

    /// Runs everything that can run without advancing the clock.
    pub fn settle(&mut self) -> End {
        self.run(2_000_000, vclock::now())
    }

    pub fn unfinished(&self) -> Vec<&'static str> {
        self.tasks.iter().flatten().map(|s| s.name).collect()
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        self.timers.clear();
        self.tasks.clear();
        self.timers.clear();
    }
}

/// A gate tasks can wait on and the scenario opens.
#[derive(Clone, Default)]
pub struct Gate(Rc<RefCell<(bool, Vec<Waker>)>>);

impl Gate {
    pub fn open(&self) {
        let mut g = self.0.borrow_mut();
        g.0 = true;
        for w in g.1.drain(..) {
            w.wake()
        }
    }
    pub fn is_open(&self) -> bool {
        self.0.borrow().0
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            let mut g = self.0.borrow_mut();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// Yields `n` times.
pub async fn yields(n: u64) {
    let mut k = n;
    std::future::poll_fn(|cx| {
        if k == 0 {
            Poll::Ready(())
        } else {
            k -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
