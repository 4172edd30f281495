//! Deterministic scheduler for a small set of real OS threads.
//!
//! Exactly one registered thread (the one holding the baton) runs at any time. At every schedule
//! point the holder asks the scheduler who runs next; the answer comes from a seeded PRNG policy
//! or from a recorded list of decisions. Threads that are not registered pass through untouched.
//!
//! Thread 0 is the executor: the thread that drives the tokio runtime. It is special in one way:
//! it can be *idle* (its runtime has nothing to do), in which case it is only runnable when some
//! other thread has woken one of its tasks (`set_exec_ready_probe`), or when nothing else is
//! runnable at all, in which case returning control to it lets tokio's paused clock advance to the
//! next timer.

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::task::Waker;
use std::thread::Thread;

pub const EXEC: usize = 0;
const NONE: usize = usize::MAX;

/// SplitMix64 based PRNG, the only source of randomness of a run.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next_u64();
        r
    }
    pub fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next_u64()) * u128::from(n)) >> 64) as u64
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Self {
        Self::new(self.next_u64())
    }
}

/// How a run is scheduled.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch to a uniformly chosen runnable thread with probability `p/1000` at every point.
    Random { p: u64 },
    /// Random priorities with `d` priority change points over about `len` steps.
    Pct { d: u64, len: u64 },
    /// Switches only when the running thread blocks.
    Sticky,
    /// Random with high probability inside windows, never outside.
    Bursty { p: u64, period: u64, width: u64 },
    /// Only the recorded decisions.
    Replay,
}

/// A recorded deviation from the default schedule.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Decision {
    /// Run this thread next.
    Run(usize),
    /// Put the running thread to sleep for this many virtual milliseconds.
    Stall(u64),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// probability in 1/10000 per point of stalling a non-executor thread for a while
    pub stall_p: u64,
    pub stall_ms: u64,
    pub replay: Vec<(u64, Decision)>,
    pub max_steps: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Runnable,
    Blocked(usize),
    Idle,
    Done,
}

struct Thr {
    st: St,
    go: Arc<AtomicBool>,
    handle: Option<Thread>,
    prio: u64,
    name: &'static str,
    token: u64,
    sleeping: bool,
}

/// One entry of the event log.
#[derive(Clone, Debug)]
pub struct Event {
    pub step: u64,
    pub tid: usize,
    pub ms: u64,
    pub kind: &'static str,
    pub a: i64,
    pub b: i64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Abort {
    /// every thread (and the executor) is blocked on a lock
    Deadlock,
    /// the step limit was hit
    StepLimit,
    /// the harness asked for it
    Requested,
}

struct TimerReq {
    ms: u64,
    tid: usize,
    token: u64,
}

struct State {
    cfg: Config,
    rng: Rng,
    threads: Vec<Thr>,
    running: usize,
    step: u64,
    choices: u64,
    replay: BTreeMap<u64, Decision>,
    decisions: Vec<(u64, Decision)>,
    change_points: Vec<u64>,
    low_prio: u64,
    abort: Option<Abort>,
    events: Vec<Event>,
    hash: u64,
    sched_hash: u64,
    switches: u64,
    preemptions: u64,
    stalls: u64,
    now_ms: u64,
    timers: Vec<TimerReq>,
    timer_waker: Option<Waker>,
    waiters: HashMap<usize, VecDeque<usize>>,
    keys: HashMap<usize, usize>,
    exec_ready: Option<Box<dyn Fn() -> bool + Send>>,
    clock: Option<Box<dyn Fn() -> u64 + Send>>,
    next_token: u64,
    kinds: BTreeMap<&'static str, u64>,
    exec_steps_idle: u64,
    joins: Vec<std::thread::JoinHandle<()>>,
}

static STATE: OnceLock<Mutex<Option<State>>> = OnceLock::new();
static FATAL: OnceLock<fn(Abort)> = OnceLock::new();
static ABORTING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static MASK: Cell<u32> = const { Cell::new(0) };
}

/// Panic payload used to unwind threads when a run is torn down.
pub struct AbortPanic;

fn state() -> MutexGuard<'static, Option<State>> {
    STATE
        .get_or_init(|| Mutex::new(None))
        .lock()
        .unwrap_or_else(std::sync::PoisonError::into_inner)
}

/// Id of the current thread if it is controlled by the simulator.
pub fn tid() -> Option<usize> {
    let t = TID.with(Cell::get);
    (t != NONE && MASK.with(Cell::get) == 0).then_some(t)
}

/// Runs `f` with no schedule points.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            MASK.with(|m| m.set(m.get() - 1));
        }
    }
    MASK.with(|m| m.set(m.get() + 1));
    let _g = G;
    f()
}

impl State {
    fn runnable(&self, t: usize) -> bool {
        match self.threads[t].st {
            St::Runnable => true,
            St::Idle => self.exec_ready.as_ref().is_some_and(|f| f()),
            _ => false,
        }
    }

    fn hash_in(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
    }

    fn record(&mut self, tid: usize, kind: &'static str, a: i64, b: i64) {
        let mut h: u64 = 0;
        for c in kind.bytes() {
            h = h.wrapping_mul(131).wrapping_add(u64::from(c));
        }
        self.hash_in(h);
        self.hash_in(tid as u64);
        self.hash_in(a as u64);
        self.hash_in(b as u64);
        if let Some(c) = &self.clock {
            self.now_ms = c();
        }
        self.hash_in(self.now_ms);
        *self.kinds.entry(kind).or_default() += 1;
        if self.events.len() < 200_000 {
            let (step, ms) = (self.step, self.now_ms);
            self.events.push(Event { step, tid, ms, kind, a, b });
        }
    }

    /// Picks who runs next. `me` may or may not be runnable.
    fn choose(&mut self, me: usize) -> Option<usize> {
        let me_ok = self.runnable(me);
        let cands: Vec<usize> = (0..self.threads.len()).filter(|t| self.runnable(*t)).collect();
        if cands.is_empty() {
            return None;
        }
        let default = if me_ok { me } else { cands[0] };
        if cands.len() == 1 {
            return Some(default);
        }
        let idx = self.choices;
        self.choices += 1;
        let pick = match &self.cfg.policy {
            Policy::Replay => match self.replay.get(&idx) {
                Some(Decision::Run(t)) if cands.contains(t) => *t,
                _ => default,
            },
            Policy::Sticky => {
                if me_ok {
                    me
                } else {
                    cands[self.rng.below(cands.len() as u64) as usize]
                }
            }
            Policy::Random { p } => {
                let p = *p;
                if me_ok && !self.rng.chance(p, 1000) {
                    me
                } else {
                    let others: Vec<usize> = cands.iter().copied().filter(|t| *t != me).collect();
                    others[self.rng.below(others.len() as u64) as usize]
                }
            }
            Policy::Bursty { p, period, width } => {
                let (p, period, width) = (*p, *period, *width);
                let hot = idx % period < width;
                if me_ok && !(hot && self.rng.chance(p, 1000)) {
                    me
                } else {
                    let others: Vec<usize> = cands.iter().copied().filter(|t| *t != me).collect();
                    others[self.rng.below(others.len() as u64) as usize]
                }
            }
            Policy::Pct { .. } => {
                if self.change_points.contains(&idx) {
                    self.low_prio -= 1;
                    self.threads[me].prio = self.low_prio;
                }
                *cands
                    .iter()
                    .max_by_key(|t| self.threads[**t].prio)
                    .expect("not empty")
            }
        };
        if pick != default {
            self.decisions.push((idx, Decision::Run(pick)));
            if me_ok {
                self.preemptions += 1;
            }
        }
        self.sched_hash = (self.sched_hash ^ (pick as u64 + 1))
            .wrapping_mul(0x0000_0100_0000_01b3)
            .rotate_left(7);
        Some(pick)
    }

    /// The executor waits for a lock held by a stalled thread (or is gone). Nobody is there to
    /// advance the clock, so a stall ends now.
    fn end_stall(&mut self) -> Option<usize> {
        let t = self.threads.iter().position(|t| t.sleeping)?;
        self.threads[t].token = 0;
        self.threads[t].sleeping = false;
        self.threads[t].st = St::Runnable;
        Some(t)
    }

    fn wake_key(&mut self, key: usize) {
        for t in &mut self.threads {
            if t.st == St::Blocked(key) {
                t.st = St::Runnable;
            }
        }
    }

    fn add_timer(&mut self, tid: usize, ms: u64) -> u64 {
        self.next_token += 1;
        let token = self.next_token;
        self.threads[tid].token = token;
        self.timers.push(TimerReq { ms, tid, token });
        if let Some(w) = &self.timer_waker {
            w.wake_by_ref();
        }
        token
    }
}

fn do_abort(mut g: MutexGuard<'static, Option<State>>, why: Abort) {
    if let Some(s) = g.as_mut() {
        if s.abort.is_none() {
            s.abort = Some(why);
        }
        ABORTING.store(true, Ordering::SeqCst);
        if why != Abort::Requested
            && let Some(f) = FATAL.get()
        {
            drop(g);
            f(why);
            std::process::exit(3);
        }
        for t in &s.threads {
            t.go.store(true, Ordering::SeqCst);
            if let Some(h) = &t.handle {
                h.unpark();
            }
        }
    }
}

fn abort_unwind() {
    if !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(AbortPanic));
    }
}

/// Hands the baton to `next` and waits until it comes back.
fn hand_over(mut g: MutexGuard<'static, Option<State>>, me: usize, next: usize) {
    let s = g.as_mut().expect("state");
    if next == me {
        return;
    }
    s.switches += 1;
    s.running = next;
    let t = &s.threads[next];
    t.go.store(true, Ordering::SeqCst);
    if let Some(h) = &t.handle {
        h.unpark();
    }
    let mygo = s.threads[me].go.clone();
    drop(g);
    wait_go(&mygo);
}

fn wait_go(go: &AtomicBool) {
    while !go.swap(false, Ordering::SeqCst) {
        if ABORTING.load(Ordering::SeqCst) {
            return;
        }
        std::thread::park();
    }
}

/// A schedule point.
pub fn point() {
    let Some(me) = tid() else { return };
    if ABORTING.load(Ordering::SeqCst) {
        return;
    }
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    s.step += 1;
    if s.step > s.cfg.max_steps {
        do_abort(g, Abort::StepLimit);
        abort_unwind();
        return;
    }
    // maybe stall this thread
    if me != EXEC && (s.cfg.stall_p > 0 || matches!(s.cfg.policy, Policy::Replay)) {
        let idx = s.choices;
        s.choices += 1;
        let stall = if matches!(s.cfg.policy, Policy::Replay) {
            match s.replay.get(&idx) {
                Some(Decision::Stall(ms)) => Some(*ms),
                _ => None,
            }
        } else if s.rng.chance(s.cfg.stall_p, 10_000) {
            Some(1 + s.rng.below(s.cfg.stall_ms.max(1)))
        } else {
            None
        };
        if let Some(ms) = stall {
            s.decisions.push((idx, Decision::Stall(ms)));
            s.stalls += 1;
            drop(g);
            sleep(ms);
            return;
        }
    } else if me != EXEC {
        s.choices += 1;
    }
    let next = s.choose(me).unwrap_or(me);
    hand_over(g, me, next);
}

/// Blocks the current thread until `wake(key)`.
fn block(me: usize, key: usize) {
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    s.step += 1;
    s.threads[me].st = St::Blocked(key);
    match s.choose(me) {
        Some(next) => hand_over(g, me, next),
        None => {
            // nobody can run: only fine if the executor is idle and time can pass
            if me != EXEC && s.threads[EXEC].st == St::Idle {
                s.exec_steps_idle += 1;
                hand_over(g, me, EXEC);
            } else if let Some(t) = s.end_stall() {
                hand_over(g, me, t);
            } else {
                do_abort(g, Abort::Deadlock);
                abort_unwind();
            }
        }
    }
    if ABORTING.load(Ordering::SeqCst) && me != EXEC {
        abort_unwind();
    }
}

/// Called by the executor right before its runtime parks. Returns when the runtime should look
/// for work again (or let its clock advance).
pub fn exec_idle() {
    if tid() != Some(EXEC) || ABORTING.load(Ordering::SeqCst) {
        return;
    }
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    s.step += 1;
    s.threads[EXEC].st = St::Idle;
    match s.choose(EXEC) {
        Some(next) => hand_over(g, EXEC, next),
        None => drop(g),
    }
    if let Some(s) = state().as_mut() {
        s.threads[EXEC].st = St::Runnable;
    }
}

fn canon(s: &mut State, addr: usize) -> usize {
    let n = s.keys.len() + 1;
    *s.keys.entry(addr).or_insert(n)
}

/// Block until somebody calls [`wake`] with the same address. Only for lock-like primitives that
/// re-check their state in a loop.
pub fn block_on(addr: usize) {
    if ABORTING.load(Ordering::SeqCst) {
        if std::thread::panicking() || tid() == Some(EXEC) {
            std::thread::yield_now();
        } else {
            abort_unwind();
        }
        return;
    }
    let Some(me) = tid() else {
        std::thread::yield_now();
        return;
    };
    let key = {
        let mut g = state();
        let Some(s) = g.as_mut() else { return };
        canon(s, addr)
    };
    block(me, key);
}

/// Makes threads blocked on this address runnable.
pub fn wake(addr: usize) {
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    if let Some(k) = s.keys.get(&addr).copied() {
        s.wake_key(k);
    }
}

fn cv_key(me: usize) -> usize {
    usize::MAX / 2 + me
}

/// Condvar wait: enqueue on `addr`, run `unlock`, block until notified or until `timeout_ms` of
/// virtual time passed. Returns true if it timed out.
pub fn cv_wait(addr: usize, timeout_ms: Option<u64>, unlock: impl FnOnce()) -> bool {
    let Some(me) = tid() else {
        unlock();
        std::thread::yield_now();
        return false;
    };
    if ABORTING.load(Ordering::SeqCst) {
        unlock();
        abort_unwind();
        return false;
    }
    {
        let mut g = state();
        let Some(s) = g.as_mut() else { return false };
        let key = canon(s, addr);
        s.waiters.entry(key).or_default().push_back(me);
        if let Some(ms) = timeout_ms {
            s.add_timer(me, ms);
        } else {
            s.threads[me].token = 0;
        }
    }
    masked(unlock);
    block(me, cv_key(me));
    // if still queued we were woken by the timer
    let mut g = state();
    let Some(s) = g.as_mut() else { return false };
    s.threads[me].token = 0;
    let key = canon(s, addr);
    let q = s.waiters.entry(key).or_default();
    let before = q.len();
    q.retain(|t| *t != me);
    q.len() != before
}

/// Condvar notify. Returns how many were woken.
pub fn cv_notify(addr: usize, all: bool) -> usize {
    let mut g = state();
    let Some(s) = g.as_mut() else { return 0 };
    let Some(key) = s.keys.get(&addr).copied() else { return 0 };
    let mut n = 0;
    while let Some(t) = s.waiters.entry(key).or_default().pop_front() {
        s.threads[t].token = 0;
        if s.threads[t].st == St::Blocked(cv_key(t)) {
            s.threads[t].st = St::Runnable;
        }
        n += 1;
        if !all {
            break;
        }
    }
    n
}

/// Sleeps for `ms` of virtual time (client threads only).
pub fn sleep(ms: u64) {
    let Some(me) = tid() else { return };
    if me == EXEC || ABORTING.load(Ordering::SeqCst) {
        return;
    }
    {
        let mut g = state();
        let Some(s) = g.as_mut() else { return };
        s.add_timer(me, ms);
        s.threads[me].sleeping = true;
    }
    block(me, cv_key(me));
    if let Some(s) = state().as_mut() {
        s.threads[me].sleeping = false;
    }
}

/// Blocks the current thread until [`signal`] is called for `key` (harness-level event).
pub fn wait_event(key: usize, mut ready: impl FnMut() -> bool) {
    let Some(me) = tid() else { return };
    while !ready() {
        if ABORTING.load(Ordering::SeqCst) {
            abort_unwind();
            return;
        }
        block(me, usize::MAX / 4 + key);
    }
}

pub fn signal(key: usize) {
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    s.wake_key(usize::MAX / 4 + key);
}

/// Timer service used by the driver task: takes outstanding requests `(ms, tid, token)`.
pub fn take_timers(waker: &Waker) -> Vec<(u64, usize, u64)> {
    let mut g = state();
    let Some(s) = g.as_mut() else { return Vec::new() };
    s.timer_waker = Some(waker.clone());
    s.timers.drain(..).map(|t| (t.ms, t.tid, t.token)).collect()
}

/// Called when a timer taken with [`take_timers`] has elapsed.
pub fn fire_timer(tid: usize, token: u64) {
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    if tid < s.threads.len()
        && s.threads[tid].token == token
        && s.threads[tid].st == St::Blocked(cv_key(tid))
    {
        s.threads[tid].st = St::Runnable;
    }
}

/// Appends to the event log.
pub fn event(kind: &'static str, a: i64, b: i64) {
    let t = TID.with(Cell::get);
    let mut g = state();
    if let Some(s) = g.as_mut() {
        let t = if t == NONE { 99 } else { t };
        s.record(t, kind, a, b);
    }
}

/// Current global step.
pub fn step() -> u64 {
    state().as_ref().map_or(0, |s| s.step)
}

pub fn aborting() -> bool {
    ABORTING.load(Ordering::SeqCst)
}

pub fn request_abort() {
    do_abort(state(), Abort::Requested);
}

/// Handler for runs that can only be abandoned (deadlock, step limit). It must end the process.
pub fn set_fatal(f: fn(Abort)) {
    let _ = FATAL.set(f);
}

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub abort: Option<Abort>,
    pub events: Vec<Event>,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub decisions: Vec<(u64, Decision)>,
    pub kinds: BTreeMap<&'static str, u64>,
    pub blocked: Vec<String>,
}

/// Starts a run; the calling thread becomes the executor (thread 0) and holds the baton.
pub fn start(cfg: Config) {
    let mut rng = Rng::new(cfg.seed);
    let mut change_points = Vec::new();
    if let Policy::Pct { d, len } = cfg.policy {
        for _ in 0..d {
            change_points.push(rng.below(len.max(1)));
        }
    }
    ABORTING.store(false, Ordering::SeqCst);
    TID.with(|t| t.set(EXEC));
    let prio = rng.next_u64() >> 1 | 1 << 40;
    *state() = Some(State {
        replay: cfg.replay.iter().copied().collect(),
        rng,
        threads: vec![Thr {
            st: St::Runnable,
            go: Arc::new(AtomicBool::new(false)),
            handle: Some(std::thread::current()),
            prio,
            name: "executor",
            token: 0,
            sleeping: false,
        }],
        running: EXEC,
        step: 0,
        choices: 0,
        decisions: Vec::new(),
        change_points,
        low_prio: 1 << 30,
        abort: None,
        events: Vec::new(),
        hash: 0xcbf2_9ce4_8422_2325,
        sched_hash: 0xcbf2_9ce4_8422_2325,
        switches: 0,
        preemptions: 0,
        stalls: 0,
        now_ms: 0,
        timers: Vec::new(),
        timer_waker: None,
        waiters: HashMap::new(),
        keys: HashMap::new(),
        exec_ready: None,
        clock: None,
        next_token: 0,
        kinds: BTreeMap::new(),
        exec_steps_idle: 0,
        joins: Vec::new(),
        cfg,
    });
}

pub fn set_exec_ready_probe(f: impl Fn() -> bool + Send + 'static) {
    if let Some(s) = state().as_mut() {
        s.exec_ready = Some(Box::new(f));
    }
}

pub fn set_clock(f: impl Fn() -> u64 + Send + 'static) {
    if let Some(s) = state().as_mut() {
        s.clock = Some(Box::new(f));
    }
}

/// Virtual time in ms.
pub fn now() -> u64 {
    let g = state();
    g.as_ref().map_or(0, |s| s.clock.as_ref().map_or(s.now_ms, |c| c()))
}

/// Spawns a controlled thread. It is runnable immediately but only runs when scheduled.
pub fn spawn(name: &'static str, f: impl FnOnce() + Send + 'static) {
    let go = Arc::new(AtomicBool::new(false));
    let id = {
        let mut g = state();
        let s = g.as_mut().expect("no run active");
        let prio = s.rng.next_u64() >> 1 | 1 << 40;
        s.threads.push(Thr {
            st: St::Runnable,
            go: go.clone(),
            handle: None,
            prio,
            name,
            token: 0,
            sleeping: false,
        });
        s.threads.len() - 1
    };
    let j = std::thread::Builder::new()
        .name(name.into())
        .stack_size(512 * 1024)
        .spawn(move || {
            TID.with(|t| t.set(id));
            wait_go(&go);
            if !ABORTING.load(Ordering::SeqCst) {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Err(p) = r
                    && !p.is::<AbortPanic>()
                {
                    event("thread_panic", id as i64, 0);
                }
            }
            TID.with(|t| t.set(NONE));
            finish(id);
        })
        .expect("spawn thread");
    if let Some(s) = state().as_mut() {
        s.threads[id].handle = Some(j.thread().clone());
        s.joins.push(j);
    }
}

fn finish(me: usize) {
    let mut g = state();
    let Some(s) = g.as_mut() else { return };
    s.threads[me].st = St::Done;
    if ABORTING.load(Ordering::SeqCst) {
        return;
    }
    let next = match s.choose(me) {
        Some(n) => n,
        None if s.threads[EXEC].st == St::Idle => EXEC,
        None => match s.end_stall() {
            Some(t) => t,
            None => {
                do_abort(g, Abort::Deadlock);
                return;
            }
        },
    };
    s.running = next;
    let t = &s.threads[next];
    t.go.store(true, Ordering::SeqCst);
    if let Some(h) = &t.handle {
        h.unpark();
    }
}

/// True once every controlled thread other than the executor is done.
pub fn all_done() -> bool {
    state()
        .as_ref()
        .is_none_or(|s| s.threads.iter().skip(1).all(|t| t.st == St::Done))
}

/// Ends the run and returns what happened. Any thread still alive unwinds.
pub fn stop() -> Report {
    let mut g = state();
    let Some(s) = g.as_mut() else { return Report::default() };
    let blocked = s
        .threads
        .iter()
        .skip(1)
        .filter(|t| t.st != St::Done)
        .map(|t| format!("{}:{:?}", t.name, t.st))
        .collect();
    let rep = Report {
        abort: s.abort,
        events: std::mem::take(&mut s.events),
        hash: s.hash,
        sched_hash: s.sched_hash,
        steps: s.step,
        switches: s.switches,
        preemptions: s.preemptions,
        stalls: s.stalls,
        decisions: std::mem::take(&mut s.decisions),
        kinds: std::mem::take(&mut s.kinds),
        blocked,
    };
    do_abort(g, Abort::Requested);
    rep
}

/// Forgets the run, after every controlled thread has ended. Call after [`stop`].
pub fn clear() {
    let joins = state().as_mut().map(|s| std::mem::take(&mut s.joins)).unwrap_or_default();
    for j in joins {
        let _ = j.join();
    }
    TID.with(|t| t.set(NONE));
    *state() = None;
}

/// Used after the runtime is gone: lets the remaining threads run until they are done or stuck.
/// Returns true if all of them finished.
pub fn exec_drain() -> bool {
    loop {
        if all_done() {
            return true;
        }
        let mut g = state();
        let Some(s) = g.as_mut() else { return true };
        s.exec_ready = None;
        s.clock = None;
        s.threads[EXEC].st = St::Idle;
        match s.choose(EXEC) {
            Some(next) => hand_over(g, EXEC, next),
            None => {
                // nobody is left to advance the clock
                let Some(t) = s.end_stall() else { return false };
                hand_over(g, EXEC, t);
            }
        }
    }
}
