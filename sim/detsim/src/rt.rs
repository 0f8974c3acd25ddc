//! The process-level simulator: real OS threads, exactly one of which holds the run token at any
//! time. All thread creation, futex waits, sleeps, clock reads and randomness requests of the process
//! come here (see the `#[no_mangle]` symbols at the end, which take precedence over libc's).
use crate::choice::{Choices, Record, Stream};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

pub const NS: u64 = 1;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

static ACTIVE: AtomicBool = AtomicBool::new(false);
/// Guards before the next preemption (u64::MAX: never). Kept outside `Sim` so that the coverage
/// callback is cheap.
static COUNTDOWN: AtomicU64 = AtomicU64::new(u64::MAX);
static STEPS: AtomicU64 = AtomicU64::new(0);
static mut SIM: *mut Sim = std::ptr::null_mut();
const NOT_SIM: usize = usize::MAX;
thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOT_SIM) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Runnable,
    Futex { addr: usize, bitset: u32, deadline: Option<u64> },
    Sleep(u64),
    Join(usize),
    /// Blocked in a simulated device (sockets); woken by `wake_device` or deadline.
    Device { key: u64, deadline: Option<u64> },
    Finished,
}
struct Th {
    state: State,
    sem: Box<AtomicU32>,
    handle: libc::pthread_t,
    timed_out: bool,
    prio: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// uniformly random next thread
    Uniform,
    /// random priorities, highest runnable first, priorities reshuffled now and then
    Prio,
    /// like Uniform but one thread is picked rarely
    Starve,
    /// keep running the current thread until it blocks; then round robin
    Sticky,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub message: String,
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Outcome {
    Ok,
    Violation(Violation),
    /// Not decided (step budget exhausted where the property says nothing about it)
    Inconclusive(String),
    /// Something wrong with the harness itself
    HarnessError(String),
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Report {
    pub outcome: Outcome,
    pub stats: BTreeMap<String, u64>,
    pub record: Record,
    pub trace_hash: u64,
    pub shape_hash: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub trace: Vec<String>,
    pub nontrivial: bool,
    pub sample: String,
}
pub struct Sim {
    th: Vec<Th>,
    cur: usize,
    pub choices: Choices,
    pub now: u64,
    realtime_base: u64,
    policy: Policy,
    starved: usize,
    preempt_mean: u64,
    spurious: u64,
    timer_race: u64,
    rr: usize,
    switches: u64,
    pub step_limit: u64,
    calm_left: u32,
    step_limit_is_violation: Option<String>,
    pub stats: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    trace_hash: u64,
    shape_hash: u64,
    pub nontrivial: bool,
    pub sample: String,
    out_fd: i32,
    hang_class: String,
    os_rng: crate::choice::Rng,
    /// only consulted in random mode (replays follow the recorded picks)
    prio_rng: crate::choice::Rng,
    pub panics: Vec<(String, String)>,
    pub allow_panics: bool,
    /// property under test
    focus: &'static str,
    foreign: bool,
    pub(crate) devices: crate::net::Net,
    pub(crate) fs: crate::fsim::FsState,
}

fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5)
}
pub fn fnv_str(mut h: u64, s: &str) -> u64 {
    for b in s.as_bytes() {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub struct Guard(());
impl Guard {
    fn new() -> Guard {
        INSIDE.with(|i| i.set(i.get() + 1));
        Guard(())
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}
pub(crate) fn atomic_guard() -> Guard {
    Guard::new()
}
/// Runs `f` as if outside of an atomic section of the simulator (it may block).
pub(crate) fn unguarded<R>(f: impl FnOnce() -> R) -> R {
    let n = INSIDE.with(|i| i.replace(0));
    let r = f();
    INSIDE.with(|i| i.set(n));
    r
}
#[inline]
pub fn in_sim() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) != NOT_SIM
}
/// Access to the simulator state; only the token holder gets here.
#[allow(static_mut_refs)]
pub(crate) fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// Runs `f` with preemption switched off (used by models and oracles).
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::new();
    f()
}

unsafe fn raw_futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0) };
}
unsafe fn raw_futex_wake(a: &AtomicU32) {
    unsafe { raw_syscall(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0) };
}
pub(crate) unsafe fn raw_syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
fn sem_wait(s: &AtomicU32) {
    loop {
        if s.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe { raw_futex_wait(s, 0) };
    }
}
fn sem_post(s: &AtomicU32) {
    s.store(1, Ordering::Release);
    unsafe { raw_futex_wake(s) };
}

impl Sim {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    fn arm(&mut self) {
        if self.preempt_mean == 0 {
            COUNTDOWN.store(u64::MAX, Ordering::Relaxed);
            return;
        }
        // 0 = never again; otherwise a geometric-like distance
        let mean = self.preempt_mean;
        let d = self.choices.draw(Stream::Sched, 1 << 40, |r| {
            let u = (r.next() >> 11) as f64 / (1u64 << 53) as f64;
            1 + (-(1.0 - u).ln() * mean as f64) as u64
        });
        COUNTDOWN.store(if d == 0 { u64::MAX } else { d }, Ordering::Relaxed);
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].state == State::Runnable).collect()
    }
    fn next_deadline(&self) -> Option<(u64, usize)> {
        self.th
            .iter()
            .enumerate()
            .filter_map(|(i, t)| match t.state {
                State::Sleep(d) => Some((d, i)),
                State::Futex { deadline: Some(d), .. } | State::Device { deadline: Some(d), .. } => Some((d, i)),
                _ => None,
            })
            .min()
    }
    fn fire_timers(&mut self) {
        for t in &mut self.th {
            match t.state {
                State::Sleep(d) if d <= self.now => t.state = State::Runnable,
                State::Futex { deadline: Some(d), .. } | State::Device { deadline: Some(d), .. } if d <= self.now => {
                    t.state = State::Runnable;
                    t.timed_out = true;
                }
                _ => {}
            }
        }
    }
    /// Decide who runs next. The current thread's state has been set by the caller.
    fn pick(&mut self) -> usize {
        loop {
            let dev = self.devices.next_event();
            self.fire_timers();
            let run = self.runnable();
            if run.is_empty() {
                let t = match (self.next_deadline().map(|x| x.0), dev) {
                    (Some(a), Some(b)) => a.min(b),
                    (Some(a), None) | (None, Some(a)) => a,
                    (None, None) => self.hang("nothing can run and no timer is pending"),
                };
                if t > self.now {
                    self.now = t;
                }
                self.count("clock_jumps", 1);
                self.run_devices();
                continue;
            }
            if self.timer_race > 0 {
                let t = match (self.next_deadline().map(|x| x.0), dev) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                };
                // threads are slow, but not slower than two seconds
                if let Some(t) = t.filter(|t| *t <= self.now + 2 * SEC) {
                    if self.choices.chance(Stream::Sched, self.timer_race, 1000) {
                        self.count("fault.slow_threads_timer_first", 1);
                        self.now = self.now.max(t);
                        self.run_devices();
                        continue;
                    }
                }
            }
            if run.len() == 1 {
                return run[0];
            }
            let n = run.len() as u64;
            let cur = self.cur;
            let (policy, starved, rr) = (self.policy, self.starved, self.rr);
            let prios: Vec<u64> = run.iter().map(|&i| self.th[i].prio).collect();
            let k = self.choices.draw(Stream::Sched, n, |r| match policy {
                Policy::Uniform => r.next() % n,
                Policy::Prio => (0..n as usize).max_by_key(|&i| prios[i]).unwrap() as u64,
                Policy::Starve => {
                    let mut k = r.next() % n;
                    if run[k as usize] == starved && r.next() % 16 != 0 {
                        k = (k + 1) % n;
                    }
                    k
                }
                Policy::Sticky => {
                    if let Some(p) = run.iter().position(|&i| i == cur) {
                        p as u64
                    } else {
                        run.iter().position(|&i| i >= rr).unwrap_or(0) as u64
                    }
                }
            });
            if policy == Policy::Prio && self.choices.is_random() && self.switches % 13 == 0 {
                let i = run[k as usize];
                self.th[i].prio = self.prio_rng.next();
            }
            self.rr = run[k as usize] + 1;
            return run[k as usize];
        }
    }
    fn run_devices(&mut self) {
        let now = self.now;
        let keys = self.devices.advance(now);
        for k in keys {
            self.wake_device(k);
        }
    }
    pub(crate) fn wake_device(&mut self, key: u64) {
        for t in &mut self.th {
            if let State::Device { key: k, .. } = t.state {
                if k == key {
                    t.state = State::Runnable;
                    t.timed_out = false;
                }
            }
        }
    }
    fn hang(&mut self, why: &str) -> ! {
        let mut m = format!("{why}; threads:");
        for (i, t) in self.th.iter().enumerate() {
            if t.state != State::Finished {
                m.push_str(&format!(" t{i}:{:?}", kind(&t.state)));
            }
        }
        let class = self.hang_class.clone();
        self.finish(Outcome::Violation(Violation { class, message: m }))
    }
    /// Classes are `PROPERTY/what`; `hang`, `panic` and `crash` belong to every property.
    fn is_foreign(&self, class: &str) -> bool {
        class.split_once('/').is_some_and(|(p, _)| p != self.focus)
    }
    pub fn finish(&mut self, mut outcome: Outcome) -> ! {
        if let Outcome::Violation(v) = &outcome {
            if self.is_foreign(&v.class) || (self.foreign && !v.class.contains('/')) {
                let k = format!("other_property.{}", v.class);
                self.count(&k, 1);
                outcome = Outcome::Ok;
            }
        }
        let rep = Report {
            outcome,
            stats: std::mem::take(&mut self.stats),
            record: std::mem::take(&mut self.choices.log),
            trace_hash: self.trace_hash,
            shape_hash: self.shape_hash,
            sim_ns: self.now,
            steps: STEPS.load(Ordering::Relaxed),
            switches: self.switches,
            trace: std::mem::take(&mut self.trace),
            nontrivial: self.nontrivial,
            sample: std::mem::take(&mut self.sample),
        };
        ACTIVE.store(false, Ordering::SeqCst);
        let b = serde_json::to_vec(&rep).unwrap();
        let mut off = 0;
        while off < b.len() {
            let r = unsafe { raw_syscall(libc::SYS_write, self.out_fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0) };
            if r <= 0 {
                break;
            }
            off += r as usize;
        }
        unsafe { raw_syscall(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0) };
        unreachable!()
    }
    pub fn event(&mut self, s: String) {
        self.trace_hash = fnv_str(fnv(self.trace_hash, self.cur as u64), &s);
        self.shape_hash = fnv_str(fnv(self.shape_hash, self.cur as u64), &s);
        if self.keep_trace {
            if self.trace.len() < 20_000 {
                let l = format!("[{:>12}ns t{} #{}] {}", self.now, self.cur, STEPS.load(Ordering::Relaxed), s);
                self.trace.push(l);
            }
        }
    }
}
fn kind(s: &State) -> &'static str {
    match s {
        State::Runnable => "runnable",
        State::Futex { deadline: None, .. } => "blocked",
        State::Futex { .. } => "blocked-timed",
        State::Sleep(_) => "sleeping",
        State::Join(_) => "joining",
        State::Device { .. } => "io",
        State::Finished => "finished",
    }
}

/// Give up the token; returns when this thread is scheduled again.
fn switch_away() {
    let s = sim();
    let me = s.cur;
    s.now += 200 * NS;
    let next = s.pick();
    s.arm();
    s.switches += 1;
    check_limits(s);
    if next == me {
        return;
    }
    s.trace_hash = fnv(s.trace_hash, ((me as u64) << 32) | next as u64);
    s.shape_hash = fnv(s.shape_hash, ((me as u64) << 32) | next as u64);
    s.cur = next;
    let mysem: *const AtomicU32 = &*s.th[me].sem;
    sem_post(&s.th[next].sem);
    sem_wait(unsafe { &*mysem });
}
fn check_limits(s: &mut Sim) {
    let st = STEPS.load(Ordering::Relaxed);
    if s.switches > s.step_limit || st > s.step_limit.saturating_mul(200) {
        if s.calm_left > 0 {
            // Faults stop: fair scheduling, no preemption, no spurious wakeups, timers on time.
            // Progress must be made within as many steps again.
            s.calm_left -= 1;
            s.step_limit = s.step_limit.saturating_mul(2).max(s.switches.saturating_mul(2));
            s.policy = Policy::Uniform;
            s.preempt_mean = 0;
            s.spurious = 0;
            s.timer_race = 0;
            s.devices.calm();
            COUNTDOWN.store(u64::MAX, Ordering::Relaxed);
            s.count("calmed", 1);
            return;
        }
        match s.step_limit_is_violation.clone() {
            Some(c) => s.finish(Outcome::Violation(Violation { class: c, message: format!("no completion within {} scheduling steps (virtual time {} ms)", s.switches, s.now / MS) })),
            None => s.finish(Outcome::Inconclusive("step budget exhausted".into())),
        }
    }
}
/// A point where the simulator may run another thread.
pub fn yield_point() {
    if !in_sim() || INSIDE.with(|i| i.get()) > 0 {
        return;
    }
    let _g = Guard::new();
    switch_away();
}
pub fn sleep_ns(ns: u64) {
    let _g = Guard::new();
    let s = sim();
    let d = s.now.saturating_add(ns);
    s.th[s.cur].state = State::Sleep(d);
    switch_away();
}
/// Block on a device key. Returns false on timeout.
pub(crate) fn device_wait(key: u64, deadline: Option<u64>) -> bool {
    let _g = Guard::new();
    let s = sim();
    let me = s.cur;
    s.th[me].timed_out = false;
    s.th[me].state = State::Device { key, deadline };
    switch_away();
    !sim().th[me].timed_out
}

// ---------------------------------------------------------------- public helpers for scenarios
pub fn now_ns() -> u64 {
    sim().now
}
pub fn choose(s: Stream, n: u64) -> u64 {
    let _g = Guard::new();
    sim().choices.below(s, n)
}
pub fn chance(s: Stream, num: u64, den: u64) -> bool {
    let _g = Guard::new();
    sim().choices.chance(s, num, den)
}
/// Skewed draw: value v < n where small values are likely.
pub fn small(s: Stream, n: u64) -> u64 {
    let _g = Guard::new();
    sim().choices.draw(s, n.max(1), |r| {
        let bits = r.next() % (64 - (n.max(1)).leading_zeros() as u64 + 1);
        if bits == 0 { 0 } else { r.next() % (1u64 << bits) }
    })
}
pub fn count(k: &str, n: u64) {
    let _g = Guard::new();
    sim().count(k, n)
}
pub fn event(s: String) {
    let _g = Guard::new();
    sim().event(s)
}
pub fn nontrivial() {
    sim().nontrivial = true;
}
pub fn set_sample(s: String) {
    let _g = Guard::new();
    sim().sample = s;
}
pub fn violation(class: &str, message: String) -> ! {
    let _g = Guard::new();
    sim().event(format!("VIOLATION {class}: {message}"));
    sim().finish(Outcome::Violation(Violation { class: class.into(), message }))
}
/// A failed check. If it is about another property than the one under test, it is noted and the run
/// goes on.
pub fn check_failed(class: &str, message: String) {
    let _g = Guard::new();
    let s = sim();
    if s.is_foreign(class) {
        s.event(format!("violation of another property: {class}: {message}"));
        s.count(&format!("other_property.{class}"), 1);
        s.foreign = true;
        return;
    }
    violation(class, message)
}
pub fn inconclusive(why: &str) -> ! {
    let _g = Guard::new();
    sim().finish(Outcome::Inconclusive(why.into()))
}
pub fn harness_error(why: String) -> ! {
    let _g = Guard::new();
    sim().finish(Outcome::HarnessError(why))
}
/// Scheduling parameters of a run; normally drawn by `random_schedule_config`.
pub fn set_sched(policy: Policy, preempt_mean: u64, spurious: u64, timer_race: u64) {
    let _g = Guard::new();
    let s = sim();
    s.policy = policy;
    s.preempt_mean = preempt_mean;
    s.spurious = spurious;
    s.timer_race = timer_race;
    s.starved = 1;
    s.arm();
}
/// Swarm-style: draw policy and rates for this run.
pub fn random_schedule_config() {
    let p = match choose(Stream::Sched, 6) {
        0 => Policy::Sticky,
        1 | 2 => Policy::Uniform,
        3 => Policy::Prio,
        4 => Policy::Starve,
        _ => Policy::Uniform,
    };
    let mean = [0u64, 2000, 400, 100, 30, 8][choose(Stream::Sched, 6) as usize];
    let spurious = [0u64, 0, 5, 50][choose(Stream::Sched, 4) as usize];
    let race = [0u64, 0, 3, 30][choose(Stream::Sched, 4) as usize];
    let starved = 1 + choose(Stream::Sched, 4) as usize;
    set_sched(p, mean, spurious, race);
    sim().starved = starved;
}
pub fn set_hang_class(c: &str) {
    let _g = Guard::new();
    sim().hang_class = c.into();
}
pub fn set_limits(steps: u64, violation_class: Option<&str>) {
    let _g = Guard::new();
    let s = sim();
    s.step_limit = steps;
    s.step_limit_is_violation = violation_class.map(|x| x.to_string());
}
pub fn current_thread() -> usize {
    sim().cur
}
pub fn live_threads() -> usize {
    sim().th.iter().filter(|t| t.state != State::Finished).count()
}
pub fn switches() -> u64 {
    sim().switches
}

/// Turn this (forked, single-threaded) process into a simulation and run `f`.
#[allow(static_mut_refs)]
pub fn run_child(choices: Choices, seed: u64, keep_trace: bool, out_fd: i32, focus: &'static str, f: &dyn Fn()) -> ! {
    let sim_box = Box::new(Sim {
        th: vec![Th { state: State::Runnable, sem: Box::new(AtomicU32::new(0)), handle: unsafe { libc::pthread_self() }, timed_out: false, prio: 0 }],
        cur: 0,
        choices,
        now: 1 * SEC,
        realtime_base: 1_700_000_000 * SEC,
        policy: Policy::Sticky,
        starved: 1,
        preempt_mean: 0,
        spurious: 0,
        timer_race: 0,
        rr: 0,
        switches: 0,
        step_limit: 200_000,
        calm_left: 1,
        step_limit_is_violation: None,
        stats: BTreeMap::new(),
        trace: vec![],
        keep_trace,
        trace_hash: 0xcbf29ce484222325,
        shape_hash: 0xcbf29ce484222325,
        nontrivial: false,
        sample: String::new(),
        out_fd,
        hang_class: "hang".into(),
        os_rng: crate::choice::Rng::new(0x5eed),
        prio_rng: crate::choice::Rng::new(0x5eed),
        panics: vec![],
        allow_panics: false,
        focus,
        foreign: false,
        devices: Default::default(),
        fs: Default::default(),
    });
    let _ = seed;
    unsafe { SIM = Box::into_raw(sim_box) };
    TID.with(|t| t.set(0));
    // OS randomness depends on one recorded value only, so that minimised runs keep it.
    let os = sim().choices.draw(Stream::Os, u64::MAX, |r| r.next());
    sim().os_rng = crate::choice::Rng::new(os);
    sim().prio_rng = crate::choice::Rng::new(os ^ 0x55);
    ACTIVE.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _g = Guard::new();
    match r {
        Ok(()) => {
            let s = sim();
            if !s.allow_panics {
                if let Some((l, m)) = s.panics.iter().find(|(l, _)| l.starts_with("/repo/")).cloned() {
                    s.finish(Outcome::Violation(Violation { class: "panic".into(), message: format!("{l}: {m}") }));
                }
            }
            s.finish(Outcome::Ok)
        }
        Err(e) => {
            let m = match sim().panics.last() {
                Some((l, m)) => format!("{l}: {m}"),
                None => panic_text(&*e),
            };
            sim().finish(Outcome::Violation(Violation { class: "panic".into(), message: m }))
        }
    }
}
/// Panics inside /repo code are violations unless a scenario that injects panics says otherwise.
pub fn allow_panics() {
    sim().allow_panics = true;
}
pub fn note_panic(loc: String, msg: String) {
    if !in_sim() {
        return;
    }
    let _g = Guard::new();
    let s = sim();
    s.event(format!("panic at {loc}: {msg}"));
    if s.panics.len() < 1000 {
        s.panics.push((loc, msg));
    }
}
pub fn panics() -> Vec<(String, String)> {
    let _g = Guard::new();
    sim().panics.clone()
}
/// Forgets the panics after the first `n`: what a killed process does on its way out is of no interest.
pub fn forget_panics(n: usize) {
    let _g = atomic_guard();
    sim().panics.truncate(n);
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

// ------------------------------------------------------------------------- interposed symbols
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const libc::c_char) } as usize;
            assert!(p != 0);
            P.store(p, Ordering::Relaxed);
        }
        unsafe { std::mem::transmute::<usize, $t>(p) }
    }};
}


pub(crate) fn set_errno(e: i32) -> libc::c_long {
    unsafe { *libc::__errno_location() = e };
    -1
}

struct StartArgs {
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: usize,
    sem: *const AtomicU32,
}
unsafe extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut libc::c_void), obj: *mut libc::c_void, dso: *mut libc::c_void) -> i32;
    static mut __dso_handle: u8;
}
extern "C" fn thread_final(_: *mut libc::c_void) {
    if !in_sim() {
        return;
    }
    let _g = Guard::new();
    let s = sim();
    let me = s.cur;
    s.th[me].state = State::Finished;
    for t in &mut s.th {
        if t.state == State::Join(me) {
            t.state = State::Runnable;
        }
    }
    let next = s.pick();
    s.arm();
    s.switches += 1;
    s.trace_hash = fnv(s.trace_hash, ((me as u64) << 32) | next as u64);
    s.cur = next;
    TID.with(|t| t.set(NOT_SIM));
    sem_post(&s.th[next].sem);
}
extern "C" fn thread_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let a = unsafe { Box::from_raw(p as *mut StartArgs) };
    TID.with(|t| t.set(a.tid));
    INSIDE.with(|i| i.set(0));
    unsafe {
        __cxa_thread_atexit_impl(thread_final, std::ptr::null_mut(), &raw mut __dso_handle as *mut libc::c_void);
    }
    sem_wait(unsafe { &*a.sem });
    let (start, arg) = (a.start, a.arg);
    drop(a);
    start(arg)
}
type PthreadCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    let real = real!("pthread_create", PthreadCreate);
    if !in_sim() {
        return unsafe { real(out, attr, start, arg) };
    }
    let g = Guard::new();
    let s = sim();
    let tid = s.th.len();
    let prio = s.os_rng.next();
    s.th.push(Th { state: State::Runnable, sem: Box::new(AtomicU32::new(0)), handle: 0, timed_out: false, prio });
    if let Some(ip) = s.devices.local_ip.get(&s.cur).copied() {
        s.devices.local_ip.insert(tid, ip);
    }
    let a = Box::new(StartArgs { start, arg, tid, sem: &*s.th[tid].sem });
    let r = unsafe { real(out, attr, thread_main, Box::into_raw(a) as *mut libc::c_void) };
    if r != 0 {
        s.th[tid].state = State::Finished;
        return r;
    }
    s.th[tid].handle = unsafe { *out };
    s.count("threads_spawned", 1);
    drop(g);
    if sim().preempt_mean > 0 {
        yield_point();
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let real = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32);
    if in_sim() {
        let _g = Guard::new();
        let s = sim();
        if let Some(i) = s.th.iter().rposition(|x| x.handle == t) {
            if s.th[i].state != State::Finished {
                s.th[s.cur].state = State::Join(i);
                switch_away();
            }
            sim().th[i].handle = 0;
        }
    }
    unsafe { real(t, ret) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        let s = sim();
        s.now += 1 * US;
        yield_point();
        return 0;
    }
    unsafe { raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32 }
}
unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    let t = unsafe { &*t };
    (t.tv_sec as u64).saturating_mul(SEC).saturating_add(t.tv_nsec as u64)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        sleep_ns(unsafe { ts_ns(req) });
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) };
    if r < 0 { set_errno(-r as i32) as i32 } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if in_sim() {
        let t = unsafe { ts_ns(req) };
        if flags & libc::TIMER_ABSTIME != 0 {
            let base = if clk == libc::CLOCK_REALTIME { sim().realtime_base } else { 0 };
            let now = sim().now + base;
            sleep_ns(t.saturating_sub(now));
        } else {
            sleep_ns(t);
        }
        return 0;
    }
    -unsafe { raw_syscall(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) } as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, out: *mut libc::timespec) -> i32 {
    if in_sim() {
        let s = sim();
        s.now += 20 * NS;
        let t = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => s.now + s.realtime_base,
            _ => s.now,
        };
        unsafe { *out = libc::timespec { tv_sec: (t / SEC) as i64, tv_nsec: (t % SEC) as i64 } };
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_clock_gettime, clk as usize, out as usize, 0, 0, 0, 0) };
    if r < 0 { set_errno(-r as i32) as i32 } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { clock_gettime(libc::CLOCK_REALTIME, &mut ts) };
    unsafe { *tv = libc::timeval { tv_sec: ts.tv_sec, tv_usec: ts.tv_nsec / 1000 } };
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { clock_gettime(libc::CLOCK_REALTIME, &mut ts) };
    if !out.is_null() {
        unsafe { *out = ts.tv_sec };
    }
    ts.tv_sec
}
fn fill_random(buf: *mut u8, len: usize) {
    let s = sim();
    for i in 0..len {
        unsafe { *buf.add(i) = (s.os_rng.next() >> 24) as u8 };
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if in_sim() {
        fill_random(buf as *mut u8, len);
        return len as isize;
    }
    let r = unsafe { raw_syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) };
    if r < 0 { set_errno(-r as i32) as isize } else { r }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> i32 {
    unsafe { getrandom(buf, len, 0) };
    0
}
/// Number of CPUs: a fixed value, so that nothing depends on the machine.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    if in_sim() {
        unsafe {
            std::ptr::write_bytes(set as *mut u8, 0, size);
            *(set as *mut u8) = 0b11;
        }
        return 0;
    }
    let r = unsafe { raw_syscall(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0) };
    if r < 0 { set_errno(-r as i32) as i32 } else { 0 }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(num: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if in_sim() {
        match num {
            libc::SYS_futex => return futex(a, b as i32, c as u32, d, f as u32),
            libc::SYS_getrandom => {
                fill_random(a as *mut u8, b);
                return b as libc::c_long;
            }
            _ => {}
        }
    }
    let r = unsafe { raw_syscall(num, a, b, c, d, e, f) };
    if r < 0 && r > -4096 { set_errno(-r as i32) } else { r as libc::c_long }
}

fn futex(addr: usize, op: i32, val: u32, timeout: usize, val3: u32) -> libc::c_long {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let inside = INSIDE.with(|i| i.get());
    let _g = Guard::new();
    let s = sim();
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur_val = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur_val != val {
                return set_errno(libc::EAGAIN);
            }
            if inside > 0 {
                s.finish(Outcome::HarnessError("blocking wait inside an atomic section".into()));
            }
            let deadline = if timeout != 0 {
                let t = unsafe { ts_ns(timeout as *const libc::timespec) };
                Some(if cmd == libc::FUTEX_WAIT {
                    s.now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    t.saturating_sub(s.realtime_base)
                } else {
                    t
                })
            } else {
                None
            };
            if s.spurious > 0 && s.choices.chance(Stream::Fault, s.spurious, 1000) {
                s.count("fault.spurious_wakeup", 1);
                switch_away();
                return 0;
            }
            let bitset = if cmd == libc::FUTEX_WAIT_BITSET { val3 } else { u32::MAX };
            let me = s.cur;
            s.th[me].timed_out = false;
            s.th[me].state = State::Futex { addr, bitset, deadline };
            switch_away();
            if sim().th[me].timed_out {
                return set_errno(libc::ETIMEDOUT);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE_BITSET { val3 } else { u32::MAX };
            let mut waiters: Vec<usize> = (0..s.th.len())
                .filter(|&i| matches!(s.th[i].state, State::Futex { addr: a, bitset, .. } if a == addr && bitset & bits != 0))
                .collect();
            let mut woken = 0;
            while woken < val as usize && !waiters.is_empty() {
                let k = if waiters.len() > (val as usize - woken) { s.choices.below(Stream::Sched, waiters.len() as u64) as usize } else { 0 };
                let t = waiters.remove(k);
                s.th[t].state = State::Runnable;
                s.th[t].timed_out = false;
                woken += 1;
            }
            // a wake is a natural preemption point
            if woken > 0 && inside == 0 && s.preempt_mean > 0 {
                switch_away();
            }
            woken as libc::c_long
        }
        _ => {
            s.finish(Outcome::HarnessError(format!("unsupported futex operation {cmd}")));
        }
    }
}

// ------------------------------------------------- coverage-guided preemption points (SanCov)
static mut GUARDS: u32 = 0;
#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            GUARDS += 1;
            *p = GUARDS;
            p = p.add(1);
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    if TID.with(|t| t.get()) == NOT_SIM || INSIDE.with(|i| i.get()) > 0 {
        return;
    }
    // The token holder is the only thread here, so plain load/store is enough.
    STEPS.store(STEPS.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    COV.mark(unsafe { *guard });
    let c = COUNTDOWN.load(Ordering::Relaxed);
    if c == u64::MAX {
        let st = STEPS.load(Ordering::Relaxed);
        if st & 0xffff == 0 {
            let _g = Guard::new();
            check_limits(sim());
        }
        return;
    }
    if c > 1 {
        COUNTDOWN.store(c - 1, Ordering::Relaxed);
        return;
    }
    let _g = Guard::new();
    sim().count("preemptions", 1);
    switch_away();
}
/// Set of instrumented basic blocks reached, shared between forked children.
pub struct Cov {
    map: AtomicU64,
}
pub static COV: Cov = Cov { map: AtomicU64::new(0) };
pub const COV_SIZE: usize = 1 << 20;
impl Cov {
    pub fn init(&self) {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), COV_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        self.map.store(p as u64, Ordering::SeqCst);
    }
    #[inline]
    fn mark(&self, g: u32) {
        let m = self.map.load(Ordering::Relaxed);
        if m != 0 {
            unsafe { *((m + (g as u64 % COV_SIZE as u64)) as *mut u8) = 1 };
        }
    }
    pub fn reached(&self) -> usize {
        let m = self.map.load(Ordering::Relaxed);
        if m == 0 {
            return 0;
        }
        (0..COV_SIZE).filter(|i| unsafe { *((m + *i as u64) as *const u8) } != 0).count()
    }
}
#[allow(static_mut_refs)]
pub fn guards_total() -> u32 {
    unsafe { GUARDS }
}
/// The clock only advances when nothing can run (bounds on elapsed virtual time are then exact).
pub fn no_timer_race() {
    sim().timer_race = 0;
}
