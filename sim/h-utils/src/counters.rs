use detsim::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::Duration;
use utils::atomics::{AcqRelAtomicU64, RelaxedAtomicU32, SeqCstAtomicI64, SeqCstAtomicBool};
use utils::blockuntilzero::BlockUntilZero;
use utils::once_destructor::OnceDestructor;

#[derive(Default)]
struct Model {
    /// activities that have definitely begun and not yet begun to end
    outstanding: i64,
    /// begun-or-beginning and not completely ended
    maybe: i64,
    /// logical time, and the last time at which nothing was definitely outstanding
    t: u64,
    last_zero: u64,
}
static M: SimCell<Model> = SimCell::new(Model { outstanding: 0, maybe: 0, t: 0, last_zero: 0 });
fn tick(f: impl FnOnce(&mut Model)) -> u64 {
    M.with(|m| {
        if m.outstanding == 0 {
            m.last_zero = m.t + 1;
        }
        m.t += 1;
        f(m);
        if m.outstanding == 0 {
            m.last_zero = m.t;
        }
        m.t
    })
}
pub fn wait_for_zero() {
    random_schedule_config();
    set_limits(60_000, Some("E03/wait-never-returns"));
    set_hang_class("E03/wait-never-returns");
    allow_panics();
    let b = Arc::new(BlockUntilZero::<AtomicI32>::new());
    let mut hs = vec![];
    let workers = 1 + choose(Stream::Work, 4);
    let mut acts = 0;
    for w in 0..workers {
        let b = b.clone();
        let plan: Vec<(u64, u64)> = (0..1 + small(Stream::Work, 5)).map(|_| (choose(Stream::Work, 5), small(Stream::Work, 40))).collect();
        acts += plan.len();
        hs.push(std::thread::spawn(move || {
            for (kind, d) in plan {
                tick(|m| m.maybe += 1);
                let c = b.count_one();
                tick(|m| m.outstanding += 1);
                ev!("worker {w} begins kind {kind}");
                let v = c.value() as i64;
                let (lo, hi) = M.with(|m| (m.outstanding.min(1), m.maybe + 64));
                check!(v >= lo && v <= hi, "E03/count", "count {v} while this activity is outstanding");
                match kind {
                    0 => {}
                    1 => std::thread::sleep(Duration::from_millis(d)),
                    2 => std::thread::yield_now(),
                    3 => {
                        // overlapping activity
                        tick(|m| m.maybe += 1);
                        let c2 = b.count_one();
                        tick(|m| m.outstanding += 1);
                        std::thread::sleep(Duration::from_millis(d / 2));
                        tick(|m| m.outstanding -= 1);
                        drop(c);
                        tick(|m| m.maybe -= 1);
                        std::thread::yield_now();
                        tick(|m| m.outstanding -= 1);
                        drop(c2);
                        tick(|m| m.maybe -= 1);
                        continue;
                    }
                    _ => {
                        // ends by unwinding
                        count("fault.activity_panics", 1);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let _c = c;
                            let _end = OnceDestructor::new(|| {
                                tick(|m| m.outstanding -= 1);
                            });
                            std::thread::yield_now();
                            panic!("injected");
                        }));
                        assert!(r.is_err());
                        tick(|m| m.maybe -= 1);
                        continue;
                    }
                }
                ev!("worker {w} ends");
                tick(|m| m.outstanding -= 1);
                drop(c);
                tick(|m| m.maybe -= 1);
            }
        }));
    }
    let waiters = 1 + choose(Stream::Work, 3);
    for w in 0..waiters {
        let b = b.clone();
        let n = 1 + choose(Stream::Work, 3);
        hs.push(std::thread::spawn(move || {
            for _ in 0..n {
                let t0 = tick(|_| ());
                ev!("waiter {w} begins");
                b.wait_for_zero();
                ev!("waiter {w} returned");
                M.with(|m| {
                    if m.outstanding == 0 {
                        m.last_zero = m.t;
                    }
                    check!(m.last_zero >= t0, "E03/early-return", "a wait returned although at least one activity was outstanding during the whole wait ({} now)", m.outstanding);
                });
                count("waits", 1);
                std::thread::yield_now();
            }
        }));
    }
    // A wait in the destructor covers everything too
    for h in hs {
        h.join().unwrap();
    }
    let b = Arc::into_inner(b).expect("sole owner");
    check!(b.value() == 0, "E03/count", "count {} after all activities ended", b.value());
    // waiting by drop
    let c = b.count_one();
    let done = Arc::new(AtomicI32::new(0));
    let d2 = done.clone();
    let t = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(25));
        d2.store(1, Ordering::SeqCst);
        drop(c);
    });
    drop(b);
    check!(done.load(Ordering::SeqCst) == 1, "E03/early-return", "dropping the waiter object returned before the activity ended");
    t.join().unwrap();
    if workers + waiters > 2 && switches() > 6 {
        nontrivial();
    }
    set_sample(format!("{workers} workers with {acts} activities, {waiters} waiters"));
}
/// The atomic wrappers that counts and flags are built from: no update lost, modified or split.
pub fn atomic_ops() {
    random_schedule_config();
    set_limits(60_000, Some("E03/stuck"));
    set_hang_class("E03/stuck");
    struct S {
        a: AcqRelAtomicU64,
        b: RelaxedAtomicU32,
        c: SeqCstAtomicI64,
        f: SeqCstAtomicBool,
        max: SeqCstAtomicI64,
    }
    let s = Arc::new(S { a: AcqRelAtomicU64::new(0), b: RelaxedAtomicU32::new(0), c: SeqCstAtomicI64::new(0), f: SeqCstAtomicBool::new(false), max: SeqCstAtomicI64::new(i64::MIN) });
    let n = 2 + choose(Stream::Work, 3);
    let mut hs = vec![];
    let won = Arc::new(AtomicI32::new(0));
    let mut exp = (0u64, 0u32, 0i64, i64::MIN);
    for _ in 0..n {
        let plan: Vec<(u64, u64)> = (0..2 + small(Stream::Work, 8)).map(|_| (choose(Stream::Work, 7), 1 + small(Stream::Work, 50))).collect();
        for (k, v) in &plan {
            match k {
                0 => exp.0 += v,
                1 => exp.1 = exp.1.wrapping_add(*v as u32),
                2 => exp.2 += *v as i64,
                3 => exp.2 -= *v as i64,
                4 => exp.0 += v,
                5 => exp.3 = exp.3.max(*v as i64),
                _ => {}
            }
        }
        let (s, won) = (s.clone(), won.clone());
        hs.push(std::thread::spawn(move || {
            for (k, v) in plan {
                match k {
                    0 => {
                        s.a.fetch_add(v);
                    }
                    1 => {
                        s.b.fetch_add(v as u32);
                    }
                    2 => {
                        s.c.fetch_add(v as i64);
                    }
                    3 => {
                        s.c.fetch_sub(v as i64);
                    }
                    4 => {
                        let _ = s.a.fetch_update(|x| Some(x + v));
                    }
                    5 => {
                        s.max.fetch_max(v as i64);
                    }
                    _ => {
                        if s.f.compare_exchange(false, true).is_ok() {
                            won.fetch_add(1, Ordering::SeqCst);
                            std::thread::yield_now();
                            check!(won.fetch_sub(1, Ordering::SeqCst) == 1, "E03/atomic", "two threads own the flag");
                            check!(s.f.swap(false), "E03/atomic", "a flag set by this thread alone was cleared by another");
                        }
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let got = (s.a.load(), s.b.load(), s.c.load(), s.max.load());
    check!(got == exp, "E03/atomic", "counters are {got:?}, expected {exp:?}");
    nontrivial();
    set_sample(format!("{n} threads, final {got:?}"));
}
