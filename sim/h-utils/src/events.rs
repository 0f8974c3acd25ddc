use detsim::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, RwLock};
use utils::eventhandler::EventsController;

#[derive(Default)]
struct Model {
    /// (handler, producer) -> next expected sequence number / list of broadcasts it must see
    expected: BTreeMap<(usize, u64), Vec<u64>>,
    /// handler -> events handled (producer, seq), in order of completion
    started: BTreeMap<usize, Vec<(u64, u64)>>,
    finished: BTreeMap<usize, usize>,
    running: BTreeMap<usize, u32>,
    broadcast_done: u64,
}
static M: SimCell<Option<Model>> = SimCell::new(None);
fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    M.with(|x| f(x.get_or_insert_with(Default::default)))
}
type Ctl = EventsController<(u64, u64)>;

fn handler(id: usize, slow: u64) -> Arc<dyn Fn((u64, u64)) + Send + Sync> {
    Arc::new(move |e: (u64, u64)| {
        ev!("handler {id} starts {e:?}");
        m(|m| {
            let r = m.running.entry(id).or_default();
            *r += 1;
            check!(*r == 1, "E01/overlap", "handler {id} was called for {e:?} while its previous call was still running");
            let exp = m.expected.get(&(id, e.0)).cloned().unwrap_or_default();
            let st = m.started.entry(id).or_default();
            let n = st.iter().filter(|x| x.0 == e.0).count();
            check!(!st.contains(&e), "E01/duplicate", "handler {id} received event {e:?} twice");
            check!(exp.contains(&e.1), "E01/unexpected", "handler {id} received event {e:?} which was not broadcast after its subscription");
            check!(exp.get(n) == Some(&e.1), "E01/order", "handler {id} received event {e:?} out of order (expected {:?} next of producer {})", exp.get(n), e.0);
            st.push(e);
        });
        match slow {
            0 => {}
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(std::time::Duration::from_millis(1 + e.1 % 30)),
            _ => {
                for _ in 0..3 {
                    std::thread::yield_now();
                }
            }
        }
        m(|m| {
            *m.running.get_mut(&id).unwrap() -= 1;
            *m.finished.entry(id).or_default() += 1;
        });
        ev!("handler {id} done {e:?}");
    })
}
fn add_handler(ctl: &mut Ctl, slow: u64) {
    let id = ctl.subscribers().len();
    ctl.subscribe_to_events(handler(id, slow));
}
/// Everything whose broadcast returned before `before` must be finished now.
fn check_drained(owed: BTreeMap<usize, Vec<(u64, u64)>>, class: &str) {
    m(|m| {
        for (h, evs) in owed {
            let st = m.started.get(&h).cloned().unwrap_or_default();
            for e in &evs {
                check!(st.contains(e), class, "the wait returned but handler {h} has not been called for {e:?}, broadcast before the wait");
            }
            // a handler still running is running its latest started event
            if m.running.get(&h).copied().unwrap_or(0) > 0 {
                let last = st.last().copied();
                check!(!last.map_or(false, |l| evs.contains(&l)), class, "the wait returned while handler {h} was still running for {last:?}, broadcast before the wait");
            }
        }
    });
}
fn owed() -> BTreeMap<usize, Vec<(u64, u64)>> {
    m(|m| {
        let mut r: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
        for ((h, p), v) in &m.expected {
            r.entry(*h).or_default().extend(v.iter().map(|s| (*p, *s)));
        }
        r
    })
}
fn do_broadcast(ctl: &Ctl, producer: u64, seq: u64) {
    let n = ctl.subscribers().len();
    // The model expects the event from before the call: handlers may run before broadcast returns.
    m(|m| {
        for h in 0..n {
            m.expected.entry((h, producer)).or_default().push(seq);
        }
    });
    ev!("broadcast ({producer},{seq}) to {n}");
    ctl.broadcast((producer, seq));
    m(|m| m.broadcast_done += 1);
}

pub fn event_bus() {
    random_schedule_config();
    set_limits(60_000, Some("E01/wait-never-returns"));
    set_hang_class("E01/wait-never-returns");
    let mut ctl = Ctl::new();
    let nh = 1 + choose(Stream::Work, 4);
    for _ in 0..nh {
        add_handler(&mut ctl, choose(Stream::Work, 4));
    }
    let ctl = Arc::new(RwLock::new(ctl));
    let producers = 1 + choose(Stream::Work, 2);
    let mut hs = vec![];
    let total = Arc::new(Mutex::new(0u64));
    for p in 0..producers {
        let n = 1 + small(Stream::Work, 12);
        let plan: Vec<u64> = (0..n).map(|_| choose(Stream::Work, 6)).collect();
        let ctl = ctl.clone();
        let total = total.clone();
        hs.push(std::thread::spawn(move || {
            for (i, op) in plan.iter().enumerate() {
                match op {
                    4 => {
                        // waiting covers everything broadcast before it, by anyone
                        let c = ctl.read().unwrap();
                        let done_before = owed_completed();
                        ev!("wait begins");
                        c.wait_for_all_events();
                        ev!("wait returned");
                        check_drained(done_before, "E01/early-return");
                        count("waits", 1);
                    }
                    5 => {
                        let mut c = ctl.write().unwrap();
                        add_handler(&mut c, i as u64 % 4);
                        count("late_subscriptions", 1);
                    }
                    _ => {
                        let c = ctl.read().unwrap();
                        IN_FLIGHT.with(|x| x.push((p, i as u64)));
                        do_broadcast(&c, p, i as u64);
                        IN_FLIGHT.with(|x| x.retain(|y| *y != (p, i as u64)));
                        *total.lock().unwrap() += 1;
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let c = ctl.read().unwrap();
    c.wait_for_all_events();
    check_drained(owed(), "E01/early-return");
    let t = *total.lock().unwrap();
    if t > 1 && switches() > 4 {
        nontrivial();
    }
    count("events", t);
    set_sample(format!("{producers} producers, {} handlers, {t} events", c.subscribers().len()));
}
static IN_FLIGHT: SimCell<Vec<(u64, u64)>> = SimCell::new(Vec::new());
/// Broadcasts that have returned (those still in progress are not owed to a waiter).
fn owed_completed() -> BTreeMap<usize, Vec<(u64, u64)>> {
    atomically(|| {
        let fl = IN_FLIGHT.with(|x| x.clone());
        let mut r = owed();
        for v in r.values_mut() {
            v.retain(|e| !fl.contains(e));
        }
        r
    })
}
/// Dropping the bus loses nothing that was broadcast.
pub fn event_bus_drop() {
    random_schedule_config();
    set_limits(60_000, Some("E01/wait-never-returns"));
    set_hang_class("E01/wait-never-returns");
    let mut ctl = Ctl::new();
    for _ in 0..1 + choose(Stream::Work, 3) {
        add_handler(&mut ctl, choose(Stream::Work, 4));
    }
    let n = 1 + small(Stream::Work, 10);
    for i in 0..n {
        do_broadcast(&ctl, 0, i);
    }
    let h = ctl.subscribers().len();
    ev!("drop");
    drop(ctl);
    check_drained(owed(), "E01/lost-on-drop");
    if n > 1 {
        nontrivial();
    }
    set_sample(format!("{h} handlers, {n} events, then drop"));
}
