use detsim::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use utils_networking::broadcaster::{Broadcaster, Receiver};

#[derive(Default)]
struct Model {
    values: Vec<u64>,
    /// subscriber -> index into values at subscription
    from: BTreeMap<u64, usize>,
    got: BTreeMap<u64, usize>,
    live: std::collections::BTreeSet<u64>,
    closed: bool,
    next: u64,
}
static M: SimCell<Option<Model>> = SimCell::new(None);
fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    M.with(|x| f(x.get_or_insert_with(Default::default)))
}
type B = Arc<Mutex<Option<Broadcaster<u64>>>>;
fn subscribe(b: &mut Broadcaster<u64>) -> (u64, Receiver<u64>) {
    // subscription happens under the broadcaster's lock, so values.len() is exact
    let r = b.subscribe();
    let id = m(|m| {
        let id = m.next;
        m.next += 1;
        m.from.insert(id, m.values.len());
        m.got.insert(id, 0);
        m.live.insert(id);
        id
    });
    ev!("subscribe {id}");
    check_count(b);
    (id, r)
}
fn check_count(b: &Broadcaster<u64>) {
    let live = m(|m| m.live.len());
    let n = b.num_subscribers();
    check!(n >= live, "E02/undercount", "{n} subscribers reported, {live} are live");
}
fn received(id: u64, v: Option<u64>) {
    ev!("sub {id} got {v:?}");
    m(|m| {
        let pos = m.from[&id] + m.got[&id];
        match v {
            Some(v) => {
                check!(m.values.get(pos) == Some(&v), "E02/sequence", "subscriber {id} (from {}) received {v} as its item {}, expected {:?}", m.from[&id], m.got[&id], m.values.get(pos));
                *m.got.get_mut(&id).unwrap() += 1;
            }
            None => {
                check!(m.closed, "E02/early-end", "subscriber {id}: the stream ended while the broadcaster was alive");
                check!(pos == m.values.len(), "E02/lost", "subscriber {id}: the stream ended after {} of {} values", m.got[&id], m.values.len() - m.from[&id]);
            }
        }
    })
}
fn drop_sub(id: u64, r: Receiver<u64>) {
    m(|m| m.live.remove(&id));
    ev!("drop sub {id}");
    drop(r);
}
fn broadcast(b: &B, v: u64) {
    let mut g = b.lock().unwrap();
    let Some(bc) = g.as_mut() else { return };
    m(|m| m.values.push(v));
    ev!("broadcast {v}");
    bc.broadcast(&v);
    check_count(bc);
}
fn close(b: &B) {
    let x = b.lock().unwrap().take();
    if x.is_some() {
        m(|m| m.closed = true);
        ev!("close");
    }
    drop(x);
}
fn producer(b: B, id: u64, plan: Vec<u64>, tx: std::sync::mpsc::Sender<(u64, Receiver<u64>)>) {
    let mut v = id * 1_000_000;
    for op in plan {
        match op {
            0 | 1 | 2 => {
                v += 1;
                broadcast(&b, v);
            }
            3 => {
                let mut g = b.lock().unwrap();
                if let Some(bc) = g.as_mut() {
                    let s = subscribe(bc);
                    let _ = tx.send(s);
                }
            }
            4 => {
                // churn: many subscribers come and go, crossing the purge threshold
                let mut g = b.lock().unwrap();
                if let Some(bc) = g.as_mut() {
                    count("churns", 1);
                    for i in 0..70 {
                        let (id, r) = subscribe(bc);
                        if i % 3 != 2 {
                            drop_sub(id, r);
                        } else {
                            KEEP.with(|k| k.push((id, r)));
                        }
                    }
                }
            }
            5 => {
                let mut g = b.lock().unwrap();
                if let Some(bc) = g.as_mut() {
                    bc.purge();
                    check_count(bc);
                }
            }
            6 => {
                if let Some((id, r)) = KEEP.with(|k| k.pop()) {
                    drop_sub(id, r);
                }
            }
            _ => std::thread::sleep(Duration::from_micros(50)),
        }
    }
}
static KEEP: SimCell<Vec<(u64, Receiver<u64>)>> = SimCell::new(Vec::new());

fn plans(max: u64) -> Vec<u64> {
    (0..1 + small(Stream::Work, max)).map(|_| choose(Stream::Work, 8)).collect()
}
fn drain_kept() {
    let kept: Vec<(u64, Receiver<u64>)> = KEEP.with(|k| std::mem::take(k));
    for (id, mut r) in kept {
        loop {
            let v = r.blocking_recv();
            received(id, v);
            if v.is_none() {
                break;
            }
        }
        drop_sub(id, r);
    }
}
fn finish_stats() {
    let (v, s) = m(|m| (m.values.len() as u64, m.next));
    count("values", v);
    count("subscribers", s);
    if v > 0 && s > 0 && switches() > 3 {
        nontrivial();
    }
    set_sample(format!("{v} values, {s} subscribers"));
}
/// Subscribers on their own threads, using blocking receive.
pub fn threads() {
    random_schedule_config();
    set_limits(80_000, Some("E02/stuck"));
    set_hang_class("E02/stuck");
    let b: B = Arc::new(Mutex::new(Some(Broadcaster::new())));
    let (tx, rx) = std::sync::mpsc::channel::<(u64, Receiver<u64>)>();
    let mut hs = vec![];
    for _ in 0..choose(Stream::Work, 3) {
        let s = subscribe(b.lock().unwrap().as_mut().unwrap());
        tx.send(s).unwrap();
    }
    for p in 0..1 + choose(Stream::Work, 2) {
        let plan = plans(14);
        let (b, tx) = (b.clone(), tx.clone());
        hs.push(std::thread::spawn(move || producer(b, p, plan, tx)));
    }
    drop(tx);
    let mut subs = vec![];
    while let Ok((id, mut r)) = rx.recv() {
        let stop_after = if chance(Stream::Work, 1, 3) { Some(small(Stream::Work, 6)) } else { None };
        let slow = choose(Stream::Work, 3);
        subs.push(std::thread::spawn(move || {
            let mut n = 0;
            loop {
                if stop_after == Some(n) {
                    drop_sub(id, r);
                    count("early_drops", 1);
                    return;
                }
                let v = r.blocking_recv();
                received(id, v);
                if v.is_none() {
                    drop_sub(id, r);
                    return;
                }
                n += 1;
                if slow == 1 {
                    std::thread::sleep(Duration::from_micros(120));
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    close(&b);
    for s in subs {
        s.join().unwrap();
    }
    drain_kept();
    finish_stats();
}
/// Subscribers as tasks with cancelled receives, producers on threads.
pub fn tasks() {
    random_schedule_config();
    set_limits(80_000, Some("E02/stuck"));
    set_hang_class("E02/stuck");
    let b: B = Arc::new(Mutex::new(Some(Broadcaster::new())));
    let (tx, rx) = std::sync::mpsc::channel::<(u64, Receiver<u64>)>();
    let n0 = 1 + choose(Stream::Work, 3);
    let first: Vec<_> = (0..n0).map(|_| subscribe(b.lock().unwrap().as_mut().unwrap())).collect();
    let modes: Vec<(u64, u64, u64)> = (0..n0).map(|_| (choose(Stream::Work, 4), small(Stream::Work, 200), small(Stream::Work, 8))).collect();
    let mut hs = vec![];
    for p in 0..1 + choose(Stream::Work, 2) {
        let plan = plans(14);
        let (b, tx) = (b.clone(), tx.clone());
        hs.push(std::thread::spawn(move || producer(b, p, plan, tx)));
    }
    drop(tx);
    let b2 = b.clone();
    let closer = std::thread::spawn(move || {
        for h in hs {
            h.join().unwrap();
        }
        close(&b2);
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let mut js = vec![];
        for ((id, mut r), (mode, us, lim)) in first.into_iter().zip(modes) {
            js.push(tokio::spawn(async move {
                let mut n = 0;
                match mode {
                    0 | 1 => loop {
                        // a receive that is cancelled must not lose anything
                        let v = if mode == 0 {
                            r.recv().await
                        } else {
                            match tokio::time::timeout(Duration::from_micros(us), r.recv()).await {
                                Ok(v) => v,
                                Err(_) => {
                                    count("fault.cancelled_receive", 1);
                                    tokio::task::yield_now().await;
                                    continue;
                                }
                            }
                        };
                        received(id, v);
                        if v.is_none() {
                            drop_sub(id, r);
                            return;
                        }
                        n += 1;
                    },
                    2 => {
                        use futures::StreamExt;
                        let mut s = Box::pin(r.into_stream());
                        loop {
                            let v = s.next().await;
                            received(id, v);
                            if v.is_none() {
                                m(|m| m.live.remove(&id));
                                return;
                            }
                        }
                    }
                    _ => loop {
                        if n >= lim {
                            drop_sub(id, r);
                            return;
                        }
                        let v = r.recv().await;
                        received(id, v);
                        if v.is_none() {
                            drop_sub(id, r);
                            return;
                        }
                        n += 1;
                        tokio::task::yield_now().await;
                    },
                }
            }));
        }
        for j in js {
            j.await.unwrap();
        }
    });
    closer.join().unwrap();
    // late subscribers made by producers: drained at the end
    while let Ok((id, mut r)) = rx.try_recv() {
        loop {
            let v = r.blocking_recv();
            received(id, v);
            if v.is_none() {
                break;
            }
        }
        drop_sub(id, r);
    }
    drain_kept();
    finish_stats();
}
