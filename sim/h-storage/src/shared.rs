//! Concurrent readers and writers.
//! Every read-write transaction reads a version cell, puts its own id there and registers (id, predecessor,
//! resulting state) when its commit begins, so the commit order is in the data and needs no knowledge of how
//! the storage orders transactions.
use crate::model::*;
use detsim::*;
use std::collections::BTreeMap;
use storage_core::DbMapId;
use storage_core::backend::{Backend, BackendImpl, ReadOps, SharedBackendImpl, TxRw};
use utils::shallow_clone::ShallowClone;

const VER: &[u8] = b"\xfe\xfeversion";
#[derive(Default)]
struct Hist {
    states: BTreeMap<u64, (u64, State)>,
    child: BTreeMap<u64, u64>,
    /// ids in registration order
    registered: Vec<u64>,
    /// deepest version whose commit has returned
    floor: u64,
    next: u64,
    active_rw: u64,
    active_ro: u64,
    overlap: u64,
}
static H: SimCell<Option<Hist>> = SimCell::new(None);
fn h<R>(f: impl FnOnce(&mut Hist) -> R) -> R {
    H.with(|x| f(x.get_or_insert_with(Default::default)))
}
fn version(tx: &impl ReadOps) -> u64 {
    let v = tx.get(DbMapId::new(0), VER).unwrap_or_else(|e| violation("S02/op_failed", format!("{e}")));
    v.map_or(0, |v| u64::from_le_bytes(v.as_ref().try_into().unwrap_or([0xee; 8])))
}
struct Begin {
    floor: u64,
}
fn seen(ver: u64, b: &Begin, registered: usize, who: &str) -> State {
    h(|h| {
        let Some((depth, st)) = h.states.get(&ver) else {
            violation("S02/saw_uncommitted", format!("{who} sees version {ver}, which was never committed"));
        };
        let idx = h.registered.iter().position(|x| *x == ver).unwrap();
        check!(idx < registered, "S02/saw_later_commit", "{who} sees version {ver} although its commit began after the transaction had begun");
        check!(*depth >= b.floor, "S02/stale", "{who} sees version {ver} (number {depth}) although number {} was committed before it began", b.floor);
        st.clone()
    })
}
fn reader<I: BackendImpl>(imp: &I, steps: u64, id: u64) {
    let b = h(|h| Begin { floor: h.floor });
    let tx = match imp.transaction_ro() {
        Ok(t) => t,
        Err(e) => return check_failed("S02/begin_failed", format!("{e}")),
    };
    let reg = h(|h| {
        h.active_ro += 1;
        if h.active_rw + h.active_ro > 1 {
            h.overlap += 1;
        }
        h.registered.len()
    });
    let ver = version(&tx);
    let st = seen(ver, &b, reg, &format!("read-only transaction {id}"));
    ev!("ro {id} at version {ver}");
    for _ in 0..steps {
        if wchance(1, 3) {
            std::thread::yield_now();
        }
        let op = read_op(&st);
        if let Err(e) = read_checked(&tx, &st, &op, "S02/snapshot_changed") {
            check_failed("S02/op_failed", format!("{e}"));
        }
        count("op.read", 1);
    }
    let v2 = version(&tx);
    check!(v2 == ver, "S02/snapshot_changed", "read-only transaction {id} began at version {ver} and ended at version {v2}");
    h(|h| h.active_ro -= 1);
    drop(tx);
}
fn writer<'a, I: SharedBackendImpl>(imp: &'a I, steps: u64) {
    write_tx::<I>(|| imp.transaction_rw(None), steps)
}
fn write_tx<'a, I: BackendImpl>(begin: impl FnOnce() -> Result<I::TxRw<'a>, storage_core::Error>, steps: u64) {
    let b = h(|h| Begin { floor: h.floor });
    let mut tx = match begin() {
        Ok(t) => t,
        Err(e) => return check_failed("S02/begin_failed", format!("{e}")),
    };
    let (reg, id) = h(|h| {
        h.active_rw += 1;
        h.next += 1;
        (h.registered.len(), h.next)
    });
    let ver = version(&tx);
    let base = seen(ver, &b, reg, &format!("read-write transaction {id}"));
    ev!("rw {id} at version {ver}");
    let mut view = base;
    let v = id.to_le_bytes().to_vec();
    let op = Op::Put(0, VER.to_vec(), v);
    if let Err(e) = write_op(&mut tx, &op) {
        check_failed("S02/op_failed", format!("{e}"));
    }
    apply(&mut view, &op);
    if wchance(1, 8) {
        for op in bulk_ops(&view) {
            if let Err(e) = write_op(&mut tx, &op) {
                check_failed("S02/op_failed", format!("{e}"));
            }
            apply(&mut view, &op);
        }
    }
    for _ in 0..steps {
        if wchance(1, 3) {
            std::thread::yield_now();
        }
        let op = any_op(&view);
        if matches!(&op, Op::Put(0, k, _) | Op::Del(0, k) if k == VER) {
            continue;
        }
        if is_write(&op) {
            if let Err(e) = write_op(&mut tx, &op) {
                check_failed("S02/op_failed", format!("{e}"));
            }
            apply(&mut view, &op);
        } else if let Err(e) = read_checked(&tx, &view, &op, "S02/rw_not_isolated") {
            check_failed("S02/op_failed", format!("{e}"));
        }
    }
    if wchance(1, 4) {
        h(|h| h.active_rw -= 1);
        drop(tx);
        count("op.abort", 1);
        return;
    }
    h(|h| {
        if let Some(c) = h.child.insert(ver, id) {
            check_failed("S02/lost_update", format!("transactions {c} and {id} both committed on top of version {ver}"));
        }
        let depth = h.states[&ver].0 + 1;
        h.states.insert(id, (depth, view));
        h.registered.push(id);
        h.active_rw -= 1;
    });
    if let Err(e) = tx.commit() {
        check_failed("S02/commit_failed", format!("{e}"));
        return;
    }
    h(|h| {
        let d = h.states[&id].0;
        h.floor = h.floor.max(d);
    });
    count("op.commit", 1);
    ev!("rw {id} committed");
}
fn start(maps: usize) {
    set_hang_class("S02/deadlock");
    h(|h| {
        h.states.insert(0, (0, vec![Map::new(); maps]));
        h.registered.push(0);
    });
    random_schedule_config();
}
fn finish<I: BackendImpl>(imp: &I, maps: usize) {
    let tx = imp.transaction_ro().unwrap_or_else(|e| violation("S02/begin_failed", format!("{e}")));
    let ver = version(&tx);
    let b = h(|h| Begin { floor: h.floor });
    let st = seen(ver, &b, usize::MAX, "the final transaction");
    let got = dump(&tx, maps).unwrap_or_else(|e| violation("S02/op_failed", format!("{e}")));
    check!(got == st, "S02/final_state", "final contents differ from the committed transactions: {}", diff(&got, &st));
    if h(|h| h.overlap) > 0 {
        nontrivial();
    }
    count("overlapping_transactions", h(|h| h.overlap));
}
pub fn inmem() {
    let maps = 1 + w(3) as usize;
    let imp = storage_inmemory::InMemory::new().open(desc(maps)).unwrap();
    start(maps);
    let n = 2 + w(4);
    let txs: Vec<Vec<(bool, u64)>> = (0..n).map(|_| (0..1 + w(4)).map(|_| (wchance(1, 2), 1 + w(6))).collect()).collect();
    let hs: Vec<_> = txs
        .into_iter()
        .enumerate()
        .map(|(t, txs)| {
            let imp = imp.shallow_clone();
            std::thread::spawn(move || {
                for (k, (write, steps)) in txs.into_iter().enumerate() {
                    if write { writer(&imp, steps) } else { reader(&imp, steps, (t * 100 + k) as u64) }
                }
            })
        })
        .collect();
    for x in hs {
        x.join().unwrap_or_else(|e| violation("S02/panic", panic_text(&*e)));
    }
    finish(&imp, maps);
}
/// The typed layer's shared write access over the in-memory backend.
pub fn sqlite() {
    let maps = 1 + w(3) as usize;
    let mut imp = storage_sqlite::Sqlite::new("/sim.db").open(desc(maps)).unwrap_or_else(|e| violation("S02/begin_failed", format!("{e}")));
    start(maps);
    for _ in 0..1 + w(3) {
        for _ in 0..w(3) {
            let m = &mut imp;
            write_tx::<storage_sqlite::SqliteImpl>(move || m.transaction_rw(None), w(6));
        }
        let i = &imp;
        std::thread::scope(|s| {
            for t in 0..1 + w(3) {
                s.spawn(move || {
                    for k in 0..1 + w(3) {
                        reader(i, 1 + w(4), t * 100 + k);
                    }
                });
            }
            // a transaction that is handed to another thread
            if wchance(1, 3) {
                let tx = i.transaction_ro().unwrap_or_else(|e| violation("S02/begin_failed", format!("{e}")));
                s.spawn(move || {
                    let v = version(&tx);
                    std::thread::yield_now();
                    check!(v == version(&tx), "S02/snapshot_changed", "version changed within a transaction");
                });
            }
        });
    }
    finish(&imp, maps);
}
