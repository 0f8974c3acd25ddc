//! One user at a time: transaction histories over every backend, with aborts, drops, panics, overlapping
//! readers, reopening, and (SQLite) disk faults or crashes.
use crate::model::*;
use detsim::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use storage_core::backend::{Backend, BackendImpl, TxRw};
use storage_sqlite::{Options, Sqlite};

/// Run one read-write transaction; returns whether it committed. All operations must succeed.
fn rw_tx<I: BackendImpl>(imp: &mut I, st: &mut State, can_panic: bool) {
    let mut view = st.clone();
    let n = 1 + w(10);
    let end = w(if can_panic { 8 } else { 7 });
    ev!("rw transaction, {n} operations, end {end}");
    let mut body = |imp: &mut I| {
        let mut tx = match imp.transaction_rw(None) {
            Ok(t) => t,
            Err(e) => {
                check_failed("S01/begin_failed", format!("cannot begin a transaction: {e}"));
                return;
            }
        };
        if wchance(1, 24) {
            for op in bulk_ops(&view) {
                if let Err(e) = write_op(&mut tx, &op) {
                    check_failed("S01/op_failed", format!("{op:?} failed: {e}"));
                }
                apply(&mut view, &op);
            }
        }
        for _ in 0..n {
            let op = any_op(&view);
            if is_write(&op) {
                if let Err(e) = write_op(&mut tx, &op) {
                    check_failed("S01/op_failed", format!("{op:?} failed: {e}"));
                }
                apply(&mut view, &op);
                count("op.write", 1);
            } else {
                if let Err(e) = read_checked(&tx, &view, &op, "S03/read_in_rw") {
                    check_failed("S03/op_failed", format!("{op:?} failed: {e}"));
                }
                count("op.read", 1);
            }
        }
        match end {
            7 => {
                count("fault.panic_in_tx", 1);
                std::panic::panic_any("injected");
            }
            5 | 6 => {
                drop(tx);
                count("op.abort", 1);
            }
            _ => {
                if let Err(e) = tx.commit() {
                    check_failed("S01/commit_failed", format!("commit failed on a working disk: {e}"));
                } else {
                    *st = view.clone();
                    count("op.commit", 1);
                }
            }
        }
    };
    if can_panic {
        let _ = catch_unwind(AssertUnwindSafe(|| body(imp)));
    } else {
        body(imp);
    }
}
/// Overlapping read-only transactions, opened and closed in any order.
fn ro_txs<I: BackendImpl>(imp: &I, st: &State) {
    let mut open = vec![];
    for _ in 0..2 + w(8) {
        match w(4) {
            0 if open.len() < 3 => match imp.transaction_ro() {
                Ok(t) => open.push(t),
                Err(e) => check_failed("S02/begin_failed", format!("cannot begin a read-only transaction: {e}")),
            },
            1 if !open.is_empty() => {
                let i = w(open.len() as u64) as usize;
                drop(open.remove(i));
            }
            _ if !open.is_empty() => {
                let i = w(open.len() as u64) as usize;
                let op = read_op(st);
                if let Err(e) = read_checked(&open[i], st, &op, "S03/read_in_ro") {
                    check_failed("S03/op_failed", format!("{op:?} failed: {e}"));
                }
                count("op.read", 1);
            }
            _ => {}
        }
    }
}
/// Sometimes start with enough data that maps span many pages.
fn preload<I: BackendImpl>(imp: &mut I, st: &mut State) -> Result<(), storage_core::Error> {
    let mut tx = imp.transaction_rw(None)?;
    for i in 0..20 + w(60) {
        let mut k = vec![b'a'; 1 + (i % 3) as usize];
        k.push(i as u8);
        let op = Op::Put(w(st.len() as u64) as usize, k, vec![i as u8; 100 + w(500) as usize]);
        write_op(&mut tx, &op)?;
        apply(st, &op);
    }
    tx.commit()
}
fn full_check<I: BackendImpl>(imp: &I, st: &State, class: &str) {
    let tx = match imp.transaction_ro() {
        Ok(t) => t,
        Err(e) => return check_failed(class, format!("cannot begin a transaction: {e}")),
    };
    match dump(&tx, st.len()) {
        Ok(d) => check!(d == *st, class, "contents differ from the committed transactions: {}", diff(&d, st)),
        Err(e) => check_failed(class, format!("reading everything failed: {e}")),
    }
}
pub fn inmem() {
    let maps = 1 + w(4) as usize;
    let mut imp = storage_inmemory::InMemory::new().open(desc(maps)).unwrap();
    let mut st: State = vec![Map::new(); maps];
    for _ in 0..1 + w(12) {
        match w(4) {
            0 => ro_txs(&imp, &st),
            _ => rw_tx(&mut imp, &mut st, false),
        }
        if wchance(1, 2) {
            full_check(&imp, &st, "S01/contents");
        }
    }
    full_check(&imp, &st, "S01/contents");
    nontrivial();
}
fn backend() -> (Sqlite, bool) {
    match w(4) {
        0 => (Sqlite::new_in_memory(), true),
        1 => (Sqlite::new_named_in_memory("sim"), true),
        2 => (Sqlite::new("/sim.db").with_options(Options { disable_fsync: true }), false),
        _ => (Sqlite::new("/sim.db"), false),
    }
}
pub fn sqlite() {
    allow_panics();
    let maps = 1 + w(4) as usize;
    let (be, mem) = backend();
    let mut imp = Some(match be.clone().open(desc(maps)) {
        Ok(i) => i,
        Err(e) => violation("S01/open_failed", format!("{e}")),
    });
    let mut st: State = vec![Map::new(); maps];
    if wchance(1, 6) {
        if let Err(e) = preload(imp.as_mut().unwrap(), &mut st) {
            check_failed("S01/commit_failed", format!("{e}"));
        }
    }
    for _ in 0..1 + w(10) {
        match w(8) {
            0 | 1 => ro_txs(imp.as_ref().unwrap(), &st),
            2 if !mem => {
                drop(imp.take());
                count("op.reopen", 1);
                ev!("reopen");
                imp = Some(match be.clone().open(desc(maps)) {
                    Ok(i) => i,
                    Err(e) => violation("S03/reopen_failed", format!("{e}")),
                });
                full_check(imp.as_ref().unwrap(), &st, "S03/contents_after_reopen");
            }
            _ => rw_tx(imp.as_mut().unwrap(), &mut st, true),
        }
        if wchance(1, 2) {
            full_check(imp.as_ref().unwrap(), &st, "S01/contents");
        }
    }
    full_check(imp.as_ref().unwrap(), &st, "S01/contents");
    for (l, m) in panics() {
        if m != "injected" && !m.contains("Box<dyn Any>") && l.starts_with("/repo/") {
            violation("panic", format!("{l}: {m}"));
        }
    }
    nontrivial();
}

#[derive(Default)]
struct Durable {
    /// what the last successful commit left
    committed: State,
    /// what a commit in progress would leave
    inflight: Option<State>,
    open_done: bool,
    txs: u64,
    /// crash this many disk operations after the storage was opened
    late_crash: Option<u64>,
}
static D: SimCell<Option<Durable>> = SimCell::new(None);
fn d<R>(f: impl FnOnce(&mut Durable) -> R) -> R {
    D.with(|d| f(d.get_or_insert_with(Default::default)))
}

/// One life of a process using the storage, up to `txs` transactions. Runs in its own thread.
fn life(maps: usize, txs: u64) {
    let mut imp = match Sqlite::new("/sim.db").open(desc(maps)) {
        Ok(i) => i,
        Err(e) => return check_failed("S04/open_failed", format!("opening after a crash failed: {e}")),
    };
    let found = {
        let tx = match imp.transaction_ro() {
            Ok(t) => t,
            Err(e) => return check_failed("S04/open_failed", format!("no transaction after a crash: {e}")),
        };
        match dump(&tx, maps) {
            Ok(s) => s,
            Err(e) => return check_failed("S04/unreadable", format!("reading everything after a crash failed: {e}")),
        }
    };
    let (com, inf) = d(|d| (d.committed.clone(), d.inflight.clone()));
    if found != com {
        match &inf {
            Some(i) if found == *i => {
                count("crash.commit_survived", 1);
            }
            Some(i) => {
                check_failed("S04/lost_or_mixed", format!("after the crash the storage is neither the committed state ({}) nor that of the commit in progress ({})", diff(&found, &com), diff(&found, i)));
            }
            None => check_failed("S04/lost_or_mixed", format!("after the crash the storage differs from the committed state: {}", diff(&found, &com))),
        }
    } else if inf.is_some() {
        count("crash.commit_lost", 1);
    }
    d(|d| {
        d.committed = found.clone();
        d.inflight = None;
        d.open_done = true;
    });
    if let Some(n) = d(|d| d.late_crash.take()) {
        simvfs::disk(|d| d.set_crash(n));
    }
    let mut st = found;
    if st.iter().all(|m| m.is_empty()) && wchance(1, 3) {
        let mut v = st.clone();
        // the resulting state is not known before the commit begins, so build it first
        let mut ops = vec![];
        for i in 0..10 + w(40) {
            let op = Op::Put(w(maps as u64) as usize, vec![b'a', i as u8], vec![i as u8; 100 + w(500) as usize]);
            apply(&mut v, &op);
            ops.push(op);
        }
        let r = (|| {
            let mut tx = imp.transaction_rw(None)?;
            for op in &ops {
                write_op(&mut tx, op)?;
            }
            d(|d| d.inflight = Some(v.clone()));
            tx.commit()
        })();
        if let Err(e) = r {
            return check_failed("S04/commit_failed", format!("{e}"));
        }
        d(|d| {
            d.committed = v.clone();
            d.inflight = None;
        });
        st = v;
    }
    for _ in 0..txs {
        if wchance(1, 6) {
            ro_txs(&imp, &st);
            continue;
        }
        let mut view = st.clone();
        let Ok(mut tx) = imp.transaction_rw(None) else { return check_failed("S04/begin_failed", "cannot begin".into()) };
        for _ in 0..1 + w(12) {
            let op = any_op(&view);
            if is_write(&op) {
                if let Err(e) = write_op(&mut tx, &op) {
                    return check_failed("S04/op_failed", format!("{op:?}: {e}"));
                }
                apply(&mut view, &op);
            } else if let Err(e) = read_checked(&tx, &view, &op, "S03/read_in_rw") {
                return check_failed("S04/op_failed", format!("{op:?}: {e}"));
            }
        }
        if wchance(1, 6) {
            drop(tx);
            ev!("aborted");
            continue;
        }
        d(|d| d.inflight = Some(view.clone()));
        ev!("commit begins");
        if let Err(e) = tx.commit() {
            return check_failed("S04/commit_failed", format!("{e}"));
        }
        ev!("commit returned");
        count("op.commit", 1);
        d(|d| {
            d.committed = view.clone();
            d.inflight = None;
            d.txs += 1;
        });
        st = view;
    }
    drop(imp);
}
pub fn crash() {
    let maps = 1 + w(3) as usize;
    d(|d| d.committed = vec![Map::new(); maps]);
    let lives = 2 + w(4);
    for i in 0..lives {
        let last = i + 1 == lives;
        let txs = if last { 2 } else { 1 + w(8) };
        if !last {
            // from the first disk operation of opening on
            let at = match choose(Stream::Fault, 4) {
                0 => 1 + choose(Stream::Fault, 20),
                1 => 1 + choose(Stream::Fault, 40),
                _ => 1 + choose(Stream::Fault, 150),
            };
            let late = chance(Stream::Fault, 1, 2);
            simvfs::disk(|d| d.arm_crash(if late { u64::MAX / 2 } else { at }));
            d(|d| d.late_crash = late.then_some(at));
        }
        d(|d| d.open_done = false);
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let me = std::thread::current();
        let h = std::thread::spawn(move || {
            life(maps, txs);
            d2.store(true, Ordering::SeqCst);
            me.unpark();
        });
        let crashed = simvfs::wait(&done);
        if !crashed {
            h.join().unwrap();
        }
        // a crash may also come after everything was closed; then everything unsynced is at stake
        let kind = if chance(Stream::Fault, 1, 4) { simvfs::CrashKind::Process } else { simvfs::CrashKind::Power };
        if crashed || chance(Stream::Fault, 1, 3) {
            count(&format!("crash.kind_{kind:?}"), 1);
            if crashed && !d(|d| d.open_done) {
                count("crash.during_open", 1);
            }
            simvfs::disk(|d| d.restart(kind));
            nontrivial();
        } else {
            simvfs::disk(|d| d.disarm());
        }
    }
}

fn draw_faults() -> simvfs::Faults {
    let mut f = simvfs::Faults::default();
    let p = |n: u64| -> (u64, u64) { [(1, 3), (1, 10), (1, 40), (1, 150)][choose(Stream::Fault, n) as usize] };
    match choose(Stream::Fault, 9) {
        0 => f.read = p(4),
        1 => f.write = p(4),
        2 => f.sync = p(3),
        3 => f.meta = p(3),
        4 => f.full = true,
        5 => f.dead = true,
        6 => f.nomem = [(1, 30), (1, 100), (1, 1000), (1, 5000)][choose(Stream::Fault, 4) as usize],
        7 => {
            f.read = p(4);
            f.write = p(4);
            f.sync = p(4);
        }
        _ => {
            f.read = (1, 40);
            f.meta = (1, 40);
            f.write = (1, 40);
            f.sync = (1, 10);
            f.full = chance(Stream::Fault, 1, 3);
        }
    }
    f
}
/// The committed state as far as it is known: one possibility, or two after a failed commit.
struct Known(Vec<State>);
impl Known {
    /// Compare a full dump; narrows the possibilities.
    fn observe(&mut self, s: &State, class: &str) {
        let Some(i) = self.0.iter().position(|x| x == s) else {
            check_failed(class, format!("the storage holds neither the state before nor after the failed commit: {}", self.0.iter().map(|x| diff(s, x)).collect::<Vec<_>>().join(" | ")));
            self.0 = vec![s.clone()];
            return;
        };
        let x = self.0.swap_remove(i);
        self.0 = vec![x];
    }
}
pub fn faults() {
    let maps = 1 + w(3) as usize;
    let be = Sqlite::new("/sim.db");
    let mut known = Known(vec![vec![Map::new(); maps]]);
    let mut imp: Option<storage_sqlite::SqliteImpl> = None;
    let phases = 2 + w(5);
    let mut was_hit = false;
    if wchance(1, 2) {
        let mut h = be.clone().open(desc(maps)).unwrap_or_else(|e| violation("S05/error_without_fault", format!("{e}")));
        if let Err(e) = preload(&mut h, &mut known.0[0]) {
            violation("S05/error_without_fault", format!("{e}"));
        }
    }
    for ph in 0..=phases {
        let last = ph == phases;
        let faulty = !last && chance(Stream::Fault, 2, 3);
        simvfs::disk(|d| {
            d.faults = if faulty { draw_faults() } else { Default::default() };
            if faulty {
                ev!("disk faults on: {:?}", d.faults);
            } else {
                ev!("disk faults off");
            }
        });
        // errors are legitimate while faults occur, and, on the same handle, after them
        let before = simvfs::disk(|d| d.injected);
        let hit = move || simvfs::disk(|d| d.injected) > before;
        if imp.is_some() && (last || wchance(1, 3)) {
            imp = None;
            ev!("closed");
        }
        let fresh = imp.is_none();
        if imp.is_none() {
            match be.clone().open(desc(maps)) {
                Ok(i) => imp = Some(i),
                Err(e) => {
                    ev!("open: {e}");
                    count("error.open", 1);
                    check!(hit(), "S05/error_without_fault", "opening failed although the disk works: {e}");
                    continue;
                }
            }
        }
        // a handle that lived through faults may go on failing until it is reopened
        let tainted = !fresh && was_hit;
        for _ in 0..1 + w(4) {
            let h = imp.as_mut().unwrap();
            let err = |what: &str, e: storage_core::Error| {
                ev!("{what}: {e}");
                count(&format!("error.{what}"), 1);
                check!(hit() || tainted, "S05/error_without_fault", "{what} failed although the disk works: {e}");
            };
            if wchance(1, 3) {
                // overlapping read-only transactions
                let mut txs = vec![];
                for _ in 0..1 + w(3) {
                    match h.transaction_ro() {
                        Ok(t) => txs.push(t),
                        Err(e) => err("begin_ro", e),
                    }
                }
                for _ in 0..2 + w(4) {
                    if txs.is_empty() {
                        break;
                    }
                    let i = w(txs.len() as u64) as usize;
                    if known.0.len() == 1 && wchance(2, 3) {
                        let op = read_op(&known.0[0]);
                        if let Err(e) = read_checked(&txs[i], &known.0[0], &op, "S05/wrong_data") {
                            err("read", e);
                        }
                    } else {
                        match dump(&txs[i], maps) {
                            Ok(s) => known.observe(&s, "S05/half_committed"),
                            Err(e) => err("read", e),
                        }
                    }
                    if wchance(1, 5) {
                        let i = w(txs.len() as u64) as usize;
                        txs.remove(i);
                    }
                }
            } else {
                let mut tx = match h.transaction_rw(None) {
                    Ok(t) => t,
                    Err(e) => {
                        err("begin_rw", e);
                        continue;
                    }
                };
                if known.0.len() > 1 {
                    match dump(&tx, maps) {
                        Ok(s) => known.observe(&s, "S05/half_committed"),
                        Err(e) => {
                            err("read", e);
                            continue;
                        }
                    }
                }
                let mut view = known.0[0].clone();
                let stubborn = wchance(1, 2);
                let mut failed = false;
                for _ in 0..1 + w(10) {
                    let op = any_op(&view);
                    let r = if is_write(&op) {
                        write_op(&mut tx, &op).map(|_| apply(&mut view, &op))
                    } else {
                        read_checked(&tx, &view, &op, "S05/wrong_data")
                    };
                    if let Err(e) = r {
                        err(if is_write(&op) { "write" } else { "read" }, e);
                        failed = true;
                        if !stubborn {
                            break;
                        }
                    }
                }
                if failed && !stubborn || wchance(1, 8) {
                    drop(tx);
                    ev!("aborted");
                } else {
                    match tx.commit() {
                        Ok(()) => {
                            ev!("committed");
                            count("op.commit", 1);
                            known.0 = vec![view];
                        }
                        Err(e) => {
                            err("commit", e);
                            if !known.0.contains(&view) {
                                known.0.push(view);
                            }
                        }
                    }
                }
            }
            if hit() {
                nontrivial();
            }
        }
        was_hit = (was_hit && !fresh) || hit();
        // the disk works again: whatever happened, a fresh handle must work and hold everything committed
        if last || wchance(1, 4) {
            simvfs::disk(|d| d.calm());
            if wchance(1, 2) || last {
                imp = None;
            }
            if last && chance(Stream::Fault, 1, 2) {
                let k = if chance(Stream::Fault, 1, 2) { simvfs::CrashKind::Process } else { simvfs::CrashKind::Power };
                simvfs::disk(|d| d.restart(k));
            }
            if imp.is_none() {
                match be.clone().open(desc(maps)) {
                    Ok(i) => imp = Some(i),
                    Err(e) => return check_failed("S05/not_usable_again", format!("opening after the faults stopped failed: {e}")),
                }
                let h = imp.as_mut().unwrap();
                let s = match h.transaction_ro().and_then(|t| dump(&t, maps)) {
                    Ok(s) => s,
                    Err(e) => return check_failed("S05/not_usable_again", format!("reading after the faults stopped failed: {e}")),
                };
                known.observe(&s, "S05/lost_data");
                let mut st = known.0[0].clone();
                let r = (|| {
                    let mut tx = h.transaction_rw(None)?;
                    for _ in 0..3 {
                        let op = Op::Put(w(maps as u64) as usize, key(), value());
                        write_op(&mut tx, &op)?;
                        apply(&mut st, &op);
                    }
                    tx.commit()
                })();
                if let Err(e) = r {
                    return check_failed("S05/not_usable_again", format!("a transaction after the faults stopped failed: {e}"));
                }
                known.0 = vec![st];
                full_check(h, &known.0[0], "S05/lost_data");
            }
        }
    }
}
