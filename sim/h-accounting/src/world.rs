//! A stack of in-memory layers over a database, as the node uses them: operations run in the top layer, layers are
//! merged into the one below and finally flushed into the database, or are dropped (a rejected block, a restart);
//! any operation that is still part of the history may later be undone, wherever its effects have got to.
//! The database's reads and writes can fail.
use crate::util::*;
use detsim::*;
use std::cell::Cell;
use std::fmt::Debug;

#[derive(Debug)]
pub struct StoreErr;
impl std::fmt::Display for StoreErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("injected storage failure")
    }
}
impl std::error::Error for StoreErr {}

/// The countdown to the next injected failure of the database (0 = none), and how many have been injected.
#[derive(Default)]
pub struct Faults {
    left: Cell<u64>,
    pub hit: Cell<u64>,
    pub writes_only: Cell<bool>,
}
impl Faults {
    pub fn tick(&self, write: bool) -> Result<(), StoreErr> {
        if self.left.get() == 0 || (self.writes_only.get() && !write) {
            return Ok(());
        }
        self.left.set(self.left.get() - 1);
        if self.left.get() == 0 {
            self.hit.set(self.hit.get() + 1);
            count(if write { "fault.storage_write_error" } else { "fault.storage_read_error" }, 1);
            return Err(StoreErr);
        }
        Ok(())
    }
    pub fn arm(&self, n: u64, writes_only: bool) {
        self.left.set(n);
        self.writes_only.set(writes_only);
        self.hit.set(0);
    }
    pub fn disarm(&self) -> bool {
        self.left.set(0);
        self.hit.replace(0) > 0
    }
}

/// The rules that are enforced only when layers are combined: arithmetic ones.
pub const TOO_BIG: &str = "the total would exceed the largest amount";
pub const TOO_MUCH: &str = "more is spent than the delegation holds";
const LATE: &[&str] = &[TOO_BIG, TOO_MUCH];

pub trait Kind {
    type Delta: Clone + PartialEq + Debug;
    type Undo: Clone + Debug;
    type Store: Clone;
    type Model: Clone + PartialEq + Debug;
    type Op: Clone + Debug;
    const NAME: &'static str;
    fn store() -> Self::Store;
    fn model() -> Self::Model;
    fn empty() -> Self::Delta;
    fn gen_op(m: &Self::Model) -> Self::Op;
    /// What the operation has to do; an error says why it has to be refused.
    fn model_apply(m: &mut Self::Model, op: &Self::Op) -> Result<(), &'static str>;
    /// Rules on balances that every reachable state has to obey.
    fn rules(m: &Self::Model) -> Result<(), String>;
    /// Runs the operation on the top layer. The layer is left modified even if it fails.
    fn apply(base: &Self::Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, op: &Self::Op) -> Result<Self::Undo, String>;
    fn undo(base: &Self::Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, u: Self::Undo) -> Result<(), String>;
    /// Reads everything there is through the top of these layers.
    fn view(base: &Self::Store, f: &Faults, layers: &[Self::Delta]) -> Result<Self::Model, String>;
    /// Merges the delta into the one below; some kinds can undo this and then return how.
    fn merge(below: &mut Self::Delta, top: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Self::Delta) -> Result<(), String>>>, String>;
    #[allow(clippy::type_complexity)]
    fn flush(base: &mut Self::Store, f: &Faults, d: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Self::Store, &Faults) -> Result<(), String>>>, String>;
}

struct Layer<K: Kind> {
    delta: K::Delta,
    model: K::Model,
    history: Vec<(K::Op, K::Undo, K::Model)>,
}
impl<K: Kind> Clone for Layer<K> {
    fn clone(&self) -> Self {
        Layer { delta: self.delta.clone(), model: self.model.clone(), history: self.history.clone() }
    }
}

fn same<K: Kind>(what: &str, base: &K::Store, f: &Faults, layers: &[K::Delta], want: &K::Model) {
    match K::view(base, f, layers) {
        Ok(got) if got == *want => {}
        Ok(got) => violation("accounting-state", format!("{}: {what}: the state differs from the model:\n  got  {got:?}\n  want {want:?}", K::NAME)),
        Err(e) => violation("accounting-state", format!("{}: {what}: the state cannot be read: {e}; want {want:?}", K::NAME)),
    }
}

/// `focus`: judge the state (A01), or which operations are admitted and the rules on balances (A02); both always run.
pub fn run<K: Kind>() {
    let mut store = K::store();
    let f = Faults::default();
    let mut base = Layer::<K> { delta: K::empty(), model: K::model(), history: vec![] };
    let mut layers: Vec<Layer<K>> = vec![];
    let push = |layers: &mut Vec<Layer<K>>, base: &Layer<K>| {
        let below = layers.last().unwrap_or(base);
        let l = Layer { delta: K::empty(), model: below.model.clone(), history: below.history.clone() };
        layers.push(l);
    };
    push(&mut layers, &base);
    let faulty = wchance(2, 3);
    let steps = 10 + w(80);
    let deltas = |l: &[Layer<K>]| l.iter().map(|l| l.delta.clone()).collect::<Vec<_>>();
    for _ in 0..steps {
        let step = w(20);
        match step {
            0..=10 => {
                let op = K::gen_op(&layers.last().unwrap().model);
                let mut want = layers.last().unwrap().model.clone();
                let verdict = K::model_apply(&mut want, &op);
                let below = deltas(&layers[..layers.len() - 1]);
                let mut top = layers.last().unwrap().delta.clone();
                if faulty && chance(Stream::Fault, 1, 12) {
                    f.arm(1 + choose(Stream::Fault, 6), false);
                }
                let got = K::apply(&store, &f, &below, &mut top, &op);
                let failed = f.disarm();
                ev!("{op:?} -> {}", match &got { Ok(_) => "ok".into(), Err(e) => format!("err {e}") });
                match (got, verdict) {
                    (Ok(_), _) if failed => violation("accounting-fault-swallowed", format!("{}: {op:?} succeeded although the database failed under it", K::NAME)),
                    (Err(_), _) if failed => count("op_failed_by_storage", 1),
                    (Ok(undo), Ok(())) => {
                        let l = layers.last_mut().unwrap();
                        let before = std::mem::replace(&mut l.model, want);
                        l.delta = top;
                        l.history.push((op.clone(), undo, before));
                        count("op_ok", 1);
                        nontrivial();
                        same::<K>(&format!("after {op:?}"), &store, &f, &deltas(&layers), &layers.last().unwrap().model);
                        if let Err(e) = K::rules(&layers.last().unwrap().model) {
                            violation("accounting-rule", format!("{}: after {op:?}: {e}", K::NAME));
                        }
                    }
                    (Err(e), Ok(())) => violation("accounting-refused", format!("{}: {op:?} was refused ({e}) in {:?}", K::NAME, layers.last().unwrap().model)),
                    (Err(_), Err(_)) => count("op_refused", 1),
                    (Ok(_), Err(why)) => {
                        // Some rules are enforced only when the layers are combined: it must not get any further.
                        count("op_refused_late", 1);
                        let mut d = K::empty();
                        let mut ok = true;
                        for l in below.iter().chain([&top]) {
                            ok = ok && K::merge(&mut d, l.clone()).is_ok();
                        }
                        let mut s = store.clone();
                        if !LATE.contains(&why) || ok && K::flush(&mut s, &f, d).is_ok() {
                            violation("accounting-admitted", format!("{}: {op:?} was admitted ({why}) in {:?}", K::NAME, layers.last().unwrap().model));
                        }
                    }
                }
            }
            11 | 12 => {
                let below = deltas(&layers[..layers.len() - 1]);
                let n = 1 + w(4);
                for _ in 0..n {
                    let l = layers.last_mut().unwrap();
                    let Some((op, undo, before)) = l.history.pop() else { break };
                    let mut top = l.delta.clone();
                    if faulty && chance(Stream::Fault, 1, 20) {
                        f.arm(1 + choose(Stream::Fault, 6), false);
                    }
                    let got = K::undo(&store, &f, &below, &mut top, undo.clone());
                    let failed = f.disarm();
                    ev!("undo {op:?} -> {got:?}");
                    match got {
                        Ok(()) if failed => violation("accounting-fault-swallowed", format!("{}: undo of {op:?} succeeded although the database failed under it", K::NAME)),
                        Err(_) if failed => {
                            l.history.push((op, undo, before));
                            continue;
                        }
                        Ok(()) => {
                            l.delta = top;
                            l.model = before;
                            count("op_undone", 1);
                            same::<K>(&format!("after the undo of {op:?}"), &store, &f, &deltas(&layers), &layers.last().unwrap().model);
                        }
                        Err(e) => violation("accounting-undo", format!("{}: the undo of {op:?} failed: {e}", K::NAME)),
                    }
                }
            }
            13 | 14 => {
                if layers.len() < 5 {
                    ev!("push layer");
                    push(&mut layers, &base);
                }
            }
            15 | 16 if layers.len() > 1 => {
                let i = 1 + w(layers.len() as u64 - 1) as usize;
                ev!("merge layer {i} into {}", i - 1);
                let top = layers[i].clone();
                let before = layers[i - 1].clone();
                let mut d = before.delta.clone();
                match K::merge(&mut d, top.delta.clone()) {
                    Err(e) => violation("accounting-merge", format!("{}: merging a layer failed: {e}", K::NAME)),
                    Ok(undo) => {
                        count("merge", 1);
                        if let Some(undo) = undo.filter(|_| wchance(1, 3)) {
                            let mut u = d.clone();
                            if let Err(e) = undo(&mut u) {
                                violation("accounting-merge-undo", format!("{}: undoing a merge failed: {e}", K::NAME));
                            }
                            count("merge_undone", 1);
                            let mut v = deltas(&layers[..i - 1]);
                            v.push(u);
                            same::<K>("after a merge and its undo", &store, &f, &v, &before.model);
                        }
                        layers[i - 1] = Layer { delta: d, model: top.model, history: top.history };
                        layers.remove(i);
                        same::<K>("after a merge", &store, &f, &deltas(&layers[..i]), &layers[i - 1].model);
                    }
                }
            }
            17 => {
                let bottom = layers[0].clone();
                let snapshot = store.clone();
                let writes_only = chance(Stream::Fault, 1, 2);
                if faulty && chance(Stream::Fault, 1, 3) {
                    f.arm(1 + choose(Stream::Fault, 8), writes_only);
                }
                let got = K::flush(&mut store, &f, bottom.delta.clone());
                let failed = f.disarm();
                ev!("flush -> {}", got.as_ref().map(|_| "ok").unwrap_or("err"));
                match got {
                    Ok(_) if failed => violation("accounting-fault-swallowed", format!("{}: a flush succeeded although the database failed under it", K::NAME)),
                    Err(_) if failed => store = snapshot, // The database transaction is aborted.
                    Err(e) => violation("accounting-flush", format!("{}: flushing a layer failed: {e}", K::NAME)),
                    Ok(undo) => {
                        count("flush", 1);
                        if let Some(undo) = undo.filter(|_| wchance(1, 3)) {
                            let mut s = store.clone();
                            if let Err(e) = undo(&mut s, &f) {
                                violation("accounting-merge-undo", format!("{}: undoing a flush failed: {e}", K::NAME));
                            }
                            count("flush_undone", 1);
                            same::<K>("after a flush and its undo", &s, &f, &[], &base.model);
                        }
                        base = Layer { delta: K::empty(), ..bottom };
                        layers.remove(0);
                        same::<K>("after a flush", &store, &f, &[], &base.model);
                        if layers.is_empty() {
                            push(&mut layers, &base);
                        }
                    }
                }
            }
            18 => {
                ev!("drop the top layer");
                layers.pop();
                if layers.is_empty() {
                    push(&mut layers, &base);
                }
                count("layer_dropped", 1);
            }
            19 => {
                if chance(Stream::Fault, 1, 4) {
                    ev!("restart");
                    count("fault.restart", 1);
                    layers.clear();
                    push(&mut layers, &base);
                }
            }
            _ => continue,
        }
        for i in 0..if step <= 12 { 0 } else { layers.len() } {
            same::<K>("a layer", &store, &f, &deltas(&layers[..=i]), &layers[i].model);
        }
    }
    // Undo everything: back to the empty state.
    if wchance(1, 4) {
        let below = deltas(&layers[..layers.len() - 1]);
        let l = layers.last_mut().unwrap();
        while let Some((op, undo, before)) = l.history.pop() {
            if let Err(e) = K::undo(&store, &f, &below, &mut l.delta, undo) {
                violation("accounting-undo", format!("{}: the undo of {op:?} failed: {e}", K::NAME));
            }
            l.model = before;
            count("op_undone", 1);
        }
        same::<K>("after undoing everything", &store, &f, &deltas(&layers), &K::model());
        // Combined into one delta it must also leave the database as it was at the beginning.
        let mut d = K::empty();
        for l in &layers {
            if let Err(e) = K::merge(&mut d, l.delta.clone()) {
                violation("accounting-merge", format!("{}: merging a layer failed: {e}", K::NAME));
            }
        }
        if let Err(e) = K::flush(&mut store, &f, d) {
            violation("accounting-flush", format!("{}: flushing a layer failed: {e}", K::NAME));
        }
        same::<K>("after undoing and flushing everything", &store, &f, &[], &K::model());
    }
}
