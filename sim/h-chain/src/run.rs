//! One node is fed the world's blocks in any order, with restarts, crashes and storage errors, and checked after
//! every step against what is known about the blocks.
use crate::ledger;
use crate::node::*;
use crate::world::*;
use chainstate::{BlockError, BlockSource, ChainstateError};
use common::primitives::Idable;
use detsim::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Default)]
pub struct Mode {
    pub bad: u64,
    pub pos: bool,
    pub invalidate: bool,
    pub crash: bool,
    pub errors: bool,
    pub economy: bool,
    /// The property under test: what it promises counts as broken when this scenario finds it broken.
    pub prop: &'static str,
}
struct Run {
    w: World,
    n: Node,
    m: Mode,
    /// Blocks handed to the node at least once, in whatever way it took them.
    delivered: BTreeSet<usize>,
    /// Good blocks that are stored and count.
    have: BTreeSet<usize>,
    orphans: BTreeSet<usize>,
    orphans_exact: bool,
    /// Roots of branches put out of use by request.
    outlawed: BTreeSet<usize>,
    tip: Option<usize>,
    faulty: bool,
}
fn f(n: u64) -> u64 {
    choose(Stream::Fault, n)
}
fn fchance(a: u64, b: u64) -> bool {
    chance(Stream::Fault, a, b)
}

impl Run {
    fn allowed(&self, i: usize) -> bool {
        self.w.blks[i].ok && !self.outlawed.iter().any(|r| self.w.is_ancestor(*r, Some(i)))
    }
    /// The property that this fault counts against here.
    fn class(&self, class: &'static str) -> &'static str {
        match (self.m.prop, class) {
            ("C05", "C01/not_heaviest") => "C05/not_best_remaining",
            ("C05", "C01/good_block_refused") => "C05/good_block_refused",
            ("C05", "C01/good_block_condemned") => "C05/good_block_condemned",
            ("C05", "C02/state") => "C05/state",
            _ => class,
        }
    }
    fn bad_tip(&self, tip: usize) -> &'static str {
        let mut i = Some(tip);
        while let Some(j) = i {
            if let Kind::BadConnect(what) | Kind::BadCheck(what) = &self.w.blks[j].kind {
                let other = ["signature of something else", "timelock not over", "merkle root of something else"].contains(what);
                return if self.m.prop == "C04" && !other { "C04/bad_tip" } else { "C05/bad_tip" };
            }
            i = self.w.blks[j].parent;
        }
        "C05/bad_tip"
    }
    fn start(&mut self) {
        for attempt in 0.. {
            match self.n.open() {
                End::Done(Ok(())) => break,
                End::Done(Err(e)) => {
                    if self.n.faults.lock().unwrap().errors == 0 {
                        violation("C03/cannot_start", format!("the node does not start any more: {e}"));
                    }
                    ev!("starting fails: {e}");
                    self.n.kill();
                }
                End::Crashed => self.n.kill(),
            }
            if attempt > 20 {
                harness_error("node does not start".into());
            }
        }
    }
    /// Reads back what the node holds after faults, when that is not determined.
    fn resync(&mut self, old_tip: Option<usize>, may_sink: bool) {
        self.n.use_faults();
        let had: Vec<usize> = self.have.iter().copied().collect();
        self.have.clear();
        for i in 0..self.w.blks.len() {
            let ix = self.n.view().get_block_index_for_any_block(&self.w.blks[i].id).expect("block index");
            let good = ix.as_ref().is_some_and(|x| x.status().is_ok() && x.is_persisted());
            if let Some(x) = &ix {
                check!(!x.status().is_ok() || x.is_persisted(), "C03/index_without_block", "b{i} has an index that counts it as good but the block is not stored");
            }
            if good && self.w.blks[i].ok {
                check!(self.delivered.contains(&i), "C03/unknown_block", "b{i} is stored but was never handed in");
                self.have.insert(i);
            }
        }
        for i in had {
            check!(self.have.contains(&i), "C03/lost_block", "b{i} was stored before the crash and is gone");
        }
        let id = self.n.tip();
        let Some(t) = self.w.by_id(&id) else { violation("C03/unknown_tip", format!("tip {id:?} after the restart")) };
        check!(
            may_sink || self.w.trust(t) >= self.w.trust(old_tip),
            "C03/tip_lost",
            "before the crash the tip was {}, afterwards {} with less trust",
            self.w.name(old_tip),
            self.w.name(t)
        );
        self.tip = t;
    }
    fn crashed(&mut self, may_sink: bool) {
        let old = self.tip;
        if chance(Stream::Fault, 1, 3) {
            count("fault.power_loss", 1);
            self.n.power_loss();
        } else {
            self.n.kill();
        }
        self.orphans.clear();
        // Starting can be hit as well.
        if self.m.crash && fchance(1, 6) {
            self.n.faults.lock().unwrap().crash_in = Some(f(60));
        }
        self.start();
        *self.n.faults.lock().unwrap() = Faults::default();
        self.resync(old, may_sink);
        self.verify("after a crash", true);
    }
    /// Is the tip the best there is, and does everything derived from it agree?
    fn verify(&mut self, when: &str, relaxed: bool) {
        let w = &self.w;
        let id = self.n.tip();
        let Some(t) = w.by_id(&id) else { violation("C01/unknown_tip", format!("tip {id:?} {when}")) };
        if let Some(i) = t {
            check!(w.blks[i].ok, self.bad_tip(i), "{when} the tip is b{i}, whose branch holds a bad block");
            check!(self.delivered.contains(&i), "C01/unknown_tip", "{when} the tip is b{i}, which was never handed in");
            check!(self.allowed(i), "C05/outlawed_tip", "{when} the tip is b{i}, on a branch that was invalidated");
        }
        let best = self.have.iter().filter(|i| self.allowed(**i)).map(|i| w.blks[*i].trust).max().unwrap_or_default();
        if !relaxed {
            check!(w.trust(t) >= best, self.class("C01/not_heaviest"), "{when} the tip is {} with trust {:?}, but a valid chain of trust {best:?} was received", w.name(t), w.trust(t));
        }
        if self.tip != t {
            ev!("tip {} -> {}", w.name(self.tip), w.name(t));
        }
        self.tip = t;
        if let Some(i) = t
            && !w.blks[i].ok
        {
            return;
        }
        // The height index and the queries that use it.
        let path = w.path(t);
        for (k, i) in path.iter().enumerate() {
            let h = k as u64 + 1;
            let at = self.n.id_at(h);
            check!(at == Some(w.id(Some(*i))), "C02/height_index", "{when} height {h} is {at:?} instead of b{i}");
            check!(
                self.n.view().is_block_in_main_chain(&w.id(Some(*i))).expect("query"),
                "C02/height_index",
                "{when} b{i} is not on the main chain although the tip is {}",
                w.name(t)
            );
            let b = self.n.view().get_block(&w.blks[*i].id).expect("query");
            check!(b.as_ref().map(|b| b.get_id()) == Some(w.blks[*i].id), "C02/block_data", "{when} b{i} of the main chain is not stored");
        }
        let above = self.n.id_at(path.len() as u64 + 1);
        check!(above.is_none(), "C02/height_index", "{when} there is a block {above:?} above the tip");
        let h = self.n.view().get_best_block_height().expect("query").into_int();
        check!(h == path.len() as u64, "C02/height_index", "{when} best height {h} instead of {}", path.len());
        for i in 0..w.blks.len() {
            if !path.contains(&i) {
                let on = self.n.view().is_block_in_main_chain(&w.id(Some(i))).unwrap_or(false);
                check!(!on, "C02/height_index", "{when} b{i} counts as main chain although the tip is {}", w.name(t));
            }
        }
        // The whole state.
        let got = state_of(&w.cfg, path.len() as u64, self.n.dump());
        let want = w.state(t);
        for (k, v) in &got {
            let e = Default::default();
            let x = want.get(k).unwrap_or(&e);
            if v != x {
                let extra: Vec<_> = v.iter().filter(|(a, b)| x.get(*a) != Some(*b)).map(|(a, _)| hex(a)).collect();
                let missing: Vec<_> = x.iter().filter(|(a, b)| v.get(*a) != Some(*b)).map(|(a, _)| hex(a)).collect();
                let class = if self.faulty { "C03/state" } else { self.class("C02/state") };
                let msg = format!("{when}, tip {}: {k} differs from that of a node that saw this chain alone: wrong or extra {extra:?}, missing or different {missing:?}", w.name(t));
                check_failed(class, msg.clone());
                if self.m.bad > 0 {
                    check_failed("C05/state", msg);
                }
            }
        }
        ledger::check(w, t, &got, when);
    }
    fn state_now(&self) -> Dump {
        self.n.dump()
    }
    fn arm(&mut self) {
        let mut g = self.n.faults.lock().unwrap();
        *g = Faults::default();
        if self.m.crash && fchance(1, 4) {
            let span = [20, 200, 1000][f(3) as usize];
            g.crash_in = Some(f(span));
        }
        if self.m.errors && fchance(1, 3) {
            let span = [20, 200, 1000][f(3) as usize];
            g.err_in = Some(f(span));
            g.err_left = 1 + f(4);
            g.err = Some(
                [lmdb::Error::MapFull, lmdb::Error::BadTxn, lmdb::Error::TxnFull, lmdb::Error::ReadersFull, lmdb::Error::Other(5), lmdb::Error::Other(13), lmdb::Error::Other(28)][f(7) as usize],
            );
        }
    }
    fn errors_seen(&mut self) -> bool {
        let mut g = self.n.faults.lock().unwrap();
        let seen = g.errors > 0;
        if seen {
            count(&format!("fault.storage_{:?}", g.err.unwrap()).to_lowercase(), g.errors);
        }
        *g = Faults::default();
        seen
    }
    fn known(&self, b: Option<usize>) -> bool {
        match b {
            None => true,
            Some(i) => self.n.view().get_block_index_for_any_block(&self.w.blks[i].id).expect("index").is_some(),
        }
    }
    /// A good block arrived whose parents are all there: it and its waiting descendants count now.
    fn accept(&mut self, i: usize) {
        if !self.w.blks[i].ok {
            // A bad block may wait unconnected, and so may what builds on it. What is good counts nowhere.
            return;
        }
        if self.allowed(i) {
            self.have.insert(i);
        }
        let next: Vec<usize> = self.w.children(Some(i)).filter(|c| self.orphans.contains(c)).collect();
        for c in next {
            self.orphans.remove(&c);
            self.accept(c);
        }
    }
    fn deliver(&mut self, i: usize, source: BlockSource) {
        let old = self.tip;
        let parent = self.w.blks[i].parent;
        let parent_known = self.known(parent);
        let dup = self.known(Some(i));
        let parent_have = parent.is_none_or(|p| self.have.contains(&p));
        let before = self.state_now();
        // Processing the block can, through orphans waiting for it, find its parent bad
        // afterwards; what counts is what was known of the parent before.
        let parent_was_bad = parent.is_some_and(|p| {
            let px = self.n.view().get_block_index_for_any_block(&self.w.blks[p].id).expect("index");
            px.is_some_and(|x| !x.status().is_ok())
        });
        self.delivered.insert(i);
        self.arm();
        let block = self.w.blks[i].block.clone();
        ev!("block b{i} from {source:?}{}{}", if dup { " again" } else { "" }, if parent_known { "" } else { ", parent unknown" });
        let r = match self.n.process(block, source) {
            End::Crashed => {
                self.faulty = true;
                return self.crashed(false);
            }
            End::Done(r) => r,
        };
        let errors = self.errors_seen();
        ev!("  -> {}", match &r { Ok(t) => format!("{t}"), Err(e) => short(e) });
        if errors {
            self.faulty = true;
            // What was kept is up to where the error struck.
            self.resync_errors(old);
            if !self.orphans_exact || parent_known { self.orphans.clear(); self.orphans_exact = false; }
            self.verify("after a storage error", false);
            return;
        }
        let b = &self.w.blks[i];
        if dup {
            check!(r.is_err(), "C01/processed_twice", "b{i} was processed again: {r:?}");
            if let Err(e) = &r {
                let want = if self.have.contains(&i) {
                    matches!(e, ChainstateError::ProcessBlockError(BlockError::BlockAlreadyProcessed(_)))
                } else {
                    true
                };
                check!(want, "C01/processed_twice", "b{i} is known and good, processing it again gives {e}");
            }
            let now = self.state_now();
            check!(now == before, "C01/changed_by_duplicate", "processing b{i} again changed the database: {}", diff(&before, &now));
        } else if !parent_known {
            check!(r.is_err(), "C01/orphan_accepted", "b{i} was accepted although its parent is unknown");
            let now = self.state_now();
            check!(now == before, "C05/trace", "b{i} without a known parent changed the database: {}", diff(&before, &now));
            if source == BlockSource::Local {
                if self.orphans.len() < self.n.opts.orphans {
                    self.orphans.insert(i);
                } else {
                    self.orphans_exact = false;
                }
            }
        } else if b.ok && parent_have && self.allowed(i) {
            check!(r.is_ok(), self.class("C01/good_block_refused"), "b{i} is valid and its parent is known, but it was refused: {}", r.as_ref().err().map(short).unwrap_or_default());
            if self.orphans_exact {
                self.accept(i);
            } else {
                self.resync_errors(old);
            }
        } else {
            if matches!(b.kind, Kind::BadCheck(_)) {
                check!(r.is_err(), "C05/bad_block_accepted", "b{i} ({:?}) was accepted", b.kind);
            }
            if parent_was_bad {
                check!(r.is_err(), "C05/child_of_bad_accepted", "b{i} was accepted although its parent {} was found bad", self.w.name(parent));
            }
            if !self.orphans_exact {
                self.resync_errors(old);
            }
        }
        self.verify("after a block", false);
        // The tip moves only to something better.
        if self.tip != old {
            check!(self.w.trust(self.tip) > self.w.trust(old), "C01/tip_without_more_trust", "the tip went from {} to {} without more trust", self.w.name(old), self.w.name(self.tip));
        }
        if let Ok(moved) = r {
            check!(moved == (self.tip != old), "C01/answer", "processing b{i} answered new tip: {moved}, and the tip went from {} to {}", self.w.name(old), self.w.name(self.tip));
        }
        self.statuses();
    }
    fn resync_errors(&mut self, old: Option<usize>) {
        self.resync(old, false);
        let id = self.n.tip();
        self.tip = self.w.by_id(&id).expect("known tip");
    }
    /// What the node says about single blocks agrees with what they are.
    fn statuses(&self) {
        for i in 0..self.w.blks.len() {
            let b = &self.w.blks[i];
            let Some(ix) = self.n.view().get_block_index_for_any_block(&b.id).expect("index") else { continue };
            if b.ok && self.allowed(i) {
                check!(ix.status().is_ok(), self.class("C01/good_block_condemned"), "b{i} is valid but marked {:?}", ix.status());
            }
            if let Some(p) = b.parent {
                let px = self.n.view().get_block_index_for_any_block(&self.w.blks[p].id).expect("index");
                let pbad = px.is_some_and(|x| !x.status().is_ok());
                if pbad {
                    check!(!ix.status().is_ok(), "C05/child_of_bad", "b{p} is marked bad but its child b{i} is not");
                }
            }
            let h = ix.block_height().into_int();
            check!(h == b.height, "C02/height", "b{i} has height {h} instead of {}", b.height);
            if b.ok {
                check!(ix.chain_trust() == b.trust, "C01/trust", "b{i} has trust {:?} instead of {:?}", ix.chain_trust(), b.trust);
            }
        }
    }
    fn restart(&mut self) {
        ev!("restart");
        count("restarts", 1);
        self.n.stop();
        self.orphans.clear();
        if self.m.crash && fchance(1, 4) {
            self.n.faults.lock().unwrap().crash_in = Some(f(60));
        }
        self.start();
        *self.n.faults.lock().unwrap() = Faults::default();
        self.verify("after a restart", self.faulty);
    }
    fn invalidate(&mut self) {
        let v: Vec<usize> = self.delivered.iter().copied().filter(|i| self.known(Some(*i))).collect();
        if v.is_empty() {
            return;
        }
        let i = match self.tip {
            // Often a block of the main chain.
            Some(t) if wchance(1, 2) => {
                let p = self.w.path(Some(t));
                p[p.len() - 1 - w((p.len() as u64).min(4)) as usize]
            }
            _ => v[w(v.len() as u64) as usize],
        };
        ev!("invalidate b{i}");
        count("invalidations", 1);
        let id = self.w.blks[i].id;
        let mut again = 0;
        loop {
            self.arm();
            match self.n.op(|c| c.invalidate_block(&id)) {
                End::Crashed => {
                    self.faulty = true;
                    self.have.retain(|_| true);
                    self.outlawed_crash(i);
                }
                End::Done(r) => {
                    let errors = self.errors_seen();
                    if errors {
                        self.faulty = true;
                    }
                    ev!("  -> {:?}", r.as_ref().map_err(short));
                    if r.is_ok() && !errors {
                        break;
                    }
                    check!(r.is_ok() || errors, "C05/invalidate_failed", "invalidating b{i} fails: {r:?}");
                }
            }
            again += 1;
            if again > 5 {
                self.m.crash = false;
                self.m.errors = false;
            }
        }
        self.outlawed.insert(i);
        let out: Vec<usize> = (0..self.w.blks.len()).filter(|x| self.w.is_ancestor(i, Some(*x))).collect();
        self.have.retain(|x| !out.contains(x));
        self.orphans.retain(|x| !out.contains(x));
        if again > 0 {
            self.orphans.clear();
        }
        self.verify("after invalidating a block", false);
        self.statuses();
    }
    /// A crash while invalidating b`i`: any of its steps may have happened.
    fn outlawed_crash(&mut self, i: usize) {
        let gone: Vec<usize> = self.have.iter().copied().filter(|x| self.w.is_ancestor(i, Some(*x))).collect();
        for x in gone {
            self.have.remove(&x);
        }
        let fresh = self.outlawed.insert(i);
        // Until it is repeated the block may or may not count.
        if fresh {
            self.outlawed.remove(&i);
        }
        self.crashed(true);
        let out: Vec<usize> = self.have.iter().copied().filter(|x| self.w.is_ancestor(i, Some(*x))).collect();
        for x in out {
            self.have.remove(&x);
        }
    }
    fn reset_flags(&mut self) {
        let Some(i) = self.outlawed.iter().copied().nth(w(self.outlawed.len().max(1) as u64) as usize) else { return };
        ev!("reset the flags of b{i}");
        let id = self.w.blks[i].id;
        let mut again = 0;
        loop {
            self.arm();
            match self.n.op(|c| c.reset_block_failure_flags(&id)) {
                End::Crashed => {
                    self.faulty = true;
                    self.outlawed_reset(i);
                    self.crashed(false);
                }
                End::Done(r) => {
                    let errors = self.errors_seen();
                    if errors {
                        self.faulty = true;
                    }
                    ev!("  -> {:?}", r.as_ref().map_err(short));
                    if r.is_ok() && !errors {
                        break;
                    }
                    // A crash after the reset of a block that was never stored: its index is gone.
                    if again > 0 && self.n.view().get_block_index_for_any_block(&id).expect("index").is_none() {
                        break;
                    }
                    check!(errors, "C05/reset_failed", "resetting b{i} fails: {r:?}");
                    if !errors {
                        break;
                    }
                }
            }
            again += 1;
            if again > 5 {
                self.m.crash = false;
                self.m.errors = false;
            }
        }
        self.outlawed_reset(i);
        self.resync(self.tip, false);
        self.verify("after resetting a block", false);
    }
    fn outlawed_reset(&mut self, i: usize) {
        let w = &self.w;
        self.outlawed.retain(|x| !w.is_ancestor(i, Some(*x)));
    }
    /// Everything is handed in again, in order, without faults: the node ends where any node ends.
    fn finish(&mut self) {
        self.m.crash = false;
        self.m.errors = false;
        *self.n.faults.lock().unwrap() = Faults::default();
        for _ in 0..1000 {
            if self.outlawed.is_empty() {
                break;
            }
            self.reset_flags();
        }
        ev!("final round");
        for i in 0..self.w.blks.len() {
            // Whatever became of a block that waited for its parent, it is handed in again now.
            self.delivered.insert(i);
            let block = self.w.blks[i].block.clone();
            match self.n.process(block, BlockSource::Local) {
                End::Crashed => harness_error("crash without a fault".into()),
                End::Done(r) => ev!("block b{i} -> {}", match &r { Ok(t) => format!("{t}"), Err(e) => short(e) }),
            }
        }
        let class = if self.faulty { "C03/not_heaviest" } else { self.class("C01/not_heaviest") };
        let best = self.w.blks.iter().filter(|b| b.ok).map(|b| b.trust).max().unwrap_or_default();
        let t = self.w.by_id(&self.n.tip()).expect("known tip");
        check!(self.w.trust(t) == best, class, "at the end the tip is {} with trust {:?}, the best chain has {best:?}", self.w.name(t), self.w.trust(t));
        self.resync(self.tip, false);
        for i in 0..self.w.blks.len() {
            if self.w.blks[i].ok {
                check!(self.have.contains(&i), class, "at the end b{i} is not among the valid blocks stored");
            }
        }
        self.verify("at the end", false);
        self.statuses();
    }
}
pub fn short(e: &ChainstateError) -> String {
    format!("{e}").chars().take(160).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().take(40).map(|x| format!("{x:02x}")).collect()
}
fn diff(a: &Dump, b: &Dump) -> String {
    let mut s = vec![];
    for (k, v) in b {
        if a.get(k) != Some(v) {
            s.push(k.clone());
        }
    }
    s.join(",")
}

pub fn run(m: Mode) {
    allow_panics();
    let big = wchance(1, 4);
    let w0 = make(Spec { blocks: if big { 8 + w(10) } else { 3 + w(7) }, bad: m.bad, max_txs: 1 + w(4), pos: m.pos, economy: m.economy });
    let opts = Opts { heavy: wchance(2, 3), attempts: 1 + w(5) as usize, orphans: if wchance(1, 5) { 1 + w(3) as usize } else { 64 }, map_kb: [64, 300, 1000][w(3) as usize] };
    let n = Node::new(&w0, 0, opts);
    let exact = n.opts.orphans >= 64;
    let mut r = Run { w: w0, n, m, delivered: Default::default(), have: Default::default(), orphans: Default::default(), orphans_exact: exact, outlawed: Default::default(), tip: None, faulty: false };
    r.n.use_faults();
    if m.crash && fchance(1, 5) {
        r.n.faults.lock().unwrap().crash_in = Some(f(120));
    }
    r.start();
    *r.n.faults.lock().unwrap() = Faults::default();
    r.verify("after the first start", false);
    // The order: near the natural one, or any.
    let n = r.w.blks.len();
    let disorder = w(4);
    let mut order: Vec<(u64, usize)> = (0..n).map(|i| (i as u64 * 4 + if disorder == 0 { 0 } else { w(1 + [0, 6, 20, 200][disorder as usize]) }, i)).collect();
    order.sort();
    for (_, i) in order {
        let local = wchance(1, 2);
        r.deliver(i, if local { BlockSource::Local } else { BlockSource::Peer });
        if wchance(1, 6) {
            let j = w(n as u64) as usize;
            r.deliver(j, BlockSource::Local);
        }
        if wchance(1, 12) {
            r.restart();
        }
        if m.invalidate && wchance(1, 8) {
            r.invalidate();
        }
        if m.invalidate && wchance(1, 8) {
            r.reset_flags();
        }
    }
    r.finish();
    nontrivial();
    r.n.stop();
    lmdb::sim::set_hook(None);
}
