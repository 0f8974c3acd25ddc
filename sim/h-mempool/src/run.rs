//! The scenarios.
use crate::chain::*;
use crate::economy;
use crate::node::{Client, Node};
use common::chain::output_value::OutputValue;
use common::chain::signed_transaction::SignedTransaction;
use common::chain::timelock::OutputTimeLock;
use common::chain::{Destination, GenBlock, TxOutput, UtxoOutPoint, block::timestamp::BlockTimestamp};
use common::primitives::{Amount, BlockHeight, Id, Idable};
use detsim::*;
use mempool::error::{BlockConstructionError, Error, MempoolPolicyError, OrphanPoolError};
use mempool::tx_accumulator::{DefaultTxAccumulator, PackingStrategy};
use mempool::{FeeRate, MempoolConfig, MempoolMaxSize, TxStatus};
use serialization::Encode;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use test_utils::random::{Seed, make_seedable_rng};

const MIN_RATE: u128 = 1000;
const EXPIRY: u64 = 336 * 3600;
const TOLERANCE: u64 = 300;
const TOLERANCE_BLOCKS: u64 = 5;

struct Sim {
    w: World,
    node: Node,
    c: Client,
    now: Arc<AtomicU64>,
    /// When the transaction came into the pool, at the earliest.
    since: BTreeMap<TxId, u64>,
    cluster_limit: usize,
    /// Has a limit ever been in the way?
    trimmed: bool,
    pool: Vec<SignedTransaction>,
    econ: bool,
    seed: u64,
}
fn ids(v: &[SignedTransaction]) -> BTreeSet<TxId> {
    v.iter().map(id_of).collect()
}
fn sz(tx: &SignedTransaction) -> u128 {
    tx.encoded_size() as u128
}
fn rate(fee: u128, size: u128) -> u128 {
    fee * 1000 / size
}
fn min_fee(tx: &SignedTransaction) -> u128 {
    (MIN_RATE * sz(tx)).div_ceil(1000)
}
fn hx(id: &TxId) -> String {
    format!("{id:x}").chars().take(8).collect()
}
/// The parents within the set, by index, through outputs.
fn parents(set: &[SignedTransaction]) -> Vec<BTreeSet<usize>> {
    let at: BTreeMap<TxId, usize> = set.iter().enumerate().map(|(i, t)| (id_of(t), i)).collect();
    set.iter().map(|t| inputs_of(t).filter_map(|o| at.get(o.source_id().get_tx_id()?).copied()).collect()).collect()
}
fn closure(of: usize, next: &[BTreeSet<usize>]) -> BTreeSet<usize> {
    let mut all = BTreeSet::from([of]);
    let mut todo = vec![of];
    while let Some(i) = todo.pop() {
        for j in &next[i] {
            if all.insert(*j) {
                todo.push(*j);
            }
        }
    }
    all
}
fn reversed(p: &[BTreeSet<usize>]) -> Vec<BTreeSet<usize>> {
    let mut c = vec![BTreeSet::new(); p.len()];
    for (i, s) in p.iter().enumerate() {
        for j in s {
            c[*j].insert(i);
        }
    }
    c
}

impl Sim {
    fn start(econ: bool, small: bool) -> Self {
        let sc = |n| choose(Stream::Sched, n);
        let policy = [Policy::Sticky, Policy::Uniform, Policy::Uniform, Policy::Prio, Policy::Starve][sc(5) as usize];
        set_sched(policy, [0, 20_000, 3000, 600, 100][sc(5) as usize], [0, 0, 5, 50][sc(4) as usize], [0, 0, 3, 30][sc(4) as usize]);
        set_hang_class("M01/hang");
        set_limits(20_000_000, None);
        let cfg = Arc::new(common::chain::config::create_unit_test_config());
        let w = World::new(cfg.clone());
        let cluster_limit = if small { *[2usize, 4, 64].get(self::w(3) as usize).unwrap() } else { 64 };
        let mcfg = MempoolConfig { min_tx_relay_fee_rate: FeeRate::from_atoms_per_kb(MIN_RATE).into(), max_cluster_tx_count: cluster_limit.into(), max_cluster_size_bytes: Default::default() };
        let ibd = wchance(1, 3);
        let now = Arc::new(AtomicU64::new(w.time(None) + 50_000));
        let node = Node::start(cfg, mcfg, now.clone(), if ibd { 3600 } else { 100 * EXPIRY }, 2);
        let c = node.client();
        let mut s = Sim { w, node, c, now, since: BTreeMap::new(), cluster_limit, trimmed: false, pool: vec![], econ, seed: self::w(1 << 32) };
        // The first blocks split the one coin there is.
        let g = s.w.coins(None, &[]).remove(0);
        let n = 8 + self::w(5) as u128;
        let share = g.amount / (2 * n);
        let mut outs: Vec<_> = (0..n).map(|i| s.out(share + i, if self::w(4) == 0 { 1 } else { 0 })).collect();
        outs.push(s.out(g.amount - share * n - n * n, 0));
        let tx = simple_tx(vec![g.at.into()], outs);
        if ibd {
            let r = s.c.submit(tx.clone(), 0);
            check!(matches!(r, Err(Error::Validity(_))), "M01", "a transaction is taken during initial block download: {r:?}");
        }
        s.w.remember(&tx);
        let t = s.now() - 1000;
        let b = new_block(&s.w.cfg, vec![tx], s.w.id(None), t, 0);
        s.give(b, None);
        check!(s.tip().is_some(), "harness", "the first block is not taken");
        s.c.settle();
        s.refresh();
        s
    }
    fn now(&self) -> u64 {
        self.now.load(Ordering::SeqCst)
    }
    fn refresh(&mut self) {
        self.pool = self.c.all();
        let now = self.now();
        let here = ids(&self.pool);
        self.since.retain(|k, _| here.contains(k));
        for i in here {
            self.since.entry(i).or_insert(now);
        }
    }
    fn tip(&self) -> Option<usize> {
        let id = self.c.tip();
        self.w.by_id(&id).unwrap_or_else(|| harness_error(format!("the tip {id:x} is unknown")))
    }
    /// Hands in a block; false if it is refused.
    fn give(&mut self, b: common::chain::Block, parent: Option<usize>) -> bool {
        let i = self.w.add_block(b.clone(), parent);
        let r = self.c.process(b);
        ev!("block b{i} on {} with {} txs: {:?}", self.w.name(parent), self.w.blks[i].block.transactions().len(), r.as_ref().map_err(short));
        r.is_ok()
    }
    fn out(&self, a: u128, lock: u64) -> TxOutput {
        let (v, d) = (OutputValue::Coin(Amount::from_atoms(a)), Destination::AnyoneCanSpend);
        let l = match (lock, self::w(4)) {
            (0, _) => return TxOutput::Transfer(v, d),
            (_, 0) => OutputTimeLock::UntilHeight(BlockHeight::new(self::w(12))),
            (_, 1) => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(self.now() - 200 + self::w(1000))),
            (_, 2) => OutputTimeLock::ForBlockCount(self::w(9)),
            _ => OutputTimeLock::ForSeconds(self::w(1000)),
        };
        TxOutput::LockThenTransfer(v, d, l)
    }
    fn opens(&self, c: &Coin, height: u64) -> bool {
        let now = self.now() + TOLERANCE;
        match (c.lock, c.born) {
            (Lock::None, _) => true,
            (Lock::Height(h), _) => h <= height + TOLERANCE_BLOCKS,
            (Lock::Time(t), _) => t <= now,
            (Lock::Blocks(n), Some((h, _))) => h + n <= height + TOLERANCE_BLOCKS,
            (Lock::Seconds(n), Some((_, t))) => t + n <= now,
            (Lock::Blocks(n) | Lock::Seconds(n), None) => n == 0,
        }
    }
    /// A transaction that spends some of the coins, and the coins without those it takes.
    fn plain(&mut self, coins: &mut Vec<Coin>, height: u64) -> Option<SignedTransaction> {
        let mut mine = vec![];
        for _ in 0..1 + small(Stream::Work, 2) {
            let good: Vec<_> = (0..coins.len()).filter(|i| coins[*i].amount > 30_000 && (self.opens(&coins[*i], height) || wchance(1, 8))).collect();
            if good.is_empty() {
                break;
            }
            mine.push(coins.remove(good[w(good.len() as u64) as usize]));
        }
        if mine.is_empty() {
            return None;
        }
        let sum: u128 = mine.iter().map(|c| c.amount).sum();
        let mut fee = economy::fee();
        let n = 1 + w(3) as u128;
        if n > 1 {
            fee += w(2000) as u128;
        }
        if wchance(1, 25) {
            fee = 0;
        }
        let mut outs: Vec<_> = (0..n - 1).map(|i| self.out(sum / (n + 1) + i, if wchance(1, 6) { 1 } else { 0 })).collect();
        let rest = sum - fee - outs.iter().map(|o| coin_of(o).unwrap().0).sum::<u128>();
        outs.push(self.out(rest, 0));
        let tx = simple_tx(mine.into_iter().map(|c| c.at.into()).collect(), outs);
        self.w.remember(&tx);
        Some(tx)
    }
    fn height(&self) -> u64 {
        self.w.height(self.tip())
    }
    /// New transactions: one, a chain, or something with tokens, pools and orders.
    fn fresh(&mut self) -> Vec<SignedTransaction> {
        let tip = self.tip();
        let h = self.w.height(tip);
        let mut coins = self.w.coins(tip, &self.pool);
        match w(if self.econ { 6 } else { 4 }) {
            0 | 1 => self.plain(&mut coins, h).into_iter().collect(),
            2 | 3 => {
                let mut v: Vec<SignedTransaction> = vec![];
                for _ in 0..2 + w(4) {
                    if v.is_empty() || wchance(1, 5) {
                        v.extend(self.plain(&mut coins, h));
                        continue;
                    }
                    let last = ids(&v[v.len() - 1..]);
                    let mut kids: Vec<Coin> = self.w.coins(tip, &[&self.pool[..], &v[..]].concat());
                    if !wchance(1, 4) {
                        kids.retain(|c| c.at.source_id().get_tx_id().is_some_and(|i| last.contains(i)));
                    }
                    v.extend(self.plain(&mut kids, h));
                }
                v
            }
            _ => {
                coins.retain(|c| c.lock == Lock::None);
                coins.sort_by_key(|c| c.amount);
                let Some(c) = coins.pop() else { return vec![] };
                let cheat = wchance(1, 4);
                self.seed += 1;
                let mut rng = make_seedable_rng(Seed(self.seed));
                let (v, what) = economy::make(&self.w.cfg, h + 1, (c.at, Amount::from_atoms(c.amount)), cheat, &mut rng);
                if !what.is_empty() {
                    ev!("cheat: {what}");
                    count("cheats", 1);
                }
                for t in &v {
                    self.w.remember(t);
                }
                v
            }
        }
    }
    fn submit(&mut self, tx: &SignedTransaction, peer: u64) -> Result<TxStatus, Error> {
        let r = self.c.submit(tx.clone(), peer);
        ev!("submit {} from {peer}: {:?}", hx(&id_of(tx)), r.as_ref().map_err(short));
        count(
            match &r {
                Ok(TxStatus::InMempool) => "submitted.accepted",
                Ok(TxStatus::InMempoolDuplicate) => "submitted.duplicate",
                Ok(TxStatus::InOrphanPool) => "submitted.orphan",
                Ok(TxStatus::InOrphanPoolDuplicate) => "submitted.orphan_duplicate",
                Err(Error::Validity(_)) => "submitted.invalid",
                Err(Error::Policy(MempoolPolicyError::Conflict(_))) => "submitted.conflict",
                Err(Error::Policy(_)) => "submitted.policy",
                Err(_) => "submitted.refused",
            },
            1,
        );
        r
    }
    /// Hands in one transaction while nothing else happens, and looks at what becomes of it.
    fn submit_checked(&mut self, tx: SignedTransaction, peer: u64) {
        let id = id_of(&tx);
        let before = self.pool.clone();
        let was = ids(&before);
        let orphans: Vec<_> = self.w.made.iter().copied().collect();
        let orphans: Vec<TxId> = self.c.mp(move |m| orphans.into_iter().filter(|i| m.contains_orphan_transaction(i)).collect());
        let now = self.now();
        let r = self.submit(&tx, peer);
        self.c.settle();
        let old: BTreeSet<TxId> = self.since.iter().filter(|(_, t)| now - **t > EXPIRY).map(|(i, _)| *i).collect();
        self.refresh();
        let is = ids(&self.pool);
        // What may have gone: what is too old, with what depends on it.
        let p = parents(&before);
        let (c, mut may_go) = (reversed(&p), BTreeSet::new());
        for (i, t) in before.iter().enumerate() {
            if old.contains(&id_of(t)) {
                may_go.extend(closure(i, &c).into_iter().map(|j| id_of(&before[j])));
            }
        }
        let plain_only = before.iter().all(|t| self.w.plain_fee(t).is_some());
        let gone: BTreeSet<_> = was.difference(&is).copied().collect();
        if !self.trimmed && (plain_only || old.is_empty()) {
            if let Some(g) = gone.iter().find(|g| !may_go.contains(g)) {
                violation("M01", format!("{} leaves the mempool, for no reason, when {} is handed in ({})", hx(g), hx(&id), self.outcome(&r)));
            }
        }
        match &r {
            Ok(TxStatus::InMempool) => {
                check!(!was.contains(&id), "M01", "{} is in the mempool and is accepted again", hx(&id));
                if !self.trimmed {
                    check!(is.contains(&id), "M01", "{} is accepted and is not in the mempool", hx(&id));
                }
                // What was too old has to go now.
                for g in &old {
                    if gone.contains(g) {
                        count("expired", 1);
                    }
                    check!(gone.contains(g) || !was.contains(g), "M01", "{} stays in the mempool longer than {EXPIRY} seconds", hx(g));
                }
                // Orphans that waited for this one do not have to wait any longer.
                if !self.trimmed && self.w.plain_fee(&tx).is_some() {
                    self.orphans_went(&orphans, id);
                }
            }
            Ok(TxStatus::InMempoolDuplicate) => check!(was.contains(&id) && is.contains(&id), "M01", "{} is called a duplicate and is not in the mempool", hx(&id)),
            Ok(_) => {
                check!(is == was, "M01", "an orphan changes the mempool");
                if self.missing(&tx, &was).is_empty() && self.w.plain_fee(&tx).is_some() && wchance(1, 2) {
                    self.must_refuse(&tx, "becomes an orphan");
                }
            }
            Err(e) => {
                check!(!is.contains(&id) || was.contains(&id), "M01", "{} is refused ({}) and is in the mempool", hx(&id), short(e));
                let full = matches!(e, Error::Policy(MempoolPolicyError::MempoolFull | MempoolPolicyError::DescendantOfExpiredTransaction));
                if !full && !(self.trimmed) {
                    check!(is == was, "M01", "{} is refused ({}) and the mempool changes: {:?} left", hx(&id), short(e), gone.iter().map(hx).collect::<Vec<_>>());
                }
                self.refused(&tx, e);
            }
        }
    }
    fn outcome(&self, r: &Result<TxStatus, Error>) -> String {
        match r {
            Ok(s) => format!("{s:?}"),
            Err(e) => short(e),
        }
    }
    /// Inputs that are neither unspent on the tip nor made by the given transactions.
    fn missing(&self, tx: &SignedTransaction, pool: &BTreeSet<TxId>) -> Vec<UtxoOutPoint> {
        let tip = self.tip();
        let all: BTreeSet<_> = self.w.coins(tip, &[]).into_iter().map(|c| c.at).collect();
        inputs_of(tx).filter(|o| !all.contains(o) && !o.source_id().get_tx_id().is_some_and(|i| pool.contains(i))).cloned().collect()
    }
    fn orphans_went(&mut self, before: &[TxId], parent: TxId) {
        let is = ids(&self.pool);
        let spent: BTreeSet<_> = self.pool.iter().flat_map(inputs_of).cloned().collect();
        for o in before {
            let tx = self.w.known[o].clone();
            if inputs_of(&tx).all(|i| i.source_id().get_tx_id() != Some(&parent)) || self.w.plain_fee(&tx).is_none_or(|f| f < min_fee(&tx)) {
                continue;
            }
            if !self.missing(&tx, &is).is_empty() || inputs_of(&tx).any(|i| spent.contains(i)) || self.spends_lock(&tx) {
                continue;
            }
            // A parent that is on the chain and is held as an orphan too (it was sent again) keeps its children waiting.
            let parents: Vec<TxId> = inputs_of(&tx).filter_map(|i| i.source_id().get_tx_id().copied()).collect();
            if self.c.mp(move |m| parents.iter().any(|p| m.contains_orphan_transaction(p))) {
                continue;
            }
            let oid = *o;
            let mut still = true;
            for _ in 0..100 {
                still = self.c.mp(move |m| m.contains_orphan_transaction(&oid));
                if !still {
                    break;
                }
                sleep_ns(5_000_000);
            }
            check!(!still, "M01", "{} stays an orphan although its parents are there", hx(o));
        }
    }
    fn spends_lock(&self, tx: &SignedTransaction) -> bool {
        inputs_of(tx).any(|o| self.w.output(o).and_then(coin_of).is_none_or(|(_, l)| l != Lock::None))
    }
    /// Was there a reason to refuse it?
    fn refused(&mut self, tx: &SignedTransaction, e: &Error) {
        let Some(fee) = self.w.plain_fee(tx) else { return };
        let why = match e {
            Error::Policy(p) => match p {
                MempoolPolicyError::InsufficientFeesToRelay { .. } => fee < min_fee(tx),
                MempoolPolicyError::Conflict(_) => {
                    let spent: BTreeSet<_> = self.pool.iter().flat_map(inputs_of).collect();
                    inputs_of(tx).any(|o| spent.contains(o))
                }
                MempoolPolicyError::ClusterMaxTxCountLimitViolated { .. } => {
                    let set = [&self.pool[..], &[tx.clone()][..]].concat();
                    self.cluster(&set, set.len() - 1).len() > self.cluster_limit
                }
                MempoolPolicyError::MempoolFull | MempoolPolicyError::RollingFeeThresholdNotMet { .. } => self.trimmed,
                MempoolPolicyError::DescendantOfExpiredTransaction => true,
                _ => false,
            },
            Error::Validity(_) | Error::Orphan(OrphanPoolError::NotSupportedForLocalOrigin(_)) => {
                if wchance(1, 3) && !self.spends_unborn_lock(tx) {
                    self.must_refuse(tx, "is refused");
                }
                true
            }
            Error::Orphan(_) => true,
            _ => false,
        };
        check!(why, "M01", "{} is refused, for no reason: {}", hx(&id_of(tx)), short(e));
    }
    fn spends_unborn_lock(&self, tx: &SignedTransaction) -> bool {
        let pool = ids(&self.pool);
        self.spends_lock(tx) && inputs_of(tx).any(|o| o.source_id().get_tx_id().is_some_and(|i| pool.contains(i)))
    }
    fn cluster(&self, set: &[SignedTransaction], of: usize) -> BTreeSet<usize> {
        let mut p = parents(set);
        let c = reversed(&p);
        for (i, s) in c.into_iter().enumerate() {
            p[i].extend(s);
        }
        closure(of, &p)
    }
    /// The transaction cannot follow what is in the pool.
    fn must_refuse(&mut self, tx: &SignedTransaction, what: &str) {
        if self.w.plain_fee(tx).is_none_or(|f| f < min_fee(tx)) || self.spends_unborn_lock(tx) {
            return;
        }
        count("refusals_judged", 1);
        let mut j = self.w.judge(self.tip(), 0, 0);
        if j.take(self.pool.clone()) && j.take(vec![tx.clone()]) {
            violation("M01", format!("{} {what} although it is valid on the tip after what is in the mempool", hx(&id_of(tx))));
        }
    }
    /// Everything that holds whenever the mempool is up to date.
    fn check(&mut self, deep: bool) {
        self.refresh();
        let tip = self.tip();
        let (id, best) = (self.w.id(tip), self.c.mp(|m| m.best_block_id()));
        check!(id == best, "M01", "the mempool stays on {best:x} while the tip is {id:x}");
        let pool = self.pool.clone();
        let here = ids(&pool);
        check!(here.len() == pool.len(), "M01", "a transaction is in the mempool twice");
        count("states_checked", 1);
        let done = self.w.confirmed(tip);
        if let Some(i) = here.intersection(&done).next() {
            violation("M01", format!("{} is confirmed and in the mempool", hx(i)));
        }
        let list: Vec<_> = here.iter().copied().collect();
        let (contained, orphaned, mem, max) = self.c.mp(move |m| {
            let a = list.iter().all(|i| m.contains_transaction(i) && m.transaction(i).is_some_and(|t| id_of(&t) == *i));
            let o = list.iter().find(|i| m.contains_orphan_transaction(i)).copied();
            (a, o, m.memory_usage(), m.get_size_limit().as_bytes())
        });
        check!(contained, "M01", "a transaction is listed and not found");
        // It may have come back with a block that is no longer part of the chain.
        if orphaned.is_some() {
            count("orphan_and_in_pool", 1);
        }
        check!(mem <= max || pool.is_empty(), "M01", "the mempool takes {mem} bytes and may take {max}");
        let mut spent = BTreeMap::new();
        for t in &pool {
            for o in inputs_of(t) {
                if let Some(other) = spent.insert(o.clone(), id_of(t)) {
                    violation("M01", format!("{} and {} in the mempool spend the same output", hx(&other), hx(&id_of(t))));
                }
            }
        }
        self.locks(&pool, tip);
        self.scores(&pool);
        for i in 0..pool.len() {
            let n = self.cluster(&pool, i).len();
            check!(n <= self.cluster_limit, "M01", "a cluster of {n} transactions; {} are allowed", self.cluster_limit);
        }
        for t in &pool {
            if let Some(f) = self.w.plain_fee(t) {
                check!(f >= min_fee(t), "M01", "{} pays {f} for {} bytes and is in the mempool", hx(&id_of(t)), sz(t));
            }
        }
        if !pool.is_empty() {
            nontrivial();
        }
        if deep && !pool.is_empty() {
            count("states_judged", 1);
            let mut j = self.w.judge(tip, 12, self.now() + TOLERANCE);
            if !j.take(pool.clone()) {
                for t in &pool {
                    if let Err(e) = j.verdict(vec![t.clone()]) {
                        violation("M01", format!("{} is in the mempool and is not valid on the tip: {e}", hx(&id_of(t))));
                    }
                }
            }
        }
    }
    fn locks(&self, pool: &[SignedTransaction], tip: Option<usize>) {
        let here = ids(pool);
        let born: BTreeMap<TxId, (u64, u64)> = self.w.path(tip).iter().flat_map(|i| self.w.blks[*i].block.transactions().iter().map(|t| (id_of(t), (self.w.blks[*i].height, self.w.blks[*i].time)))).collect();
        let h = self.w.height(tip);
        for t in pool {
            for o in inputs_of(t) {
                let Some((amount, lock)) = self.w.output(o).and_then(coin_of) else { continue };
                let src = o.source_id();
                let born = match src.get_tx_id() {
                    Some(i) if here.contains(i) => None,
                    Some(i) => born.get(i).copied(),
                    None => continue,
                };
                let c = Coin { at: o.clone(), amount, lock, born };
                if born.is_some() || matches!(lock, Lock::Height(_) | Lock::Time(_)) {
                    check!(self.opens(&c, h), "M01", "{} in the mempool spends an output locked by {lock:?} (now {}, height {h}, made at {born:?})", hx(&id_of(t)), self.now());
                }
            }
        }
    }
    /// Ancestor scores, and the fee rates that follow from descendant scores.
    fn scores(&self, pool: &[SignedTransaction]) {
        let fees: Vec<_> = pool.iter().map(|t| self.w.plain_fee(t)).collect();
        let p = parents(pool);
        let anc: Vec<_> = (0..pool.len()).map(|i| closure(i, &p)).collect();
        let score = |set: &BTreeSet<usize>| Some(rate(set.iter().map(|i| fees[*i]).sum::<Option<u128>>()?, set.iter().map(|i| sz(&pool[*i])).sum()));
        let list: Vec<_> = pool.iter().map(id_of).collect();
        let l = list.clone();
        let real: Vec<Option<FeeRate>> = self.c.mp(move |m| l.iter().map(|i| m.get_tx_score(i).expect("score").map(FeeRate::from)).collect());
        for i in 0..pool.len() {
            let all = &anc[i];
            // Only where nothing but outputs ties transactions together.
            if all.iter().any(|j| fees[*j].is_none()) {
                continue;
            }
            let want = score(all).unwrap().min(score(&BTreeSet::from([i])).unwrap());
            check!(real[i].map(|r| r.atoms_per_kb()) == Some(want), "M01", "{} with {} ancestors has a score of {:?}; its and their fees and sizes give {want}", hx(&list[i]), all.len() - 1, real[i]);
        }
        if fees.iter().any(|f| f.is_none()) {
            return;
        }
        let c = reversed(&p);
        let mut by: Vec<(u128, TxId, usize)> = (0..pool.len()).map(|i| (score(&closure(i, &c)).unwrap().max(score(&BTreeSet::from([i])).unwrap()), list[i], sz(&pool[i]) as usize)).collect();
        by.sort();
        by.reverse();
        let points = self.c.mp(|m| m.get_fee_rate_points(std::num::NonZeroUsize::new(100_000).unwrap())).unwrap_or_else(|e| violation("M01", format!("no fee rates: {e}")));
        let low = points.last().map_or(0, |p| p.1.atoms_per_kb());
        let mut at = 0;
        let mut want: BTreeMap<usize, u128> = BTreeMap::new();
        for (s, _, size) in &by {
            at += size;
            want.insert(at, (*s).max(low));
        }
        want.insert(at + 1, low);
        let got: BTreeMap<usize, u128> = points.iter().map(|(s, r)| (*s, r.atoms_per_kb())).collect();
        if got.len() == want.len() {
            check!(got == want, "M01", "fee rates by size are {got:?}; the scores of the transactions in the mempool give {want:?}");
        } else if pool.len() < 100 {
            violation("M01", format!("fee rates by size are {got:?}; the scores of the transactions in the mempool give {want:?}"));
        }
    }
    /// After a change of the tip: what was there and is not confirmed stays, unless there is a reason for it to go, and what is
    /// no longer confirmed comes back.
    fn after_tip_change(&mut self, old: Option<usize>, before: &[SignedTransaction], floor: u64) {
        let new = self.tip();
        let confirmed = self.w.confirmed(new);
        let here = ids(&self.pool);
        if self.trimmed || self.now() > floor.saturating_add(EXPIRY) {
            return;
        }
        let on_new: BTreeSet<_> = self.w.path(new).into_iter().collect();
        let mut want: Vec<SignedTransaction> = self.w.path(old).into_iter().filter(|i| !on_new.contains(i)).flat_map(|i| self.w.blks[i].block.transactions().to_vec()).collect();
        count("txs_disconnected", want.len() as u64);
        want.extend_from_slice(before);
        let lost: Vec<_> = want
            .into_iter()
            .filter(|t| {
                let i = id_of(t);
                !confirmed.contains(&i) && !here.contains(&i) && self.w.plain_fee(t).is_some_and(|f| f >= min_fee(t)) && !self.spends_lock(t)
            })
            .collect();
        if lost.is_empty() || self.cluster_limit < 64 {
            return;
        }
        let mut j = self.w.judge(new, 0, 0);
        if !j.take(self.pool.clone()) {
            return;
        }
        for t in lost {
            if j.take(vec![t.clone()]) {
                violation("M01", format!("{} is lost when the tip changes from {} to {} although it is still valid", hx(&id_of(&t)), self.w.name(old), self.w.name(new)));
            }
            count("lost_with_reason", 1);
        }
    }
    fn since_floor(&self) -> u64 {
        self.since.values().min().copied().unwrap_or(u64::MAX)
    }
    fn mtp(&self, id: Id<GenBlock>) -> u64 {
        self.c.cs(move |c| c.calculate_median_time_past(&id).expect("median time")).as_int_seconds()
    }
    /// Collects transactions for a block. None: the tip moved.
    fn collect(c: &Client, tip: Id<GenBlock>, target: usize, given: Vec<TxId>, pack: PackingStrategy) -> Option<(Vec<SignedTransaction>, u128)> {
        let mtp = c.cs(move |c| c.calculate_median_time_past(&tip).expect("median time"));
        let known = given.clone();
        let r = c.mp(move |m| {
            let acc = Box::new(DefaultTxAccumulator::new(target, tip, mtp));
            m.collect_txs(acc, given, pack).map(|r| r.map(|a| (a.transactions().to_vec(), a.total_fees().into_atoms())))
        });
        match r {
            Ok(v) => v,
            Err(BlockConstructionError::TxNotFound(i)) if known.contains(&i) => {
                count("given_not_found", 1);
                None
            }
            Err(e) => violation("M02", format!("transactions cannot be collected: {}", short(&e))),
        }
    }
    /// Makes a block out of the pool, which has to be accepted.
    fn mine(&mut self) {
        let tip = self.tip();
        let tid = self.w.id(tip);
        let pool = self.pool.clone();
        let big = !wchance(1, 3);
        let target = if big { self.w.cfg.max_block_size_from_std_scripts() } else { 1 + w(3000) as usize };
        let mut given: Vec<TxId> = pool.iter().map(id_of).filter(|_| wchance(1, 6)).collect();
        shuffle(&mut given);
        let pack = if wchance(1, 4) { PackingStrategy::LeaveEmptySpace } else { PackingStrategy::FillSpaceFromMempool };
        let Some((txs, fees)) = Self::collect(&self.c, tid, target, given.clone(), pack) else { violation("M02", "nothing is collected although the mempool is on the tip".into()) };
        ev!("collect {} of {} txs, target {target}, {} given, {pack:?}", txs.len(), pool.len(), given.len());
        count("collected_txs", txs.len() as u64);
        let picked = ids(&txs);
        let here = ids(&pool);
        check!(picked.len() == txs.len(), "M02", "a transaction is picked twice");
        check!(picked.is_subset(&here), "M02", "a transaction is picked that is not in the mempool");
        let size = txs.encoded_size();
        check!(size <= target || txs.is_empty(), "M02", "{size} bytes are picked, {target} asked for");
        // Dependency order.
        let p = parents(&pool);
        let at: BTreeMap<TxId, usize> = pool.iter().enumerate().map(|(i, t)| (id_of(t), i)).collect();
        let mut seen = BTreeSet::new();
        for t in &txs {
            let i = at[&id_of(t)];
            check!(p[i].iter().all(|j| seen.contains(j)), "M02", "{} is picked before something it depends on", hx(&id_of(t)));
            seen.insert(i);
        }
        if let Some(sum) = txs.iter().map(|t| self.w.plain_fee(t)).sum::<Option<u128>>() {
            check!(sum == fees, "M02", "the fees of what is picked are {sum}, not {fees}");
        }
        // What nothing holds back is picked if there is room.
        if big {
            let mut wanted: BTreeSet<usize> = BTreeSet::new();
            for (i, t) in pool.iter().enumerate() {
                let a = closure(i, &p);
                let free = a.iter().all(|j| self.w.plain_fee(&pool[*j]).is_some() && !self.spends_lock(&pool[*j]));
                if free && (pack == PackingStrategy::FillSpaceFromMempool || given.contains(&id_of(t))) {
                    wanted.extend(a);
                }
            }
            for i in wanted {
                check!(picked.contains(&id_of(&pool[i])), "M02", "{} is not picked although there is room for it", hx(&id_of(&pool[i])));
            }
        }
        if pack == PackingStrategy::LeaveEmptySpace {
            let asked: BTreeSet<usize> = given.iter().flat_map(|g| closure(at[g], &p)).collect();
            let plain = asked.iter().all(|j| self.w.plain_fee(&pool[*j]).is_some());
            check!(!plain || seen.is_subset(&asked), "M02", "a transaction is picked that was not asked for");
        }
        let mtp = self.mtp(tid);
        let t = if wchance(1, 2) { mtp + 1 } else { self.now().max(mtp + 1) };
        let reward = if wchance(1, 2) { self.w.cfg.as_ref().block_subsidy_at_height(&BlockHeight::new(self.w.height(tip) + 1)).into_atoms() + fees } else { 0 };
        if !txs.is_empty() {
            nontrivial();
        }
        let mut b = new_block(&self.w.cfg, txs.clone(), tid, t, reward);
        for k in 1.. {
            if self.w.blks.iter().all(|x| x.id != b.get_id()) {
                break;
            }
            b = new_block(&self.w.cfg, txs.clone(), tid, t + k, reward);
        }
        let id: Id<GenBlock> = b.get_id().into();
        let i = self.w.add_block(b.clone(), tip);
        let r = self.c.process(b);
        ev!("mined b{i} with {} txs: {:?}", picked.len(), r.as_ref().map_err(short));
        count("mined", 1);
        match r {
            Ok(_) => check!(self.c.tip() == id, "M02", "the block made of what was picked is not the tip"),
            Err(e) => violation("M02", format!("the block made of what was picked is refused: {}", short(&e))),
        }
    }
    /// The best ones of some.
    fn best(&mut self) {
        let some: BTreeSet<TxId> = self.pool.iter().map(id_of).filter(|_| wchance(1, 2)).collect();
        let n = w(some.len() as u64 + 2) as usize;
        let s = some.clone();
        let r = self.c.mp(move |m| m.get_best_tx_ids_by_score_and_ancestry(&s, n)).unwrap_or_else(|e| violation("M02", format!("no best transactions: {}", short(&e))));
        check!(r.len() == n.min(some.len()), "M02", "asked for the best {n} of {}, get {}", some.len(), r.len());
        let got: BTreeSet<_> = r.iter().copied().collect();
        check!(got.len() == r.len() && got.is_subset(&some), "M02", "the best transactions are not distinct ones of those given");
        let p = parents(&self.pool);
        let at: BTreeMap<TxId, usize> = self.pool.iter().enumerate().map(|(i, t)| (id_of(t), i)).collect();
        let mut seen = BTreeSet::new();
        let score: BTreeMap<TxId, u128> = {
            let l = r.clone();
            let l2 = l.clone();
            let v: Vec<u128> = self.c.mp(move |m| l2.iter().map(|i| m.get_tx_score(i).expect("score").map_or(0, |s| FeeRate::from(s).atoms_per_kb())).collect());
            l.into_iter().zip(v).collect()
        };
        for (k, i) in r.iter().enumerate() {
            let anc: BTreeSet<TxId> = closure(at[i], &p).into_iter().map(|j| id_of(&self.pool[j])).filter(|j| j != i && some.contains(j)).collect();
            check!(anc.is_subset(&seen), "M02", "{} comes before something it depends on", hx(i));
            // Everything after it that could have come instead has no better score.
            for later in &r[k + 1..] {
                if closure(at[later], &p).into_iter().any(|j| self.w.plain_fee(&self.pool[j]).is_none()) {
                    // It may depend on more than outputs.
                    continue;
                }
                let a: BTreeSet<TxId> = closure(at[later], &p).into_iter().map(|j| id_of(&self.pool[j])).filter(|j| j != later && some.contains(j)).collect();
                if a.is_subset(&seen) {
                    check!(score[later] <= score[i], "M02", "{} comes before {}, which has a better score", hx(i), hx(later));
                }
            }
            seen.insert(*i);
        }
    }
    fn some_txs(&mut self, parent: Option<usize>) -> Vec<SignedTransaction> {
        let done = self.w.confirmed(parent);
        match w(4) {
            0 => vec![],
            // A part of the pool, in order.
            1 => {
                let v = self.pool.clone();
                v.into_iter().filter(|t| !done.contains(&id_of(t)) && wchance(2, 3)).collect()
            }
            // New ones, perhaps in conflict with the pool.
            2 => {
                let h = self.w.height(parent);
                let mut coins = self.w.coins(parent, &[]);
                coins.retain(|c| c.lock == Lock::None);
                (0..1 + w(3)).filter_map(|_| self.plain(&mut coins, h)).collect()
            }
            // What was made before and would fit.
            _ => {
                let mut v: Vec<SignedTransaction> = vec![];
                let mut coins: BTreeSet<_> = self.w.coins(parent, &[]).into_iter().filter(|c| c.lock == Lock::None).map(|c| c.at).collect();
                for id in self.w.made.clone() {
                    let t = self.w.known[&id].clone();
                    let ins: Vec<_> = inputs_of(&t).cloned().collect();
                    if self.w.plain_fee(&t).is_some() && !done.contains(&id) && wchance(1, 2) && ins.iter().all(|o| coins.contains(o)) {
                        for o in ins {
                            coins.remove(&o);
                        }
                        for (n, o) in t.transaction().outputs().iter().enumerate() {
                            if coin_of(o).is_some_and(|c| c.1 == Lock::None) {
                                coins.insert(UtxoOutPoint::new(id.into(), n as u32));
                            }
                        }
                        v.push(t);
                    }
                }
                v
            }
        }
    }
    fn extend(&mut self, parent: Option<usize>, txs: Vec<SignedTransaction>) -> Option<usize> {
        let id = self.w.id(parent);
        let t = self.w.time(parent) + 1 + w(120);
        let b = new_block(&self.w.cfg, txs, id, t.min(self.now() + 3600).max(self.w.time(parent) + 1), 0);
        if self.w.blks.iter().any(|k| k.id == b.get_id()) {
            return None;
        }
        let i = self.w.blks.len();
        self.give(b, parent).then_some(i)
    }
    fn foreign(&mut self) {
        let tip = self.tip();
        let v = self.some_txs(tip);
        if self.extend(tip, v).is_none() {
            count("foreign_refused", 1);
            self.extend(tip, vec![]);
        }
    }
    fn reorg(&mut self) {
        let tip = self.tip();
        let path = self.w.path(tip);
        let d = 1 + small(Stream::Work, 3) as usize;
        if path.len() < d + 1 {
            return self.foreign();
        }
        let mut at = Some(path[path.len() - 1 - d]);
        count("fault.reorg", 1);
        for k in 0..=d {
            let v = if w(3) == 0 && k < d { vec![] } else { self.some_txs(at) };
            match self.extend(at, v) {
                Some(i) => at = Some(i),
                None => match self.extend(at, vec![]) {
                    Some(i) => at = Some(i),
                    None => return,
                },
            }
        }
    }
    fn invalidate(&mut self) {
        let tip = self.tip();
        let path = self.w.path(tip);
        if path.len() < 3 {
            return;
        }
        let i = path[path.len() - 1 - small(Stream::Work, 2).min(path.len() as u64 - 3) as usize];
        let id = self.w.blks[i].id;
        count("fault.invalidate", 1);
        let r = self.c.cs_mut(move |c| c.invalidate_block(&id));
        ev!("invalidate b{i}: {:?}", r.as_ref().map_err(short));
        if wchance(1, 2) {
            self.c.cs_mut(move |c| c.reset_block_failure_flags(&id)).ok();
        }
    }
    fn clock(&mut self) {
        let d = match w(6) {
            0 => EXPIRY / 2 + w(EXPIRY),
            1 => 1000 + w(100_000),
            _ => 1 + w(120),
        };
        self.now.fetch_add(d, Ordering::SeqCst);
        count("fault.clock_jump", 1);
        ev!("the clock goes on by {d}");
    }
    fn limit(&mut self) {
        let mem = self.c.mp(|m| m.memory_usage());
        let max = match w(5) {
            0 => 300_000_000,
            1 => mem / 2,
            2 => w(20_000) as usize,
            3 => mem,
            _ => mem + w(4000) as usize,
        };
        if max < 300_000_000 {
            self.trimmed = true;
        }
        ev!("limit {max} (takes {mem})");
        count("fault.size_limit", 1);
        let r = self.c.mp_mut(move |m| m.set_size_limit(MempoolMaxSize::from_bytes(max)));
        check!(r.is_ok(), "M01", "the limit cannot be set: {r:?}");
    }
    fn tip_op(&mut self) {
        match w(7) {
            0..=1 => self.mine(),
            2..=3 => self.foreign(),
            4..=5 => self.reorg(),
            _ => self.invalidate(),
        }
    }
    fn step(&mut self, limits: bool) {
        let before = self.pool.clone();
        match w(22) {
            0..=6 => {
                let mut v = self.fresh();
                let local = wchance(1, 3);
                if wchance(1, 2) {
                    shuffle(&mut v);
                }
                for tx in v {
                    let peer = if local { 0 } else { 1 + w(3) };
                    self.submit_checked(tx, peer);
                }
            }
            7..=8 => {
                if let Some(tx) = pick(&self.w.made).map(|i| self.w.known[&i].clone()) {
                    let peer = w(4);
                    self.submit_checked(tx, peer);
                }
            }
            9 => {
                let used: Vec<UtxoOutPoint> = self.pool.iter().flat_map(inputs_of).cloned().collect();
                if let Some(o) = pick(&used)
                    && let Some((amount, lock)) = self.w.output(&o).and_then(coin_of)
                {
                    let h = self.height();
                    let tip = self.tip();
                    let mut coins = vec![Coin { at: o, amount, lock, born: Some((0, 0)) }];
                    if wchance(1, 2) {
                        coins.extend(pick(&self.w.coins(tip, &self.pool)));
                    }
                    if let Some(tx) = self.plain(&mut coins, h) {
                        let peer = w(4);
                        self.submit_checked(tx, peer);
                    }
                }
            }
            10..=15 => {
                let (old, floor) = (self.tip(), self.since_floor());
                self.tip_op();
                self.c.settle();
                self.refresh();
                if self.tip() != old {
                    count("tip_changes", 1);
                    self.after_tip_change(old, &before, floor);
                    self.check(true);
                }
            }
            16..=17 => self.clock(),
            18 if limits => {
                self.limit();
                self.c.settle();
            }
            19 => {
                let p = p2p_types::PeerId::from_u64(1 + w(3));
                self.c.mp_mut(move |m| m.notify_peer_disconnected(p));
                count("fault.peer_disconnects", 1);
            }
            20 => self.best(),
            _ => self.check(true),
        }
        self.check(false);
    }
    fn finish(mut self) {
        self.c.settle();
        self.check(true);
        // Everything can be taken out again.
        let (m0, m1) = (self.c.mp(|m| m.memory_usage()), self.pool.len());
        self.c.mp_mut(|m| m.set_size_limit(MempoolMaxSize::from_bytes(0))).ok();
        self.refresh();
        check!(self.pool.is_empty(), "M01", "{} transactions are left where there is no room for any", self.pool.len());
        let left = self.c.mp(|m| m.memory_usage());
        set_sample(format!("{m1} txs in {m0} bytes, {left} empty, {} blocks, {} txs made", self.w.blks.len(), self.w.made.len()));
        check!(left <= 8192, "M01", "the empty mempool takes {left} bytes");
        self.node.stop();
    }
}
fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, w(i as u64 + 1) as usize);
    }
}
fn pick<T: Clone>(v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(v[w(v.len() as u64) as usize].clone()) }
}

fn sequential(econ: bool, limits: bool) {
    let mut s = Sim::start(econ, limits);
    for _ in 0..6 + w(14) {
        s.step(limits);
    }
    s.finish();
}
pub fn pool() {
    sequential(true, false)
}
pub fn small_pool() {
    sequential(false, true)
}
/// Mines more than anything else.
pub fn mine() {
    let mut s = Sim::start(true, false);
    for _ in 0..5 + w(6) {
        for _ in 0..w(5) {
            s.step(false);
        }
        let mut v = s.fresh();
        if wchance(1, 4) {
            shuffle(&mut v);
        }
        for tx in v {
            let peer = w(2);
            s.submit(&tx, peer).ok();
        }
        s.c.settle();
        s.refresh();
        if wchance(1, 3) {
            s.best();
        }
        s.mine();
        s.c.settle();
        s.check(false);
    }
    s.finish();
}
/// Clients hand in transactions while the tip changes.
fn racing(miner: bool) {
    let mut s = Sim::start(true, false);
    for _ in 0..1 + w(3) {
        let mut all: Vec<SignedTransaction> = vec![];
        for _ in 0..2 + w(5) {
            let v = s.fresh();
            all.extend(v);
        }
        for _ in 0..w(3) {
            all.extend(pick(&s.w.made).map(|i| s.w.known[&i].clone()));
        }
        if wchance(1, 3) {
            shuffle(&mut all);
        }
        let n = 1 + w(3);
        let mut jobs = vec![];
        for k in 0..n {
            let (c, mine) = (s.c.clone(), all.iter().enumerate().filter(|(i, _)| *i as u64 % n == k).map(|(_, t)| t.clone()).collect::<Vec<_>>());
            let local = k == 0;
            jobs.push(std::thread::spawn(move || {
                for tx in mine {
                    let id = id_of(&tx);
                    let r = c.submit(tx, if local { 0 } else { k });
                    ev!("{k} submits {}: {:?}", hx(&id), r.as_ref().map_err(short));
                    if r.is_ok() {
                        count("race.accepted", 1);
                    }
                    if chance(Stream::Work, 1, 4) {
                        sleep_ns(1 + choose(Stream::Work, 3_000_000));
                    }
                }
            }));
        }
        let made: Arc<std::sync::Mutex<Vec<common::chain::Block>>> = Default::default();
        if miner {
            let (c, cfg, now, made) = (s.c.clone(), s.w.cfg.clone(), s.now.clone(), made.clone());
            jobs.push(std::thread::spawn(move || {
                for _ in 0..1 + choose(Stream::Work, 4) {
                    sleep_ns(1 + choose(Stream::Work, 2_000_000));
                    let tip = c.tip();
                    let Some((txs, fees)) = Sim::collect(&c, tip, 100_000, vec![], PackingStrategy::FillSpaceFromMempool) else {
                        count("race.tip_moved", 1);
                        continue;
                    };
                    let (mtp, h) = c.cs(move |c| (c.calculate_median_time_past(&tip).unwrap().as_int_seconds(), c.get_gen_block_index_for_persisted_block(&tip).unwrap().unwrap().block_height()));
                    let t = now.load(Ordering::SeqCst).max(mtp + 1);
                    count("race.mined", 1);
                    if !txs.is_empty() {
                        nontrivial();
                    }
                    let n = txs.len();
                    let reward = cfg.block_subsidy_at_height(&h.next_height()).into_atoms() + fees;
                    let b = new_block(&cfg, txs, tip, t, reward);
                    made.lock().unwrap().push(b.clone());
                    let r = c.process(b);
                    ev!("mined {n} txs on {tip:x}: {:?}", r.as_ref().map_err(short));
                    if let Err(e) = r {
                        violation("M02", format!("the block made of what was picked is refused: {}", short(&e)));
                    }
                }
            }));
        }
        for _ in 0..1 + w(3) {
            sleep_ns(1 + w(2_000_000));
            let moved = s.c.tip();
            if s.w.by_id(&moved).is_none() {
                s.learn(&made);
            }
            match w(6) {
                0..=2 => s.foreign_race(&made),
                3 => s.clock(),
                _ => s.reorg_race(&made),
            }
        }
        for j in jobs {
            j.join().ok();
        }
        s.learn(&made);
        s.c.settle();
        s.check(true);
    }
    s.finish();
}
impl Sim {
    fn learn(&mut self, made: &Arc<std::sync::Mutex<Vec<common::chain::Block>>>) {
        for b in made.lock().unwrap().drain(..) {
            let prev = b.prev_block_id();
            let Some(parent) = self.w.by_id(&prev) else { harness_error("a block on an unknown one".into()) };
            self.w.add_block(b, parent);
        }
    }
    fn known_tip(&mut self, made: &Arc<std::sync::Mutex<Vec<common::chain::Block>>>) -> Option<usize> {
        let id = self.c.tip();
        self.learn(made);
        self.w.by_id(&id).unwrap_or_else(|| harness_error(format!("the tip {id:x} is unknown")))
    }
    fn foreign_race(&mut self, made: &Arc<std::sync::Mutex<Vec<common::chain::Block>>>) {
        let tip = self.known_tip(made);
        let v = self.some_txs(tip);
        self.extend(tip, v);
    }
    fn reorg_race(&mut self, made: &Arc<std::sync::Mutex<Vec<common::chain::Block>>>) {
        let tip = self.known_tip(made);
        let path = self.w.path(tip);
        let d = 1 + small(Stream::Work, 2) as usize;
        if path.len() < d + 1 {
            return;
        }
        count("fault.reorg", 1);
        let mut at = Some(path[path.len() - 1 - d]);
        for _ in 0..d + 1 + w(2) as usize {
            let v = self.some_txs(at);
            match self.extend(at, v) {
                Some(i) => at = Some(i),
                None => return,
            }
        }
    }
}
pub fn race() {
    racing(false)
}
pub fn mine_race() {
    racing(true)
}
