//! The scenarios.
use crate::node::*;
use common::chain::block::{BlockReward, ConsensusData, timestamp::BlockTimestamp};
use common::chain::output_value::OutputValue;
use common::chain::signature::inputsig::InputWitness;
use common::chain::timelock::OutputTimeLock;
use common::chain::{Block, ChainConfig, Destination, GenBlock, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::{Amount, BlockHeight, Id, Idable};
use detsim::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use test_utils::random::{Seed, make_seedable_rng};
use std::sync::Arc;
use std::sync::atomic::Ordering;

const SEC: u64 = 1_000_000_000;
fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
fn f(n: u64) -> u64 {
    choose(Stream::Fault, n)
}
fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
fn fchance(a: u64, b: u64) -> bool {
    chance(Stream::Fault, a, b)
}
struct Blk {
    parent: Id<GenBlock>,
    height: u64,
    time: u64,
}
struct World {
    cfg: Arc<ChainConfig>,
    nodes: Vec<Option<Node>>,
    disks: Vec<Disk>,
    setups: Vec<Setup>,
    blks: BTreeMap<Id<GenBlock>, Blk>,
    names: BTreeMap<Id<GenBlock>, String>,
    best: Vec<u64>,
    cut: BTreeSet<(usize, usize)>,
}
impl World {
    fn new(setups: Vec<Setup>) -> Self {
        let sc = |n| choose(Stream::Sched, n);
        let policy = [Policy::Sticky, Policy::Uniform, Policy::Uniform, Policy::Prio][sc(4) as usize];
        set_sched(policy, [0, 0, 20_000, 3000][sc(4) as usize], [0, 0, 5][sc(3) as usize], [0, 0, 3][sc(3) as usize]);
        set_hang_class("P01/hang");
        set_limits(60_000_000, None);
        let cfg = Arc::new(common::chain::config::create_unit_test_config());
        let g = cfg.genesis_block_id();
        let n = setups.len();
        let mut wd = World { cfg, nodes: vec![], disks: vec![], setups, blks: BTreeMap::new(), names: BTreeMap::new(), best: vec![0; n], cut: BTreeSet::new() };
        let t = wd.cfg.genesis_block().timestamp().as_int_seconds();
        wd.blks.insert(g, Blk { parent: g, height: 0, time: t });
        wd.names.insert(g, "genesis".into());
        for _ in 0..n {
            wd.disks.push(Disk::new(&wd.cfg));
            wd.nodes.push(None);
        }
        wd
    }
    fn up(&mut self, i: usize) {
        ev!("node {i} starts");
        self.nodes[i] = Some(Node::start(i, &self.cfg, &self.disks[i], &self.setups[i]));
    }
    fn down(&mut self, i: usize, kill: bool) {
        if let Some(n) = self.nodes[i].take() {
            ev!("node {i} {}", if kill { "is killed" } else { "stops" });
            if kill { n.kill() } else { n.stop() }
        }
    }
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].is_some()).collect()
    }
    fn node(&self, i: usize) -> &Node {
        self.nodes[i].as_ref().unwrap()
    }
    fn cut(&mut self, a: usize, b: usize, on: bool) {
        detsim::net::block(ip(a), ip(b), on);
        if on {
            self.cut.insert((a, b));
        } else {
            self.cut.remove(&(a, b));
        }
    }
    fn heal(&mut self) {
        for (a, b) in self.cut.clone() {
            self.cut(a, b, false);
        }
        detsim::net::set_cfg(Default::default());
    }
    /// Node i makes a block on its tip, or on an ancestor of it.
    fn mine(&mut self, i: usize, back: u64, txs: Vec<SignedTransaction>) -> Option<Id<GenBlock>> {
        let (mut p, h) = self.node(i).tip();
        check!(h >= self.best[i], "P01", "node {i} went back from height {} to {h}", self.best[i]);
        for _ in 0..back {
            p = self.blks[&p].parent;
        }
        let (ph, pt) = (self.blks[&p].height, self.blks[&p].time);
        let skew = self.disks[i].skew_ms.load(Ordering::SeqCst) / 1000;
        let now = real_now() as i64 + skew;
        let t = now.max(pt as i64 + 1) as u64;
        if t as i64 > now + 10 {
            return None;
        }
        let k = self.blks.len();
        let reward = TxOutput::LockThenTransfer(OutputValue::Coin(Amount::from_atoms(k as u128)), Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(self.cfg.empty_consensus_reward_maturity_block_count().to_int()));
        let b = Block::new(txs, p, BlockTimestamp::from_int_seconds(t), ConsensusData::None, BlockReward::new(vec![reward])).unwrap();
        let id: Id<GenBlock> = b.get_id().into();
        let name = format!("b{k}");
        let r = self.node(i).process(b);
        ev!("node {i} makes {name} at height {} on {}: {:?}", ph + 1, self.names[&p], r.as_ref().map_err(|e| e.to_string()));
        if r.is_err() {
            return None;
        }
        self.blks.insert(id, Blk { parent: p, height: ph + 1, time: t });
        self.names.insert(id, name);
        Some(id)
    }
    fn look(&mut self) -> Vec<(usize, Id<GenBlock>, u64)> {
        let mut v = vec![];
        for i in self.live() {
            let (id, h) = self.node(i).tip();
            check!(self.blks.contains_key(&id), "P01", "node {i} has a tip nobody made: {id:x}");
            check!(h >= self.best[i], "P01", "node {i} went back from height {} to {h}", self.best[i]);
            self.best[i] = h;
            v.push((i, id, h));
        }
        v
    }
    fn honest(&mut self) {
        for i in self.live() {
            let d = self.node(i).discouraged();
            check!(d.is_empty(), "P02", "node {i} discourages {d:?}, which behaved well");
            let d = self.node(i).banned();
            check!(d.is_empty(), "P02", "node {i} bans {d:?}");
        }
    }
    fn state(&self) -> String {
        let mut s = String::new();
        for i in self.live() {
            let (id, h) = self.node(i).tip();
            let p: Vec<_> = self.node(i).peers().iter().map(|p| format!("{}({:?},{})", p.address, p.peer_role, p.ban_score)).collect();
            s += &format!("; node {i}: {} at {h}, peers {}", self.names[&id], p.join(" "));
        }
        s
    }
}
/// Coins that anyone can spend, and what was made of them.
struct Purse {
    coins: Vec<(UtxoOutPoint, u128)>,
    made: BTreeMap<Id<Transaction>, SignedTransaction>,
    locked: Vec<(UtxoOutPoint, u128)>,
    /// Transactions to be handed in, one after the other.
    queue: VecDeque<SignedTransaction>,
    later: Vec<Vec<(UtxoOutPoint, u128)>>,
    seed: u64,
}
pub const FEE: u128 = 1000 * 100_000_000_000;
const RICH: u128 = 50_000_000_000_000_000;
fn transfer(ins: Vec<UtxoOutPoint>, outs: Vec<u128>) -> SignedTransaction {
    let n = ins.len();
    let outs = outs.into_iter().map(|a| TxOutput::Transfer(OutputValue::Coin(Amount::from_atoms(a)), Destination::AnyoneCanSpend)).collect();
    let tx = Transaction::new(0, ins.into_iter().map(TxInput::from).collect(), outs).unwrap();
    SignedTransaction::new(tx, vec![InputWitness::NoSignature(None); n]).unwrap()
}
impl Purse {
    /// The first block splits the coin of the genesis block.
    fn split(wd: &mut World, i: usize, n: u128) -> Purse {
        let TxOutput::Transfer(OutputValue::Coin(a), _) = &wd.cfg.genesis_block().utxos()[0] else { harness_error("no coin in genesis".into()) };
        let share = a.into_atoms() / (n + 1);
        let tx = transfer(vec![UtxoOutPoint::new(wd.cfg.genesis_block_id().into(), 0)], (0..n).map(|k| share + k).collect());
        let id = tx.transaction().get_id();
        if wd.mine(i, 0, vec![tx]).is_none() {
            harness_error("the first block is refused".into());
        }
        Purse { coins: (0..n).map(|k| (UtxoOutPoint::new(id.into(), k as u32), share + k)).collect(), made: BTreeMap::new(), locked: vec![], queue: VecDeque::new(), later: vec![], seed: w(1 << 40) }
    }
    /// Spends a coin; what remains can be spent in turn. `keep`: the coin can be spent once more.
    fn spend(&mut self, k: usize, keep: bool) -> SignedTransaction {
        let (o, a) = if keep { self.coins[k].clone() } else { self.coins.remove(k) };
        let fee = FEE + w(1000) as u128 * FEE / 1000;
        let outs = if w(2) == 0 { vec![a - fee] } else { vec![(a - fee) / 2, (a - fee) / 2] };
        let tx = transfer(vec![o], outs.clone());
        let id = tx.transaction().get_id();
        if !keep {
            self.coins.extend(outs.iter().enumerate().map(|(k, a)| (UtxoOutPoint::new(id.into(), k as u32), *a)));
        }
        self.made.insert(id, tx.clone());
        tx
    }
}
impl Purse {
    /// The next transaction of a life of tokens, orders, pools or delegations.
    fn trade(&mut self, wd: &mut World, i: usize) {
        if self.queue.is_empty() {
            let rich: Vec<usize> = (0..self.coins.len()).rev().filter(|k| self.coins[*k].1 > RICH).take(4).collect();
            if rich.len() < 4 {
                return;
            }
            let coins = rich.into_iter().map(|k| self.coins.remove(k)).collect();
            self.seed += 1;
            let mut rng = make_seedable_rng(Seed(self.seed));
            let (txs, rest) = crate::eco::make(&wd.cfg, wd.node(i).tip().1 + 1, coins, &mut rng);
            self.later.push(rest);
            self.queue.extend(txs);
        }
        let tx = self.queue.front().unwrap();
        if wd.submit(i, tx) {
            count("trades", 1);
            self.queue.pop_front();
            if self.queue.is_empty() {
                self.coins.extend(self.later.pop().unwrap());
            }
        } else if wchance(1, 8) {
            // Whatever became of it.
            self.queue.clear();
            self.later.clear();
        }
    }
    /// Puts a coin under a time lock.
    fn lock(&mut self, k: usize, lock: OutputTimeLock) -> SignedTransaction {
        let (o, a) = self.coins.remove(k);
        let a = a - FEE;
        let tx = Transaction::new(0, vec![o.into()], vec![TxOutput::LockThenTransfer(OutputValue::Coin(Amount::from_atoms(a)), Destination::AnyoneCanSpend, lock)]).unwrap();
        let tx = SignedTransaction::new(tx, vec![InputWitness::NoSignature(None)]).unwrap();
        let id = tx.transaction().get_id();
        self.made.insert(id, tx.clone());
        self.locked.push((UtxoOutPoint::new(id.into(), 0), a));
        tx
    }
    fn unlock(&mut self, k: usize) -> (SignedTransaction, (UtxoOutPoint, u128)) {
        let (o, a) = self.locked.remove(k);
        let tx = transfer(vec![o.clone()], vec![a - FEE]);
        let id = tx.transaction().get_id();
        self.made.insert(id, tx.clone());
        (tx, (o, a))
    }
}
fn hx(id: &Id<Transaction>) -> String {
    format!("{id:x}").chars().take(6).collect()
}
impl World {
    /// Waits until node i has the connections it is to have; in reserved topologies all edges.
    fn edges(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, s) in self.setups.iter().enumerate() {
            for j in &s.reserved {
                if self.nodes[i].is_some() && self.nodes[*j].is_some() {
                    v.push((i, *j));
                }
            }
        }
        v
    }
    fn connected(&self, i: usize, j: usize) -> bool {
        let one = |a: usize, b: usize| self.node(a).peers().iter().any(|p| p.address.socket_addr().ip() == std::net::IpAddr::V4(ip(b)));
        one(i, j) && one(j, i)
    }
    fn wait_edges(&self) {
        let t0 = real_now();
        while real_now() - t0 < 3 * 3600 {
            if self.edges().iter().all(|(i, j)| self.connected(*i, *j)) {
                return;
            }
            sleep_ns(5 * SEC);
        }
        violation("P01", format!("after three hours without faults reserved nodes are not connected{}", self.state()));
    }
    fn wait_same(&mut self, id: Id<GenBlock>, secs: u64) {
        let t0 = real_now();
        while real_now() - t0 < secs {
            if self.look().iter().all(|x| x.1 == id) {
                return;
            }
            sleep_ns(SEC);
        }
        violation("P01", format!("{secs} s after the last fault not all nodes are at {}{}", self.names[&id], self.state()));
    }
    fn chain(&self, mut id: Id<GenBlock>) -> BTreeSet<Id<GenBlock>> {
        let mut s = BTreeSet::from([id]);
        while id != self.cfg.genesis_block_id() {
            id = self.blks[&id].parent;
            s.insert(id);
        }
        s
    }
    fn submit(&self, i: usize, tx: &SignedTransaction) -> bool {
        let r = self.node(i).submit(tx.clone());
        ev!("transaction {} handed to node {i}: {r:?}", hx(&tx.transaction().get_id()));
        r.is_ok()
    }
}
fn tree(setups: &mut [Setup], extra: u64) {
    let n = setups.len();
    for i in 1..n {
        let j = w(i as u64) as usize;
        if wchance(1, 2) { setups[i].reserved.push(j) } else { setups[j].reserved.push(i) }
    }
    for i in 0..n {
        for j in 0..n {
            if extra > 0 && i != j && wchance(1, extra) && !setups[i].reserved.contains(&j) {
                setups[i].reserved.push(j);
            }
        }
    }
}
/// Delays a connection survives without anybody losing patience.
fn mild_net() {
    if fchance(2, 3) {
        detsim::net::random_cfg();
        let mut c = detsim::net::cfg();
        c.stall = SEC / 2;
        if c.buffer < 4096 {
            c.latency = c.latency.min(1_000_000);
            c.stall_chance = 0;
        }
        detsim::net::set_cfg(c);
    }
}
/// Transactions reach every node.
pub fn relay() {
    let n = 2 + w(3) as usize;
    let base = Setup { max_tip_age: if wchance(1, 3) { 100_000 } else { 3_000_000_000 }, header_limit: 2000, block_limit: 500, tick: 1, noise: wchance(1, 4), workers: 1 + choose(Stream::Sched, 2) as usize, ..Default::default() };
    let mut setups = vec![base; n];
    tree(&mut setups, if wchance(1, 2) { 4 } else { 0 });
    // A node that comes last, with one neighbour at most.
    let late = (1..n).rev().find(|i| {
        let nb: BTreeSet<usize> = setups[*i].reserved.iter().copied().chain((0..n).filter(|j| setups[*j].reserved.contains(i))).collect();
        nb.len() == 1
    });
    let late = if wchance(1, 3) { late } else { None };
    let mut wd = World::new(setups);
    mild_net();
    for i in 0..n {
        wd.up(i);
    }
    let mut purse = Purse::split(&mut wd, 0, 12);
    let tip = wd.look()[0].1;
    wd.wait_same(tip, 3 * 3600);
    wd.wait_edges();
    if let Some(i) = late {
        for j in 0..n {
            wd.cut(i, j, true);
            wd.cut(j, i, true);
        }
        detsim::net::break_connections(None);
        sleep_ns(w(400) * SEC);
        let txs = 1 + w(4) as usize;
        let mut ids = vec![];
        for _ in 0..txs {
            let tx = { let k = w(purse.coins.len() as u64) as usize; purse.spend(k, false) };
            check!(wd.submit(i, &tx), "P03", "node {i} refuses a good transaction");
            ids.push(tx.transaction().get_id());
        }
        sleep_ns(w(400) * SEC);
        // Everything else is connected again before the submitter is.
        let t0 = real_now();
        while !wd.edges().iter().filter(|(a, b)| *a != i && *b != i).all(|(a, b)| wd.connected(*a, *b)) {
            check!(real_now() - t0 < 3 * 3600, "P01", "after three hours reserved nodes are not connected{}", wd.state());
            sleep_ns(5 * SEC);
        }
        for (a, b) in wd.cut.clone() {
            wd.cut(a, b, false);
        }
        wd.wait_edges();
        nontrivial();
        count("late_submitter", 1);
        arrive(&mut wd, &ids, 1200, &BTreeMap::new());
    }
    let mut mined: BTreeMap<Id<Transaction>, Id<GenBlock>> = BTreeMap::new();
    for _ in 0..1 + w(4) {
        let mut ids = vec![];
        for _ in 0..1 + w(6) {
            let i = w(n as u64) as usize;
            let k = w(purse.coins.len() as u64) as usize;
            let (o, a) = purse.coins[k].clone();
            if a < 10 * FEE {
                continue;
            }
            // A child goes where its parent is.
            let parent = o.source_id().get_tx_id().copied();
            let i = match parent {
                Some(p) if purse.made.contains_key(&p) && !mined.contains_key(&p) && !wd.node(i).pool().contains(&p) => continue,
                _ => i,
            };
            let tx = purse.spend(k, false);
            check!(wd.submit(i, &tx), "P03", "node {i} refuses a good transaction");
            ids.push(tx.transaction().get_id());
            sleep_ns(w([1, 1000, 4_000_000_000][w(3) as usize]));
        }
        if wchance(1, 3) {
            let i = w(n as u64) as usize;
            let pool = wd.node(i).mp(|m| m.get_all_in_insertion_order());
            let k = w(pool.len() as u64 + 1) as usize;
            let txs: Vec<_> = pool.into_iter().take(k).collect();
            let ids: Vec<_> = txs.iter().map(|t| t.transaction().get_id()).collect();
            if let Some(b) = wd.mine(i, 0, txs) {
                for t in ids {
                    mined.insert(t, b);
                }
                wd.wait_same(b, 600);
            }
        }
        arrive(&mut wd, &ids, 900, &mined);
        wd.honest();
    }
    nontrivial();
    for i in 0..n {
        wd.down(i, false);
    }
}
fn arrive(wd: &mut World, ids: &[Id<Transaction>], secs: u64, mined: &BTreeMap<Id<Transaction>, Id<GenBlock>>) {
    let t0 = real_now();
    loop {
        let mut missing = vec![];
        for (i, tip, _) in wd.look() {
            let pool: BTreeSet<_> = wd.node(i).pool().into_iter().collect();
            let chain = wd.chain(tip);
            for t in ids {
                if !pool.contains(t) && !mined.get(t).is_some_and(|b| chain.contains(b)) {
                    missing.push((i, hx(t)));
                }
            }
        }
        if missing.is_empty() {
            count("seconds_to_arrive", real_now() - t0);
            count("transactions_relayed", ids.len() as u64);
            return;
        }
        if real_now() - t0 >= secs {
            violation("P03", format!("after {secs} s without faults these transactions are not known to (node, transaction) {missing:?}{}", wd.state()));
        }
        sleep_ns(SEC);
    }
}
/// Nodes that behave well are never punished, whatever the network does to them.
pub fn honest() {
    nontrivial();
    let n = 2 + w(3) as usize;
    let base = Setup { max_tip_age: if wchance(1, 3) { 3600 } else { 3_000_000_000 }, header_limit: [2000, 60][w(2) as usize], block_limit: [500, 7, 1][w(3) as usize], tick: 1, noise: wchance(1, 4), workers: 1 + choose(Stream::Sched, 2) as usize, ..Default::default() };
    let mut setups = vec![base; n];
    if wchance(1, 2) {
        for i in 0..n {
            setups[i].boot = (0..n).filter(|j| *j != i && wchance(2, 3)).collect();
        }
    } else {
        tree(&mut setups, 4);
    }
    let mut wd = World::new(setups);
    for i in 0..n {
        if fchance(1, 3) {
            wd.disks[i].skew_ms.store(f(8000) as i64 - 4000, Ordering::SeqCst);
        }
    }
    mild_net();
    for i in 0..n {
        wd.up(i);
    }
    let mut purse = Purse::split(&mut wd, 0, 12);
    sleep_ns(w(60) * SEC);
    for _ in 0..6 + w(14) {
        let live = wd.live();
        let some = |v: &Vec<usize>| v[w(v.len() as u64) as usize];
        match w(16) {
            14 | 15 if live.len() > 1 => {
                // A node misses blocks, comes back, and hears of what became spendable meanwhile.
                let (a, b) = (some(&live), some(&live));
                if a == b || wd.node(a).tip().0 != wd.node(b).tip().0 {
                    continue;
                }
                let h = wd.node(a).tip().1;
                let lag = w(40);
                for _ in 0..w(6) {
                    purse.trade(&mut wd, a);
                }
                for _ in 0..1 + w(3) {
                    let k = w(purse.coins.len() as u64) as usize;
                    if purse.coins.get(k).is_none_or(|c| c.1 < 10 * FEE) {
                        continue;
                    }
                    let lock = if wchance(1, 2) { OutputTimeLock::UntilHeight(BlockHeight::new(h + 1 + w(lag + 6))) } else { OutputTimeLock::ForBlockCount(w(lag + 6)) };
                    let tx = purse.lock(k, lock);
                    wd.submit(a, &tx);
                }
                let pool = wd.node(a).mp(|m| m.get_all_in_insertion_order());
                wd.mine(a, 0, pool);
                sleep_ns(w(20) * SEC);
                let kill = fchance(1, 2);
                count(if kill { "fault.kill" } else { "fault.stop" }, 1);
                wd.down(b, kill);
                for _ in 0..lag {
                    if wchance(1, 4) {
                        purse.trade(&mut wd, a);
                    }
                    let pool = if wchance(1, 3) { wd.node(a).mp(|m| m.get_all_in_insertion_order()) } else { vec![] };
                    wd.mine(a, 0, pool);
                }
                wd.up(b);
                for _ in 0..120 {
                    sleep_ns(SEC / 2);
                    if wd.connected(a, b) {
                        count("late_node_back", 1);
                        break;
                    }
                    if wchance(1, 4) {
                        let _ = wd.node(a).connect(b);
                    }
                }
                if wchance(1, 3) {
                    for _ in 0..w(40) {
                        wd.mine(a, 0, vec![]);
                    }
                }
                for _ in 0..20 {
                    sleep_ns(w([1, 100, 1000][w(3) as usize] * 1_000_000));
                    if purse.locked.is_empty() || wchance(1, 2) {
                        purse.trade(&mut wd, a);
                        continue;
                    }
                    let k = w(purse.locked.len() as u64) as usize;
                    let (tx, old) = purse.unlock(k);
                    if wd.submit(a, &tx) {
                        count("unlocked", 1);
                        purse.coins.push((UtxoOutPoint::new(tx.transaction().get_id().into(), 0), old.1 - FEE));
                    } else {
                        purse.locked.push(old);
                    }
                    wd.honest();
                }
            }
            0..=3 if !live.is_empty() => {
                let i = some(&live);
                for _ in 0..1 + small(Stream::Work, 20) {
                    let pool = wd.node(i).mp(|m| m.get_all_in_insertion_order());
                    let k = w(pool.len() as u64 + 1) as usize;
                    wd.mine(i, 0, pool.into_iter().take(k).collect());
                }
            }
            4 if !live.is_empty() => {
                let i = some(&live);
                let h = wd.node(i).tip().1;
                let back = w(h.min(10) + 1);
                for k in 0..1 + w(3) {
                    if k == 0 { wd.mine(i, back, vec![]) } else { wd.mine(i, 0, vec![]) };
                }
            }
            5 => {
                let (a, b) = (w(n as u64) as usize, w(n as u64) as usize);
                if a != b {
                    count("fault.short_partition", 1);
                    wd.cut(a, b, true);
                    if fchance(2, 3) {
                        wd.cut(b, a, true);
                    }
                    sleep_ns(f(3000) * 1_000_000);
                    wd.cut(a, b, false);
                    wd.cut(b, a, false);
                }
            }
            6 if live.len() > 1 => {
                let i = some(&live);
                let kill = fchance(1, 2);
                count(if kill { "fault.kill" } else { "fault.stop" }, 1);
                wd.down(i, kill);
            }
            7 | 8 => {
                let i = w(n as u64) as usize;
                if wd.nodes[i].is_none() {
                    wd.up(i);
                }
            }
            9 => {
                let k = detsim::net::break_connections(None);
                count("fault.reset", k as u64);
            }
            10..=12 if !live.is_empty() => {
                for _ in 0..1 + w(4) {
                    let i = some(&live);
                    let k = w(purse.coins.len() as u64) as usize;
                    if purse.coins.get(k).is_none_or(|c| c.1 < 10 * FEE) {
                        continue;
                    }
                    if wchance(1, 4) {
                        purse.trade(&mut wd, i);
                        continue;
                    }
                    if wchance(1, 4) {
                        let h = wd.node(i).tip().1;
                        let lock = match w(3) {
                            0 => OutputTimeLock::ForBlockCount(w(12)),
                            1 => OutputTimeLock::UntilHeight(BlockHeight::new(h + w(15))),
                            _ => OutputTimeLock::ForSeconds(w(1200)),
                        };
                        let tx = purse.lock(k, lock);
                        wd.submit(i, &tx);
                        continue;
                    }
                    if !purse.locked.is_empty() && wchance(1, 2) {
                        let k = w(purse.locked.len() as u64) as usize;
                        let (tx, old) = purse.unlock(k);
                        if wd.submit(i, &tx) {
                            count("unlocked", 1);
                            purse.coins.push((UtxoOutPoint::new(tx.transaction().get_id().into(), 0), old.1 - FEE));
                        } else {
                            purse.locked.push(old);
                        }
                        continue;
                    }
                    let again = wchance(1, 3);
                    let tx = purse.spend(k, again);
                    if again && wchance(1, 2) && live.len() > 1 {
                        // The same coin spent twice, at two nodes.
                        let j = some(&live);
                        let other = purse.spend(k, true);
                        wd.submit(j, &other);
                    }
                    wd.submit(i, &tx);
                }
            }
            _ => {
                if live.len() > 1 {
                    let (i, j) = (some(&live), some(&live));
                    if i != j {
                        let r = wd.node(i).connect(j);
                        ev!("node {i} is told to connect to {j}: {r:?}");
                    }
                }
            }
        }
        let ms = [0, 1, 30, 1000, 20_000, 120_000][w(6) as usize];
        sleep_ns(w(ms * 1_000_000 + 1));
        wd.look();
        wd.honest();
    }
    sleep_ns(30 * SEC);
    wd.honest();
    for i in 0..n {
        wd.down(i, false);
    }
}
/// Bans hold, survive restarts, and end.
pub fn bans() {
    let n = 2 + w(2) as usize;
    let base = Setup { max_tip_age: 3_000_000_000, header_limit: 2000, block_limit: 500, tick: [1, 5][w(2) as usize], workers: 1 + choose(Stream::Sched, 2) as usize, ..Default::default() };
    let mut setups = vec![base; n];
    if wchance(1, 2) {
        for i in 0..n {
            setups[i].boot = (0..n).filter(|j| *j != i).collect();
        }
    }
    tree(&mut setups, 3);
    let mut wd = World::new(setups);
    mild_net();
    for i in 0..n {
        wd.up(i);
    }
    // Until when, and since when.
    let mut ban: BTreeMap<(usize, usize), (u64, u64)> = BTreeMap::new();
    for _ in 0..5 + w(12) {
        let (i, j) = (w(n as u64) as usize, w(n as u64) as usize);
        match w(10) {
            0..=2 if i != j && wd.nodes[i].is_some() => {
                let d = [5, 60, 300, 100_000][w(4) as usize];
                wd.node(i).ban(j, std::time::Duration::from_secs(d));
                ev!("node {i} bans {j} for {d} s");
                ban.insert((i, j), (real_now() + d, real_now()));
            }
            3 if wd.nodes[i].is_some() && i != j => {
                wd.node(i).unban(j);
                ev!("node {i} unbans {j}");
                ban.remove(&(i, j));
            }
            4 => {
                let kill = fchance(1, 2);
                count(if kill { "fault.kill" } else { "fault.stop" }, 1);
                wd.down(i, kill);
            }
            5 | 6 => {
                if wd.nodes[i].is_none() {
                    wd.up(i);
                }
            }
            7 if i != j && wd.nodes[i].is_some() => {
                let r = wd.node(i).connect(j);
                ev!("node {i} is told to connect to {j}: {r:?}");
            }
            8 => {
                let k = detsim::net::break_connections(None);
                count("fault.reset", k as u64);
            }
            _ => {}
        }
        let s = [0, 0, 3, 40, 150, 400][w(6) as usize];
        sleep_ns(w(s * SEC + 1));
        bans_hold(&wd, &mut ban);
    }
    nontrivial();
    for i in 0..n {
        if wd.nodes[i].is_none() {
            wd.up(i);
        }
    }
    // All bans lifted: the reserved nodes come back.
    for ((i, j), _) in std::mem::take(&mut ban) {
        wd.node(i).unban(j);
    }
    wd.heal();
    for i in 0..n {
        check!(wd.node(i).banned().is_empty(), "P02", "node {i} still bans {:?}, after all bans were lifted", wd.node(i).banned());
    }
    wd.wait_edges();
    wd.honest();
    for i in 0..n {
        wd.down(i, false);
    }
}
fn bans_hold(wd: &World, ban: &mut BTreeMap<(usize, usize), (u64, u64)>) {
    let n = wd.nodes.len();
    for i in 0..n {
        if wd.nodes[i].is_none() {
            continue;
        }
        let before = real_now();
        let listed = wd.node(i).banned();
        let peers = wd.node(i).peers();
        let now = real_now();
        for j in 0..n {
            let b = ban.get(&(i, j)).copied();
            let there = listed.contains(&bannable(j));
            match b {
                Some((until, since)) if now + 1 < until => {
                    check!(there, "P02", "node {i} no longer bans {j}, {} s before the end of the ban", until - now);
                    if before >= since + 15 {
                        check!(!peers.iter().any(|p| p.address.socket_addr().ip() == std::net::IpAddr::V4(ip(j))), "P02", "node {i} is connected to {j}, which it bans");
                        count("bans_seen_to_hold", 1);
                    }
                }
                Some((until, _)) if before > until + 40 => {
                    check!(!there, "P02", "node {i} still bans {j}, {} s after the end of the ban", before - until);
                    count("bans_seen_to_end", 1);
                    ban.remove(&(i, j));
                }
                Some(_) => {}
                None => check!(!there, "P02", "node {i} bans {j}, which nobody asked for"),
            }
        }
        check!(wd.node(i).discouraged().is_empty(), "P02", "node {i} discourages {:?}", wd.node(i).discouraged());
    }
}
pub fn converge() {
    nontrivial();
    let n = 2 + w(3) as usize;
    let header_limit = [2000, 2000, 40][w(3) as usize];
    let block_limit = [500, 500, 7, 1][w(4) as usize];
    let ibd = wchance(1, 3);
    let base = Setup { max_tip_age: if ibd { 3600 } else { 3_000_000_000 }, header_limit, block_limit, tick: [1, 1, 5][w(3) as usize], noise: wchance(1, 3), workers: 1 + choose(Stream::Sched, 2) as usize, ..Default::default() };
    let mut setups = vec![base; n];
    tree(&mut setups, 5);
    let mut wd = World::new(setups);
    for i in 0..n {
        if fchance(1, 3) {
            wd.disks[i].skew_ms.store(f(8000) as i64 - 4000, Ordering::SeqCst);
        }
    }
    if fchance(2, 3) {
        detsim::net::random_cfg();
        if fchance(1, 4) {
            let c = detsim::net::NetCfg { reset: 1 + f(20), ..detsim::net::cfg() };
            detsim::net::set_cfg(c);
        }
    }
    for i in 0..n {
        if wchance(4, 5) {
            wd.up(i);
        }
    }
    let steps = 5 + w(25);
    for _ in 0..steps {
        let live = wd.live();
        let some = |v: &Vec<usize>| v[w(v.len() as u64) as usize];
        match w(12) {
            0..=4 if !live.is_empty() => {
                let i = some(&live);
                for _ in 0..1 + small(Stream::Work, 40) {
                    wd.mine(i, 0, vec![]);
                }
            }
            5 if !live.is_empty() => {
                let i = some(&live);
                let h = wd.node(i).tip().1;
                let back = w(h.min(10) + 1);
                wd.mine(i, back, vec![]);
            }
            6 => {
                let (a, b) = (w(n as u64) as usize, w(n as u64) as usize);
                let on = fchance(1, 2);
                if a != b {
                    count("fault.partition", on as u64);
                    wd.cut(a, b, on);
                    if fchance(2, 3) {
                        wd.cut(b, a, on);
                    }
                }
            }
            7 if !live.is_empty() => {
                let i = some(&live);
                let kill = fchance(1, 2);
                count(if kill { "fault.kill" } else { "fault.stop" }, 1);
                wd.down(i, kill);
            }
            8 | 9 => {
                let i = w(n as u64) as usize;
                if wd.nodes[i].is_none() {
                    wd.up(i);
                }
            }
            10 => {
                let k = detsim::net::break_connections(None);
                count("fault.reset", k as u64);
            }
            _ => {}
        }
        let ms = [0, 1, 30, 1000, 20_000, 120_000][w(6) as usize];
        sleep_ns(w(ms * 1_000_000 + 1));
        wd.look();
    }
    wd.heal();
    for i in 0..n {
        if wd.nodes[i].is_none() {
            wd.up(i);
        }
    }
    // One more block makes one chain the best.
    let t = wd.look();
    let top = *t.iter().max_by_key(|x| x.2).unwrap();
    let alone = t.iter().all(|x| x.2 < top.2 || x.1 == top.1);
    let id = if alone && !ibd && wchance(1, 2) { top.1 } else { loop {
        if let Some(id) = wd.mine(top.0, 0, vec![]) {
            break id;
        }
        sleep_ns(5 * SEC);
    } };
    ev!("{} is the best block", wd.names[&id]);
    let t0 = real_now();
    let mut ok = false;
    while real_now() - t0 < 3 * 3600 {
        if wd.look().iter().all(|x| x.1 == id) {
            ok = true;
            break;
        }
        sleep_ns(5 * SEC);
    }
    ev!("after {} s", real_now() - t0);
    count("seconds_to_converge", real_now() - t0);
    check!(ok, "P01", "three hours after the last fault not all nodes are at {}{}", wd.names[&id], wd.state());
    for i in 0..n {
        wd.down(i, false);
    }
}
