//! Blocks and transactions of the simulated world, and the judge: the repository's test framework, replaying a branch and
//! trying transactions on it one by one.
use chainstate::{BlockSource, ChainstateConfig};
use chainstate_test_framework::{TestFramework, TxVerificationStrategy};
use common::chain::block::{BlockReward, ConsensusData, timestamp::BlockTimestamp};
use common::chain::output_value::OutputValue;
use common::chain::signature::inputsig::InputWitness;
use common::chain::signed_transaction::SignedTransaction;
use common::chain::timelock::OutputTimeLock;
use common::chain::{Block, ChainConfig, Destination, GenBlock, OutPointSourceId, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::{Amount, Id, Idable};
use detsim::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use test_utils::random::{Seed, make_seedable_rng};

pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
pub fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
pub type TxId = Id<Transaction>;
pub struct Blk {
    pub block: Block,
    pub id: Id<Block>,
    pub parent: Option<usize>,
    pub height: u64,
    pub time: u64,
}
/// What holds an output back.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lock {
    None,
    Height(u64),
    Time(u64),
    Blocks(u64),
    Seconds(u64),
}
#[derive(Clone)]
pub struct Coin {
    pub at: UtxoOutPoint,
    pub amount: u128,
    pub lock: Lock,
    /// Height and time of the block it is in.
    pub born: Option<(u64, u64)>,
}
pub struct World {
    pub cfg: Arc<ChainConfig>,
    pub blks: Vec<Blk>,
    pub known: BTreeMap<TxId, SignedTransaction>,
    /// All transactions ever made, in order.
    pub made: Vec<TxId>,
}
pub fn coin_of(o: &TxOutput) -> Option<(u128, Lock)> {
    match o {
        TxOutput::Transfer(OutputValue::Coin(a), Destination::AnyoneCanSpend) => Some((a.into_atoms(), Lock::None)),
        TxOutput::LockThenTransfer(OutputValue::Coin(a), Destination::AnyoneCanSpend, l) => Some((
            a.into_atoms(),
            match l {
                OutputTimeLock::UntilHeight(h) => Lock::Height(h.into_int()),
                OutputTimeLock::UntilTime(t) => Lock::Time(t.as_int_seconds()),
                OutputTimeLock::ForBlockCount(n) => Lock::Blocks(*n),
                OutputTimeLock::ForSeconds(n) => Lock::Seconds(*n),
            },
        )),
        _ => None,
    }
}
pub fn inputs_of(tx: &SignedTransaction) -> impl Iterator<Item = &UtxoOutPoint> {
    tx.transaction().inputs().iter().filter_map(|i| if let TxInput::Utxo(o) = i { Some(o) } else { None })
}
pub fn id_of(tx: &SignedTransaction) -> TxId {
    tx.transaction().get_id()
}
pub fn new_block(cfg: &ChainConfig, txs: Vec<SignedTransaction>, prev: Id<GenBlock>, t: u64, reward: u128) -> Block {
    let out = if reward == 0 {
        vec![]
    } else {
        vec![TxOutput::LockThenTransfer(
            OutputValue::Coin(Amount::from_atoms(reward)),
            Destination::AnyoneCanSpend,
            OutputTimeLock::ForBlockCount(cfg.empty_consensus_reward_maturity_block_count().to_int()),
        )]
    };
    Block::new(txs, prev, BlockTimestamp::from_int_seconds(t), ConsensusData::None, BlockReward::new(out)).unwrap()
}
pub fn simple_tx(inputs: Vec<TxInput>, outs: Vec<TxOutput>) -> SignedTransaction {
    let n = inputs.len();
    SignedTransaction::new(Transaction::new(0, inputs, outs).unwrap(), vec![InputWitness::NoSignature(None); n]).unwrap()
}

impl World {
    pub fn new(cfg: Arc<ChainConfig>) -> Self {
        World { cfg, blks: vec![], known: BTreeMap::new(), made: vec![] }
    }
    pub fn path(&self, mut b: Option<usize>) -> Vec<usize> {
        let mut v = vec![];
        while let Some(i) = b {
            v.push(i);
            b = self.blks[i].parent;
        }
        v.reverse();
        v
    }
    pub fn id(&self, b: Option<usize>) -> Id<GenBlock> {
        b.map_or(self.cfg.genesis_block_id(), |i| self.blks[i].id.into())
    }
    pub fn height(&self, b: Option<usize>) -> u64 {
        b.map_or(0, |i| self.blks[i].height)
    }
    pub fn time(&self, b: Option<usize>) -> u64 {
        b.map_or(self.cfg.genesis_block().timestamp().as_int_seconds(), |i| self.blks[i].time)
    }
    pub fn by_id(&self, id: &Id<GenBlock>) -> Option<Option<usize>> {
        if *id == self.cfg.genesis_block_id() {
            return Some(None);
        }
        self.blks.iter().position(|b| Id::<GenBlock>::from(b.id) == *id).map(Some)
    }
    pub fn name(&self, b: Option<usize>) -> String {
        b.map_or("genesis".into(), |i| format!("b{i}"))
    }
    pub fn add_block(&mut self, block: Block, parent: Option<usize>) -> usize {
        let id = block.get_id();
        if let Some(i) = self.blks.iter().position(|b| b.id == id) {
            return i;
        }
        let (height, time) = (self.height(parent) + 1, block.timestamp().as_int_seconds());
        for t in block.transactions() {
            self.known.insert(id_of(t), t.clone());
        }
        self.blks.push(Blk { id, block, parent, height, time });
        self.blks.len() - 1
    }
    pub fn remember(&mut self, tx: &SignedTransaction) {
        let id = id_of(tx);
        if self.known.insert(id, tx.clone()).is_none() || !self.made.contains(&id) {
            self.made.push(id);
        }
    }
    pub fn confirmed(&self, b: Option<usize>) -> BTreeSet<TxId> {
        self.path(b).iter().flat_map(|i| self.blks[*i].block.transactions().iter().map(id_of)).collect()
    }
    /// Coins anyone can spend on the branch and with the transactions on top of it.
    pub fn coins(&self, b: Option<usize>, more: &[SignedTransaction]) -> Vec<Coin> {
        let mut all = vec![];
        let mut spent = BTreeSet::new();
        let mut add = |src: OutPointSourceId, outs: &[TxOutput], born: Option<(u64, u64)>| {
            for (i, o) in outs.iter().enumerate() {
                if let Some((amount, lock)) = coin_of(o) {
                    all.push(Coin { at: UtxoOutPoint::new(src.clone(), i as u32), amount, lock, born });
                }
            }
        };
        add(self.cfg.genesis_block_id().into(), self.cfg.genesis_block().utxos(), Some((0, self.time(None))));
        for i in self.path(b) {
            let k = &self.blks[i];
            add(k.id.into(), k.block.block_reward().outputs(), Some((k.height, k.time)));
            for tx in k.block.transactions() {
                add(id_of(tx).into(), tx.transaction().outputs(), Some((k.height, k.time)));
                spent.extend(inputs_of(tx).cloned());
            }
        }
        for tx in more {
            add(id_of(tx).into(), tx.transaction().outputs(), None);
            spent.extend(inputs_of(tx).cloned());
        }
        all.retain(|c| !spent.contains(&c.at) && c.amount > 0);
        all
    }
    pub fn output(&self, o: &UtxoOutPoint) -> Option<&TxOutput> {
        let n = o.output_index() as usize;
        match o.source_id() {
            OutPointSourceId::Transaction(id) => self.known.get(&id)?.transaction().outputs().get(n),
            OutPointSourceId::BlockReward(id) => match self.by_id(&id)? {
                None => self.cfg.genesis_block().utxos().get(n),
                Some(i) => self.blks[i].block.block_reward().outputs().get(n),
            },
        }
    }
    /// The fee of a transaction that only moves coins.
    pub fn plain_fee(&self, tx: &SignedTransaction) -> Option<u128> {
        let mut sum = 0u128;
        for i in tx.transaction().inputs() {
            let TxInput::Utxo(o) = i else { return None };
            sum += coin_of(self.output(o)?)?.0;
        }
        for o in tx.transaction().outputs() {
            sum = sum.checked_sub(coin_of(o)?.0)?;
        }
        Some(sum)
    }
    /// A framework that has processed the branch, and `ahead` empty blocks on top of it.
    pub fn judge(&self, b: Option<usize>, ahead: u64, not_before: u64) -> Judge {
        let mut rng = make_seedable_rng(Seed(7));
        let mut tf = TestFramework::builder(&mut rng)
            .with_chain_config((*self.cfg).clone())
            .with_chainstate_config(ChainstateConfig::new().with_heavy_checks_enabled(false))
            .with_tx_verification_strategy(TxVerificationStrategy::Default)
            .build();
        for i in self.path(b) {
            let k = &self.blks[i];
            tf.set_time_seconds_since_epoch(k.time.max(tf.current_time().as_secs_since_epoch()));
            let r = tf.process_block(k.block.clone(), BlockSource::Local);
            if !matches!(r, Ok(Some(_))) {
                harness_error(format!("the judge refuses b{i}: {r:?}"));
            }
        }
        let mut j = Judge { cfg: self.cfg.clone(), tf, time: self.time(b) };
        for _ in 0..ahead {
            j.time = j.time.max(not_before);
            if !j.take(vec![]) {
                harness_error("the judge refuses an empty block".into());
            }
        }
        j
    }
}
pub struct Judge {
    cfg: Arc<ChainConfig>,
    pub tf: TestFramework,
    pub time: u64,
}
impl Judge {
    pub fn verdict(&mut self, txs: Vec<SignedTransaction>) -> Result<(), String> {
        self.time += 1;
        let t = self.time;
        if t > self.tf.current_time().as_secs_since_epoch() {
            self.tf.set_time_seconds_since_epoch(t);
        }
        let b = new_block(&self.cfg, txs, self.tf.best_block_id(), t, 0);
        match self.tf.process_block(b, BlockSource::Local) {
            Ok(Some(_)) => Ok(()),
            Ok(None) => harness_error("the judge takes a block that is not on its tip".into()),
            Err(e) => Err(short(&e)),
        }
    }
    pub fn take(&mut self, txs: Vec<SignedTransaction>) -> bool {
        self.verdict(txs).is_ok()
    }
}
pub fn short(e: &impl std::fmt::Display) -> String {
    let s = format!("{e}");
    s.chars().take(200).collect()
}
