//! The world: a random tree of blocks, good and bad, made with the repository's own test framework, together
//! with the state a node has that processed one branch alone (the reference for everything else).
use chainstate::{BlockSource, ChainstateConfig};
use chainstate_storage::Transactional;
use chainstate_test_framework::{TestFramework, TxVerificationStrategy};
use common::chain::block::{BlockReward, ConsensusData, timestamp::BlockTimestamp};
use common::chain::output_value::OutputValue;
use common::chain::signature::inputsig::InputWitness;
use common::chain::signed_transaction::SignedTransaction;
use common::chain::timelock::OutputTimeLock;
use common::chain::{Block, ChainConfig, Destination, GenBlock, NetUpgrades, OutPointSourceId, PoolId, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::{Amount, BlockCount, Id, Idable};
use common::Uint256;
use crypto::key::{KeyKind, PrivateKey};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use detsim::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use test_utils::random::{Seed, make_seedable_rng};

pub type Dump = BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>;
pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
pub fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Good,
    /// Fails the checks made before a block is stored.
    BadCheck(&'static str),
    /// Looks fine on its own but cannot be connected.
    BadConnect(&'static str),
}
pub struct Blk {
    pub block: Block,
    pub id: Id<Block>,
    pub parent: Option<usize>,
    pub height: u64,
    pub trust: Uint256,
    pub kind: Kind,
    /// It and all its ancestors are good.
    pub ok: bool,
    pub state: Option<Arc<Dump>>,
}
pub struct World {
    pub cfg: Arc<ChainConfig>,
    pub pos: bool,
    pub blks: Vec<Blk>,
    pub genesis_state: Arc<Dump>,
    pub now: u64,
}
/// Maps whose contents are a record of all blocks seen, not of the best chain. The deltas of an unfinished epoch keep
/// entries without effect when blocks are disconnected; what they lead to (the sealed state) is compared instead.
fn is_state(map: &str) -> bool {
    !(map.ends_with("DBBlock") || map.ends_with("DBBlockIndex") || map.ends_with("DBValue") || map.ends_with("storage_version") || map.contains("EpochDelta"))
}
/// The part of a database that is the state of a chain of the given height.
pub fn state_of(cfg: &ChainConfig, height: u64, d: impl IntoIterator<Item = (String, BTreeMap<Vec<u8>, Vec<u8>>)>) -> Dump {
    let mut out = Dump::new();
    for (k, mut m) in d {
        if !is_state(&k) {
            continue;
        }
        if k.ends_with("DBEpochData") {
            // The randomness of an epoch counts once the epoch is complete; until then an old value may stay.
            m.retain(|k, _| (u64::from_be_bytes(k[..8].try_into().unwrap()) + 1) * cfg.epoch_length().get() <= height + 1);
        }
        out.insert(k, m);
    }
    out
}
fn framework_state(tf: &TestFramework) -> Arc<Dump> {
    let raw = tf.storage.transaction_ro().unwrap().dump_raw().unwrap();
    let h = tf.best_block_height().into_int();
    Arc::new(state_of(tf.chain_config(), h, raw.into_iter().map(|(id, m)| (id.name(), m.into_iter().collect()))))
}
struct Branch {
    tf: TestFramework,
    tip: Option<usize>,
}
pub struct Spec {
    pub blocks: u64,
    pub bad: u64, // per cent
    pub max_txs: u64,
    pub pos: bool,
    pub economy: bool,
}
type PosKeys = (PoolId, PrivateKey, VRFPrivateKey);

impl World {
    pub fn path(&self, mut b: Option<usize>) -> Vec<usize> {
        let mut v = vec![];
        while let Some(i) = b {
            v.push(i);
            b = self.blks[i].parent;
        }
        v.reverse();
        v
    }
    pub fn trust(&self, b: Option<usize>) -> Uint256 {
        b.map(|i| self.blks[i].trust).unwrap_or(Uint256::ZERO)
    }
    pub fn state(&self, b: Option<usize>) -> Arc<Dump> {
        match b {
            None => self.genesis_state.clone(),
            Some(i) => self.blks[i].state.clone().expect("state of a good block"),
        }
    }
    pub fn id(&self, b: Option<usize>) -> Id<GenBlock> {
        match b {
            None => self.cfg.genesis_block_id(),
            Some(i) => self.blks[i].id.into(),
        }
    }
    pub fn by_id(&self, id: &Id<GenBlock>) -> Option<Option<usize>> {
        if *id == self.cfg.genesis_block_id() {
            return Some(None);
        }
        self.blks.iter().position(|b| Id::<GenBlock>::from(b.id) == *id).map(Some)
    }
    pub fn name(&self, b: Option<usize>) -> String {
        match b {
            None => "genesis".into(),
            Some(i) => format!("b{i}"),
        }
    }
    pub fn children(&self, b: Option<usize>) -> impl Iterator<Item = usize> + '_ {
        self.blks.iter().enumerate().filter(move |(_, x)| x.parent == b).map(|(i, _)| i)
    }
    pub fn is_ancestor(&self, a: usize, mut b: Option<usize>) -> bool {
        while let Some(i) = b {
            if i == a {
                return true;
            }
            b = self.blks[i].parent;
        }
        false
    }
}

pub fn make(spec: Spec) -> World {
    let mut rng = make_seedable_rng(Seed(1 + w(1 << 40)));
    let (cfg, keys): (ChainConfig, Option<PosKeys>) = if spec.pos {
        let (vrf_sk, vrf_pk) = VRFPrivateKey::new_from_rng(&mut rng, VRFKeyKind::Schnorrkel);
        let (sk, pk) = PrivateKey::new_from_rng(&mut rng, KeyKind::Secp256k1Schnorr);
        let (b, pool) = chainstate_test_framework::create_chain_config_with_default_staking_pool(&mut rng, pk, vrf_pk);
        let up = vec![(
            common::primitives::BlockHeight::new(0),
            common::chain::ConsensusUpgrade::PoS {
                initial_difficulty: None,
                config: common::chain::PoSChainConfigBuilder::new_for_unit_test().staking_pool_spend_maturity_block_count(BlockCount::new(2 + w(4))).build(),
            },
        )];
        let b = b
            .consensus_upgrades(NetUpgrades::initialize(up).unwrap())
            .max_future_block_time_offset(Some(std::time::Duration::from_secs(1_000_000)))
            .epoch_length(std::num::NonZeroU64::new(1 + w(4)).unwrap())
            .sealed_epoch_distance_from_tip(1 + w(3) as usize);
        (b.build(), Some((pool, sk, vrf_sk)))
    } else {
        (common::chain::config::create_unit_test_config(), None)
    };
    let cfg = Arc::new(cfg);
    let pos = spec.pos;
    let genesis_time = cfg.genesis_block().timestamp().as_int_seconds();
    let spacing = cfg.target_block_spacing().as_secs();
    let fresh = |rng: &mut _| {
        let mut b = TestFramework::builder(rng)
            .with_chain_config((*cfg).clone())
            .with_chainstate_config(ChainstateConfig::new().with_heavy_checks_enabled(false))
            .with_initial_time_since_genesis(spacing)
            .with_tx_verification_strategy(TxVerificationStrategy::Default);
        if let Some((pool, sk, vrf)) = &keys {
            let outpoint = UtxoOutPoint::new(cfg.genesis_block_id().into(), 1);
            b = b.with_staking_pools(BTreeMap::from_iter([(*pool, (sk.clone(), vrf.clone(), outpoint))]));
        }
        b.build()
    };
    let tf = fresh(&mut rng);
    let mut wd = World { cfg: cfg.clone(), pos, blks: vec![], genesis_state: framework_state(&tf), now: 0 };
    let mut branches = vec![Branch { tf, tip: None }];
    let mut dead: Vec<Branch> = vec![];
    let mut latest = genesis_time + spacing;
    for _ in 0..spec.blocks {
        let at = wd.blks.len();
        if !wd.blks.is_empty() && branches.len() < 4 && wchance(1, 5) {
            // A fork: somewhere on the chain of blocks that are good.
            let good: Vec<usize> = (0..at).filter(|i| wd.blks[*i].ok).collect();
            if !good.is_empty() {
                let p = Some(good[w(good.len() as u64) as usize]).filter(|_| !wchance(1, 6));
                let km = branches.iter().chain(&dead).find(|b| wd.path(b.tip).contains(&p.unwrap_or(usize::MAX))).unwrap_or(&branches[0]).tf.key_manager.clone();
                let mut tf = fresh(&mut rng);
                for i in wd.path(p) {
                    let b = wd.blks[i].block.clone();
                    let t = b.timestamp().as_int_seconds();
                    if t > tf.current_time().as_secs_since_epoch() {
                        tf.set_time_seconds_since_epoch(t);
                    }
                    let r = tf.process_block(b, BlockSource::Local);
                    assert!(matches!(r, Ok(Some(_))), "the test framework refused its own block again: {r:?}");
                }
                if pos {
                    // The staking keys known on the branch, with the outputs that stake on this fork.
                    let src = branches.iter().chain(&dead).find(|b| wd.path(b.tip).contains(&p.unwrap_or(usize::MAX))).unwrap_or(&branches[0]);
                    let all = src.tf.staking_pools.staking_pools().clone();
                    let mut m = BTreeMap::new();
                    for (id, (sk, vrf, _)) in all {
                        if let Some(o) = find_kernel(&tf, &id) {
                            m.insert(id, (sk, vrf, o));
                        }
                    }
                    if m.is_empty() {
                        count("world.fork_without_pools", 1);
                        continue;
                    }
                    tf = chainstate_test_framework::TestFrameworkBuilder::from_existing_framework(tf).with_staking_pools(m).build();
                }
                tf.key_manager = km;
                let now = tf.current_time().as_secs_since_epoch();
                if pos {
                    tf.set_time_seconds_since_epoch(now + spacing);
                }
                branches.push(Branch { tf, tip: p });
            }
        }
        // Children on top of a bad block.
        let bad_parents: Vec<usize> = (0..at).filter(|i| !wd.blks[*i].ok).collect();
        if !pos && !bad_parents.is_empty() && wchance(1, 3) {
            // Mostly on the newest, so that the bad branch gets long enough to be tried.
            let k = bad_parents.len() as u64;
            let p = bad_parents[if wchance(2, 3) { k - 1 } else { w(k) } as usize];
            let t = wd.blks[p].block.timestamp().as_int_seconds() + 1 + w(3);
            let tx = if wchance(1, 2) { spendable_tx(&wd, Some(p)) } else { None };
            let blk = new_block(tx.into_iter().collect(), wd.blks[p].id.into(), t, vec![]);
            push(&mut wd, blk, Some(p), Kind::Good, None, None);
            continue;
        }
        let bi = if branches.len() > 1 && wchance(1, 2) { w(branches.len() as u64) as usize } else { branches.len() - 1 };
        let tip = branches[bi].tip;
        let bad = !pos && chance(Stream::Work, spec.bad, 100);
        let ntx = if wchance(1, 8) { 0 } else { 1 + w(spec.max_txs) };
        let height = tip.map_or(1, |p| wd.blks[p].height + 1);
        let eco = if wchance(if spec.economy { 3 } else { 1 }, 6) {
            let purse = anyone_can_spend(&wd, tip).into_iter().max_by_key(|(_, a)| *a);
            purse.map(|p| crate::economy::make(&cfg, height, p, bad && wchance(2, 3), &mut rng))
        } else {
            None
        };
        if let Some((txs, what)) = &eco {
            count("world.economy_blocks", 1);
            if !what.is_empty() {
                count(&format!("world.cheat.{}", what.replace(' ', "_")), 1);
                let t = branches[bi].tf.current_time().as_secs_since_epoch() + 1;
                let b = new_block(txs.clone(), wd.id(tip), t, vec![]);
                push(&mut wd, b, tip, Kind::BadConnect(what), None, None);
                continue;
            }
        }
        let tf = &mut branches[bi].tf;
        if pos {
            let mut bb = tf.make_pos_block_builder().with_random_staking_pool(&mut rng);
            if let Some((txs, _)) = eco {
                bb = bb.with_transactions(txs);
            } else {
                for _ in 0..ntx {
                    bb = bb.add_test_transaction(&mut rng);
                }
            }
            let block = bb.build(&mut rng);
            if branches[bi].tf.staking_pools.staking_pools().is_empty() {
                dead.push(branches.remove(bi));
                if branches.is_empty() {
                    break;
                }
                continue;
            }
            let tf = &mut branches[bi].tf;
            let r = tf.process_block(block.clone(), BlockSource::Local);
            if generator_slip(&r) {
                dead.push(branches.remove(bi));
                if branches.is_empty() {
                    break;
                }
                continue;
            }
            let Ok(Some(ix)) = r else { panic!("the test framework refused its own PoS block: {r:?}") };
            latest = latest.max(tf.current_time().as_secs_since_epoch()).max(block.timestamp().as_int_seconds());
            let st = framework_state(tf);
            branches[bi].tip = Some(push(&mut wd, block, tip, Kind::Good, Some(ix.chain_trust()), Some(st)));
            continue;
        }
        let t = tf.current_time().as_secs_since_epoch() + w(3) * spacing / 2 + 1;
        tf.set_time_seconds_since_epoch(t);
        latest = latest.max(t);
        let mut bb = tf.make_block_builder().with_timestamp(BlockTimestamp::from_int_seconds(t));
        if let Some((txs, _)) = eco {
            bb = bb.with_transactions(txs);
        } else {
            for _ in 0..ntx {
                bb = bb.add_test_transaction(&mut rng);
            }
        }
        if wchance(1, 4) {
            bb = bb.with_reward(vec![TxOutput::LockThenTransfer(
                OutputValue::Coin(Amount::from_atoms(1 + w(1000) as u128)),
                Destination::AnyoneCanSpend,
                OutputTimeLock::ForBlockCount(cfg.empty_consensus_reward_maturity_block_count().to_int()),
            )]);
        }
        let block = bb.build(&mut rng);
        if bad {
            if let Some((b, kind)) = spoil(&wd, tip, &block, &mut rng) {
                push(&mut wd, b, tip, kind, None, None);
                continue;
            }
        }
        let tf = &mut branches[bi].tf;
        let r = tf.process_block(block.clone(), BlockSource::Local);
        if generator_slip(&r) {
            continue;
        }
        let Ok(Some(ix)) = r else { panic!("the test framework refused its own block: {r:?}") };
        let st = framework_state(tf);
        branches[bi].tip = Some(push(&mut wd, block, tip, Kind::Good, Some(ix.chain_trust()), Some(st)));
    }
    wd.now = latest + 2 * spacing;
    for b in wd.blks.iter().filter(|b| b.ok) {
        for tx in b.block.transactions() {
            for i in tx.transaction().inputs() {
                let d = format!("{i:?}");
                if !matches!(i, TxInput::Utxo(_)) {
                    let name = ["Mint", "Unmint", "LockToken", "Unfreeze", "FreezeToken", "ChangeTokenAuth", "ChangeTokenMeta", "ConcludeOrder", "FillOrder", "FreezeOrder", "Delegation"];
                    if let Some(n) = name.iter().find(|n| d.contains(**n)) {
                        count(&format!("op.{n}"), 1);
                    }
                }
            }
            for o in tx.transaction().outputs() {
                let d = format!("{o:?}");
                count(&format!("op.{}", d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")), 1);
            }
        }
    }
    let (n, bad) = (wd.blks.len(), wd.blks.iter().filter(|b| b.kind != Kind::Good).count());
    count("world.blocks", n as u64);
    count("world.bad_blocks", bad as u64);
    count("world.txs", wd.blks.iter().map(|b| b.block.transactions().len() as u64).sum());
    for (i, b) in wd.blks.iter().enumerate() {
        ev!("block b{i} on {} height {} txs {} {:?}{}", wd.name(b.parent), b.height, b.block.transactions().len(), b.kind, if b.ok { "" } else { " (branch not valid)" });
    }
    wd
}
/// The output that currently stakes for the pool.
fn find_kernel(tf: &TestFramework, pool: &PoolId) -> Option<UtxoOutPoint> {
    tf.find_kernel_outpoint_for_pool(pool)
}
fn push(wd: &mut World, block: Block, parent: Option<usize>, kind: Kind, trust: Option<Uint256>, state: Option<Arc<Dump>>) -> usize {
    let ok = kind == Kind::Good && parent.is_none_or(|p| wd.blks[p].ok);
    let height = parent.map_or(1, |p| wd.blks[p].height + 1);
    let trust = trust.unwrap_or_else(|| (wd.trust(parent) + Uint256::ONE).unwrap());
    assert_eq!(ok, state.is_some());
    if !wd.pos {
        assert_eq!(trust, Uint256::from_u64(height), "trust of a block without consensus data is one each");
    }
    let id = block.get_id();
    // Two branches can come up with the same block.
    if let Some(at) = wd.blks.iter().position(|b| b.id == id) {
        assert_eq!(wd.blks[at].ok, ok);
        return at;
    }
    wd.blks.push(Blk { id, block, parent, height, trust, kind, ok, state });
    wd.blks.len() - 1
}
/// The framework's random transactions sometimes split a single token into parts of none.
fn generator_slip<T>(r: &Result<T, chainstate::ChainstateError>) -> bool {
    let slip = matches!(r, Err(e) if format!("{e:?}").contains("ZeroTokenTransfer"));
    if slip {
        count("world.generator_slips", 1);
    }
    slip
}
fn new_block(txs: Vec<SignedTransaction>, prev: Id<GenBlock>, t: u64, reward: Vec<TxOutput>) -> Block {
    Block::new(txs, prev, BlockTimestamp::from_int_seconds(t), ConsensusData::None, BlockReward::new(reward)).unwrap()
}
/// Outputs anyone can spend that exist on the branch ending in `p` and are not spent there, with their coins.
fn anyone_can_spend(wd: &World, p: Option<usize>) -> Vec<(UtxoOutPoint, Amount)> {
    let mut all: Vec<(UtxoOutPoint, Amount)> = vec![];
    let mut spent = BTreeSet::new();
    let mut add = |src: OutPointSourceId, outs: &[TxOutput]| {
        for (i, o) in outs.iter().enumerate() {
            if let TxOutput::Transfer(OutputValue::Coin(a), Destination::AnyoneCanSpend) = o {
                all.push((UtxoOutPoint::new(src.clone(), i as u32), *a));
            }
        }
    };
    add(wd.cfg.genesis_block_id().into(), wd.cfg.genesis_block().utxos());
    for i in wd.path(p) {
        for tx in wd.blks[i].block.transactions() {
            add(tx.transaction().get_id().into(), tx.transaction().outputs());
            for inp in tx.transaction().inputs() {
                if let TxInput::Utxo(o) = inp {
                    spent.insert(o.clone());
                }
            }
        }
    }
    all.retain(|(o, a)| !spent.contains(o) && *a > Amount::ZERO);
    all
}
fn simple_tx(inp: TxInput, out: Vec<TxOutput>) -> SignedTransaction {
    let tx = Transaction::new(0, vec![inp], out).unwrap();
    SignedTransaction::new(tx, vec![InputWitness::NoSignature(None)]).unwrap()
}
fn spendable_tx(wd: &World, p: Option<usize>) -> Option<SignedTransaction> {
    let (o, a) = anyone_can_spend(wd, p).pop()?;
    Some(simple_tx(o.into(), vec![TxOutput::Transfer(OutputValue::Coin(a), Destination::AnyoneCanSpend)]))
}
/// Turns a good block into a bad one.
fn spoil(wd: &World, tip: Option<usize>, block: &Block, rng: &mut impl crypto_rng::CryptoRng) -> Option<(Block, Kind)> {
    let _ = rng;
    let prev = wd.id(tip);
    let t = block.timestamp().as_int_seconds();
    let txs: Vec<SignedTransaction> = block.transactions().to_vec();
    let reward: Vec<TxOutput> = block.block_reward().outputs().to_vec();
    let used: BTreeSet<UtxoOutPoint> = txs.iter().flat_map(|t| t.transaction().inputs().to_vec()).filter_map(|i| if let TxInput::Utxo(o) = i { Some(o) } else { None }).collect();
    let free: Vec<_> = anyone_can_spend(wd, tip).into_iter().filter(|(o, _)| !used.contains(o)).collect();
    let to = |a: Amount| TxOutput::Transfer(OutputValue::Coin(a), Destination::AnyoneCanSpend);
    let with = |extra: SignedTransaction| {
        let mut v = txs.clone();
        let at = w(v.len() as u64 + 1) as usize;
        v.insert(at, extra);
        v
    };
    for _ in 0..4 {
        match w(10) {
            0 => {
                // An output that does not exist.
                let o = UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(common::primitives::H256::from_low_u64_be(1 + w(1 << 20)))), w(3) as u32);
                let tx = simple_tx(o.into(), vec![to(Amount::from_atoms(1))]);
                return Some((new_block(with(tx), prev, t, reward), Kind::BadConnect("input that does not exist")));
            }
            1 | 2 => {
                // An output that an ancestor has spent already, in a transaction of its own.
                let hist: Vec<UtxoOutPoint> = wd
                    .path(tip)
                    .iter()
                    .flat_map(|i| wd.blks[*i].block.transactions().iter().flat_map(|t| t.transaction().inputs().to_vec()))
                    .filter_map(|i| if let TxInput::Utxo(o) = i { Some(o) } else { None })
                    .collect();
                if hist.is_empty() {
                    continue;
                }
                let o = hist[w(hist.len() as u64) as usize].clone();
                let tx = simple_tx(o.into(), vec![to(Amount::from_atoms(1))]);
                return Some((new_block(with(tx), prev, t, reward), Kind::BadConnect("input spent before")));
            }
            3 => {
                // A whole transaction of an ancestor again (also replays the nonces of accounts).
                let hist: Vec<SignedTransaction> = wd.path(tip).iter().flat_map(|i| wd.blks[*i].block.transactions().to_vec()).collect();
                if hist.is_empty() {
                    continue;
                }
                let tx = hist[w(hist.len() as u64) as usize].clone();
                return Some((new_block(with(tx), prev, t, reward), Kind::BadConnect("transaction included before")));
            }
            4 => {
                // More coins out than in.
                let Some((o, a)) = free.last() else { continue };
                let more = (*a + Amount::from_atoms(1 + w(1000) as u128))?;
                return Some((new_block(with(simple_tx(o.clone().into(), vec![to(more)])), prev, t, reward), Kind::BadConnect("creates coins")));
            }
            5 => {
                // A signature of another transaction.
                let signed: Vec<usize> = (0..txs.len()).filter(|i| txs[*i].signatures().iter().any(|s| matches!(s, InputWitness::Standard(_)))).collect();
                if signed.is_empty() {
                    continue;
                }
                let i = signed[w(signed.len() as u64) as usize];
                let tx = txs[i].transaction().clone();
                // One output's destination changes, the signatures stay.
                let mut outs = tx.outputs().to_vec();
                outs.push(TxOutput::DataDeposit(vec![1]));
                if !tx.inputs().iter().all(|i| matches!(i, TxInput::Utxo(_))) {
                    continue;
                }
                let tx2 = Transaction::new(0, tx.inputs().to_vec(), outs).unwrap();
                let mut v = txs.clone();
                v[i] = SignedTransaction::new(tx2, txs[i].signatures().to_vec()).unwrap();
                v.truncate(i + 1);
                return Some((new_block(v, prev, t, reward), Kind::BadConnect("signature of something else")));
            }
            6 => {
                // The same output twice in one block.
                let Some((o, _)) = free.last() else { continue };
                let mut v = with(simple_tx(o.clone().into(), vec![to(Amount::from_atoms(1))]));
                v.push(simple_tx(o.clone().into(), vec![to(Amount::from_atoms(2))]));
                return Some((new_block(v, prev, t, reward), Kind::BadCheck("same input twice in a block")));
            }
            7 => {
                // A timelocked output spent right away.
                let Some((o, a)) = free.last() else { continue };
                let lock = match w(2) {
                    0 => OutputTimeLock::ForBlockCount(1 + w(20)),
                    _ => OutputTimeLock::UntilHeight(common::primitives::BlockHeight::new(tip.map_or(0, |p| wd.blks[p].height) + 2 + w(3))),
                };
                let tx1 = simple_tx(o.clone().into(), vec![TxOutput::LockThenTransfer(OutputValue::Coin(*a), Destination::AnyoneCanSpend, lock)]);
                let tx2 = simple_tx(UtxoOutPoint::new(tx1.transaction().get_id().into(), 0).into(), vec![to(Amount::from_atoms(1))]);
                let mut v = txs.clone();
                v.push(tx1);
                v.push(tx2);
                return Some((new_block(v, prev, t, reward), Kind::BadConnect("timelock not over")));
            }
            8 => {
                // A block reward beyond subsidy and fees.
                let h = tip.map_or(1, |p| wd.blks[p].height + 1);
                let a = (wd.cfg.block_subsidy_at_height(&common::primitives::BlockHeight::new(h)) + Amount::from_atoms(1 + w(100) as u128))?;
                if !txs.is_empty() {
                    continue;
                }
                let o = TxOutput::LockThenTransfer(OutputValue::Coin(a), Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(wd.cfg.empty_consensus_reward_maturity_block_count().to_int()));
                return Some((new_block(vec![], prev, t, vec![o]), Kind::BadConnect("block reward too large")));
            }
            _ => {
                // A merkle root of something else.
                let other = new_block(with(simple_tx(UtxoOutPoint::new(wd.cfg.genesis_block_id().into(), 0).into(), vec![to(Amount::from_atoms(1 + w(1000) as u128))])), prev, t, reward.clone());
                if txs.is_empty() {
                    continue;
                }
                let b = Block::new_from_header(other.header().clone(), block.body().clone());
                match b {
                    Ok(b) => return Some((b, Kind::BadCheck("merkle root of something else"))),
                    Err(_) => continue,
                }
            }
        }
    }
    None
}
mod crypto_rng {
    pub use randomness::CryptoRng;
}
