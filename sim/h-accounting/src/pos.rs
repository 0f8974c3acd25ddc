use std::result::Result;
use crate::util::*;
use crate::world::*;
use common::chain::{DelegationId, Destination, PoolId};
use common::primitives::{Amount, per_thousand::PerThousand};
use crypto::vrf::{VRFPrivateKey, VRFPublicKey};
use pos_accounting::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Store {
    pool_data: BTreeMap<PoolId, PoolData>,
    pool_bal: BTreeMap<PoolId, Amount>,
    del_data: BTreeMap<DelegationId, DelegationData>,
    del_bal: BTreeMap<DelegationId, Amount>,
    shares: BTreeMap<(PoolId, DelegationId), Amount>,
}
struct R<'a>(&'a Store, &'a Faults);
struct W<'a>(&'a mut Store, &'a Faults);
type E = StoreErr;
fn sh(s: &Store, p: PoolId) -> Option<BTreeMap<DelegationId, Amount>> {
    let m: BTreeMap<_, _> = s.shares.iter().filter(|((q, _), _)| *q == p).map(|((_, d), a)| (*d, *a)).collect();
    if m.is_empty() { None } else { Some(m) }
}
macro_rules! reads {
    ($t:ident) => {
        impl PoSAccountingStorageRead for $t<'_> {
            type Error = E;
            fn get_pool_balance(&self, p: PoolId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.pool_bal.get(&p).copied())
            }
            fn get_pool_data(&self, p: PoolId) -> Result<Option<PoolData>, E> {
                self.1.tick(false)?;
                Ok(self.0.pool_data.get(&p).cloned())
            }
            fn get_delegation_balance(&self, d: DelegationId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.del_bal.get(&d).copied())
            }
            fn get_delegation_data(&self, d: DelegationId) -> Result<Option<DelegationData>, E> {
                self.1.tick(false)?;
                Ok(self.0.del_data.get(&d).cloned())
            }
            fn get_pool_delegations_shares(&self, p: PoolId) -> Result<Option<BTreeMap<DelegationId, Amount>>, E> {
                self.1.tick(false)?;
                Ok(sh(self.0, p))
            }
            fn get_pool_delegation_share(&self, p: PoolId, d: DelegationId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.shares.get(&(p, d)).copied())
            }
        }
    };
}
reads!(R);
reads!(W);
impl W<'_> {
    fn write<T>(&mut self, f: impl FnOnce(&mut Store) -> T) -> Result<(), E> {
        self.1.tick(true)?;
        f(self.0);
        Ok(())
    }
}
impl PoSAccountingStorageWrite for W<'_> {
    fn set_pool_balance(&mut self, p: PoolId, a: Amount) -> Result<(), E> {
        self.write(|s| s.pool_bal.insert(p, a))
    }
    fn del_pool_balance(&mut self, p: PoolId) -> Result<(), E> {
        self.write(|s| s.pool_bal.remove(&p))
    }
    fn set_pool_data(&mut self, p: PoolId, d: &PoolData) -> Result<(), E> {
        self.write(|s| s.pool_data.insert(p, d.clone()))
    }
    fn del_pool_data(&mut self, p: PoolId) -> Result<(), E> {
        self.write(|s| s.pool_data.remove(&p))
    }
    fn set_delegation_balance(&mut self, d: DelegationId, a: Amount) -> Result<(), E> {
        self.write(|s| s.del_bal.insert(d, a))
    }
    fn del_delegation_balance(&mut self, d: DelegationId) -> Result<(), E> {
        self.write(|s| s.del_bal.remove(&d))
    }
    fn set_delegation_data(&mut self, d: DelegationId, x: &DelegationData) -> Result<(), E> {
        self.write(|s| s.del_data.insert(d, x.clone()))
    }
    fn del_delegation_data(&mut self, d: DelegationId) -> Result<(), E> {
        self.write(|s| s.del_data.remove(&d))
    }
    fn set_pool_delegation_share(&mut self, p: PoolId, d: DelegationId, a: Amount) -> Result<(), E> {
        self.write(|s| s.shares.insert((p, d), a))
    }
    fn del_pool_delegation_share(&mut self, p: PoolId, d: DelegationId) -> Result<(), E> {
        self.write(|s| s.shares.remove(&(p, d)))
    }
}

/// The database as the bottom of the chain of views, with the layers' error type.
struct Base<'a>(PoSAccountingDB<R<'a>, DefaultStorageTag>);
impl PoSAccountingView for Base<'_> {
    type Error = Error;
    fn pool_exists(&self, p: PoolId) -> Result<bool, Error> {
        self.0.pool_exists(p).map_err(|_| Error::ViewFail)
    }
    fn get_pool_balance(&self, p: PoolId) -> Result<Amount, Error> {
        PoSAccountingView::get_pool_balance(&self.0, p).map_err(|_| Error::ViewFail)
    }
    fn get_pool_data(&self, p: PoolId) -> Result<Option<PoolData>, Error> {
        PoSAccountingView::get_pool_data(&self.0, p).map_err(|_| Error::ViewFail)
    }
    fn get_pool_delegations_shares(&self, p: PoolId) -> Result<Option<BTreeMap<DelegationId, Amount>>, Error> {
        PoSAccountingView::get_pool_delegations_shares(&self.0, p).map_err(|_| Error::ViewFail)
    }
    fn get_delegation_balance(&self, d: DelegationId) -> Result<Amount, Error> {
        PoSAccountingView::get_delegation_balance(&self.0, d).map_err(|_| Error::ViewFail)
    }
    fn get_delegation_data(&self, d: DelegationId) -> Result<Option<DelegationData>, Error> {
        PoSAccountingView::get_delegation_data(&self.0, d).map_err(|_| Error::ViewFail)
    }
    fn get_pool_delegation_share(&self, p: PoolId, d: DelegationId) -> Result<Amount, Error> {
        PoSAccountingView::get_pool_delegation_share(&self.0, p, d).map_err(|_| Error::ViewFail)
    }
}
type Dyn<'a> = Box<dyn PoSAccountingView<Error = Error> + 'a>;
fn chain<'a>(s: &'a Store, f: &'a Faults, layers: &[PoSAccountingDeltaData]) -> Dyn<'a> {
    let mut v: Dyn<'a> = Box::new(Base(PoSAccountingDB::new(R(s, f))));
    for l in layers {
        v = Box::new(PoSAccountingDelta::from_data(v, l.clone()));
    }
    v
}

#[derive(Clone, Debug)]
pub enum Op {
    CreatePool(u64, u128, u8),
    Decommission(u64),
    Reward(u64, u128),
    CreateDelegation(u64, u64, u8),
    DeleteDelegation(u64),
    Delegate(u64, u128),
    Spend(u64, u128),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pool {
    pledge: u128,
    rewards: u128,
    tag: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Del {
    pool: u64,
    key: u8,
}
/// The balances of the pools and of the delegations are not tracked but follow from the shares.
#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pools: BTreeMap<u64, Pool>,
    dels: BTreeMap<u64, Del>,
    shares: BTreeMap<(u64, u64), u128>,
    /// Per pool and per delegation what the accounting says it holds.
    pool_bal: BTreeMap<u64, u128>,
    del_bal: BTreeMap<u64, u128>,
}
const POOLS: u64 = 4;
const DELS: u64 = 5;
fn pid(i: u64) -> PoolId {
    hid(0x11, i).into()
}
fn did(i: u64) -> DelegationId {
    hid(0x22, i).into()
}
fn key(i: u8) -> Destination {
    if i == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(hid(3, 2 + i as u64).into()) }
}
thread_local! {
    static VRF: VRFPublicKey = VRFPrivateKey::new_from_entropy(crypto::vrf::VRFKeyKind::Schnorrkel).1;
}
fn pool_data(p: &Pool) -> PoolData {
    let vrf = VRF.with(|v| v.clone());
    PoolData::new(key(p.tag), amt(p.pledge), amt(p.rewards), vrf, PerThousand::new(p.tag as u16 * 100).unwrap(), amt(p.tag as u128))
}
impl Model {
    fn derive(&mut self) {
        self.pool_bal.clear();
        self.del_bal.clear();
        for (i, p) in &self.pools {
            let s: u128 = self.shares.iter().filter(|((q, _), _)| q == i).map(|(_, a)| *a).sum();
            if p.pledge + p.rewards + s > 0 {
                self.pool_bal.insert(*i, p.pledge + p.rewards + s);
            }
        }
        for ((_, d), a) in &self.shares {
            self.del_bal.insert(*d, *a);
        }
    }
}
const CAP: u128 = i128::MAX as u128;

pub struct PoS;
impl Kind for PoS {
    type Delta = PoSAccountingDeltaData;
    type Undo = PoSAccountingUndo;
    type Store = Store;
    type Model = Model;
    type Op = Op;
    const NAME: &'static str = "pos";
    fn store() -> Store {
        Store { pool_data: BTreeMap::new(), pool_bal: BTreeMap::new(), del_data: BTreeMap::new(), del_bal: BTreeMap::new(), shares: BTreeMap::new() }
    }
    fn model() -> Model {
        Model { pools: BTreeMap::new(), dels: BTreeMap::new(), shares: BTreeMap::new(), pool_bal: BTreeMap::new(), del_bal: BTreeMap::new() }
    }
    fn empty() -> Self::Delta {
        PoSAccountingDeltaData::new()
    }
    fn gen_op(m: &Model) -> Op {
        let d = pick(&m.dels, DELS);
        // The ids of pools come from spent outputs, so the id of a pool that was decommissioned does not come back, and
        // nothing more is delegated to it (whether its outstanding shares can still be withdrawn is the question).
        let gone = |p: u64| !m.pools.contains_key(&p) && m.dels.values().any(|d| d.pool == p);
        match w(14) {
            0..=2 => {
                let p = w(POOLS);
                if gone(p) { Op::Decommission(p) } else { Op::CreatePool(p, amount(u128::MAX), w(4) as u8) }
            }
            3 => Op::Decommission(pick(&m.pools, POOLS)),
            4 | 5 => Op::Reward(pick(&m.pools, POOLS), amount(if wchance(9, 10) { 1 << 100 } else { u128::MAX })),
            6 | 7 => Op::CreateDelegation(w(DELS), pick(&m.pools, POOLS), w(4) as u8),
            8 => Op::DeleteDelegation(d),
            9..=11 => match m.dels.get(&d) {
                Some(x) if gone(x.pool) => Op::DeleteDelegation(d),
                _ => Op::Delegate(d, amount(if wchance(9, 10) { 1 << 100 } else { u128::MAX })),
            },
            _ => {
                let have = m.del_bal.get(&d).copied().unwrap_or(0);
                Op::Spend(d, if wchance(1, 2) { have } else { amount(have.saturating_add(2)) })
            }
        }
    }
    fn model_apply(m: &mut Model, op: &Op) -> Result<(), &'static str> {
        let too_big = TOO_BIG;
        match *op {
            Op::CreatePool(p, pledge, tag) => {
                if m.pools.contains_key(&p) {
                    return Err("the pool exists");
                }
                if pledge > CAP {
                    return Err(too_big);
                }
                m.pools.insert(p, Pool { pledge, rewards: 0, tag });
            }
            Op::Decommission(p) => {
                m.pools.remove(&p).ok_or("there is no such pool")?;
            }
            Op::Reward(p, a) => {
                let have = m.pool_bal.get(&p).copied().unwrap_or(0);
                let x = m.pools.get_mut(&p).ok_or("there is no such pool")?;
                if a > CAP || have + a > CAP {
                    return Err(too_big);
                }
                x.rewards += a;
            }
            Op::CreateDelegation(d, p, key) => {
                if !m.pools.contains_key(&p) {
                    return Err("there is no such pool");
                }
                if m.dels.contains_key(&d) {
                    return Err("the delegation exists");
                }
                m.dels.insert(d, Del { pool: p, key });
            }
            Op::DeleteDelegation(d) => {
                let x = m.dels.get(&d).ok_or("there is no such delegation")?;
                if m.del_bal.contains_key(&d) {
                    return Err("the delegation still holds coins");
                }
                if m.pools.contains_key(&x.pool) {
                    return Err("the pool still exists");
                }
                m.dels.remove(&d);
            }
            Op::Delegate(d, a) => {
                let x = m.dels.get(&d).ok_or("there is no such delegation")?;
                if a > CAP || m.pool_bal.get(&x.pool).copied().unwrap_or(0) + a > CAP {
                    return Err(too_big);
                }
                if a > 0 {
                    *m.shares.entry((x.pool, d)).or_default() += a;
                }
            }
            Op::Spend(d, a) => {
                let x = m.dels.get(&d).ok_or("there is no such delegation")?;
                let s = m.shares.get(&(x.pool, d)).copied().unwrap_or(0);
                let left = s.checked_sub(a).ok_or(TOO_MUCH)?;
                if left == 0 {
                    m.shares.remove(&(x.pool, d));
                } else {
                    m.shares.insert((x.pool, d), left);
                }
            }
        }
        m.derive();
        Ok(())
    }
    fn rules(_: &Model) -> Result<(), String> {
        Ok(()) // The balances in the model are defined by the rules.
    }
    fn apply(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, op: &Op) -> Result<Self::Undo, String> {
        let mut v = PoSAccountingDelta::from_data(chain(base, f, layers), top.clone());
        let r = match *op {
            Op::CreatePool(p, a, tag) => v.create_pool(pid(p), pool_data(&Pool { pledge: a, rewards: 0, tag })),
            Op::Decommission(p) => v.decommission_pool(pid(p)),
            Op::Reward(p, a) => v.increase_staker_rewards(pid(p), amt(a)),
            Op::CreateDelegation(d, p, k) => v.create_delegation_id(pid(p), did(d), key(k)),
            Op::DeleteDelegation(d) => v.delete_delegation_id(did(d)),
            Op::Delegate(d, a) => v.delegate_staking(did(d), amt(a)),
            Op::Spend(d, a) => v.spend_share_from_delegation_id(did(d), amt(a)),
        };
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn undo(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, u: Self::Undo) -> Result<(), String> {
        let mut v = PoSAccountingDelta::from_data(chain(base, f, layers), top.clone());
        let r = v.undo(u);
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn view(base: &Store, f: &Faults, layers: &[Self::Delta]) -> Result<Model, String> {
        let v = chain(base, f, layers);
        let mut m = Self::model();
        let e = |e: Error| e.to_string();
        for p in 0..POOLS {
            let data = v.get_pool_data(pid(p)).map_err(e)?;
            if v.pool_exists(pid(p)).map_err(e)? != data.is_some() {
                return Err(format!("pool_exists({p}) contradicts get_pool_data"));
            }
            if let Some(d) = data {
                let tag = (0..4u8).find(|t| key(*t) == *d.decommission_destination()).ok_or("unknown decommission key")?;
                let pool = Pool { pledge: d.pledge_amount().into_atoms(), rewards: d.staker_rewards().into_atoms(), tag };
                if pool_data(&pool) != d {
                    return Err(format!("the data of pool {p} is corrupt: {d:?}"));
                }
                m.pools.insert(p, pool);
            }
            let b = v.get_pool_balance(pid(p)).map_err(e)?.into_atoms();
            if b > 0 {
                m.pool_bal.insert(p, b);
            }
            let all = v.get_pool_delegations_shares(pid(p)).map_err(e)?.unwrap_or_default();
            if all.keys().any(|d| !(0..DELS).any(|i| did(i) == *d)) {
                return Err(format!("pool {p} has unknown shares: {all:?}"));
            }
            for d in 0..DELS {
                let s = v.get_pool_delegation_share(pid(p), did(d)).map_err(e)?;
                if all.get(&did(d)).copied().unwrap_or(Amount::ZERO) != s {
                    return Err(format!("the shares of pool {p} contradict that of delegation {d}: {all:?} / {s:?}"));
                }
                if s > Amount::ZERO {
                    m.shares.insert((p, d), s.into_atoms());
                }
            }
        }
        for d in 0..DELS {
            if let Some(x) = v.get_delegation_data(did(d)).map_err(e)? {
                let pool = (0..POOLS).find(|p| pid(*p) == *x.source_pool()).ok_or("unknown pool")?;
                let key = (0..4u8).find(|t| key(*t) == *x.spend_destination()).ok_or("unknown spend key")?;
                m.dels.insert(d, Del { pool, key });
            }
            let b = v.get_delegation_balance(did(d)).map_err(e)?.into_atoms();
            if b > 0 {
                m.del_bal.insert(d, b);
            }
        }
        Ok(m)
    }
    fn merge(below: &mut Self::Delta, top: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Self::Delta) -> Result<(), String>>>, String> {
        let u = below.merge_with_delta(top).map_err(|e| e.to_string())?;
        Ok(Some(Box::new(move |d| d.undo_delta_merge(u).map_err(|e| e.to_string()))))
    }
    fn flush(base: &mut Store, f: &Faults, d: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Store, &Faults) -> Result<(), String>>>, String> {
        let mut db: PoSAccountingDB<_, DefaultStorageTag> = PoSAccountingDB::new(W(base, f));
        let u = if wchance(1, 2) { db.merge_with_delta(d).map_err(|e| e.to_string()) } else { db.batch_write_delta(d).map_err(|e| e.to_string()) }?;
        Ok(Some(Box::new(move |s, f| {
            let mut db: PoSAccountingDB<_, DefaultStorageTag> = PoSAccountingDB::new(W(s, f));
            db.undo_merge_with_delta(u).map_err(|e| e.to_string())
        })))
    }
}
