BUGS=[]
C={'common':'{ path = "@REPO@/common" }','accounting':'{ path = "@REPO@/accounting" }'}
BUGS.append(dict(id='a01-undo-spend-after-decommission',prop='A01',harness='h-accounting',props=['A02'],
 edits=[('pos-accounting/src/pool/delta/operator_impls.rs','''        self.add_to_delegation_balance(undo_data.delegation_id, undo_data.amount)?;

        // it's possible that the pool was decommissioned
        if self.pool_exists(pool_id)? {
            self.add_balance_to_pool(pool_id, undo_data.amount)?;
        }

        self.add_delegation''','''        self.add_to_delegation_balance(undo_data.delegation_id, undo_data.amount)?;
        self.add_balance_to_pool(pool_id, undo_data.amount)?;
        self.add_delegation''')],
 needs='a delegation is spent after its pool was decommissioned, and that spend is undone',
 breaks='the undo gives a balance to a pool that does not exist, so the state before the spend is not restored',
 deps={**C,'pos-accounting':'{ path = "@REPO@/pos-accounting" }','crypto':'{ path = "@REPO@/crypto" }'}, shims=True, gitvendor=True, main='''
use common::chain::{DelegationId, Destination, PoolId};
use common::primitives::{per_thousand::PerThousand, Amount, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use pos_accounting::*;
fn main() {
    let mut store = InMemoryPoSAccounting::new();
    let mut db = PoSAccountingDB::new(&mut store);
    let (_, vrf) = VRFPrivateKey::new_from_entropy(VRFKeyKind::Schnorrkel);
    let pool = PoolId::new(H256::from_low_u64_be(1));
    let del = DelegationId::new(H256::from_low_u64_be(2));
    let amt = Amount::from_atoms;
    let mut d = PoSAccountingDelta::new(&mut db);
    let _ = d.create_pool(pool, PoolData::new(Destination::AnyoneCanSpend, amt(100), Amount::ZERO, vrf, PerThousand::new(0).unwrap(), Amount::ZERO)).unwrap();
    let _ = d.create_delegation_id(pool, del, Destination::AnyoneCanSpend).unwrap();
    let _ = d.delegate_staking(del, amt(50)).unwrap();
    let _ = d.decommission_pool(pool).unwrap();
    let before = (d.get_pool_balance(pool).unwrap(), d.get_delegation_balance(del).unwrap(), d.get_pool_delegation_share(pool, del).unwrap());
    let u = d.spend_share_from_delegation_id(del, amt(20)).unwrap();
    d.undo(u).unwrap();
    let after = (d.get_pool_balance(pool).unwrap(), d.get_delegation_balance(del).unwrap(), d.get_pool_delegation_share(pool, del).unwrap());
    if before != after { println!("before {before:?} after undo {after:?}"); std::process::exit(1); }
}
'''))
BUGS.append(dict(id='a02-limit-ignores-pending-mints',prop='A02',harness='h-accounting',
 edits=[('tokens-accounting/src/cache.rs','''                        let circulating_supply = self.get_circulating_supply(&id)?;
                        let expected_circulating_supply =''','''                        let circulating_supply =
                            self.parent.get_circulating_supply(&id).map_err(|_| Error::ViewFail)?;
                        let expected_circulating_supply =''')],
 needs='two mints of a fixed-supply token that are pending in the same layer and only together exceed the limit',
 breaks='the circulating supply exceeds the fixed limit',
 deps={**C,'tokens-accounting':'{ path = "@REPO@/tokens-accounting" }'},shims=True,gitvendor=True,main='''
use common::chain::{Destination, tokens::{IsTokenFreezable, TokenId, TokenTotalSupply, TokenIssuance, TokenIssuanceV1}};
use common::primitives::{Amount, H256};
use tokens_accounting::*;
fn main() {
    let mut store = InMemoryTokensAccounting::new();
    let db = TokensAccountingDB::new(&mut store);
    let mut c = TokensAccountingCache::new(&db);
    let id = TokenId::new(H256::from_low_u64_be(1));
    let issuance = TokenIssuance::V1(TokenIssuanceV1 { token_ticker: b"ABC".to_vec(), number_of_decimals: 0, metadata_uri: vec![], total_supply: TokenTotalSupply::Fixed(Amount::from_atoms(100)), authority: Destination::AnyoneCanSpend, is_freezable: IsTokenFreezable::No });
    let TokenIssuance::V1(issuance) = issuance;
    let _ = c.issue_token(id, TokenData::FungibleToken(FungibleTokenData::new_unchecked(issuance.token_ticker, issuance.number_of_decimals, issuance.metadata_uri, issuance.total_supply, false, common::chain::tokens::IsTokenFrozen::No(issuance.is_freezable), issuance.authority))).unwrap();
    let _ = c.mint_tokens(id, Amount::from_atoms(60)).unwrap();
    let second = c.mint_tokens(id, Amount::from_atoms(60));
    let s = c.get_circulating_supply(&id).unwrap();
    if second.is_ok() || s > Amount::from_atoms(100) { println!("supply {s:?} with limit 100"); std::process::exit(1); }
}
'''))
BUGS.append(dict(id='a02-overbid-checked-against-original-ask',prop='A02',harness='h-accounting',
 edits=[('orders-accounting/src/price_calculation.rs','''    // Check overbid anyway
    let current_ask_balance =
        view.get_ask_balance(&order_id).map_err(|_| crate::Error::ViewFail)?;
    ensure!(
        current_ask_balance >= fill_amount_in_ask_currency,
        Error::OrderOverbid(order_id, current_ask_balance, fill_amount_in_ask_currency)
    );
''','''    // Check overbid anyway
    ensure!(
        original_ask >= fill_amount_in_ask_currency,
        Error::OrderOverbid(order_id, original_ask, fill_amount_in_ask_currency)
    );
''')],
 needs='a partly filled order (V1 rules) is filled again with more than is still asked',
 breaks='an order gives out more than it holds; its balances go below zero in the pending layer',
 deps={**C,'orders-accounting':'{ path = "@REPO@/orders-accounting" }'},shims=True,gitvendor=True,main='''
use common::chain::{Destination, OrderId, OrdersVersion, OrderData as ChainOrder, output_value::OutputValue};
use common::primitives::{Amount, H256};
use orders_accounting::*;
fn main() {
    let mut store = InMemoryOrdersAccounting::new();
    let db = OrdersAccountingDB::new(&mut store);
    let mut c = OrdersAccountingCache::new(&db);
    let id = OrderId::new(H256::from_low_u64_be(1));
    let a = Amount::from_atoms;
    let _ = c.create_order(id, ChainOrder::new(Destination::AnyoneCanSpend, OutputValue::Coin(a(100)), OutputValue::Coin(a(200))).into()).unwrap();
    let _ = c.fill_order(id, a(80), OrdersVersion::V1).unwrap();
    if c.fill_order(id, a(80), OrdersVersion::V1).is_ok() { println!("an order asking for 20 more was filled with 80"); std::process::exit(1); }
}
'''))
BUGS.append(dict(id='s02-commit-releases-lock-between-maps',prop='S02',harness='h-storage',props=['S01'],
 edits=[('storage/core/src/adaptor/locking.rs','''    db: sync::RwLockWriteGuard<'tx, T>,
    deltas''','''    lock: &'tx sync::RwLock<T>,
    db: sync::RwLockWriteGuard<'tx, T>,
    deltas'''),('storage/core/src/adaptor/locking.rs','''        for (idx, kvmap) in self.deltas.into_iter_with_id() {
            for (key, val) in kvmap {''','''        for (idx, kvmap) in self.deltas.into_iter_with_id() {
            if kvmap.len() > 64 {
                // A large batch: let the waiting readers in before writing it.
                drop(self.db);
                self.db = self.lock.write().expect("lock to be alive");
            }
            for (key, val) in kvmap {'''),('storage/core/src/adaptor/locking.rs','''        Ok(TxRw {
            db: self.db.write().expect("lock to be alive"),
            deltas''','''        Ok(TxRw {
            lock: &*self.db,
            db: self.db.write().expect("lock to be alive"),
            deltas''')],
 needs='a transaction that changes two maps, one of them in more than 64 places, and a reader or writer that starts while it is being committed',
 breaks='a transaction starting at that moment sees the first map changed and the second one not',
 deps={'storage-core':'{ path = "@REPO@/storage/core" }','storage-inmemory':'{ path = "@REPO@/storage/inmemory" }','utils':'{ path = "@REPO@/utils" }'},shims=True,gitvendor=True,main='''
use storage_core::{backend::*, DbMapDesc, DbMapId};
use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
fn main() {
    let desc = storage_core::types::construct::db_desc((0..2).map(|i| DbMapDesc::new(format!("m{i}"))));
    let st = storage_inmemory::InMemory::new().open(desc).unwrap();
    let (m0, m1) = (DbMapId::new(0), DbMapId::new(1));
    let bad = Arc::new(AtomicBool::new(false)); let stop = Arc::new(AtomicBool::new(false));
    let readers: Vec<_> = (0..4).map(|_| { let (st, bad, stop) = (st.clone(), bad.clone(), stop.clone()); std::thread::spawn(move || while !stop.load(Ordering::SeqCst) {
        let tx = st.transaction_ro().unwrap();
        let a = tx.get(m0, b"k").unwrap().map(|v| v.to_vec()); let b = tx.get(m1, b"k").unwrap().map(|v| v.to_vec());
        if a != b { bad.store(true, Ordering::SeqCst); }
    })}).collect();
    for i in 0..3000u32 {
        let mut tx = SharedBackendImpl::transaction_rw(&st, None).unwrap();
        let v = i.to_le_bytes().to_vec();
        tx.put(m0, b"k".to_vec(), v.clone()).unwrap(); tx.put(m1, b"k".to_vec(), v.clone()).unwrap();
        for n in 0..100u32 { tx.put(m1, n.to_le_bytes().to_vec(), v.clone()).unwrap(); }
        tx.commit().unwrap();
        if bad.load(Ordering::SeqCst) { break; }
    }
    stop.store(true, Ordering::SeqCst);
    for r in readers { r.join().unwrap(); }
    if bad.load(Ordering::SeqCst) { println!("a reader saw half of a commit"); std::process::exit(1); }
}
'''))
BUGS.append(dict(id='s06-dump-skips-failing-map',prop='S06',harness='h-storage',
 edits=[('storage/src/database/raw.rs','''            let items = dbtx.dbtx.prefix_iter(idx, Vec::new())?;
            Ok((DbMapId::from_idx_unchecked(idx), items.collect()))''','''            let items = dbtx
                .dbtx
                .prefix_iter(idx, Vec::new())
                .map(|items| items.collect())
                .unwrap_or_default();
            Ok((DbMapId::from_idx_unchecked(idx), items))''')],
 needs='the storage fails while one of the maps is read for a dump',
 breaks='the dump succeeds with that map empty, and restoring it silently loses the data',
 deps={'storage':'{ path = "@REPO@/storage" }','storage-core':'{ path = "@REPO@/storage/core" }','storage-inmemory':'{ path = "@REPO@/storage/inmemory" }','utils':'{ path = "@REPO@/utils" }'},shims=True,gitvendor=True,main='''
use std::{borrow::Cow, sync::atomic::{AtomicBool, Ordering}};
use storage_core::{backend::*, error::{Error, Recoverable}, Data, DbDesc, DbMapId};
static FAIL: AtomicBool = AtomicBool::new(false);
type Inner = <storage_inmemory::InMemory as Backend>::Impl;
struct B; struct I(Inner);
struct Ro<'a>(<Inner as BackendImpl>::TxRo<'a>);
impl Backend for B { type Impl = I; fn open(self, d: DbDesc) -> storage_core::Result<I> { Ok(I(storage_inmemory::InMemory::new().open(d)?)) } }
impl BackendImpl for I {
    type TxRo<'a> = Ro<'a>; type TxRw<'a> = <Inner as BackendImpl>::TxRw<'a>;
    fn transaction_ro(&self) -> storage_core::Result<Ro<'_>> { Ok(Ro(self.0.transaction_ro()?)) }
    fn transaction_rw(&mut self, s: Option<usize>) -> storage_core::Result<Self::TxRw<'_>> { BackendImpl::transaction_rw(&mut self.0, s) }
}
impl ReadOps for Ro<'_> {
    fn get(&self, m: DbMapId, k: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> { self.0.get(m, k) }
    fn prefix_iter(&self, m: DbMapId, p: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        if FAIL.load(Ordering::SeqCst) { return Err(Error::Recoverable(Recoverable::TemporarilyUnavailable)); }
        self.0.prefix_iter(m, p)
    }
    fn greater_equal_iter(&self, m: DbMapId, k: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> { self.0.greater_equal_iter(m, k) }
}
impl TxRo for Ro<'_> {}
storage::decl_schema! { S { M: Map<u32, u32>, } }
fn main() {
    let mut st = storage::Storage::<B, S>::new(B).unwrap();
    let mut tx = st.transaction_rw(None).unwrap();
    tx.get_mut::<M, _>().put(1, 2).unwrap(); tx.commit().unwrap();
    FAIL.store(true, Ordering::SeqCst);
    if st.transaction_ro().unwrap().dump_raw().is_ok() { println!("the dump succeeded although the map could not be read"); std::process::exit(1); }
}
'''))
