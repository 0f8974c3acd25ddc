//! An independent ledger: recomputes from the blocks of a chain alone who holds what, and compares the database with it.
use crate::world::*;
use common::chain::signature::Signable;
use common::chain::output_value::OutputValue;
use common::chain::tokens::TokenId;
use common::chain::{
    AccountCommand, AccountNonce, AccountSpending, AccountType, DelegationId, OrderAccountCommand, OrderId, PoolId, TxInput, TxOutput, UtxoOutPoint, make_order_id, make_token_id,
};
use common::primitives::{Amount, BlockHeight, Idable};
use detsim::*;
use serialization::DecodeAll;
use std::collections::BTreeMap;

/// A currency: the coin, or a token.
type Cur = Option<TokenId>;
struct Order {
    ask: (Cur, u128),
    give: (Cur, u128),
    ask_left: u128,
    give_left: u128,
}
#[derive(Default)]
struct Ledger {
    utxos: BTreeMap<UtxoOutPoint, (TxOutput, u64)>,
    nonces: BTreeMap<AccountType, u64>,
    /// What exists of each currency.
    exists: BTreeMap<Cur, i128>,
    supply: BTreeMap<TokenId, i128>,
    orders: BTreeMap<OrderId, Order>,
}
fn value(v: &OutputValue) -> (Cur, u128) {
    match v {
        OutputValue::Coin(a) => (None, a.into_atoms()),
        OutputValue::TokenV1(id, a) => (Some(*id), a.into_atoms()),
        OutputValue::TokenV0(_) => (None, 0),
    }
}
/// What an unspent output is worth by itself; pools are worth what the accounting says.
fn worth(o: &TxOutput) -> (Cur, u128) {
    match o {
        TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Htlc(v, _) => value(v),
        TxOutput::IssueNft(id, _, _) => (Some(*id), 1),
        _ => (None, 0),
    }
}
fn table<K: DecodeAll + Ord, V: DecodeAll>(d: &Dump, name: &str) -> BTreeMap<K, V> {
    let mut out = BTreeMap::new();
    let mut found = false;
    for (k, m) in d {
        if k.ends_with(name) {
            found = true;
            for (a, b) in m {
                let a = K::decode_all(&mut &a[..]).unwrap_or_else(|e| harness_error(format!("{name} key: {e}")));
                let b = V::decode_all(&mut &b[..]).unwrap_or_else(|e| harness_error(format!("{name} value: {e}")));
                out.insert(a, b);
            }
        }
    }
    if !found {
        harness_error(format!("no map {name}"));
    }
    out
}
fn staker_balances(d: &Dump) -> BTreeMap<PoolId, u128> {
    table::<PoolId, pos_accounting::PoolData>(d, "DBAccountingPoolDataTip").into_iter().map(|(k, v)| (k, v.staker_balance().expect("staker balance").into_atoms())).collect()
}

impl Ledger {
    fn put(&mut self, at: UtxoOutPoint, o: &TxOutput, height: u64) {
        let keep = matches!(
            o,
            TxOutput::Transfer(..) | TxOutput::LockThenTransfer(..) | TxOutput::Htlc(..) | TxOutput::CreateStakePool(..) | TxOutput::ProduceBlockFromStake(..) | TxOutput::IssueNft(..)
        );
        if keep {
            let old = self.utxos.insert(at.clone(), (o.clone(), height));
            check!(old.is_none(), "C04/output_twice", "output {at:?} exists twice");
        }
    }
    fn spend(&mut self, o: &UtxoOutPoint, when: &str) -> TxOutput {
        let Some((out, _)) = self.utxos.remove(o) else {
            violation("C04/double_spend", format!("{when} the best chain spends {o:?}, which does not exist or was spent before"));
        };
        out
    }
    fn nonce(&mut self, a: AccountType, n: AccountNonce, when: &str) {
        let want = self.nonces.get(&a).map_or(0, |x| x + 1);
        check!(n.value() == want, "C04/nonce", "{when} the best chain uses nonce {} of {a:?}, the next is {want}", n.value());
        self.nonces.insert(a, want);
    }
    /// Buys from an order: what is paid goes to the order, what is got comes out of it.
    fn fill(&mut self, id: &OrderId, paid: Amount, original_price: bool, when: &str) -> ((Cur, u128), (Cur, u128)) {
        let Some(o) = self.orders.get_mut(id) else { violation("C04/order", format!("{when} order {id:?} is filled but does not exist")) };
        let paid = paid.into_atoms();
        check!(paid <= o.ask_left, "C04/order", "{when} order {id:?} is filled with {paid}, only {} is asked for", o.ask_left);
        let (g, a) = if original_price { (o.give.1, o.ask.1) } else { (o.give_left, o.ask_left) };
        let got = if a == 0 { 0 } else { ((common::Uint256::from_u128(g) * common::Uint256::from_u128(paid)).unwrap() / common::Uint256::from_u128(a)).try_into_u128() };
        check!(got <= o.give_left, "C04/order", "{when} order {id:?} gives {got} of {}", o.give_left);
        o.ask_left -= paid;
        o.give_left -= got;
        ((o.ask.0, paid), (o.give.0, got))
    }
    fn conclude(&mut self, id: &OrderId, when: &str) -> [(Cur, u128); 2] {
        let Some(o) = self.orders.remove(id) else { violation("C04/order", format!("{when} order {id:?} is concluded but does not exist")) };
        [(o.ask.0, o.ask.1 - o.ask_left), (o.give.0, o.give_left)]
    }
    fn block(&mut self, wd: &World, i: usize, when: &str) {
        let cfg = &wd.cfg;
        let b = &wd.blks[i];
        let h = BlockHeight::new(b.height);
        let when = &format!("{when} (b{i})")[..];
        let mut pools = staker_balances(&wd.state(b.parent));
        let mut fees = 0i128;
        for tx in b.block.transactions() {
            let tx = tx.transaction();
            // Plus what goes in, minus what goes out.
            let mut sum: BTreeMap<Cur, i128> = BTreeMap::new();
            let mut mandatory = 0u128;
            let mut unmint = vec![];
            let mut minted: Vec<(TokenId, u128)> = vec![];
            for inp in tx.inputs() {
                let mut add = |c: Cur, a: u128| *sum.entry(c).or_default() += a as i128;
                match inp {
                    TxInput::Utxo(o) => match self.spend(o, when) {
                        TxOutput::CreateStakePool(id, _) | TxOutput::ProduceBlockFromStake(_, id) => {
                            let Some(a) = pools.remove(&id) else { violation("C04/pool_twice", format!("{when} pool {id:?} pays out and is not there")) };
                            add(None, a)
                        }
                        out => {
                            let (c, a) = worth(&out);
                            add(c, a)
                        }
                    },
                    TxInput::Account(o) => {
                        let AccountSpending::DelegationBalance(id, a) = o.account();
                        self.nonce(AccountType::Delegation(*id), o.nonce(), when);
                        add(None, a.into_atoms());
                    }
                    TxInput::AccountCommand(n, c) => {
                        self.nonce(c.into(), *n, when);
                        let fee = match c {
                            AccountCommand::MintTokens(id, a) => {
                                minted.push((*id, a.into_atoms()));
                                add(Some(*id), a.into_atoms());
                                cfg.token_supply_change_fee(h)
                            }
                            AccountCommand::UnmintTokens(id) => {
                                unmint.push(*id);
                                cfg.token_supply_change_fee(h)
                            }
                            AccountCommand::LockTokenSupply(_) => cfg.token_supply_change_fee(h),
                            AccountCommand::FreezeToken(..) | AccountCommand::UnfreezeToken(_) => cfg.token_freeze_fee(h),
                            AccountCommand::ChangeTokenAuthority(..) => cfg.token_change_authority_fee(h),
                            AccountCommand::ChangeTokenMetadataUri(..) => cfg.token_change_metadata_uri_fee(),
                            AccountCommand::ConcludeOrder(id) => {
                                for (c, a) in self.conclude(id, when) {
                                    add(c, a);
                                }
                                Amount::ZERO
                            }
                            AccountCommand::FillOrder(id, a, _) => {
                                let (paid, got) = self.fill(id, *a, false, when);
                                add(got.0, got.1);
                                *sum.entry(paid.0).or_default() -= paid.1 as i128;
                                Amount::ZERO
                            }
                        };
                        mandatory += fee.into_atoms();
                    }
                    TxInput::OrderAccountCommand(c) => match c {
                        OrderAccountCommand::FillOrder(id, a) => {
                            let (paid, got) = self.fill(id, *a, true, when);
                            add(got.0, got.1);
                            *sum.entry(paid.0).or_default() -= paid.1 as i128;
                        }
                        OrderAccountCommand::ConcludeOrder(id) => {
                            for (c, a) in self.conclude(id, when) {
                                add(c, a);
                            }
                        }
                        OrderAccountCommand::FreezeOrder(_) => {}
                    },
                }
            }
            let mut burnt: BTreeMap<Cur, i128> = BTreeMap::new();
            for (k, o) in tx.outputs().iter().enumerate() {
                self.put(UtxoOutPoint::new(tx.get_id().into(), k as u32), o, b.height);
                let (c, a) = match o {
                    TxOutput::Burn(v) => {
                        let (c, a) = value(v);
                        *burnt.entry(c).or_default() += a as i128;
                        (None, 0)
                    }
                    TxOutput::CreateStakePool(id, d) => {
                        pools.insert(*id, d.pledge().into_atoms());
                        (None, d.pledge().into_atoms())
                    }
                    TxOutput::DelegateStaking(a, _) => (None, a.into_atoms()),
                    TxOutput::IssueFungibleToken(_) => {
                        mandatory += cfg.fungible_token_issuance_fee().into_atoms();
                        let id = make_token_id(cfg, h, tx.inputs()).expect("token id");
                        let old = self.supply.insert(id, 0);
                        check!(old.is_none(), "C04/token_twice", "{when} token {id:?} is issued twice");
                        (None, 0)
                    }
                    TxOutput::IssueNft(id, _, _) => {
                        mandatory += cfg.nft_issuance_fee(h).into_atoms();
                        minted.push((*id, 1));
                        *sum.entry(Some(*id)).or_default() += 1;
                        let old = self.exists.get(&Some(*id));
                        check!(old.is_none(), "C04/token_twice", "{when} token {id:?} is issued twice");
                        (Some(*id), 1)
                    }
                    TxOutput::DataDeposit(_) => {
                        mandatory += cfg.data_deposit_fee(h).into_atoms();
                        (None, 0)
                    }
                    TxOutput::CreateOrder(d) => {
                        let id = make_order_id(tx.inputs()).expect("order id");
                        let (ask, give) = (value(d.ask()), value(d.give()));
                        let old = self.orders.insert(id, Order { ask, give, ask_left: ask.1, give_left: give.1 });
                        check!(old.is_none(), "C04/order", "{when} order {id:?} is created twice");
                        give
                    }
                    o => worth(o),
                };
                *sum.entry(c).or_default() -= a as i128;
            }
            for (id, a) in &minted {
                *self.exists.entry(Some(*id)).or_default() += *a as i128;
                if let Some(s) = self.supply.get_mut(id) {
                    *s += *a as i128;
                }
            }
            for id in unmint {
                *self.supply.entry(id).or_default() -= burnt.get(&Some(id)).copied().unwrap_or(0);
            }
            // Whatever is left over after outputs and burns is the fee; it cannot be less than nothing.
            for (c, left) in &sum {
                let rest = left - burnt.get(c).copied().unwrap_or(0) - if c.is_none() { mandatory as i128 } else { 0 };
                let what = match c {
                    None => "coins".to_string(),
                    Some(id) => format!("of token {id:?}"),
                };
                check!(rest >= 0, "C04/created", "{when} transaction {:?} gives out {} {what} more than it takes in, burns and pays", tx.get_id(), -rest);
                *self.exists.entry(*c).or_default() -= left;
                if c.is_none() {
                    fees += rest;
                }
            }
            for (c, a) in &burnt {
                check!(sum.contains_key(c) || *a == 0, "C04/created", "{when} transaction {:?} burns what it does not have", tx.get_id());
            }
        }
        let reward = b.block.block_reward_transactable();
        for inp in reward.inputs().unwrap_or(&[]) {
            if let TxInput::Utxo(o) = inp {
                self.spend(&o.clone(), when);
            }
        }
        let subsidy = cfg.block_subsidy_at_height(&h).into_atoms() as i128;
        let mut paid = 0i128;
        for (k, o) in reward.outputs().unwrap_or(&[]).iter().enumerate() {
            self.put(UtxoOutPoint::new(b.id.into(), k as u32), o, b.height);
            paid += worth(o).1 as i128;
        }
        if wd.pos {
            paid += subsidy + fees;
        }
        check!(paid <= subsidy + fees, "C04/reward", "{when} the block reward is {paid}, more than the subsidy {subsidy} and fees {fees}");
        *self.exists.entry(None).or_default() += paid;
    }
}
trait ToU128 {
    fn try_into_u128(self) -> u128;
}
impl ToU128 for Option<common::Uint256> {
    fn try_into_u128(self) -> u128 {
        self.and_then(|x| x.try_into().ok()).unwrap_or(u128::MAX)
    }
}

pub fn check(wd: &World, t: Option<usize>, state: &Dump, when: &str) {
    let mut l = Ledger::default();
    let cfg = &wd.cfg;
    let genesis = cfg.genesis_block();
    let mut start = 0;
    for (k, o) in genesis.utxos().iter().enumerate() {
        l.put(UtxoOutPoint::new(cfg.genesis_block_id().into(), k as u32), o, 0);
        start += worth(o).1 as i128;
        if let TxOutput::CreateStakePool(_, d) = o {
            start += d.pledge().into_atoms() as i128;
        }
    }
    l.exists.insert(None, start);
    for i in wd.path(t) {
        l.block(wd, i, when);
    }
    let name = wd.name(t);
    // Outputs.
    let utxos: BTreeMap<UtxoOutPoint, utxo::Utxo> = table(state, "DBUtxo");
    for (o, u) in &utxos {
        let Some((out, h)) = l.utxos.get(o) else {
            violation("C04/spent_output_still_there", format!("{when}, tip {name}: output {o:?} counts as unspent, it was spent on the best chain or never existed"))
        };
        check!(u.output() == out, "C04/output_changed", "{when}, tip {name}: output {o:?} is {:?} instead of {out:?}", u.output());
        let uh = u.source().blockchain_height().map(|x| x.into_int()).unwrap_or(u64::MAX);
        check!(uh == *h, "C04/output_changed", "{when}, tip {name}: output {o:?} is from height {uh} instead of {h}");
    }
    for o in l.utxos.keys() {
        check!(utxos.contains_key(o), "C04/output_lost", "{when}, tip {name}: output {o:?} is unspent on the best chain but unknown");
    }
    // Nonces.
    let nonces: BTreeMap<AccountType, AccountNonce> = table(state, "DBAccountNonceCount");
    let got: BTreeMap<AccountType, u64> = nonces.into_iter().map(|(k, v)| (k, v.value())).collect();
    check!(got == l.nonces, "C04/nonce", "{when}, tip {name}: account nonces {got:?} instead of {:?}", l.nonces);
    // Orders.
    let ask: BTreeMap<OrderId, Amount> = table(state, "DBOrdersAskBalances");
    let give: BTreeMap<OrderId, Amount> = table(state, "DBOrdersGiveBalances");
    let data: BTreeMap<OrderId, orders_accounting::OrderData> = table(state, "DBOrdersData");
    let mut held: BTreeMap<Cur, i128> = BTreeMap::new();
    for (id, d) in &data {
        let (a, g) = (ask.get(id).map_or(0, |x| x.into_atoms()), give.get(id).map_or(0, |x| x.into_atoms()));
        let want = l.orders.get(id).map(|o| (o.ask_left, o.give_left));
        check!(want == Some((a, g)), "C04/order", "{when}, tip {name}: order {id:?} asks for {a} and gives {g}, it should be {want:?}");
        let (wa, wg) = (value(d.ask()), value(d.give()));
        *held.entry(wa.0).or_default() += (wa.1 - a) as i128;
        *held.entry(wg.0).or_default() += g as i128;
    }
    for id in l.orders.keys() {
        check!(data.contains_key(id), "C04/order", "{when}, tip {name}: order {id:?} is gone");
    }
    for (id, a) in ask.iter().chain(give.iter()) {
        check!(data.contains_key(id) || *a == Amount::ZERO, "C04/order", "{when}, tip {name}: balance {a:?} of an order {id:?} that does not exist");
    }
    // Everything that exists is held by someone.
    for u in utxos.values() {
        let (c, a) = worth(u.output());
        *held.entry(c).or_default() += a as i128;
    }
    let pools = staker_balances(state);
    let delegations: BTreeMap<DelegationId, Amount> = table(state, "DBAccountingDelegationBalancesTip");
    *held.entry(None).or_default() += pools.values().sum::<u128>() as i128 + delegations.values().map(|x| x.into_atoms()).sum::<u128>() as i128;
    let curs: std::collections::BTreeSet<Cur> = held.keys().chain(l.exists.keys()).copied().collect();
    for c in curs {
        let (h, e) = (held.get(&c).copied().unwrap_or(0), l.exists.get(&c).copied().unwrap_or(0));
        let what = match c {
            None => "coins".to_string(),
            Some(id) => format!("of token {id:?}"),
        };
        check!(h == e, "C04/total", "{when}, tip {name}: {h} {what} are held in outputs, pools, delegations and orders, {e} should exist");
    }
    // Circulating supply of tokens.
    let supply: BTreeMap<TokenId, Amount> = table(state, "DBTokensCirculatingSupply");
    for id in supply.keys().chain(l.supply.keys()) {
        let (h, e) = (supply.get(id).map_or(0, |x| x.into_atoms() as i128), l.supply.get(id).copied().unwrap_or(0));
        check!(h == e, "C04/supply", "{when}, tip {name}: the circulating supply of {id:?} is {h}, {e} was minted and not unminted");
    }
    // A pool's balance is what its staker and its delegators have in it.
    let balances: BTreeMap<PoolId, Amount> = table(state, "DBAccountingPoolBalancesTip");
    let shares: BTreeMap<(PoolId, DelegationId), Amount> = table(state, "DBAccountingPoolDelegationSharesTip");
    for (id, staker) in &pools {
        let a = balances.get(id).copied().unwrap_or(Amount::ZERO);
        let s = staker + shares.iter().filter(|((p, _), _)| p == id).map(|(_, a)| a.into_atoms()).sum::<u128>();
        check!(a.into_atoms() == s, "C04/pool_balance", "{when}, tip {name}: pool {id:?} has {a:?}, its staker and delegators {s}");
    }
    for ((p, d), a) in &shares {
        check!(delegations.get(d) == Some(a), "C04/pool_balance", "{when}, tip {name}: delegation {d:?} has {:?}, its share of pool {p:?} is {a:?}", delegations.get(d));
    }
    count("ledger.checks", 1);
    count("ledger.outputs", utxos.len() as u64);
}
