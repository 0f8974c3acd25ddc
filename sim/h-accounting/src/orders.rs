use std::result::Result;
use crate::util::*;
use crate::world::*;
use common::chain::output_value::OutputValue;
use common::chain::tokens::TokenId;
use common::chain::{Destination, OrderId, OrdersVersion};
use common::primitives::Amount;
use orders_accounting::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Store {
    data: BTreeMap<OrderId, OrderData>,
    ask: BTreeMap<OrderId, Amount>,
    give: BTreeMap<OrderId, Amount>,
}
struct R<'a>(&'a Store, &'a Faults);
struct W<'a>(&'a mut Store, &'a Faults);
type E = StoreErr;
macro_rules! reads {
    ($t:ident) => {
        impl OrdersAccountingStorageRead for $t<'_> {
            type Error = E;
            fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, E> {
                self.1.tick(false)?;
                Ok(self.0.data.get(id).cloned())
            }
            fn get_ask_balance(&self, id: &OrderId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.ask.get(id).copied())
            }
            fn get_give_balance(&self, id: &OrderId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.give.get(id).copied())
            }
            fn get_all_order_ids(&self) -> Result<BTreeSet<OrderId>, E> {
                self.1.tick(false)?;
                Ok(self.0.data.keys().copied().collect())
            }
        }
    };
}
reads!(R);
reads!(W);
impl W<'_> {
    fn write<T>(&mut self, f: impl FnOnce(&mut Store) -> T) -> Result<(), E> {
        self.1.tick(true)?;
        f(self.0);
        Ok(())
    }
}
impl OrdersAccountingStorageWrite for W<'_> {
    fn set_order_data(&mut self, id: &OrderId, d: &OrderData) -> Result<(), E> {
        self.write(|s| s.data.insert(*id, d.clone()))
    }
    fn del_order_data(&mut self, id: &OrderId) -> Result<(), E> {
        self.write(|s| s.data.remove(id))
    }
    fn set_ask_balance(&mut self, id: &OrderId, a: &Amount) -> Result<(), E> {
        self.write(|s| s.ask.insert(*id, *a))
    }
    fn del_ask_balance(&mut self, id: &OrderId) -> Result<(), E> {
        self.write(|s| s.ask.remove(id))
    }
    fn set_give_balance(&mut self, id: &OrderId, a: &Amount) -> Result<(), E> {
        self.write(|s| s.give.insert(*id, *a))
    }
    fn del_give_balance(&mut self, id: &OrderId) -> Result<(), E> {
        self.write(|s| s.give.remove(id))
    }
}
struct Base<'a>(OrdersAccountingDB<R<'a>>);
impl OrdersAccountingView for Base<'_> {
    type Error = Error;
    fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, Error> {
        OrdersAccountingView::get_order_data(&self.0, id).map_err(|_| Error::ViewFail)
    }
    fn get_ask_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        OrdersAccountingView::get_ask_balance(&self.0, id).map_err(|_| Error::ViewFail)
    }
    fn get_give_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        OrdersAccountingView::get_give_balance(&self.0, id).map_err(|_| Error::ViewFail)
    }
    fn get_all_order_ids(&self) -> Result<BTreeSet<OrderId>, Error> {
        OrdersAccountingView::get_all_order_ids(&self.0).map_err(|_| Error::ViewFail)
    }
}
type Dyn<'a> = Box<dyn OrdersAccountingView<Error = Error> + 'a>;
fn layer<P: OrdersAccountingView>(p: P, d: OrdersAccountingDeltaData) -> OrdersAccountingCache<P> {
    let mut c = OrdersAccountingCache::new(p);
    let _ = c.batch_write_orders_data(d).expect("an empty layer takes over a delta");
    c
}
fn chain<'a>(s: &'a Store, f: &'a Faults, layers: &[OrdersAccountingDeltaData]) -> Dyn<'a> {
    let mut v: Dyn<'a> = Box::new(Base(OrdersAccountingDB::new(R(s, f))));
    for l in layers {
        v = Box::new(layer(v, l.clone()));
    }
    v
}

#[derive(Clone, Debug)]
pub enum Op {
    /// id, key, asked token (0: coins) and amount, given token and amount
    Create(u64, u8, (u8, u128), (u8, u128)),
    Conclude(u64),
    Freeze(u64),
    Fill(u64, u128, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    key: u8,
    frozen: bool,
    ask0: (u8, u128),
    give0: (u8, u128),
    ask: u128,
    give: u128,
}
pub type Model = BTreeMap<u64, Order>;
const IDS: u64 = 4;
fn oid(i: u64) -> OrderId {
    hid(0x44, i).into()
}
fn key(i: u8) -> Destination {
    if i == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(hid(3, 2 + i as u64).into()) }
}
fn val((t, a): (u8, u128)) -> OutputValue {
    if t == 0 { OutputValue::Coin(amt(a)) } else { OutputValue::TokenV1(TokenId::new(hid(5, 2 + t as u64)), amt(a)) }
}
fn unval(v: &OutputValue) -> Result<(u8, u128), String> {
    match v {
        OutputValue::Coin(a) => Ok((0, a.into_atoms())),
        OutputValue::TokenV1(t, a) => Ok(((1..4).find(|i| TokenId::new(hid(5, 2 + *i as u64)) == *t).ok_or("unknown token")?, a.into_atoms())),
        _ => Err("unexpected value".into()),
    }
}
const CAP: u128 = i128::MAX as u128;

pub struct Orders;
impl Kind for Orders {
    type Delta = OrdersAccountingDeltaData;
    type Undo = OrdersAccountingUndo;
    type Store = Store;
    type Model = Model;
    type Op = Op;
    const NAME: &'static str = "orders";
    fn store() -> Store {
        Store { data: BTreeMap::new(), ask: BTreeMap::new(), give: BTreeMap::new() }
    }
    fn model() -> Model {
        BTreeMap::new()
    }
    fn empty() -> Self::Delta {
        OrdersAccountingDeltaData::new()
    }
    fn gen_op(m: &Model) -> Op {
        let i = pick(m, IDS);
        match w(12) {
            0..=2 => {
                let a = |big: bool| amount(if big { u128::MAX } else { CAP });
                Op::Create(w(IDS), w(4) as u8, (w(4) as u8, a(wchance(1, 8))), (w(4) as u8, a(wchance(1, 8))))
            }
            3 => Op::Conclude(i),
            4 => Op::Freeze(i),
            _ => {
                let left = m.get(&i).map_or(5, |o| o.ask);
                let a = match w(6) {
                    0 => left,
                    1 => left.saturating_add(1),
                    2 => left / 2,
                    3 => 1,
                    _ => amount(left.saturating_add(1)),
                };
                Op::Fill(i, a, wchance(2, 3))
            }
        }
    }
    fn model_apply(m: &mut Model, op: &Op) -> Result<(), &'static str> {
        match *op {
            Op::Create(i, key, ask0, give0) => {
                if m.contains_key(&i) {
                    return Err("the order exists");
                }
                if ask0.1 == 0 || give0.1 == 0 {
                    return Err("nothing is asked for or given");
                }
                if ask0.1 > CAP || give0.1 > CAP {
                    return Err("more than the largest amount");
                }
                m.insert(i, Order { key, frozen: false, ask0, give0, ask: ask0.1, give: give0.1 });
            }
            Op::Conclude(i) => {
                m.remove(&i).ok_or("there is no such order")?;
            }
            Op::Freeze(i) => {
                let o = m.get_mut(&i).ok_or("there is no such order")?;
                if o.frozen {
                    return Err("the order is frozen");
                }
                o.frozen = true;
            }
            Op::Fill(i, a, v1) => {
                let o = m.get_mut(&i).ok_or("there is no such order")?;
                if o.frozen {
                    return Err("the order is frozen");
                }
                if a > o.ask {
                    return Err("more is paid than is asked for");
                }
                let got = if v1 {
                    mul_div(o.give0.1, a, o.ask0.1).ok_or("overflow")?
                } else if o.ask == 0 {
                    return Err("nothing is asked for any more");
                } else {
                    mul_div(o.give, a, o.ask).ok_or("overflow")?
                };
                if v1 && got == 0 {
                    return Err("nothing would be given");
                }
                o.ask -= a;
                o.give = o.give.checked_sub(got).ok_or("the order does not hold enough")?;
            }
        }
        Ok(())
    }
    fn rules(m: &Model) -> Result<(), String> {
        for (i, o) in m {
            if o.ask > o.ask0.1 || o.give > o.give0.1 {
                return Err(format!("order {i} holds more than at its creation: {o:?}"));
            }
            // paid / given is never below ask / give: given * ask <= paid * give.
            let (paid, given) = (o.ask0.1 - o.ask, o.give0.1 - o.give);
            if mul_div(paid, o.give0.1, o.ask0.1).unwrap_or(u128::MAX) < given {
                return Err(format!("order {i} gave {given} for {paid}, below its price: {o:?}"));
            }
        }
        Ok(())
    }
    fn apply(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, op: &Op) -> Result<Self::Undo, String> {
        let mut v = layer(chain(base, f, layers), top.clone());
        let r = match *op {
            Op::Create(i, k, a, g) => v.create_order(oid(i), OrderData::new(key(k), val(a), val(g))),
            Op::Conclude(i) => v.conclude_order(oid(i)),
            Op::Freeze(i) => v.freeze_order(oid(i)),
            Op::Fill(i, a, v1) => v.fill_order(oid(i), amt(a), if v1 { OrdersVersion::V1 } else { OrdersVersion::V0 }),
        };
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn undo(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, u: Self::Undo) -> Result<(), String> {
        let mut v = layer(chain(base, f, layers), top.clone());
        let r = v.undo(u);
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn view(base: &Store, f: &Faults, layers: &[Self::Delta]) -> Result<Model, String> {
        let v = chain(base, f, layers);
        let mut m = Self::model();
        let e = |e: Error| e.to_string();
        let all = v.get_all_order_ids().map_err(e)?;
        for i in 0..IDS {
            let ask = v.get_ask_balance(&oid(i)).map_err(e)?.into_atoms();
            let give = v.get_give_balance(&oid(i)).map_err(e)?.into_atoms();
            let d = v.get_order_data(&oid(i)).map_err(e)?;
            if d.is_some() != all.contains(&oid(i)) {
                return Err(format!("the list of orders contradicts the data of order {i}"));
            }
            match d {
                Some(d) => {
                    let key = (0..4u8).find(|t| key(*t) == *d.conclude_key()).ok_or("unknown conclude key")?;
                    m.insert(i, Order { key, frozen: d.is_frozen(), ask0: unval(d.ask())?, give0: unval(d.give())?, ask, give });
                }
                None if ask > 0 || give > 0 => return Err(format!("order {i} does not exist but holds {ask} and {give}")),
                None => {}
            }
        }
        if all.len() != m.len() {
            return Err(format!("unknown orders are listed: {all:?}"));
        }
        Ok(m)
    }
    fn merge(below: &mut Self::Delta, top: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Self::Delta) -> Result<(), String>>>, String> {
        below.merge_with_delta(top).map_err(|e| e.to_string())?;
        Ok(None)
    }
    fn flush(base: &mut Store, f: &Faults, d: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Store, &Faults) -> Result<(), String>>>, String> {
        let mut db = OrdersAccountingDB::new(W(base, f));
        if wchance(1, 2) { db.merge_with_delta(d).map_err(|e| e.to_string()) } else { db.batch_write_orders_data(d).map_err(|e| e.to_string()) }?;
        Ok(None)
    }
}
