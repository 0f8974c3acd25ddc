use std::result::Result;
use crate::util::*;
use crate::world::*;
use common::chain::Destination;
use common::chain::tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenTotalSupply};
use common::primitives::Amount;
use std::collections::BTreeMap;
use tokens_accounting::*;

#[derive(Clone)]
pub struct Store {
    data: BTreeMap<TokenId, TokenData>,
    supply: BTreeMap<TokenId, Amount>,
}
struct R<'a>(&'a Store, &'a Faults);
struct W<'a>(&'a mut Store, &'a Faults);
type E = StoreErr;
macro_rules! reads {
    ($t:ident) => {
        impl TokensAccountingStorageRead for $t<'_> {
            type Error = E;
            fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, E> {
                self.1.tick(false)?;
                Ok(self.0.data.get(id).cloned())
            }
            fn get_circulating_supply(&self, id: &TokenId) -> Result<Option<Amount>, E> {
                self.1.tick(false)?;
                Ok(self.0.supply.get(id).copied())
            }
        }
    };
}
reads!(R);
reads!(W);
impl TokensAccountingStorageWrite for W<'_> {
    fn set_token_data(&mut self, id: &TokenId, d: &TokenData) -> Result<(), E> {
        self.1.tick(true)?;
        self.0.data.insert(*id, d.clone());
        Ok(())
    }
    fn del_token_data(&mut self, id: &TokenId) -> Result<(), E> {
        self.1.tick(true)?;
        self.0.data.remove(id);
        Ok(())
    }
    fn set_circulating_supply(&mut self, id: &TokenId, a: &Amount) -> Result<(), E> {
        self.1.tick(true)?;
        self.0.supply.insert(*id, *a);
        Ok(())
    }
    fn del_circulating_supply(&mut self, id: &TokenId) -> Result<(), E> {
        self.1.tick(true)?;
        self.0.supply.remove(id);
        Ok(())
    }
}
struct Base<'a>(TokensAccountingDB<R<'a>>);
impl TokensAccountingView for Base<'_> {
    type Error = Error;
    fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, Error> {
        TokensAccountingView::get_token_data(&self.0, id).map_err(|_| Error::ViewFail)
    }
    fn get_circulating_supply(&self, id: &TokenId) -> Result<Amount, Error> {
        TokensAccountingView::get_circulating_supply(&self.0, id).map_err(|_| Error::ViewFail)
    }
}
type Dyn<'a> = Box<dyn TokensAccountingView<Error = Error> + 'a>;
fn layer<P: TokensAccountingView>(p: P, d: TokensAccountingDeltaData) -> TokensAccountingCache<P> {
    let mut c = TokensAccountingCache::new(p);
    let _ = c.batch_write_tokens_data(d).expect("an empty layer takes over a delta");
    c
}
fn chain<'a>(s: &'a Store, f: &'a Faults, layers: &[TokensAccountingDeltaData]) -> Dyn<'a> {
    let mut v: Dyn<'a> = Box::new(Base(TokensAccountingDB::new(R(s, f))));
    for l in layers {
        v = Box::new(layer(v, l.clone()));
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Supply {
    Fixed(u128),
    Lockable,
    Unlimited,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Frozen {
    No { freezable: bool },
    Yes { unfreezable: bool },
}
#[derive(Clone, Debug)]
pub enum Op {
    Issue(u64, Supply, bool, u8),
    Mint(u64, u128),
    Unmint(u64, u128),
    Lock(u64),
    Freeze(u64, bool),
    Unfreeze(u64),
    Authority(u64, u8),
    Uri(u64, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    supply: Supply,
    locked: bool,
    frozen: Frozen,
    authority: u8,
    uri: u8,
    circulating: u128,
}
pub type Model = BTreeMap<u64, Token>;
const IDS: u64 = 4;
fn tid(i: u64) -> TokenId {
    hid(0x33, i).into()
}
fn key(i: u8) -> Destination {
    if i == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(hid(3, 2 + i as u64).into()) }
}
fn total(s: Supply) -> TokenTotalSupply {
    match s {
        Supply::Fixed(a) => TokenTotalSupply::Fixed(amt(a)),
        Supply::Lockable => TokenTotalSupply::Lockable,
        Supply::Unlimited => TokenTotalSupply::Unlimited,
    }
}
fn frozen(f: Frozen) -> IsTokenFrozen {
    match f {
        Frozen::No { freezable: true } => IsTokenFrozen::No(IsTokenFreezable::Yes),
        Frozen::No { freezable: false } => IsTokenFrozen::No(IsTokenFreezable::No),
        Frozen::Yes { unfreezable: true } => IsTokenFrozen::Yes(IsTokenUnfreezable::Yes),
        Frozen::Yes { unfreezable: false } => IsTokenFrozen::Yes(IsTokenUnfreezable::No),
    }
}
fn data(t: &Token) -> TokenData {
    TokenData::FungibleToken(FungibleTokenData::new_unchecked(b"TICK".to_vec(), 7, vec![t.uri; t.uri as usize], total(t.supply), t.locked, frozen(t.frozen), key(t.authority)))
}
fn parse(d: &TokenData) -> Result<Token, String> {
    let TokenData::FungibleToken(x) = d;
    let t = Token {
        supply: match x.total_supply() {
            TokenTotalSupply::Fixed(a) => Supply::Fixed(a.into_atoms()),
            TokenTotalSupply::Lockable => Supply::Lockable,
            TokenTotalSupply::Unlimited => Supply::Unlimited,
        },
        locked: x.is_locked(),
        frozen: match x.frozen_state() {
            IsTokenFrozen::No(f) => Frozen::No { freezable: f == IsTokenFreezable::Yes },
            IsTokenFrozen::Yes(f) => Frozen::Yes { unfreezable: f == IsTokenUnfreezable::Yes },
        },
        authority: (0..4u8).find(|t| key(*t) == *x.authority()).ok_or("unknown authority")?,
        uri: x.metadata_uri().len() as u8,
        circulating: 0,
    };
    if data(&t) != *d { Err(format!("corrupt token data: {d:?}")) } else { Ok(t) }
}
const CAP: u128 = i128::MAX as u128;

pub struct Tokens;
impl Kind for Tokens {
    type Delta = TokensAccountingDeltaData;
    type Undo = TokenAccountingUndo;
    type Store = Store;
    type Model = Model;
    type Op = Op;
    const NAME: &'static str = "tokens";
    fn store() -> Store {
        Store { data: BTreeMap::new(), supply: BTreeMap::new() }
    }
    fn model() -> Model {
        BTreeMap::new()
    }
    fn empty() -> Self::Delta {
        TokensAccountingDeltaData::new()
    }
    fn gen_op(m: &Model) -> Op {
        let i = pick(m, IDS);
        match w(16) {
            0..=2 => {
                let s = match w(4) {
                    0 => Supply::Unlimited,
                    1 => Supply::Lockable,
                    _ => Supply::Fixed(amount(u128::MAX)),
                };
                Op::Issue(w(IDS), s, wchance(3, 4), w(4) as u8)
            }
            3..=6 => {
                // Around the limit.
                let a = match m.get(&i) {
                    Some(Token { supply: Supply::Fixed(l), circulating, .. }) if wchance(1, 2) => l.saturating_sub(*circulating).saturating_add(w(3) as u128).saturating_sub(1),
                    _ => amount(if wchance(9, 10) { 1 << 100 } else { u128::MAX }),
                };
                Op::Mint(i, a)
            }
            7..=9 => {
                let c = m.get(&i).map_or(0, |t| t.circulating);
                Op::Unmint(i, if wchance(1, 3) { c.saturating_add(w(2) as u128) } else { amount(c) })
            }
            10 => Op::Lock(i),
            11 | 12 => Op::Freeze(i, wchance(3, 4)),
            13 => Op::Unfreeze(i),
            14 => Op::Authority(i, w(4) as u8),
            _ => Op::Uri(i, w(4) as u8),
        }
    }
    fn model_apply(m: &mut Model, op: &Op) -> Result<(), &'static str> {
        if let Op::Issue(i, supply, freezable, authority) = *op {
            if m.contains_key(&i) {
                return Err("the token exists");
            }
            m.insert(i, Token { supply, locked: false, frozen: Frozen::No { freezable }, authority, uri: 0, circulating: 0 });
            return Ok(());
        }
        let (Op::Issue(i, ..) | Op::Mint(i, _) | Op::Unmint(i, _) | Op::Lock(i) | Op::Freeze(i, _) | Op::Unfreeze(i) | Op::Authority(i, _) | Op::Uri(i, _)) = *op;
        let t = m.get_mut(&i).ok_or("there is no such token")?;
        let is_frozen = matches!(t.frozen, Frozen::Yes { .. });
        if is_frozen && !matches!(op, Op::Unfreeze(_)) {
            return Err("the token is frozen");
        }
        match *op {
            Op::Issue(..) => unreachable!(),
            Op::Mint(_, a) => {
                if t.locked {
                    return Err("the supply is locked");
                }
                if let Supply::Fixed(l) = t.supply
                    && t.circulating.checked_add(a).is_none_or(|c| c > l)
                {
                    return Err("the supply would exceed its fixed limit");
                }
                if a > CAP || t.circulating + a > CAP {
                    return Err(TOO_BIG);
                }
                t.circulating += a;
            }
            Op::Unmint(_, a) => {
                if t.locked {
                    return Err("the supply is locked");
                }
                t.circulating = t.circulating.checked_sub(a).ok_or("more is burnt than there is")?;
            }
            Op::Lock(_) => {
                if t.locked || t.supply != Supply::Lockable {
                    return Err("the supply cannot be locked");
                }
                t.locked = true;
            }
            Op::Freeze(_, unfreezable) => {
                if t.frozen != (Frozen::No { freezable: true }) {
                    return Err("the token cannot be frozen");
                }
                t.frozen = Frozen::Yes { unfreezable };
            }
            Op::Unfreeze(_) => {
                if t.frozen != (Frozen::Yes { unfreezable: true }) {
                    return Err("the token cannot be unfrozen");
                }
                t.frozen = Frozen::No { freezable: true };
            }
            Op::Authority(_, a) => t.authority = a,
            Op::Uri(_, u) => t.uri = u,
        }
        Ok(())
    }
    fn rules(m: &Model) -> Result<(), String> {
        for (i, t) in m {
            if let Supply::Fixed(l) = t.supply
                && t.circulating > l
            {
                return Err(format!("{} units of token {i} circulate, its limit is {l}", t.circulating));
            }
        }
        Ok(())
    }
    fn apply(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, op: &Op) -> Result<Self::Undo, String> {
        let mut v = layer(chain(base, f, layers), top.clone());
        let yes = |b: bool| if b { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No };
        let r = match *op {
            Op::Issue(i, supply, freezable, authority) => v.issue_token(tid(i), data(&Token { supply, locked: false, frozen: Frozen::No { freezable }, authority, uri: 0, circulating: 0 })),
            Op::Mint(i, a) => v.mint_tokens(tid(i), amt(a)),
            Op::Unmint(i, a) => v.unmint_tokens(tid(i), amt(a)),
            Op::Lock(i) => v.lock_circulating_supply(tid(i)),
            Op::Freeze(i, u) => v.freeze_token(tid(i), yes(u)),
            Op::Unfreeze(i) => v.unfreeze_token(tid(i)),
            Op::Authority(i, k) => v.change_authority(tid(i), key(k)),
            Op::Uri(i, u) => v.change_metadata_uri(tid(i), vec![u; u as usize]),
        };
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn undo(base: &Store, f: &Faults, layers: &[Self::Delta], top: &mut Self::Delta, u: Self::Undo) -> Result<(), String> {
        let mut v = layer(chain(base, f, layers), top.clone());
        let r = v.undo(u);
        *top = v.consume();
        r.map_err(|e| e.to_string())
    }
    fn view(base: &Store, f: &Faults, layers: &[Self::Delta]) -> Result<Model, String> {
        let v = chain(base, f, layers);
        let mut m = Self::model();
        for i in 0..IDS {
            let supply = v.get_circulating_supply(&tid(i)).map_err(|e| e.to_string())?.into_atoms();
            match v.get_token_data(&tid(i)).map_err(|e| e.to_string())? {
                Some(d) => {
                    m.insert(i, Token { circulating: supply, ..parse(&d)? });
                }
                None if supply > 0 => return Err(format!("{supply} units of token {i}, which does not exist")),
                None => {}
            }
        }
        Ok(m)
    }
    fn merge(below: &mut Self::Delta, top: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Self::Delta) -> Result<(), String>>>, String> {
        below.merge_with_delta(top).map_err(|e| e.to_string())?;
        Ok(None)
    }
    fn flush(base: &mut Store, f: &Faults, d: Self::Delta) -> Result<Option<Box<dyn FnOnce(&mut Store, &Faults) -> Result<(), String>>>, String> {
        let mut db = TokensAccountingDB::new(W(base, f));
        if wchance(1, 2) { db.merge_with_delta(d).map_err(|e| e.to_string()) } else { db.batch_write_tokens_data(d).map_err(|e| e.to_string()) }?;
        Ok(None)
    }
}
