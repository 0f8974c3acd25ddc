//! Sequences of transactions that move value through every kind of account. Each takes its fee from a coin of its own, so
//! that it depends on the others only through the accounts and tokens it uses.
use detsim::{Stream, chance, choose};
fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
use common::chain::output_value::OutputValue;
use common::chain::signature::inputsig::InputWitness;
use common::chain::signed_transaction::SignedTransaction;
use common::chain::stakelock::StakePoolData;
use common::chain::timelock::OutputTimeLock;
use common::chain::tokens::{IsTokenFreezable, NftIssuance, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply};
use common::chain::{
    AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, Destination, OrderAccountCommand, OrderData, Transaction, TxInput, TxOutput, UtxoOutPoint, make_delegation_id,
    make_order_id, make_pool_id, make_token_id,
};
use common::primitives::per_thousand::PerThousand;
use common::primitives::{Amount, BlockHeight, Idable};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use randomness::CryptoRng;

const ANY: Destination = Destination::AnyoneCanSpend;
fn coin(a: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(Amount::from_atoms(a)), ANY)
}
fn token(id: TokenId, a: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::TokenV1(id, Amount::from_atoms(a)), ANY)
}
pub fn fee() -> u128 {
    3 * crate::run::FEE
}
struct Eco<'a> {
    cfg: &'a ChainConfig,
    h: BlockHeight,
    txs: Vec<SignedTransaction>,
    /// The coin to be spent next, and the others.
    purse: UtxoOutPoint,
    coins: u128,
    others: Vec<(UtxoOutPoint, u128)>,
}
impl Eco<'_> {
    fn cheat(&mut self, _: &'static str) -> bool {
        false
    }
    fn add(&mut self, inputs: Vec<TxInput>, outputs: Vec<TxOutput>) -> UtxoOutPoint {
        let n = inputs.len();
        let tx = Transaction::new(0, inputs, outputs).unwrap();
        let id = tx.get_id();
        self.txs.push(SignedTransaction::new(tx, vec![InputWitness::NoSignature(None); n]).unwrap());
        UtxoOutPoint::new(id.into(), 0)
    }
    /// A transaction that also takes `cost` out of the purse; what is left of the purse is its last output.
    fn pay(&mut self, mut inputs: Vec<TxInput>, mut outputs: Vec<TxOutput>, cost: u128) -> UtxoOutPoint {
        inputs.push(self.purse.clone().into());
        let fee = fee();
        let mut rest = self.coins - cost - fee;
        if self.cheat(if cost == 0 { "creates coins" } else { "pays less than it has to" }) {
            rest += fee + 1 + w(5) as u128;
        }
        let at = outputs.len() as u32;
        outputs.push(coin(rest));
        let first = self.add(inputs, outputs);
        self.others.push((UtxoOutPoint::new(first.source_id(), at), rest));
        let k = w(self.others.len() as u64 - 1) as usize;
        (self.purse, self.coins) = self.others.remove(k);
        first
    }
    fn nonce(&mut self, n: u64) -> AccountNonce {
        AccountNonce::new(if self.cheat("wrong nonce") {
            match w(3) {
                0 => n + 1,
                1 if n > 0 => n - 1,
                _ => n + 2 + w(10),
            }
        } else {
            n
        })
    }
    fn more(&mut self, a: u128, what: &'static str) -> u128 {
        if self.cheat(what) { a + 1 + w(2) as u128 * w(1000) as u128 } else { a }
    }
    fn tokens(&mut self, order: bool) {
        let (cfg, h) = (self.cfg, self.h);
        let max = 1000 + w(1000) as u128;
        let supply = match w(3) {
            0 => TokenTotalSupply::Fixed(Amount::from_atoms(max)),
            1 => TokenTotalSupply::Lockable,
            _ => TokenTotalSupply::Unlimited,
        };
        let fixed = matches!(supply, TokenTotalSupply::Fixed(_));
        let lockable = matches!(supply, TokenTotalSupply::Lockable);
        let id = make_token_id(cfg, h, &[self.purse.clone().into()]).unwrap();
        let issue = TokenIssuance::V1(TokenIssuanceV1 {
            token_ticker: b"SIM".to_vec(),
            number_of_decimals: 2,
            metadata_uri: b"https://example.com".to_vec(),
            total_supply: supply,
            authority: ANY,
            is_freezable: IsTokenFreezable::Yes,
        });
        self.pay(vec![], vec![TxOutput::IssueFungibleToken(Box::new(issue))], cfg.fungible_token_issuance_fee().into_atoms());
        let change = cfg.token_supply_change_fee(h).into_atoms();
        let mut minted = 1 + w(max as u64) as u128;
        if fixed && self.cheat("mints more than the fixed supply") {
            minted = max + 1 + w(100) as u128;
        }
        let n = self.nonce(0);
        let out = self.more(minted, "gives out more tokens than it mints");
        let mut have = self.pay(vec![TxInput::AccountCommand(n, AccountCommand::MintTokens(id, Amount::from_atoms(minted)))], vec![token(id, out)], change);
        let mut next = 1;
        let mut amount = minted;
        if wchance(1, 2) && amount > 1 {
            // Take some out of circulation again.
            let burn = 1 + w(amount as u64 - 1) as u128;
            let n = self.nonce(next);
            next += 1;
            let keep = self.more(amount - burn, "burns less than it unmints");
            have = self.pay(
                vec![TxInput::AccountCommand(n, AccountCommand::UnmintTokens(id)), have.into()],
                vec![token(id, keep), TxOutput::Burn(OutputValue::TokenV1(id, Amount::from_atoms(burn)))],
                change,
            );
            amount -= burn;
        }
        if wchance(1, 3) && amount > 0 {
            // Plain burning leaves the supply as it is.
            let burn = w(amount as u64) as u128;
            if burn > 0 {
                let keep = self.more(amount - burn, "burns less than it should");
                have = self.pay(vec![have.into()], vec![token(id, keep), TxOutput::Burn(OutputValue::TokenV1(id, Amount::from_atoms(burn)))], 0);
                amount -= burn;
            }
        }
        if lockable && wchance(1, 2) {
            let n = self.nonce(next);
            next += 1;
            self.pay(vec![TxInput::AccountCommand(n, AccountCommand::LockTokenSupply(id))], vec![], change);
            if self.cheat("mints after the supply is locked") {
                self.pay(vec![TxInput::AccountCommand(AccountNonce::new(next), AccountCommand::MintTokens(id, Amount::from_atoms(1)))], vec![token(id, 1)], change);
            }
        }
        if wchance(1, 3) {
            // Freezing and unfreezing, with a transfer in between at times.
            let freeze = self.cfg.token_freeze_fee(self.h).into_atoms();
            let n = self.nonce(next);
            next += 1;
            self.pay(vec![TxInput::AccountCommand(n, AccountCommand::FreezeToken(id, common::chain::tokens::IsTokenUnfreezable::Yes))], vec![], freeze);
            if wchance(1, 4) {
                return;
            }
            let n = self.nonce(next);
            self.pay(vec![TxInput::AccountCommand(n, AccountCommand::UnfreezeToken(id))], vec![], freeze);
            if amount > 0 && wchance(1, 2) {
                have = self.pay(vec![have.into()], vec![token(id, amount)], 0);
            }
        }
        if order && amount > 0 {
            self.order(id, have, amount);
        }
    }
    fn order(&mut self, id: TokenId, have: UtxoOutPoint, amount: u128) {
        let v1 = self.cfg.chainstate_upgrades().version_at_height(self.h).1.orders_version() == common::chain::OrdersVersion::V1;
        let ask = 1 + w(2000) as u128;
        let oid = make_order_id(&[have.clone().into()]).unwrap();
        let give = self.more(amount, "an order gives more than it was given");
        self.pay(
            vec![have.into()],
            vec![TxOutput::CreateOrder(Box::new(OrderData::new(ANY, OutputValue::Coin(Amount::from_atoms(ask)), OutputValue::TokenV1(id, Amount::from_atoms(give)))))],
            0,
        );
        // `pay` puts its purse input after the tokens, so the order's id comes from the tokens' output.
        let (mut ask_left, mut give_left) = (ask, amount);
        let mut next = 0;
        for _ in 0..w(3) {
            if ask_left == 0 {
                break;
            }
            let mut f = 1 + w(ask_left as u64) as u128;
            let got = if v1 { amount * f / ask } else { give_left * f / ask_left };
            if got == 0 {
                continue;
            }
            if self.cheat("fills more than is asked for") {
                f = ask_left + 1 + w(10) as u128;
            }
            let out = self.more(got, "gets more from an order than its price");
            let cmd = if v1 {
                TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(oid, Amount::from_atoms(f)))
            } else {
                TxInput::AccountCommand(self.nonce(next), AccountCommand::FillOrder(oid, Amount::from_atoms(f), ANY))
            };
            next += 1;
            self.pay(vec![cmd], vec![token(id, out)], f);
            ask_left = ask_left.saturating_sub(f);
            give_left -= got;
        }
        for k in 0..w(2) + 0 {
            if v1 && k == 0 && wchance(1, 3) {
                self.pay(vec![TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(oid))], vec![], 0);
            }
            let cmd = if v1 {
                TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(oid))
            } else {
                TxInput::AccountCommand(self.nonce(next), AccountCommand::ConcludeOrder(oid))
            };
            if k > 0 {
                break;
            }
            next += 1;
            let mut coins = ask - ask_left;
            if self.cheat("takes more coins out of an order than were paid in") {
                // More than what would merely make the fee smaller.
                coins += 10_000 + w(1000) as u128;
            }
            let back = self.more(give_left, "takes more tokens out of an order than are left");
            let mut outs = vec![];
            if back > 0 {
                outs.push(token(id, back));
            }
            if coins > 0 {
                outs.push(coin(coins));
            }
            self.pay(vec![cmd], outs, 0);
        }
    }
    fn nft(&mut self, rng: &mut impl CryptoRng) {
        let id = make_token_id(self.cfg, self.h, &[self.purse.clone().into()]).unwrap();
        let nft = NftIssuance::V0(test_utils::token_utils::random_nft_issuance(self.cfg, rng));
        let have = self.pay(vec![], vec![TxOutput::IssueNft(id, Box::new(nft), ANY)], self.cfg.nft_issuance_fee(self.h).into_atoms());
        if wchance(1, 2) {
            let mut outs = vec![token(id, 1)];
            if self.cheat("copies an NFT") {
                outs = match w(2) {
                    0 => vec![token(id, 1), token(id, 1)],
                    _ => vec![token(id, 2)],
                };
            }
            self.pay(vec![have.into()], outs, 0);
        }
    }
    fn locked(&mut self, a: u128, maturity: u64) -> TxOutput {
        let mut m = maturity + w(2);
        if maturity > 0 && self.cheat("is locked shorter than it has to be") {
            if wchance(1, 3) {
                return coin(a);
            }
            m = maturity - 1;
        }
        TxOutput::LockThenTransfer(OutputValue::Coin(Amount::from_atoms(a)), ANY, OutputTimeLock::ForBlockCount(m))
    }
    fn pool(&mut self, rng: &mut impl CryptoRng) {
        let (_, vrf) = VRFPrivateKey::new_from_rng(rng, VRFKeyKind::Schnorrkel);
        let maturity = self.cfg.staking_pool_spend_maturity_block_count(self.h).to_int();
        let pledge = self.cfg.min_stake_pool_pledge().into_atoms() + w(1000) as u128;
        let pid = make_pool_id(&[self.purse.clone().into()]).unwrap();
        let data = StakePoolData::new(Amount::from_atoms(pledge), ANY, vrf, ANY, PerThousand::new(w(1000) as u16).unwrap(), Amount::from_atoms(w(100) as u128));
        let pool = self.pay(vec![], vec![TxOutput::CreateStakePool(pid, Box::new(data))], pledge);
        if wchance(2, 3) {
            let did = make_delegation_id(&[self.purse.clone().into()]).unwrap();
            self.pay(vec![], vec![TxOutput::CreateDelegationId(ANY, pid)], 0);
            let mut bal = 0u128;
            let mut next = 0;
            for _ in 0..1 + w(3) {
                if bal > 1 && wchance(1, 2) {
                    let mut take = bal / 2;
                    if self.cheat("withdraws more than was delegated") {
                        take = bal + 1 + w(10) as u128;
                    }
                    let n = self.nonce(next);
                    next += 1;
                    let a = self.more(take, "gives out more than it withdraws");
                    let out = self.locked(a - fee(), maturity);
                    self.add_account(did, n, take, out);
                    bal = bal.saturating_sub(take);
                } else {
                    let a = 4 * fee() + w(100_000) as u128;
                    self.pay(vec![], vec![TxOutput::DelegateStaking(Amount::from_atoms(a), did)], a);
                    bal += a;
                }
            }
        }
        if wchance(1, 2) {
            let a = self.more(pledge, "takes more out of a pool than is in it");
            let out = self.locked(a - fee(), maturity);
            self.add(vec![pool.into()], vec![out]);
        }
    }
    fn add_account(&mut self, did: common::chain::DelegationId, n: AccountNonce, take: u128, out: TxOutput) {
        let inp = TxInput::Account(AccountOutPoint::new(n, AccountSpending::DelegationBalance(did, Amount::from_atoms(take))));
        self.add(vec![inp], vec![out]);
    }
}
/// Transactions in the order of their dependencies, and what is left of the coins.
pub fn make(cfg: &ChainConfig, height: u64, mut coins: Vec<(UtxoOutPoint, u128)>, rng: &mut impl CryptoRng) -> (Vec<SignedTransaction>, Vec<(UtxoOutPoint, u128)>) {
    let (purse, first) = coins.pop().unwrap();
    let mut e = Eco { cfg, h: BlockHeight::new(height), txs: vec![], purse, coins: first, others: coins };
    match w(5) {
        0 => e.nft(rng),
        1 => e.tokens(false),
        2 => e.tokens(true),
        _ => e.pool(rng),
    }
    e.others.push((e.purse, e.coins));
    (e.txs, e.others)
}
