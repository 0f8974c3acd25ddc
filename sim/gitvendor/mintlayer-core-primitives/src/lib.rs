//! Stand-in for mintlayer-core-primitives (a git dependency not available offline); only the types
//! that `common::primitives_converters` names. Nothing in the simulations goes through it.
macro_rules! newtypes { ($($n:ident($t:ty)),* $(,)?) => { $(#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n(pub $t);)* } }
macro_rules! ids { ($($n:ident),* $(,)?) => { $(#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n(H256); impl $n { pub fn new(h: H256) -> Self { Self(h) } })* } }
newtypes!(H256([u8; 32]), AccountNonce(u64), PublicKeyHash([u8; 20]), BlockHeight(u64), BlockTimestamp(SecondsCount), SecondsCount(u64), BlocksCount(u64),
    PerThousand(u16), SchnorrkelPublicKey([u8; 32]), Secp256k1PublicKey([u8; 33]), HtlcSecretHash([u8; 20]));
ids!(TransactionId, GenBlockId, OrderId, PoolId, DelegationId, TokenId, ScriptId);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Amount(u128);
impl Amount { pub fn from_atoms(a: u128) -> Self { Self(a) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OutPointSourceId { Transaction(TransactionId), BlockReward(GenBlockId) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UtxoOutPoint { id: OutPointSourceId, index: u32 }
impl UtxoOutPoint { pub fn new(id: OutPointSourceId, index: u32) -> Self { Self { id, index } } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AccountSpending { DelegationBalance(DelegationId, Amount) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AccountOutPoint { pub nonce: AccountNonce, pub spending: AccountSpending }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsTokenUnfreezable { No, Yes }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsTokenFreezable { No, Yes }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PublicKey { Secp256k1Schnorr(Secp256k1PublicKey) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum VrfPublicKey { Schnorrkel(SchnorrkelPublicKey) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Destination { AnyoneCanSpend, PublicKeyHash(PublicKeyHash), PublicKey(PublicKey), ScriptHash(ScriptId), ClassicMultisig(PublicKeyHash) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AccountCommand {
    MintTokens(TokenId, Amount), UnmintTokens(TokenId), LockTokenSupply(TokenId), FreezeToken(TokenId, IsTokenUnfreezable), UnfreezeToken(TokenId),
    ChangeTokenAuthority(TokenId, Destination), ConcludeOrder(OrderId), FillOrder(OrderId, Amount, Destination), ChangeTokenMetadataUri(TokenId, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OrderAccountCommand { FillOrder(OrderId, Amount), FreezeOrder(OrderId), ConcludeOrder(OrderId) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxInput { Utxo(UtxoOutPoint), Account(AccountOutPoint), AccountCommand(AccountNonce, AccountCommand), OrderAccountCommand(OrderAccountCommand) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OutputValue { Coin(Amount), TokenV1(TokenId, Amount) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OutputTimeLock { UntilHeight(BlockHeight), UntilTime(BlockTimestamp), ForBlockCount(BlocksCount), ForSeconds(SecondsCount) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HashedTimelockContract { pub secret_hash: HtlcSecretHash, pub spend_key: Destination, pub refund_timelock: OutputTimeLock, pub refund_key: Destination }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OrderData { pub conclude_key: Destination, pub ask: OutputValue, pub give: OutputValue }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StakePoolData { pub pledge: Amount, pub staker: Destination, pub vrf_public_key: VrfPublicKey, pub decommission_key: Destination, pub margin_ratio_per_thousand: PerThousand, pub cost_per_block: Amount }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NftIssuanceV0 { pub creator: Option<PublicKey>, pub name: Vec<u8>, pub description: Vec<u8>, pub ticker: Vec<u8>, pub icon_uri: Vec<u8>, pub additional_metadata_uri: Vec<u8>, pub media_uri: Vec<u8>, pub media_hash: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NftIssuance { V0(NftIssuanceV0) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokenTotalSupply { Fixed(Amount), Lockable, Unlimited }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TokenIssuanceV1 { pub token_ticker: Vec<u8>, pub number_of_decimals: u8, pub metadata_uri: Vec<u8>, pub total_supply: TokenTotalSupply, pub authority: Destination, pub is_freezable: IsTokenFreezable }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TokenIssuance { V1(TokenIssuanceV1) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxOutput {
    Transfer(OutputValue, Destination), LockThenTransfer(OutputValue, Destination, OutputTimeLock), Burn(OutputValue), CreateStakePool(PoolId, StakePoolData),
    ProduceBlockFromStake(Destination, PoolId), CreateDelegationId(Destination, PoolId), DelegateStaking(Amount, DelegationId), IssueFungibleToken(TokenIssuance),
    IssueNft(TokenId, NftIssuance, Destination), DataDeposit(Vec<u8>), Htlc(OutputValue, HashedTimelockContract), CreateOrder(OrderData),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SighashInputCommitment {
    None, Utxo(TxOutput), ProduceBlockFromStakeUtxo { utxo: TxOutput, staker_balance: Amount },
    FillOrderAccountCommand { initially_asked: OutputValue, initially_given: OutputValue },
    ConcludeOrderAccountCommand { initially_asked: OutputValue, initially_given: OutputValue, ask_balance: Amount, give_balance: Amount },
}
