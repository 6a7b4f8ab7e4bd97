//! core/api: what a node's JSON-RPC answers.
use crate::api::error::RpcError;
use crate::api::web3::Web3RpcImpl;
use core_api::jsonrpc::web3_types::*;
use core_executor::is_system_contract_address_format;
use jsonrpsee::core::RpcResult;
use jsonrpsee::types::error::ErrorObject;
use protocol::codec::ProtocolCodec;
use protocol::constants::{BASE_FEE_PER_GAS, MAX_FEE_HISTORY, MAX_GAS_LIMIT, MAX_GAS_PRICE, MIN_TRANSACTION_GAS_LIMIT};
use protocol::traits::{APIAdapter, Context};
use protocol::types::*;
use protocol::ProtocolResult;
use std::sync::Arc;

pub fn no<T>() -> RpcResult<T> { Err(ErrorObject::owned(0, "", None::<()>)) }
pub fn up<T>(r: ProtocolResult<T>) -> RpcResult<T> { match r { Ok(x) => Ok(x), Err(_) => no() } }
pub fn down<T>() -> ProtocolResult<T> { Err(TypesError::LengthMismatch { expect: 0, real: 0 }.into()) }

pub mod web3 {
    use protocol::types::U64;
    use std::sync::Arc;
    pub struct Web3RpcImpl<Adapter> {
        pub adapter:                    Arc<Adapter>,
        pub max_gas_cap:                U64,
        pub log_filter_max_block_range: u64,
    }
}

macro_rules! on { ($name:ident($s:ident $(, $a:ident : $t:ty)*) -> $r:ty $b:block) => {
    pub async fn $name<Adapter: APIAdapter + 'static>($s: &Web3RpcImpl<Adapter> $(, $a: $t)*) -> RpcResult<$r> $b
} }

pub fn web3_new<Adapter: APIAdapter>(adapter: Arc<Adapter>, cap: u64, range: u64) -> Web3RpcImpl<Adapter> {
    Web3RpcImpl { adapter, max_gas_cap: cap.into(), log_filter_max_block_range: range }
}

// what is sent

on!(send_raw(s, tx: Hex) -> H256 {
    let utx = match UnverifiedTransaction::decode(&tx.as_bytes()) { Ok(t) => t, Err(_) => return no() };
    let price = utx.unsigned.gas_price();
    let gas = *utx.unsigned.gas_limit();
    if price == U64::zero() || price > MAX_GAS_PRICE || gas < MIN_TRANSACTION_GAS_LIMIT.into() || gas > s.max_gas_cap {
        return no();
    }
    if utx.check_hash().is_err() {
        return no();
    }
    let stx = match SignedTransaction::from_unverified(utx) { Ok(t) => t, Err(_) => return no() };
    let hash = stx.transaction.hash;
    up(s.adapter.insert_signed_txs(Context::new(), stx).await)?;
    Ok(hash)
});

// transactions and receipts

on!(tx_by_hash(s, hash: H256) -> Option<Web3Transaction> {
    let stx = match up(s.adapter.get_transaction_by_hash(Context::new(), hash).await)? {
        Some(t) => t,
        None => return Ok(None),
    };
    let mut shown: Web3Transaction = stx.into();
    if let Some(r) = up(s.adapter.get_receipt_by_tx_hash(Context::new(), hash).await)? {
        shown.update_with_receipt(&r);
    }
    Ok(Some(shown))
});

on!(receipt(s, hash: H256) -> Option<Web3Receipt> {
    let stx = match up(s.adapter.get_transaction_by_hash(Context::new(), hash).await)? {
        Some(t) => t,
        None => return Ok(None),
    };
    match up(s.adapter.get_receipt_by_tx_hash(Context::new(), hash).await)? {
        Some(r) => Ok(Some(Web3Receipt::new(r, stx))),
        None => Ok(None),
    }
});

fn place(position: U256) -> RpcResult<usize> {
    if position > U256::from(usize::MAX) {
        return no();
    }
    let mut raw = [0u8; 32];
    position.to_little_endian(&mut raw);
    let mut low = [0u8; 8];
    low.copy_from_slice(&raw[..8]);
    Ok(usize::from_le_bytes(low))
}
on!(tx_in_block_hash(s, hash: Hash, position: U256) -> Option<Web3Transaction> {
    let i = place(position)?;
    if let Some(b) = up(s.adapter.get_block_by_hash(Context::new(), hash).await)? {
        if let Some(h) = b.tx_hashes.get(i) {
            return tx_by_hash(s, *h).await;
        }
    }
    Ok(None)
});
on!(tx_in_block_number(s, number: BlockId, position: U256) -> Option<Web3Transaction> {
    let i = place(position)?;
    if let Some(b) = up(s.adapter.get_block_by_number(Context::new(), number.into()).await)? {
        if let Some(h) = b.tx_hashes.get(i) {
            return tx_by_hash(s, *h).await;
        }
    }
    Ok(None)
});

// blocks

async fn shown_block<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, b: Option<Block>, rich: bool) -> RpcResult<Option<Web3Block>> {
    let b = match b { Some(b) => b, None => return Ok(None) };
    let number = b.header.number;
    let hash = b.hash();
    let mut shown = Web3Block::from(b);
    if rich {
        let mut txs = Vec::with_capacity(shown.transactions.len());
        for (i, h) in shown.transactions.iter().enumerate() {
            let stx = up(s.adapter.get_transaction_by_hash(Context::new(), h.get_hash()).await)?.unwrap();
            txs.push(RichTransactionOrHash::Rich(Web3Transaction::from(stx).add_block_number(number).add_block_hash(hash).add_tx_index(i)));
        }
        shown.transactions = txs;
    }
    Ok(Some(shown))
}
on!(block_by_number(s, number: BlockId, rich: bool) -> Option<Web3Block> {
    let b = up(s.adapter.get_block_by_number(Context::new(), number.into()).await)?;
    shown_block(s, b, rich).await
});
on!(block_by_hash(s, hash: H256, rich: bool) -> Option<Web3Block> {
    let b = up(s.adapter.get_block_by_hash(Context::new(), hash).await)?;
    shown_block(s, b, rich).await
});
on!(block_number(s) -> U256 {
    match up(s.adapter.get_block_header_by_number(Context::new(), None).await)? {
        Some(h) => Ok(U256::from(h.number)),
        None => no(),
    }
});
on!(tx_count_by_number(s, number: BlockId) -> U256 {
    match up(s.adapter.get_block_by_number(Context::new(), number.into()).await)? {
        Some(b) => Ok(U256::from(b.tx_hashes.len())),
        None => Ok(U256::from(0usize)),
    }
});
on!(tx_count_by_hash(s, hash: Hash) -> U256 {
    match up(s.adapter.get_block_by_hash(Context::new(), hash).await)? {
        Some(b) => Ok(U256::from(b.tx_hashes.len())),
        None => Ok(U256::default()),
    }
});

// the state at a block

/// The block meant: None is the newest; a hash nobody knows is no block.
pub async fn meant<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, id: Option<BlockId>) -> RpcResult<Option<u64>> {
    match id {
        Some(BlockId::Hash(h)) => match up(s.adapter.get_block_number_by_hash(Context::new(), h).await)? {
            Some(n) => Ok(Some(n)),
            None => no(),
        },
        Some(BlockId::Num(n)) => Ok(Some(n.low_u64())),
        Some(BlockId::Earliest) => Ok(Some(0)),
        _ => Ok(None),
    }
}
on!(tx_count(s, address: H160, id: Option<BlockId>) -> U256 {
    if let Some(BlockId::Pending) = id {
        let (waiting, number) = up(s.adapter.get_pending_tx_count(Context::new(), address).await)?;
        return match s.adapter.get_account(Context::new(), address, number).await {
            Ok(a) => Ok(a.nonce + waiting),
            Err(_) => Ok(U256::default()),
        };
    }
    let number = meant(s, id).await?;
    match s.adapter.get_account(Context::new(), address, number).await {
        Ok(a) => Ok(a.nonce),
        Err(_) => Ok(U256::default()),
    }
});
on!(balance(s, address: H160, id: Option<BlockId>) -> U256 {
    let number = meant(s, id).await?;
    match s.adapter.get_account(Context::new(), address, number).await {
        Ok(a) => Ok(a.balance),
        Err(_) => Ok(U256::zero()),
    }
});
on!(code(s, address: H160, id: Option<BlockId>) -> Hex {
    let number = meant(s, id).await?;
    let a = up(s.adapter.get_account(Context::new(), address, number).await)?;
    match up(s.adapter.get_code_by_hash(Context::new(), &a.code_hash).await)? {
        Some(c) => Ok(Hex::encode(c)),
        None => Ok(Hex::empty()),
    }
});
on!(storage_at(s, address: H160, position: U256, id: Option<BlockId>) -> Hex {
    if is_system_contract_address_format(&address) {
        return no();
    }
    let number = meant(s, id).await?;
    let root = match up(s.adapter.get_block_header_by_number(Context::new(), number).await)? { Some(h) => h.state_root, None => return no() };
    match s.adapter.get_storage_at(Context::new(), address, position, root).await {
        Ok(v) => Ok(Hex::encode(&v)),
        Err(_) => { let v: Bytes = H256::default().as_bytes().to_vec().into(); Ok(Hex::encode(&v)) }
    }
});
on!(proof(s, address: H160, positions: Vec<U256>, id: BlockId) -> EthAccountProof {
    if is_system_contract_address_format(&address) {
        return no();
    }
    let number = meant(s, Some(id)).await?;
    let root = match up(s.adapter.get_block_header_by_number(Context::new(), number).await)? { Some(h) => h.state_root, None => return no() };
    up(s.adapter.get_proof(Context::new(), address, positions, root).await)
});

// calls

pub async fn run<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, req: Web3CallRequest, data: Bytes, number: Option<u64>, estimate: bool) -> ProtocolResult<TxResp> {
    if req.from.is_none() && req.to.is_none() {
        return down();
    }
    let h = match s.adapter.get_block_header_by_number(Context::new(), number).await? { Some(h) => h, None => return down() };
    let shown = Header {
        gas_limit: match req.gas { Some(g) => g, None => h.gas_limit },
        base_fee_per_gas: match req.max_fee_per_gas { Some(p) => p, None => h.base_fee_per_gas },
        chain_id: match req.chain_id { Some(c) => c.low_u64(), None => h.chain_id },
        transactions_root: Hash::default(),
        signed_txs_hash: Hash::default(),
        receipts_root: Hash::default(),
        log_bloom: Bloom::default(),
        extra_data: Vec::default(),
        call_system_script_count: 0,
        ..h
    };
    let value = match req.value { Some(v) => v, None => U256::default() };
    s.adapter.evm_call(Context::new(), req.from, req.to, req.gas_price, req.gas, value, data.to_vec(), estimate, shown.state_root, Proposal::new_without_state_root(&shown)).await
}
fn data_of(req: &Web3CallRequest) -> Bytes { match &req.data { Some(h) => h.as_bytes(), None => Bytes::new() } }
fn too_much(req: &Web3CallRequest) -> bool {
    if let Some(g) = req.gas { if g > MAX_GAS_LIMIT.into() { return true; } }
    if let Some(p) = req.gas_price { if p > MAX_GAS_PRICE { return true; } }
    if let Some(to) = req.to { if is_system_contract_address_format(&to) { return true; } }
    false
}
on!(call(s, req: Web3CallRequest, id: Option<BlockId>) -> Hex {
    if too_much(&req) {
        return no();
    }
    let number = meant(s, id).await?;
    let data = data_of(&req);
    let resp = up(run(s, req, data, number, false).await)?;
    if resp.exit_reason.is_succeed() { Ok(Hex::encode(resp.ret)) } else { no() }
});
on!(estimate_gas(s, req: Web3CallRequest, id: Option<BlockId>) -> U256 {
    if let Some(g) = req.gas { if g < MIN_TRANSACTION_GAS_LIMIT.into() { return no(); } }
    if too_much(&req) {
        return no();
    }
    let number = meant(s, id).await?;
    let data = data_of(&req);
    let resp = up(run(s, req, data, number, true).await)?;
    if resp.exit_reason.is_succeed() { Ok(resp.gas_used.into()) } else { no() }
});

// what does not depend on the chain

on!(gas_price(s) -> U256 { let _ = s; Ok(U256::from(8u64)) });
on!(accounts(s) -> Vec<Hex> { let _ = s; Ok(Vec::new()) });
on!(no_uncle_at(s, _h: Hash, _i: U256) -> Option<Web3Block> { let _ = s; Ok(None) });
on!(no_uncle_of(s, _n: BlockId, _i: U256) -> Option<Web3Block> { let _ = s; Ok(None) });
on!(no_uncles_at(s, _h: Hash) -> U256 { let _ = s; Ok(U256::zero()) });
on!(no_uncles_of(s, _n: BlockId) -> U256 { let _ = s; Ok(U256::zero()) });
on!(peers(s) -> U256 { up(s.adapter.peer_count(Context::new()).await) });
on!(protocol_version(s) -> Hex { let _ = s; Ok((**protocol::lazy::PROTOCOL_VERSION.load()).clone()) });

// fees

fn used(b: &Block) -> f64 {
    if b.header.gas_limit == U64::zero() {
        return 0f64;
    }
    b.header.gas_used.low_u64() as f64 / b.header.gas_limit.as_u64() as f64 * 100f64
}
async fn tips<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, b: &Block, percentiles: &[f64]) -> RpcResult<Vec<U64>> {
    let fee = b.header.base_fee_per_gas;
    let receipts = up(s.adapter.get_receipts_by_hashes(Context::new(), b.header.number, &b.tx_hashes).await)?;
    let paid: Vec<U64> = receipts.iter().map(|r| match r { Some(r) => r.used_gas.saturating_sub(fee), None => U64::zero() }).collect();
    Ok(percentiles.iter().map(|p| {
        let i = ((p * paid.len() as f64 / 100f64).floor() as usize).saturating_sub(1);
        match paid.get(i) { Some(x) => *x, None => U64::zero() }
    }).collect())
}
fn shown_fees(oldest: u64, fees: Vec<U64>, ratios: Vec<f64>, reward: Vec<Vec<U64>>, with: bool) -> Web3FeeHistory {
    if with {
        Web3FeeHistory::WithReward(FeeHistoryWithReward { oldest_block: oldest.into(), reward, base_fee_per_gas: fees, gas_used_ratio: ratios })
    } else {
        Web3FeeHistory::WithoutReward(FeeHistoryWithoutReward { oldest_block: oldest.into(), base_fee_per_gas: fees, gas_used_ratio: ratios })
    }
}
async fn history<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, newest: Option<u64>, count: U256, percentiles: &Option<Vec<f64>>) -> RpcResult<(u64, Vec<U64>, Vec<f64>, Vec<Vec<U64>>)> {
    let last = match up(s.adapter.get_block_by_number(Context::new(), newest).await)? { Some(b) => b.header.number, None => return no() };
    let first = last.saturating_sub(count.as_u64()).saturating_add(1);
    let (mut fees, mut ratios, mut reward) = (Vec::new(), Vec::new(), Vec::new());
    for n in first..=last {
        let b = match s.adapter.get_block_by_number(Context::new(), Some(n)).await { Ok(Some(b)) => b, _ => continue };
        ratios.push(used(&b));
        fees.push(b.header.base_fee_per_gas);
        fees.push(U64::from(BASE_FEE_PER_GAS));
        if let Some(p) = percentiles {
            reward.push(tips(s, &b, p).await?);
        }
    }
    Ok((first, fees, ratios, reward))
}
on!(fee_history(s, count: BlockCount, newest: BlockId, percentiles: Option<Vec<f64>>) -> Web3FeeHistory {
    if let Some(p) = &percentiles {
        if p.windows(2).any(|w| w[0] >= w[1] || w[0] < 0.0 || w[0] > 100.0) {
            return no();
        }
    }
    let mut n: U256 = match count { BlockCount::U256Type(n) => n, BlockCount::U64Type(n) => n.into() };
    if n > MAX_FEE_HISTORY.into() {
        n = MAX_FEE_HISTORY.into();
    }
    if n == 0.into() {
        return Ok(Web3FeeHistory::ZeroBlockCount(FeeHistoryEmpty { oldest_block: U256::zero(), gas_used_ratio: None }));
    }
    let with = match &percentiles { Some(p) => !p.is_empty(), None => false };
    match newest {
        BlockId::Num(x) => {
            let (o, f, g, r) = history(s, Some(x.low_u64()), n, &percentiles).await?;
            Ok(shown_fees(o, f, g, r, with))
        }
        BlockId::Latest | BlockId::Pending => {
            let (o, f, g, r) = history(s, None, n, &percentiles).await?;
            Ok(shown_fees(o, f, g, r, with))
        }
        BlockId::Earliest => {
            let b = up(s.adapter.get_block_by_number(Context::new(), Some(0)).await)?.unwrap();
            let fees = vec![b.header.base_fee_per_gas, U64::from(BASE_FEE_PER_GAS)];
            let ratios = vec![used(&b)];
            let mut reward = Vec::new();
            if let Some(p) = &percentiles {
                if with {
                    reward.push(tips(s, &b, p).await?);
                }
            }
            Ok(shown_fees(b.header.number, fees, ratios, reward, with))
        }
        BlockId::Hash(_) => no(),
    }
});

// what is shown of a transaction, a receipt, a block, a header

pub mod show {
    use super::*;
    use either::Either;

    pub fn transaction(stx: SignedTransaction) -> Web3Transaction {
        let u = &stx.transaction.unsigned;
        let sig = match stx.transaction.signature.clone() { Some(s) => s, None => SignatureComponents::default() };
        let priced = u.is_eip1559();
        let v = sig.add_chain_replay_protection(stx.transaction.chain_id);
        let (r, s) = if sig.is_eth_sig() {
            (Either::Left(U256::from(&sig.r[..])), Either::Left(U256::from(&sig.s[..])))
        } else {
            (Either::Right(Hex::encode(sig.r)), Either::Right(Hex::encode(sig.s)))
        };
        Web3Transaction {
            type_: Some(stx.type_().into()),
            block_number: None,
            block_hash: None,
            transaction_index: None,
            hash: stx.transaction.hash,
            nonce: *u.nonce(),
            from: stx.sender,
            to: stx.get_to(),
            value: *u.value(),
            gas: *u.gas_limit(),
            gas_price: u.gas_price(),
            max_fee_per_gas: if priced { Some(U64::from(MAX_PRIORITY_FEE_PER_GAS)) } else { None },
            max_priority_fee_per_gas: if priced { Some(*u.max_priority_fee_per_gas()) } else { None },
            raw: Hex::encode(stx.transaction.encode().unwrap()),
            input: Hex::encode(u.data()),
            public_key: stx.public,
            access_list: Some(u.access_list()),
            chain_id: match stx.transaction.chain_id { Some(c) => Some(c.into()), None => None },
            standard_v: None,
            v: v.into(),
            r,
            s,
        }
    }
    pub fn in_block(mut t: Web3Transaction, n: u64) -> Web3Transaction { t.block_number = Some(n.into()); t }
    pub fn in_block_hash(mut t: Web3Transaction, h: H256) -> Web3Transaction { t.block_hash = Some(h); t }
    pub fn at_index(mut t: Web3Transaction, i: usize) -> Web3Transaction { t.transaction_index = Some(i.into()); t }
    pub fn executed(t: &mut Web3Transaction, r: &Receipt) {
        t.block_number = Some(r.block_number.into());
        t.block_hash = Some(r.block_hash);
        t.transaction_index = Some(r.tx_index.into());
    }
    pub fn hash_of(t: &RichTransactionOrHash) -> Hash {
        match t { RichTransactionOrHash::Hash(h) => *h, RichTransactionOrHash::Rich(t) => t.hash }
    }
    pub fn receipt(r: Receipt, stx: SignedTransaction) -> Web3Receipt {
        let logs = r.logs.iter().enumerate().map(|(i, l)| Web3ReceiptLog {
            address: l.address,
            topics: l.topics.clone(),
            data: Hex::encode(&l.data),
            block_number: r.block_number.into(),
            block_hash: r.block_hash,
            transaction_hash: r.tx_hash,
            transaction_index: Some(r.tx_index.into()),
            log_index: (r.log_index as usize + i).into(),
            removed: false,
        }).collect();
        Web3Receipt {
            block_number: r.block_number.into(),
            block_hash: r.block_hash,
            contract_address: match r.code_address { Some(a) => Some(a.into()), None => None },
            cumulative_gas_used: r.used_gas,
            effective_gas_price: stx.transaction.unsigned.gas_price(),
            from: r.sender,
            gas_used: r.used_gas,
            status: r.status(),
            logs,
            logs_bloom: r.logs_bloom,
            state_root: r.state_root,
            to: stx.get_to(),
            transaction_hash: r.tx_hash,
            transaction_index: Some(r.tx_index.into()),
            transaction_type: Some(stx.type_().into()),
        }
    }
    pub fn block(b: Block) -> Web3Block {
        let h = &b.header;
        Web3Block {
            hash: b.hash(),
            parent_hash: h.prev_hash,
            sha3_uncles: EMPTY_UNCLE_HASH,
            author: h.proposer,
            miner: h.proposer,
            state_root: h.state_root,
            transactions_root: h.transactions_root,
            receipts_root: h.receipts_root,
            number: h.number.into(),
            gas_used: h.gas_used,
            gas_limit: h.gas_limit,
            extra_data: Hex::encode(rlp::encode_list(&h.extra_data)),
            logs_bloom: Some(h.log_bloom),
            timestamp: h.timestamp.into(),
            difficulty: U256::one(),
            total_difficulty: Some(h.number.into()),
            seal_fields: Vec::new(),
            base_fee_per_gas: h.base_fee_per_gas,
            uncles: Vec::new(),
            size: Some(h.size().into()),
            mix_hash: H256::default(),
            nonce: H64::default(),
            transactions: b.tx_hashes.into_iter().map(RichTransactionOrHash::Hash).collect(),
        }
    }
    pub fn header(h: Header) -> Web3Header {
        Web3Header {
            difficulty: U256::one(),
            extra_data: Hex::encode(rlp::encode_list(&h.extra_data)),
            gas_limit: h.gas_limit,
            gas_used: h.gas_used,
            logs_bloom: Some(h.log_bloom),
            miner: h.proposer,
            nonce: U256::default(),
            number: h.number.into(),
            parent_hash: h.prev_hash,
            receipts_root: h.receipts_root,
            sha3_uncles: EMPTY_UNCLE_HASH,
            state_root: h.state_root,
            timestamp: h.timestamp.into(),
            transactions_root: h.transactions_root,
        }
    }
    pub fn status(s: core_consensus::SyncStatus) -> Web3SyncStatus {
        match s {
            core_consensus::SyncStatus::False => Web3SyncStatus::False,
            core_consensus::SyncStatus::Syncing { start, current, highest } => Web3SyncStatus::Doing(SyncStatus {
                starting_block: start,
                current_block: current,
                highest_block: highest,
                known_states: U256::default(),
                pulled_states: U256::default(),
            }),
        }
    }
    pub fn height(id: BlockId) -> Option<u64> {
        match id {
            BlockId::Num(n) => Some(n.low_u64()),
            BlockId::Earliest => Some(0),
            BlockId::Hash(_) | BlockId::Latest | BlockId::Pending => None,
        }
    }
    pub fn one_or_many<T>(m: MultiType<T>) -> Option<Vec<T>> {
        match m { MultiType::Null => None, MultiType::Single(x) => Some(vec![x]), MultiType::Multi(l) => Some(l) }
    }
    pub fn topics<T>(m: MultiNestType<T>) -> Option<Vec<Option<T>>> {
        match m { MultiNestType::Null => None, MultiNestType::Single(x) => Some(vec![Some(x)]), MultiNestType::Multi(l) => Some(l) }
    }
}

// axon's own, the node's own and the light client's methods

pub mod axon {
    use super::*;
    use common_config_parser::types::spec::HardforkName;
    use std::collections::HashMap;
    use strum::IntoEnumIterator;
    pub struct AxonRpcImpl<Adapter> { pub adapter: Arc<Adapter> }
    macro_rules! of { ($name:ident($s:ident $(, $a:ident : $t:ty)*) -> $r:ty $b:block) => {
        pub async fn $name<Adapter: APIAdapter + 'static>($s: &AxonRpcImpl<Adapter> $(, $a: $t)*) -> RpcResult<$r> $b
    } }
    pub fn new<Adapter: APIAdapter>(adapter: Arc<Adapter>) -> AxonRpcImpl<Adapter> { AxonRpcImpl { adapter } }
    of!(block(s, id: BlockId) -> Option<Block> {
        match id {
            BlockId::Hash(h) => up(s.adapter.get_block_by_hash(Context::new(), h).await),
            BlockId::Num(n) => up(s.adapter.get_block_by_number(Context::new(), Some(n.low_u64())).await),
            BlockId::Latest => up(s.adapter.get_block_by_number(Context::new(), None).await),
            BlockId::Earliest | BlockId::Pending => no(),
        }
    });
    of!(proof(s, id: BlockId) -> Option<Proof> {
        match block(s, id).await? { Some(b) => Ok(Some(b.header.proof)), None => Ok(None) }
    });
    of!(metadata(s, n: U256) -> Metadata { up(s.adapter.get_metadata_by_number(Context::new(), Some(n.low_u64())).await) });
    of!(current_metadata(s) -> Metadata { up(s.adapter.get_metadata_by_number(Context::new(), None).await) });
    of!(ckb_related(s) -> CkbRelatedInfo { up(s.adapter.get_ckb_related_info(Context::new()).await) });
    of!(proposal(s, n: U256) -> Proposal {
        let n = n.low_u64();
        let prev = if n == 0 {
            H256::default()
        } else {
            match up(s.adapter.get_block_by_number(Context::new(), Some(n - 1)).await)? { Some(b) => b.header.state_root, None => return no() }
        };
        let b = match up(s.adapter.get_block_by_number(Context::new(), Some(n)).await)? { Some(b) => b, None => return no() };
        Ok(Proposal::new_with_state_root(&b.header, prev, b.tx_hashes))
    });
    pub fn reached(l: &[HardforkInfoInner], now: u64) -> (H256, H256) {
        if l.len() < 2 {
            return match l.last() {
                Some(x) if x.block_number > now => (H256::zero(), x.flags),
                Some(x) => (x.flags, H256::zero()),
                None => (H256::zero(), H256::zero()),
            };
        }
        let (mut later, mut on) = (None, None);
        for x in l.iter().rev() {
            if x.block_number > now {
                if later.is_none() {
                    later = Some(x.clone());
                }
            } else {
                on = Some(x.clone());
            }
            if on.is_some() {
                break;
            }
        }
        let later = match later { Some(x) => x.flags, None => H256::default() };
        let on = match on { Some(x) => x.flags, None => H256::default() };
        (on, if later != H256::zero() { later ^ on } else { later })
    }
    of!(hardforks(s) -> HashMap<HardforkName, HardforkStatus> {
        let all = up(s.adapter.hardfork_info(Context::new()).await)?;
        let proposed = up(s.adapter.hardfork_proposal(Context::new()).await)?;
        let now = up(s.adapter.get_block_header_by_number(Context::default(), None).await)?.unwrap().number;
        let (on, later) = reached(&all.inner, now);
        let mut out = HashMap::new();
        for f in HardforkName::iter() {
            let bit = H256::from_low_u64_be((f as u64).to_be());
            if let Some(p) = proposed.as_ref() {
                if p.flags & bit != H256::zero() {
                    out.insert(f, HardforkStatus::Proposed);
                }
            }
            if later & bit != H256::zero() {
                out.insert(f, HardforkStatus::Determined);
            }
            if on & bit != H256::zero() {
                out.insert(f, HardforkStatus::Enabled);
            }
        }
        Ok(out)
    });
}

pub mod node {
    use super::*;
    use core_consensus::SYNC_STATUS;
    use protocol::lazy::CHAIN_ID;
    use std::{path::PathBuf, sync::atomic::AtomicBool};
    pub struct NodeRpcImpl { pub version: String, pub pprof: Arc<AtomicBool>, pub _path: PathBuf }
    pub fn chain_id(_: &NodeRpcImpl) -> RpcResult<U256> { Ok((**CHAIN_ID.load()).into()) }
    pub fn net_version(_: &NodeRpcImpl) -> RpcResult<String> { Ok((**CHAIN_ID.load()).to_string()) }
    pub fn version(n: &NodeRpcImpl) -> RpcResult<String> { Ok(n.version.clone()) }
    pub fn listening(_: &NodeRpcImpl) -> RpcResult<bool> { Ok(true) }
    pub fn syncing(_: &NodeRpcImpl) -> RpcResult<Web3SyncStatus> { Ok(SYNC_STATUS.read().clone().into()) }
    pub fn mining(_: &NodeRpcImpl) -> RpcResult<bool> { Ok(false) }
    pub fn coinbase(_: &NodeRpcImpl) -> RpcResult<H160> { Ok(H160::default()) }
    pub fn sha3(_: &NodeRpcImpl, data: Hex) -> RpcResult<Hash> { Ok(Hasher::digest(data.as_ref())) }
}

pub mod ckb_light_client {
    use super::*;
    use ckb_jsonrpc_types::{CellData, CellInfo, HeaderView as CkbHeaderView, JsonBytes, OutPoint};
    use ckb_traits::HeaderProvider;
    use ckb_types::core::cell::{CellProvider, CellStatus};
    use ckb_types::{packed, prelude::Pack};
    use core_executor::DataProvider;
    use protocol::ckb_blake2b_256;
    pub struct CkbLightClientRpcImpl<Adapter: APIAdapter> { pub adapter: Arc<Adapter> }
    pub async fn header<Adapter: APIAdapter + 'static>(s: &CkbLightClientRpcImpl<Adapter>, hash: H256) -> RpcResult<Option<CkbHeaderView>> {
        let root = up(s.adapter.get_image_cell_root(Context::new()).await)?;
        match DataProvider::new(root).get_header(&(hash.0.pack())) { Some(h) => Ok(Some(h.into())), None => Ok(None) }
    }
    pub async fn cell<Adapter: APIAdapter + 'static>(s: &CkbLightClientRpcImpl<Adapter>, out_point: OutPoint, with_data: bool) -> RpcResult<Option<CellInfo>> {
        let p: packed::OutPoint = out_point.into();
        let root = up(s.adapter.get_image_cell_root(Context::new()).await)?;
        match DataProvider::new(root).cell(&p, false) {
            CellStatus::Live(c) => {
                let data = if with_data { c.mem_cell_data } else { None };
                let data = match data { Some(d) => Some(CellData { hash: ckb_types::H256(ckb_blake2b_256(&d)), content: JsonBytes::from_bytes(d) }), None => None };
                Ok(Some(CellInfo { output: c.cell_output.into(), data }))
            }
            _ => Ok(None),
        }
    }
}

// the answers' source

pub mod adapter {
    use super::*;
    use core_executor::{AxonExecutor, AxonExecutorReadOnlyAdapter, MPTTrie, system_contract::metadata::MetadataHandle};
    use protocol::constants::MAX_BLOCK_GAS_LIMIT;
    use protocol::traits::{Executor, ExecutorReadOnlyAdapter, MemPool, Network, ReadOnlyStorage};
    use protocol::trie::{self, Trie as _};
    pub struct DefaultAPIAdapter<M, S, DB, Net> { pub mempool: Arc<M>, pub storage: Arc<S>, pub trie_db: Arc<DB>, pub net: Arc<Net> }
    macro_rules! by { ($name:ident($s:ident $(, $a:ident : $t:ty)*) -> $r:ty $b:block) => {
        pub async fn $name<M, S, DB, Net>($s: &DefaultAPIAdapter<M, S, DB, Net> $(, $a: $t)*) -> ProtocolResult<$r>
        where M: MemPool + 'static, S: ReadOnlyStorage + 'static, DB: trie::DB + Send + Sync + 'static, Net: Network + 'static $b
    } }
    by!(insert(s, ctx: Context, stx: SignedTransaction) -> () { s.mempool.insert(ctx, stx).await });
    pub async fn contains<M, S, DB, Net>(s: &DefaultAPIAdapter<M, S, DB, Net>, ctx: Context, h: &Hash) -> bool
    where M: MemPool + 'static, S: ReadOnlyStorage + 'static, DB: trie::DB + Send + Sync + 'static, Net: Network + 'static { s.mempool.contains(ctx, h).await }
    by!(block(s, ctx: Context, n: Option<u64>) -> Option<Block> {
        match n { Some(n) => s.storage.get_block(ctx, n).await, None => match s.storage.get_latest_block(ctx).await { Ok(b) => Ok(Some(b)), Err(e) => Err(e) } }
    });
    by!(block_by_hash(s, ctx: Context, h: Hash) -> Option<Block> { s.storage.get_block_by_hash(ctx, &h).await });
    by!(header(s, ctx: Context, n: Option<u64>) -> Option<Header> {
        match n { Some(n) => s.storage.get_block_header(ctx, n).await, None => match s.storage.get_latest_block_header(ctx).await { Ok(b) => Ok(Some(b)), Err(e) => Err(e) } }
    });
    by!(number(s, ctx: Context, h: Hash) -> Option<u64> { s.storage.get_block_number_by_hash(ctx, &h).await });
    by!(receipt(s, ctx: Context, h: Hash) -> Option<Receipt> { s.storage.get_receipt_by_hash(ctx, &h).await });
    by!(receipts(s, ctx: Context, n: u64, l: &[Hash]) -> Vec<Option<Receipt>> { s.storage.get_receipts(ctx, n, l).await });
    by!(transaction(s, ctx: Context, h: Hash) -> Option<SignedTransaction> {
        match s.mempool.get_tx_from_mem(ctx.clone(), &h) { Some(t) => Ok(Some(t)), None => s.storage.get_transaction_by_hash(ctx, &h).await }
    });
    by!(transactions(s, ctx: Context, n: u64, l: &[Hash]) -> Vec<Option<SignedTransaction>> { s.storage.get_transactions(ctx, n, l).await });
    by!(backend(s, n: Option<u64>) -> AxonExecutorReadOnlyAdapter<S, DB> {
        let b = match block(s, Context::new(), n).await? { Some(b) => b, None => return down() };
        AxonExecutorReadOnlyAdapter::from_root(b.header.state_root, Arc::clone(&s.trie_db), Arc::clone(&s.storage), Proposal::new_without_state_root(&b.header).into())
    });
    by!(account(s, _ctx: Context, address: H160, n: Option<u64>) -> Account {
        match backend(s, n).await?.get(address.as_bytes()) {
            Some(b) => Account::decode(b),
            None => Ok(Account { nonce: U256::zero(), balance: U256::zero(), storage_root: RLP_NULL, code_hash: NIL_DATA }),
        }
    });
    by!(pending(s, ctx: Context, address: H160) -> (U256, Option<u64>) {
        match s.mempool.get_tx_count_by_address(ctx, address).await { Ok((n, b)) => Ok((U256::from(n), b)), Err(e) => Err(e) }
    });
    by!(evm_call(s, _ctx: Context, from: Option<H160>, to: Option<H160>, price: Option<U64>, gas: Option<U64>, value: U256, data: Vec<u8>, estimate: bool, root: Hash, p: Proposal) -> TxResp {
        let mut ctx = ExecutorContext::from(p);
        ctx.origin = match from { Some(a) => a, None => H160::default() };
        ctx.gas_price = match price { Some(p) => U256::from(p.low_u64()), None => U256::one() };
        let backend = AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&s.trie_db), Arc::clone(&s.storage), ctx)?;
        let gas = match gas { Some(g) => g.low_u64(), None => MAX_BLOCK_GAS_LIMIT };
        Ok(AxonExecutor.call(&backend, gas, from, to, value, data, estimate))
    });
    by!(code(s, ctx: Context, h: &Hash) -> Option<Bytes> { s.storage.get_code_by_hash(ctx, h).await });
    by!(peers(s, ctx: Context) -> U256 { match s.net.peer_count(ctx) { Ok(n) => Ok(n.into()), Err(e) => Err(e) } });
    by!(storage_at(s, _ctx: Context, address: H160, position: U256, root: Hash) -> Bytes {
        let accounts = MPTTrie::from_root(root, Arc::clone(&s.trie_db))?;
        let raw = match accounts.get(address.as_bytes())? { Some(r) => r, None => return down() };
        let slots = MPTTrie::from_root(Account::decode(raw).unwrap().storage_root, Arc::clone(&s.trie_db))?;
        let key: Hash = BigEndianHash::from_uint(&position);
        let v: H256 = match slots.get(key.as_bytes())? { Some(v) => BigEndianHash::from_uint(&U256::decode(v).unwrap()), None => H256::zero() };
        Ok(Bytes::from(v.0.to_vec()))
    });
    by!(proof(s, _ctx: Context, address: H160, positions: Vec<U256>, root: Hash) -> EthAccountProof {
        let accounts = MPTTrie::from_root(root, Arc::clone(&s.trie_db))?;
        let account_proof: Vec<Hex> = accounts.get_proof(address.as_bytes())?.into_iter().map(Hex::encode).collect();
        let raw = match accounts.get(address.as_bytes())? {
            Some(r) => r,
            None => return Ok(EthAccountProof {
                address,
                balance: U256::zero(),
                code_hash: H256::zero(),
                nonce: U256::zero(),
                storage_hash: H256::zero(),
                account_proof,
                storage_proof: positions.into_iter().map(|k| EthStorageProof { key: k, value: U256::zero(), proof: Vec::new() }).collect(),
            }),
        };
        let a = Account::decode(raw).unwrap();
        let slots = MPTTrie::from_root(a.storage_root, Arc::clone(&s.trie_db))?;
        let mut out = Vec::new();
        for k in positions {
            let key: Hash = BigEndianHash::from_uint(&k);
            let proof = slots.get_proof(key.as_bytes())?.into_iter().map(Hex::encode).collect();
            let value = match slots.get(key.as_bytes())? { Some(v) => U256::decode(&v).unwrap(), None => U256::zero() };
            out.push(EthStorageProof { key: k, value, proof });
        }
        Ok(EthAccountProof { address, balance: a.balance, code_hash: a.code_hash, nonce: a.nonce, storage_hash: a.storage_root, account_proof, storage_proof: out })
    });
    by!(metadata_root(s, ctx: Context, n: Option<u64>) -> H256 {
        let root = match n {
            Some(n) => match s.storage.get_block_header(ctx, n).await? { Some(h) => h.state_root, None => return down() },
            None => s.storage.get_latest_block_header(ctx).await?.state_root,
        };
        Ok(AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&s.trie_db), Arc::clone(&s.storage), ExecutorContext::default())?.get_metadata_root())
    });
    by!(metadata(s, ctx: Context, n: Option<u64>) -> Metadata {
        match n {
            Some(n) => MetadataHandle::new(metadata_root(s, ctx, Some(n)).await?).get_metadata_by_block_number(n),
            None => {
                let n = s.storage.get_latest_block_header(ctx.clone()).await?.number;
                MetadataHandle::new(metadata_root(s, ctx, None).await?).get_metadata_by_block_number(n)
            }
        }
    });
    by!(ckb_related(s, ctx: Context) -> CkbRelatedInfo { MetadataHandle::new(metadata_root(s, ctx, None).await?).get_ckb_related_info() });
    by!(image_cell_root(s, ctx: Context) -> H256 {
        let root = s.storage.get_latest_block_header(ctx).await?.state_root;
        Ok(AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&s.trie_db), Arc::clone(&s.storage), ExecutorContext::default())?.get_image_cell_root())
    });
    by!(hardforks(s, ctx: Context) -> HardforkInfo { MetadataHandle::new(metadata_root(s, ctx, None).await?).hardfork_infos() });
    by!(hardfork_proposal(s, ctx: Context) -> Option<HardforkInfoInner> { s.storage.hardfork_proposal(ctx).await });
}

pub mod error {
    use core_api::jsonrpc::web3_types::BlockId;
    use protocol::types::{TxResp, U256};
    pub enum RpcError {
        DecodeInteroperationSigR(String),
        DecodeInteroperationSigS(String),
        InvalidAddressSource,
        MissingDummyInputCell,
        CannotFindImageCell,
        GasPriceIsZero,
        GasPriceIsTooLarge,
        GasLimitIsTooLow,
        GasLimitIsTooLarge,
        TransactionIsNotSigned,
        CannotGetLatestBlock,
        InvalidBlockHash,
        InvalidFromBlockNumber(u64),
        InvalidBlockRange(u64, u64, u64),
        InvalidNewestBlock(BlockId),
        InvalidPosition(U256),
        CannotFindBlock,
        InvalidRewardPercentiles(f64, f64),
        InvalidFromBlockAndToBlockUnion,
        CannotFindFilterId(U256),
        CallSystemContract,
        Evm(TxResp),
        Internal(String),
    }
}
/// The code a client sees: each kind of error has its own.
pub fn error_code(e: &RpcError) -> i32 {
    match e {
        RpcError::DecodeInteroperationSigR(_) => -40001,
        RpcError::DecodeInteroperationSigS(_) => -40002,
        RpcError::InvalidAddressSource => -40003,
        RpcError::MissingDummyInputCell => -40004,
        RpcError::CannotFindImageCell => -40005,
        RpcError::GasPriceIsZero => -40006,
        RpcError::GasPriceIsTooLarge => -40007,
        RpcError::GasLimitIsTooLow => -40008,
        RpcError::GasLimitIsTooLarge => -40009,
        RpcError::TransactionIsNotSigned => -40011,
        RpcError::CannotGetLatestBlock => -40013,
        RpcError::InvalidBlockHash => -40014,
        RpcError::InvalidFromBlockNumber(_) => -40015,
        RpcError::InvalidBlockRange(..) => -40016,
        RpcError::InvalidNewestBlock(_) => -40017,
        RpcError::InvalidPosition(_) => -40018,
        RpcError::CannotFindBlock => -40019,
        RpcError::InvalidRewardPercentiles(..) => -40020,
        RpcError::InvalidFromBlockAndToBlockUnion => -40021,
        RpcError::CannotFindFilterId(_) => -40022,
        RpcError::CallSystemContract => -40023,
        RpcError::Evm(_) => -49998,
        RpcError::Internal(_) => -49999,
    }
}
