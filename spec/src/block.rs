use ethereum::Log as EthLog;
use protocol::constants::BASE_FEE_PER_GAS;
use protocol::lazy::CHAIN_ID;
use protocol::types::*;
use protocol::ProtocolError;
use protocol::codec::error::CodecError;
use rlp::{DecoderError, Prototype, Rlp, RlpStream};
use std::error::Error;

// ---- header versions
pub fn version_u8(v: BlockVersion) -> u8 {
    match v {
        BlockVersion::V0 => 0,
    }
}

pub fn version_of(v: u8) -> Result<BlockVersion, TypesError> {
    if v == 0 {
        Ok(BlockVersion::V0)
    } else {
        Err(TypesError::InvalidBlockVersion(v))
    }
}

pub fn version_append(v: &BlockVersion, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(&version_u8(*v));
}

pub fn version_decode(r: &Rlp) -> Result<BlockVersion, DecoderError> {
    let x: u8 = r.val_at(0)?;
    version_of(x).map_err(|_| DecoderError::Custom(""))
}

// ---- encodings
pub fn proposal_append(p: &Proposal, s: &mut RlpStream) {
    s.begin_list(13);
    s.append(&p.version);
    s.append(&p.prev_hash);
    s.append(&p.proposer);
    s.append(&p.prev_state_root);
    s.append(&p.transactions_root);
    s.append(&p.signed_txs_hash);
    s.append(&p.timestamp);
    s.append(&p.number);
    s.append(&p.gas_limit.low_u64());
    s.append_list(&p.extra_data);
    s.append(&p.proof);
    s.append(&p.call_system_script_count);
    s.append_list(&p.tx_hashes);
}

pub fn proposal_decode(r: &Rlp) -> Result<Proposal, DecoderError> {
    let version = r.val_at(0)?;
    let prev_hash = r.val_at(1)?;
    let proposer = r.val_at(2)?;
    let prev_state_root = r.val_at(3)?;
    let transactions_root = r.val_at(4)?;
    let signed_txs_hash = r.val_at(5)?;
    let timestamp = r.val_at(6)?;
    let number = r.val_at(7)?;
    let gas_limit: u64 = r.val_at(8)?;
    let extra_data = r.list_at(9)?;
    let proof = r.val_at(10)?;
    let call_system_script_count = r.val_at(11)?;
    let tx_hashes = r.list_at(12)?;
    Ok(Proposal {
        version,
        prev_hash,
        proposer,
        prev_state_root,
        transactions_root,
        signed_txs_hash,
        timestamp,
        number,
        gas_limit: U64::from(gas_limit),
        extra_data,
        base_fee_per_gas: U64::from(BASE_FEE_PER_GAS),
        proof,
        chain_id: **CHAIN_ID.load(),
        call_system_script_count,
        tx_hashes,
    })
}

pub fn proposal_codec_encode(p: &Proposal) -> Result<Bytes, Box<dyn Error + Send>> {
    Ok(rlp::encode(p).freeze())
}

pub fn proposal_codec_decode(data: Bytes) -> Result<Proposal, Box<dyn Error + Send>> {
    let p: Proposal = rlp::decode(&data).map_err(|e| ProtocolError::from(CodecError::Rlp(e.to_string())))?;
    Ok(p)
}

pub fn header_append(h: &Header, s: &mut RlpStream) {
    s.begin_list(17);
    s.append(&h.version);
    s.append(&h.prev_hash);
    s.append(&h.proposer);
    s.append(&h.state_root);
    s.append(&h.transactions_root);
    s.append(&h.signed_txs_hash);
    s.append(&h.receipts_root);
    s.append(&h.log_bloom);
    s.append(&h.timestamp);
    s.append(&h.number);
    s.append(&h.gas_used);
    s.append(&h.gas_limit);
    s.append_list(&h.extra_data);
    s.append(&h.base_fee_per_gas);
    s.append(&h.proof);
    s.append(&h.call_system_script_count);
    s.append(&h.chain_id);
}

pub fn header_decode(r: &Rlp) -> Result<Header, DecoderError> {
    Ok(Header {
        version: r.val_at(0)?,
        prev_hash: r.val_at(1)?,
        proposer: r.val_at(2)?,
        state_root: r.val_at(3)?,
        transactions_root: r.val_at(4)?,
        signed_txs_hash: r.val_at(5)?,
        receipts_root: r.val_at(6)?,
        log_bloom: r.val_at(7)?,
        timestamp: r.val_at(8)?,
        number: r.val_at(9)?,
        gas_used: r.val_at(10)?,
        gas_limit: r.val_at(11)?,
        extra_data: r.list_at(12)?,
        base_fee_per_gas: r.val_at(13)?,
        proof: r.val_at(14)?,
        call_system_script_count: r.val_at(15)?,
        chain_id: r.val_at(16)?,
    })
}

pub fn block_append(b: &Block, s: &mut RlpStream) {
    s.begin_list(2);
    s.append(&b.header);
    s.append_list(&b.tx_hashes);
}

pub fn block_decode(r: &Rlp) -> Result<Block, DecoderError> {
    Ok(Block {
        header: r.val_at(0)?,
        tx_hashes: r.list_at(1)?,
    })
}

pub fn extra_append(e: &ExtraData, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(&e.inner);
}

pub fn extra_decode(r: &Rlp) -> Result<ExtraData, DecoderError> {
    Ok(ExtraData { inner: r.val_at(0)? })
}

pub fn proof_append(p: &Proof, s: &mut RlpStream) {
    s.begin_list(5);
    s.append(&p.number);
    s.append(&p.round);
    s.append(&p.block_hash);
    s.append(&p.signature);
    s.append(&p.bitmap);
}

pub fn proof_decode(r: &Rlp) -> Result<Proof, DecoderError> {
    Ok(Proof {
        number: r.val_at(0)?,
        round: r.val_at(1)?,
        block_hash: r.val_at(2)?,
        signature: r.val_at(3)?,
        bitmap: r.val_at(4)?,
    })
}

fn exit_reason(raw: &[u8]) -> Result<ExitReason, DecoderError> {
    bincode::deserialize(raw).map_err(|_| DecoderError::Custom(""))
}

pub fn tx_resp_append(t: &TxResp, s: &mut RlpStream) {
    s.begin_list(8);
    s.append(&bincode::serialize(&t.exit_reason).unwrap());
    s.append(&t.ret);
    s.append(&t.gas_used);
    s.append(&t.remain_gas);
    s.append(&t.fee_cost);
    s.append_list(&t.logs);
    s.append(&t.code_address);
    s.append(&t.removed);
}

pub fn tx_resp_decode(r: &Rlp) -> Result<TxResp, DecoderError> {
    if !matches!(r.prototype()?, Prototype::List(8)) {
        return Err(DecoderError::RlpExpectedToBeList);
    }
    let raw: Vec<u8> = r.val_at(0)?;
    Ok(TxResp {
        exit_reason: exit_reason(&raw)?,
        ret: r.val_at(1)?,
        gas_used: r.val_at(2)?,
        remain_gas: r.val_at(3)?,
        fee_cost: r.val_at(4)?,
        logs: r.list_at(5)?,
        code_address: r.val_at(6)?,
        removed: r.val_at(7)?,
    })
}

pub fn receipt_append(r: &Receipt, s: &mut RlpStream) {
    s.begin_list(13);
    s.append(&r.tx_hash);
    s.append(&r.block_number);
    s.append(&r.block_hash);
    s.append(&r.tx_index);
    s.append(&r.state_root);
    s.append(&r.used_gas);
    s.append(&r.logs_bloom);
    s.append_list(&r.logs);
    s.append(&r.log_index);
    s.append(&r.code_address);
    s.append(&r.sender);
    s.append(&bincode::serialize(&r.ret).unwrap());
    s.append(&r.removed);
}

pub fn receipt_decode(r: &Rlp) -> Result<Receipt, DecoderError> {
    if !matches!(r.prototype()?, Prototype::List(13)) {
        return Err(DecoderError::RlpExpectedToBeList);
    }
    Ok(Receipt {
        tx_hash: r.val_at(0)?,
        block_number: r.val_at(1)?,
        block_hash: r.val_at(2)?,
        tx_index: r.val_at(3)?,
        state_root: r.val_at(4)?,
        used_gas: r.val_at(5)?,
        logs_bloom: r.val_at(6)?,
        logs: r.list_at(7)?,
        log_index: r.val_at(8)?,
        code_address: r.val_at(9)?,
        sender: r.val_at(10)?,
        ret: {
            let raw: Vec<u8> = r.val_at(11)?;
            exit_reason(&raw)?
        },
        removed: r.val_at(12)?,
    })
}

pub fn ctx_append(c: &ExecutorContext, s: &mut RlpStream) {
    s.begin_list(9);
    s.append(&c.block_number);
    s.append(&c.block_coinbase);
    s.append(&c.block_timestamp);
    s.append(&c.chain_id);
    s.append(&c.origin);
    s.append(&c.gas_price);
    s.append(&c.block_gas_limit);
    s.append(&c.block_base_fee_per_gas);
    s.append_list(&c.extra_data);
}

pub fn ctx_decode(r: &Rlp) -> Result<ExecutorContext, DecoderError> {
    Ok(ExecutorContext {
        block_number: r.val_at(0)?,
        block_coinbase: r.val_at(1)?,
        block_timestamp: r.val_at(2)?,
        chain_id: r.val_at(3)?,
        origin: r.val_at(4)?,
        gas_price: r.val_at(5)?,
        block_gas_limit: r.val_at(6)?,
        block_base_fee_per_gas: r.val_at(7)?,
        extra_data: r.list_at(8)?,
    })
}

// ---- hashes
pub fn proposal_hash(p: &Proposal) -> Hash {
    Hasher::digest(rlp::encode(p).freeze())
}

pub fn header_hash(h: &Header) -> Hash {
    Hasher::digest(rlp::encode(h).freeze())
}

pub fn block_hash(b: &Block) -> Hash {
    header_hash(&b.header)
}

pub fn header_size(h: &Header) -> usize {
    rlp::encode(h).len()
}

// ---- from one to another
pub fn proposal_of(h: &Header, state_root: MerkleRoot, hashes: Vec<Hash>) -> Proposal {
    Proposal {
        prev_state_root: state_root,
        tx_hashes: hashes,
        version: h.version,
        prev_hash: h.prev_hash,
        proposer: h.proposer,
        transactions_root: h.transactions_root,
        signed_txs_hash: h.signed_txs_hash,
        timestamp: h.timestamp,
        number: h.number,
        gas_limit: h.gas_limit,
        extra_data: h.extra_data.clone(),
        base_fee_per_gas: h.base_fee_per_gas,
        proof: h.proof.clone(),
        chain_id: h.chain_id,
        call_system_script_count: h.call_system_script_count,
    }
}

pub fn proposal_without(h: &Header) -> Proposal {
    proposal_of(h, Hash::default(), Vec::new())
}

fn raw_bloom(b: &[u8]) -> Bloom {
    Bloom::from(BloomInput::Raw(b))
}

pub fn block_new(p: Proposal, e: ExecResp) -> Block {
    let blooms: Vec<Bloom> = e.tx_resp.iter().map(|r| raw_bloom(&rlp::encode_list(&r.logs))).collect();
    Block {
        header: Header {
            state_root: e.state_root,
            receipts_root: e.receipt_root,
            log_bloom: raw_bloom(&rlp::encode_list(&blooms)),
            gas_used: U64::from(e.gas_used),
            version: p.version,
            prev_hash: p.prev_hash,
            proposer: p.proposer,
            transactions_root: p.transactions_root,
            signed_txs_hash: p.signed_txs_hash,
            timestamp: p.timestamp,
            number: p.number,
            gas_limit: p.gas_limit,
            extra_data: p.extra_data,
            base_fee_per_gas: p.base_fee_per_gas,
            proof: p.proof,
            chain_id: p.chain_id,
            call_system_script_count: p.call_system_script_count,
        },
        tx_hashes: p.tx_hashes,
    }
}

pub fn receipts(b: &Block, txs: &[SignedTransaction], resp: &ExecResp) -> (Vec<Receipt>, Vec<Vec<EthLog>>) {
    let mut log_index = 0;
    let mut receipts = Vec::new();
    let mut logs = Vec::new();
    for ((i, tx), res) in txs.iter().enumerate().zip(resp.tx_resp.iter()) {
        receipts.push(Receipt {
            tx_hash: tx.transaction.hash,
            block_number: b.header.number,
            block_hash: block_hash(b),
            tx_index: i as u32,
            state_root: b.header.state_root,
            used_gas: U64::from(res.gas_used),
            logs_bloom: logs_bloom(res.logs.iter()),
            logs: res.logs.clone(),
            log_index,
            code_address: res.code_address,
            sender: tx.sender,
            ret: res.exit_reason.clone(),
            removed: res.removed,
        });
        logs.push(res.logs.clone());
        log_index += res.logs.len() as u32;
    }
    (receipts, logs)
}

pub fn rich_receipts(b: &RichBlock, resp: &ExecResp) -> (Vec<Receipt>, Vec<Vec<EthLog>>) {
    receipts(&b.block, &b.txs, resp)
}

pub fn receipt_status(r: &Receipt) -> U64 {
    if let ExitReason::Succeed(_) = r.ret {
        U64::one()
    } else {
        U64::zero()
    }
}

pub fn ctx_of_header(h: &Header) -> ExecutorContext {
    ExecutorContext {
        block_number: U256::from(h.number),
        block_coinbase: h.proposer,
        block_timestamp: U256::from(h.timestamp),
        chain_id: U256::from(h.chain_id),
        origin: h.proposer,
        gas_price: U256::one(),
        block_gas_limit: h.gas_limit,
        block_base_fee_per_gas: h.base_fee_per_gas,
        extra_data: h.extra_data.clone(),
    }
}

pub fn ctx_of_proposal(h: Proposal) -> ExecutorContext {
    ExecutorContext {
        block_number: U256::from(h.number),
        block_coinbase: h.proposer,
        block_timestamp: U256::from(h.timestamp),
        chain_id: U256::from(h.chain_id),
        origin: h.proposer,
        gas_price: U256::one(),
        block_gas_limit: h.gas_limit,
        block_base_fee_per_gas: h.base_fee_per_gas,
        extra_data: h.extra_data,
    }
}

// the yellow paper's M3:2048
pub fn bloom<'a, I>(logs: I) -> Bloom
where
    I: Iterator<Item = &'a EthLog>,
{
    let mut b = Bloom::zero();
    for log in logs {
        m3(&mut b, log.address.as_bytes());
        for t in log.topics.iter() {
            m3(&mut b, t.as_bytes());
        }
    }
    b
}

fn m3(b: &mut Bloom, x: &[u8]) {
    let h = Hasher::digest(x).0;
    for i in [0, 2, 4] {
        let bit = (h[i + 1] as usize + ((h[i] as usize) << 8)) & 2047;
        b.0[255 - bit / 8] |= 1 << (bit % 8);
    }
}
