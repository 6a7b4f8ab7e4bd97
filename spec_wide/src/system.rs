//! core/executor/src/system_contract: the contracts at 0xff..ff00 to 0xff..ff03.
use crate::abi::{ckb_light_client_abi, image_cell_abi};
use common_config_parser::types::spec::HardforkName;
use core_executor::system_contract::metadata::segment::EpochSegment;
use core_executor::system_contract::metadata::{metadata_abi, encode_consensus_config, MetadataContract, MetadataStore, CONSENSUS_CONFIG, EPOCH_SEGMENT_KEY, HARDFORK_KEY};
use core_executor::system_contract::{
    CkbLightClientContract, ImageCellContract, NativeTokenContract, SystemContract, HEADER_CELL_ROOT_KEY, METADATA_ROOT_KEY,
};
use core_executor::{MPTTrie, MetadataHandle, RocksTrieDB, HARDFORK_INFO};
use ethers::abi::AbiDecode;
use evm::backend::{Apply, Basic};
use evm::{ExitReason, ExitRevert, ExitSucceed};
use parking_lot::RwLock;
use protocol::codec::ProtocolCodec;
use protocol::traits::{ApplyBackend, Backend, ExecutorAdapter};
use protocol::trie::Trie;
use protocol::types::{
    CkbRelatedInfo, ConsensusConfig, ConsensusConfigV0, HardforkInfo, HardforkInfoInner, Hasher, Metadata, MetadataInner, ProposeCount, SignedTransaction,
    TransactionAction, TxResp, TypesError, H160, H256, U256, U64,
};
use protocol::ProtocolResult;
use rocksdb::DB;
use std::collections::BTreeMap;
use std::sync::Arc;

lazy_static::lazy_static! {
    pub static ref METADATA_DB: RwLock<Option<Arc<RocksTrieDB>>> = RwLock::new(None);
    pub static ref HEADER_CELL_DB: RwLock<Option<Arc<RocksTrieDB>>> = RwLock::new(None);
    pub static ref CKB_RELATED_INFO_KEY: H256 = Hasher::digest("ckb_related_info");
}
use crate::exec::{CURRENT_HEADER_CELL_ROOT, CURRENT_METADATA_ROOT};

pub fn bad<T>() -> ProtocolResult<T> { Err(TypesError::LengthMismatch { expect: 0, real: 0 }.into()) }
const fn at(n: u8) -> H160 {
    let mut a = [0xffu8; 20];
    a[19] = n;
    H160(a)
}
const NATIVE: H160 = at(0);
const METADATA: H160 = at(1);
const HEADERS: H160 = at(2);
const CELLS: H160 = at(3);
type Changes = Vec<Apply<Vec<(H256, H256)>>>;

// ---- mod.rs
pub fn key_header_cells() -> H256 { Hasher::digest("header_cell_mpt_root") }
pub fn key_metadata() -> H256 { Hasher::digest("metadata_root") }
pub fn key_segment() -> H256 { Hasher::digest("epoch_segment") }
pub fn key_ckb_related() -> H256 { Hasher::digest("ckb_related_info") }
pub fn key_consensus() -> H256 { Hasher::digest("consensus_config") }
pub fn key_hardfork() -> H256 { Hasher::digest("hardfork") }

pub fn swap_metadata_db(db: Arc<RocksTrieDB>) -> Arc<RocksTrieDB> { METADATA_DB.write().replace(db).unwrap() }
pub fn swap_header_cell_db(db: Arc<RocksTrieDB>) -> Arc<RocksTrieDB> { HEADER_CELL_DB.write().replace(db).unwrap() }
pub fn init_db<A: ExecutorAdapter + ApplyBackend>(db: Arc<DB>, a: &mut A) -> (H256, H256) {
    let metadata = a.storage(METADATA, *METADATA_ROOT_KEY);
    METADATA_DB.write().replace(Arc::new(RocksTrieDB::new_metadata(Arc::clone(&db), 10)));
    HEADER_CELL_DB.write().replace(Arc::new(RocksTrieDB::new_ckb_light_client(db, 200)));
    let cells = a.storage(HEADERS, *HEADER_CELL_ROOT_KEY);
    if cells == H256::zero() {
        let changes = root_changes(a, HEADERS);
        a.apply(changes, vec![], false);
    }
    (metadata, cells)
}
pub fn init_metadata<A: ExecutorAdapter + ApplyBackend>(a: &mut A, root: H256, list: &[Metadata], hardfork: HardforkInfoInner) -> ProtocolResult<()> {
    let mut s = MetadataStore::new(root)?;
    s.append_metadata(&list[0])?;
    s.append_metadata(&list[1])?;
    s.set_hardfork_info(hardfork.block_number, hardfork.flags)?;
    let changes = root_changes(a, METADATA);
    a.apply(changes, vec![], false);
    Ok(())
}
pub fn init<A: ExecutorAdapter + ApplyBackend>(db: Arc<DB>, a: &mut A, list: &[Metadata], hardfork: HardforkInfoInner) -> ProtocolResult<(H256, H256)> {
    let roots = init_db(db, a);
    init_metadata(a, roots.0, list, hardfork)?;
    Ok(roots)
}
/// Only the metadata contract does something after a block, and no contract before one.
pub fn before_block<A: ExecutorAdapter + ApplyBackend>(a: &mut A) {}
pub fn after_block<A: ExecutorAdapter + ApplyBackend>(a: &mut A) { after_block_metadata(&MetadataContract::default(), a) }

pub fn dispatch<A: ExecutorAdapter + ApplyBackend>(a: &mut A, tx: &SignedTransaction) -> Option<TxResp> {
    match tx.get_to() {
        Some(to) if to == NATIVE => Some(native_token(&NativeTokenContract::default(), a, tx)),
        Some(to) if to == METADATA => Some(metadata(&MetadataContract::default(), a, tx)),
        Some(to) if to == HEADERS => Some(ckb_light_client::exec(&CkbLightClientContract::default(), a, tx)),
        Some(to) if to == CELLS => Some(image_cell::exec(&ImageCellContract::default(), a, tx)),
        _ => None,
    }
}
pub fn looks_like_system(a: &H160) -> bool { a.0[..19] == [0xff; 19] }
/// A call to one of the four contracts; other addresses that look like them are reserved.
pub fn calls_system(action: &TransactionAction) -> ProtocolResult<bool> {
    match action {
        TransactionAction::Create => Ok(false),
        TransactionAction::Call(to) => {
            if to.0[..19] != [0xff; 19] {
                Ok(false)
            } else if [NATIVE, METADATA, HEADERS, CELLS].contains(to) {
                Ok(true)
            } else {
                bad()
            }
        }
    }
}

// ---- utils.rs
pub fn reverted(limit: U64) -> TxResp {
    TxResp {
        exit_reason: ExitReason::Revert(ExitRevert::Reverted),
        ret: vec![],
        gas_used: (limit - 1).low_u64(),
        remain_gas: 1,
        fee_cost: U256::one(),
        logs: vec![],
        code_address: None,
        removed: false,
    }
}
pub fn succeeded(limit: U64) -> TxResp {
    TxResp {
        exit_reason: ExitReason::Succeed(ExitSucceed::Stopped),
        ret: vec![],
        gas_used: 0,
        remain_gas: limit.low_u64(),
        fee_cost: U256::zero(),
        logs: vec![],
        code_address: None,
        removed: false,
    }
}
fn modify(address: H160, basic: Basic, storage: Vec<(H256, H256)>) -> Apply<Vec<(H256, H256)>> {
    Apply::Modify { address, basic, code: None, storage, reset_storage: false }
}
pub fn sender_changes<B: Backend + ApplyBackend>(b: &mut B, sender: H160) -> Changes {
    let mut account = b.basic(sender);
    account.nonce += U256::one();
    vec![modify(sender, account, vec![])]
}
/// The roots of the contracts' own states are kept in the storage of their accounts; headers and cells have one root.
pub fn root_changes<B: Backend + ApplyBackend>(b: &mut B, contract: H160) -> Changes {
    if contract == METADATA {
        let root = CURRENT_METADATA_ROOT.with(|r| *r.borrow());
        return vec![modify(METADATA, b.basic(METADATA), vec![(*METADATA_ROOT_KEY, root)])];
    }
    if contract != HEADERS && contract != CELLS {
        panic!()
    }
    let root = CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow());
    vec![
        modify(HEADERS, b.basic(HEADERS), vec![(*HEADER_CELL_ROOT_KEY, root)]),
        modify(CELLS, b.basic(CELLS), vec![(*HEADER_CELL_ROOT_KEY, root)]),
    ]
}
pub fn update_states<B: Backend + ApplyBackend>(b: &mut B, sender: H160, contract: H160) {
    let mut changes = root_changes(b, contract);
    changes.append(&mut sender_changes(b, sender));
    b.apply(changes, vec![], false)
}

// ---- native_token.rs: 0 or 1, then the address that gets or gives the value
pub fn native_token<A: ExecutorAdapter + ApplyBackend>(c: &NativeTokenContract<A>, a: &mut A, tx: &SignedTransaction) -> TxResp {
    let u = &tx.transaction.unsigned;
    let limit = *u.gas_limit();
    let data = u.data();
    if data.len() < 21 || data[0] > 1 {
        return reverted(limit);
    }
    let who = H160::from_slice(&data[1..21]);
    let mut account = a.basic(who);
    if data[0] == 0 {
        account.balance += *u.value();
    } else if account.balance < *u.value() {
        return reverted(limit);
    } else {
        account.balance -= *u.value();
    }
    account.nonce = account.nonce + U256::one();
    a.apply(vec![modify(who, account, vec![])], vec![], false);
    succeeded(limit)
}

// ---- metadata
pub fn metadata<A: ExecutorAdapter + ApplyBackend>(c: &MetadataContract<A>, a: &mut A, tx: &SignedTransaction) -> TxResp {
    let u = &tx.transaction.unsigned;
    let limit = *u.gas_limit();
    let number = a.block_number().as_u64();
    let root = CURRENT_METADATA_ROOT.with(|r| *r.borrow());
    let mut store = match MetadataStore::new(root) {
        Ok(s) => s,
        Err(_) => return reverted(limit),
    };
    // after genesis, validators only
    if number != 0 && !matches!(MetadataHandle::new(root).is_validator(number, tx.sender), Ok(true)) {
        return reverted(limit);
    }
    let done = match metadata_abi::MetadataContractCalls::decode(u.data()) {
        Ok(metadata_abi::MetadataContractCalls::AppendMetadata(c)) => store.append_metadata(&c.metadata.into()).is_ok(),
        Ok(metadata_abi::MetadataContractCalls::SetCkbRelatedInfo(c)) => store.set_ckb_related_info(&c.info.into()).is_ok(),
        Ok(metadata_abi::MetadataContractCalls::UpdateConsensusConfig(c)) => store.update_consensus_config(c.config.into()).is_ok(),
        Err(_) => false,
    };
    if !done {
        return reverted(limit);
    }
    update_states(a, tx.sender, METADATA);
    succeeded(limit)
}
pub fn after_block_metadata<A: ExecutorAdapter + ApplyBackend>(c: &MetadataContract<A>, a: &mut A) {
    let number = a.block_number();
    if number == U256::zero() {
        return;
    }
    let mut store = MetadataStore::new(CURRENT_METADATA_ROOT.with(|r| *r.borrow())).unwrap();
    if let Some(x) = a.get_ctx().extra_data.first() {
        if let Ok(h) = HardforkInfoInner::decode(&x.inner) {
            store.set_hardfork_info(h.block_number, h.flags).unwrap();
        }
    }
    HARDFORK_INFO.swap(Arc::new(store.hardfork_info(number.as_u64()).unwrap()));
    store.update_propose_count(number.as_u64(), &a.block_coinbase()).unwrap();
    let changes = root_changes(a, METADATA);
    a.apply(changes, vec![], false);
}
pub fn related_info_exists(root: H256) -> bool { MetadataHandle::new(root).get_ckb_related_info().is_ok() }

// segment.rs: the first and then the last block of every epoch, 8 bytes big endian each
pub mod segment {
use super::*;
pub struct EpochSegment {
    pub seg: Vec<u64>,
}
pub fn new_() -> EpochSegment { EpochSegment { seg: vec![0] } }
pub fn append(s: &mut EpochSegment, end: u64) -> ProtocolResult<()> {
    if end > *s.seg.last().unwrap() {
        s.seg.push(end);
        Ok(())
    } else {
        bad()
    }
}
pub fn epoch(s: &EpochSegment, number: u64) -> ProtocolResult<u64> {
    for (e, w) in s.seg.windows(2).enumerate() {
        if w[0] < number && number <= w[1] {
            return Ok(e as u64);
        }
    }
    bad()
}
pub fn latest(s: &EpochSegment) -> u64 { s.seg.len().saturating_sub(2) as u64 }
pub fn empty(s: &EpochSegment) -> bool { s.seg.len() == 1 }
pub fn end(s: &EpochSegment) -> u64 { *s.seg.last().unwrap() }
pub fn ends_at(s: &EpochSegment, number: u64) -> bool { s.seg.iter().any(|e| *e == number) }
pub fn bytes(s: &EpochSegment) -> Vec<u8> { s.seg.iter().flat_map(|e| e.to_be_bytes()).collect() }
pub fn parse(raw: Vec<u8>) -> ProtocolResult<EpochSegment> {
    if raw.is_empty() || raw[0] != 0 || raw.len() % 8 != 0 {
        return bad();
    }
    let seg = raw
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b.copy_from_slice(c);
            u64::from_be_bytes(b)
        })
        .collect();
    Ok(EpochSegment { seg })
}
}
// store.rs
pub fn store_new(root: H256) -> ProtocolResult<MetadataStore> {
    let db = match METADATA_DB.read().clone() {
        Some(db) => db,
        None => return bad(),
    };
    let trie = if root.is_zero() {
        let mut t = MPTTrie::new(db);
        t.insert(EPOCH_SEGMENT_KEY.as_bytes().to_vec(), EpochSegment::new().as_bytes())?;
        t
    } else {
        match MPTTrie::from_root(root, db) {
            Ok(t) => t,
            Err(_) => return bad(),
        }
    };
    Ok(MetadataStore { trie })
}
fn keep(s: &mut MetadataStore, key: Vec<u8>, value: Vec<u8>) -> ProtocolResult<()> {
    s.trie.insert(key, value)?;
    let root = s.trie.commit()?;
    CURRENT_METADATA_ROOT.with(|r| *r.borrow_mut() = root);
    Ok(())
}
pub fn set_related_info(s: &mut MetadataStore, info: &CkbRelatedInfo) -> ProtocolResult<()> {
    let v = info.encode()?.to_vec();
    keep(s, CKB_RELATED_INFO_KEY.as_bytes().to_vec(), v)
}
pub fn append_metadata(s: &mut MetadataStore, m: &Metadata) -> ProtocolResult<()> {
    let mut seg = EpochSegment::from_raw(s.trie.get(EPOCH_SEGMENT_KEY.as_bytes())?.unwrap())?;
    let next = if seg.is_empty() { 0 } else { seg.get_latest_epoch_number() + 1 };
    if m.epoch != next {
        return bad();
    }
    if m.epoch != 0 && m.version.start != seg.last_block_number() + 1 {
        return bad();
    }
    let counters: BTreeMap<_, _> = m.verifier_list.iter().map(|v| (v.address, 0u64)).collect();
    let mut m = m.clone();
    m.propose_counter = counters.into_iter().map(|c| c.into()).collect();
    seg.append_endpoint(m.version.end)?;
    let (inner, config) = m.into_part();
    s.trie.insert(EPOCH_SEGMENT_KEY.as_bytes().to_vec(), seg.as_bytes())?;
    s.trie.insert(inner.epoch.to_be_bytes().to_vec(), inner.encode()?.to_vec())?;
    let flags = **HARDFORK_INFO.load();
    keep(s, CONSENSUS_CONFIG.as_bytes().to_vec(), encode_consensus_config(flags, config)?)
}
pub fn count_proposal(s: &mut MetadataStore, number: u64, proposer: &H160) -> ProtocolResult<()> {
    let epoch = epoch_of(s, number)?;
    let mut m = metadata_inner(s, epoch)?;
    if let Some(c) = m.propose_counter.iter_mut().find(|c| &c.address == proposer) {
        c.increase();
    }
    let v = m.encode()?.to_vec();
    keep(s, m.epoch.to_be_bytes().to_vec(), v)
}
pub fn epoch_segment(s: &MetadataStore) -> ProtocolResult<EpochSegment> { EpochSegment::from_raw(s.trie.get(EPOCH_SEGMENT_KEY.as_bytes())?.unwrap()) }
pub fn epoch_of(s: &MetadataStore, number: u64) -> ProtocolResult<u64> { s.get_epoch_segment()?.get_epoch_number(number) }
pub fn metadata_inner(s: &MetadataStore, epoch: u64) -> ProtocolResult<MetadataInner> {
    match s.trie.get(&epoch.to_be_bytes())? {
        Some(raw) => MetadataInner::decode(raw),
        None => bad(),
    }
}
pub fn metadata_of(s: &MetadataStore, epoch: u64) -> ProtocolResult<Metadata> {
    let inner = metadata_inner(s, epoch)?;
    Ok(Metadata::from_parts(inner, s.get_consensus_config()?))
}
pub fn metadata_at(s: &MetadataStore, number: u64) -> ProtocolResult<Metadata> { s.get_metadata(epoch_of(s, number)?) }
pub fn consensus_config(s: &MetadataStore) -> ProtocolResult<ConsensusConfig> { config_parse(s.trie.get(CONSENSUS_CONFIG.as_bytes())?.unwrap()) }
pub fn related_info(s: &MetadataStore) -> ProtocolResult<CkbRelatedInfo> {
    match s.trie.get(CKB_RELATED_INFO_KEY.as_bytes())? {
        Some(raw) => CkbRelatedInfo::decode(raw),
        None => bad(),
    }
}
pub fn update_config(s: &mut MetadataStore, c: ConsensusConfig) -> ProtocolResult<()> {
    let v = encode_consensus_config(**HARDFORK_INFO.load(), c)?;
    keep(s, CONSENSUS_CONFIG.as_bytes().to_vec(), v)
}
pub fn set_hardfork(s: &mut MetadataStore, block_number: u64, flags: H256) -> ProtocolResult<()> {
    let mut all = match s.trie.get(HARDFORK_KEY.as_bytes())? {
        Some(raw) => HardforkInfo::decode(raw)?,
        None => HardforkInfo { inner: vec![] },
    };
    all.push(HardforkInfoInner { block_number, flags });
    let v = all.encode()?.to_vec();
    keep(s, HARDFORK_KEY.as_bytes().to_vec(), v)
}
/// The flags of the last entry that is not above the block.
pub fn hardfork_at(s: &MetadataStore, number: u64) -> ProtocolResult<H256> {
    if let Some(raw) = s.trie.get(HARDFORK_KEY.as_bytes())? {
        for h in HardforkInfo::decode(raw)?.inner.iter().rev() {
            if h.block_number <= number {
                return Ok(h.flags);
            }
        }
    }
    Ok(H256::zero())
}
pub fn hardforks(s: &MetadataStore) -> ProtocolResult<HardforkInfo> {
    match s.trie.get(HARDFORK_KEY.as_bytes())? {
        Some(raw) => HardforkInfo::decode(raw),
        None => Ok(HardforkInfo::default()),
    }
}
/// Two bytes of version, 0 before the hardfork Andromeda and 1 from then on, and the RLP of that version.
pub fn config_parse(raw: Vec<u8>) -> ProtocolResult<ConsensusConfig> {
    match u16::from_be_bytes([raw[0], raw[1]]) {
        0 => ConsensusConfigV0::decode(&raw[2..]).map(Into::into),
        1 => ConsensusConfig::decode(&raw[2..]),
        _ => panic!(),
    }
}
pub fn config_bytes(flags: H256, config: ConsensusConfig) -> ProtocolResult<Vec<u8>> {
    let flag = H256::from_low_u64_be((HardforkName::Andromeda as u64).to_be());
    let (version, config) = if flags & flag == flag { (1u16, config.encode()?) } else { (0, ConsensusConfigV0::from(config).encode()?) };
    let mut out = version.to_be_bytes().to_vec();
    out.extend(config.to_vec());
    Ok(out)
}

// handle.rs
pub mod handle {
    use super::*;
    pub struct MetadataHandle {
        root: H256,
    }
    pub fn new_(root: H256) -> MetadataHandle { MetadataHandle { root } }
    pub fn at(h: &MetadataHandle, number: u64) -> ProtocolResult<Metadata> {
        let s = MetadataStore::new(h.root)?;
        if number == 0 {
            s.get_metadata(0)
        } else {
            s.get_metadata(s.get_epoch_segment()?.get_epoch_number(number)?)
        }
    }
    pub fn of_epoch(h: &MetadataHandle, epoch: u64) -> ProtocolResult<Metadata> { MetadataStore::new(h.root)?.get_metadata(epoch) }
    pub fn is_last(h: &MetadataHandle, number: u64) -> ProtocolResult<bool> { Ok(MetadataStore::new(h.root)?.get_epoch_segment()?.is_last_block_in_epoch(number)) }
    pub fn is_validator(h: &MetadataHandle, number: u64, address: H160) -> ProtocolResult<bool> {
        Ok(at(h, number)?.verifier_list.iter().any(|v| v.address == address))
    }
    pub fn related_info(h: &MetadataHandle) -> ProtocolResult<CkbRelatedInfo> { MetadataStore::new(h.root)?.get_ckb_related_info() }
    pub fn hardforks(h: &MetadataHandle) -> ProtocolResult<HardforkInfo> { MetadataStore::new(h.root)?.hardfork_infos() }
    pub fn init_hardfork(h: &MetadataHandle, number: u64) -> ProtocolResult<()> {
        HARDFORK_INFO.swap(Arc::new(MetadataStore::new(h.root)?.hardfork_info(number).unwrap()));
        Ok(())
    }
    pub fn config(h: &MetadataHandle) -> ProtocolResult<ConsensusConfig> { MetadataStore::new(h.root)?.get_consensus_config() }
}

// abi/mod.rs: field by field
pub mod conv {
    use super::*;
    use protocol::types::{Hex, MetadataVersion, ValidatorExtend};
    pub fn metadata_in(m: metadata_abi::Metadata) -> Metadata {
        Metadata {
            version: MetadataVersion { start: m.version.start, end: m.version.end },
            epoch: m.epoch,
            verifier_list: m.verifier_list.into_iter().map(validator_in).collect(),
            propose_counter: m.propose_counter.into_iter().map(counter_in).collect(),
            consensus_config: config_in(m.consensus_config),
        }
    }
    pub fn metadata_out(m: Metadata) -> metadata_abi::Metadata {
        metadata_abi::Metadata {
            version: version_out(m.version),
            epoch: m.epoch,
            verifier_list: m.verifier_list.into_iter().map(validator_out).collect(),
            propose_counter: m.propose_counter.into_iter().map(counter_out).collect(),
            consensus_config: config_out(m.consensus_config),
        }
    }
    pub fn config_in(c: metadata_abi::ConsensusConfig) -> ConsensusConfig {
        let metadata_abi::ConsensusConfig {
            propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, gas_limit, interval, max_contract_limit, ..
        } = c;
        ConsensusConfig { gas_limit, interval, propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, max_contract_limit }
    }
    pub fn config_out(c: ConsensusConfig) -> metadata_abi::ConsensusConfig {
        let ConsensusConfig { gas_limit, interval, propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, max_contract_limit } = c;
        metadata_abi::ConsensusConfig {
            propose_ratio, prevote_ratio, precommit_ratio, brake_ratio, tx_num_limit, max_tx_size, gas_limit, interval, max_contract_limit,
        }
    }
    pub fn version_out(v: MetadataVersion) -> metadata_abi::MetadataVersion { metadata_abi::MetadataVersion { start: v.start, end: v.end } }
    pub fn validator_in(v: metadata_abi::ValidatorExtend) -> ValidatorExtend {
        ValidatorExtend {
            bls_pub_key: Hex::encode(v.bls_pub_key),
            pub_key: Hex::encode(v.pub_key),
            address: v.address,
            propose_weight: v.propose_weight,
            vote_weight: v.vote_weight,
        }
    }
    pub fn validator_out(v: ValidatorExtend) -> metadata_abi::ValidatorExtend {
        metadata_abi::ValidatorExtend {
            bls_pub_key: v.bls_pub_key.as_bytes().into(),
            pub_key: v.pub_key.as_bytes().into(),
            address: v.address,
            propose_weight: v.propose_weight,
            vote_weight: v.vote_weight,
        }
    }
    pub fn counter_out(c: ProposeCount) -> metadata_abi::ProposeCount { metadata_abi::ProposeCount { address: c.address, count: c.count } }
    pub fn counter_in(c: metadata_abi::ProposeCount) -> ProposeCount { ProposeCount { address: c.address, count: c.count } }
    pub fn related_out(i: CkbRelatedInfo) -> metadata_abi::CkbRelatedInfo {
        metadata_abi::CkbRelatedInfo {
            metadata_type_id: i.metadata_type_id.0,
            checkpoint_type_id: i.checkpoint_type_id.0,
            xudt_args: i.xudt_args.0,
            stake_smt_type_id: i.stake_smt_type_id.0,
            delegate_smt_type_id: i.delegate_smt_type_id.0,
            reward_smt_type_id: i.reward_smt_type_id.0,
        }
    }
    pub fn related_in(i: metadata_abi::CkbRelatedInfo) -> CkbRelatedInfo {
        CkbRelatedInfo {
            metadata_type_id: H256(i.metadata_type_id),
            checkpoint_type_id: H256(i.checkpoint_type_id),
            xudt_args: H256(i.xudt_args),
            stake_smt_type_id: H256(i.stake_smt_type_id),
            delegate_smt_type_id: H256(i.delegate_smt_type_id),
            reward_smt_type_id: H256(i.reward_smt_type_id),
        }
    }
}

// ---- headers and cells of CKB, in one trie
type HeaderCells = MPTTrie<RocksTrieDB>;
fn header_cells(root: H256) -> ProtocolResult<HeaderCells> {
    let db = match HEADER_CELL_DB.read().clone() {
        Some(db) => db,
        None => return bad(),
    };
    if root.is_zero() {
        return Ok(MPTTrie::new(db));
    }
    match MPTTrie::from_root(root, db) {
        Ok(t) => Ok(t),
        Err(_) => bad(),
    }
}
fn header_cells_commit(t: &mut HeaderCells) -> ProtocolResult<()> {
    match t.commit() {
        Ok(root) => {
            CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow_mut() = root);
            Ok(())
        }
        Err(_) => bad(),
    }
}
pub mod ckb_light_client {
    use super::*;
    use ckb_light_client_abi::{CkbLightClientContractCalls as Calls, Header};
    use ethers::abi::AbiEncode;
    use std::sync::atomic::{AtomicBool, Ordering};
    static ALLOW_READ: AtomicBool = AtomicBool::new(false);
    pub struct CkbLightClientStore {
        pub trie: HeaderCells,
    }
    pub struct CkbHeaderReader;
    pub fn open(root: H256) -> ProtocolResult<CkbLightClientStore> { Ok(CkbLightClientStore { trie: header_cells(root)? }) }
    pub fn commit(s: &mut CkbLightClientStore) -> ProtocolResult<()> { header_cells_commit(&mut s.trie) }
    /// headers are found by their hash
    pub fn save(s: &mut CkbLightClientStore, h: &Header) -> ProtocolResult<()> {
        match s.trie.insert(h.block_hash.to_vec(), h.clone().encode()) {
            Ok(()) => Ok(()),
            Err(_) => bad(),
        }
    }
    pub fn remove(s: &mut CkbLightClientStore, hash: &[u8]) -> ProtocolResult<()> {
        match s.trie.remove(hash) {
            Ok(true) => Ok(()),
            _ => bad(),
        }
    }
    pub fn update(s: &mut CkbLightClientStore, d: ckb_light_client_abi::UpdateCall) -> ProtocolResult<()> {
        for h in d.headers {
            save(s, &h)?;
        }
        commit(s)
    }
    pub fn rollback(s: &mut CkbLightClientStore, d: ckb_light_client_abi::RollbackCall) -> ProtocolResult<()> {
        for h in d.block_hashes {
            remove(s, &h)?;
        }
        commit(s)
    }
    pub fn header(s: &CkbLightClientStore, hash: &[u8]) -> ProtocolResult<Option<Header>> {
        match s.trie.get(hash) {
            Ok(None) => Ok(None),
            Ok(Some(raw)) => match Header::decode(raw) {
                Ok(h) => Ok(Some(h)),
                Err(_) => bad(),
            },
            Err(_) => bad(),
        }
    }
    pub fn header_by_hash(r: &CkbHeaderReader, root: H256, hash: &H256) -> ProtocolResult<Option<Header>> { header(&open(root)?, &hash.0) }
    pub fn raw(r: &CkbHeaderReader, root: H256, key: &[u8]) -> ProtocolResult<Option<Vec<u8>>> { Ok(open(root)?.trie.get(key)?) }
    pub fn exec<A: ExecutorAdapter + ApplyBackend>(c: &CkbLightClientContract<A>, a: &mut A, tx: &SignedTransaction) -> TxResp {
        let u = &tx.transaction.unsigned;
        let limit = *u.gas_limit();
        let mut s = match open(CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow())) {
            Ok(s) => s,
            Err(_) => return reverted(limit),
        };
        let done = match Calls::decode(u.data()) {
            Ok(Calls::SetState(d)) => {
                ALLOW_READ.store(d.allow_read, Ordering::Relaxed);
                Ok(())
            }
            Ok(Calls::Update(d)) => update(&mut s, d),
            Ok(Calls::Rollback(d)) => rollback(&mut s, d),
            Err(_) => bad(),
        };
        match done {
            Err(_) => reverted(limit),
            Ok(()) => {
                update_states(a, tx.sender, HEADERS);
                succeeded(limit)
            }
        }
    }
}
pub mod image_cell {
    use super::*;
    use ckb_types::{bytes::Bytes, core::cell::CellMeta, packed, prelude::*};
    use image_cell_abi::{ImageCellContractCalls as Calls, OutPoint};
    use rlp::{RlpDecodable, RlpEncodable};
    use std::sync::atomic::{AtomicBool, Ordering};
    static ALLOW_READ: AtomicBool = AtomicBool::new(false);
    pub struct ImageCellStore {
        pub trie: HeaderCells,
    }
    pub struct ImageCellReader;
    pub struct CellKey {
        pub tx_hash: H256,
        pub index:   u32,
    }
    pub mod store {
        use super::*;
        #[derive(RlpEncodable, RlpDecodable)]
        pub struct CellInfo {
            pub cell_output:     Bytes,
            pub cell_data:       Bytes,
            pub created_number:  u64,
            pub consumed_number: Option<u64>,
        }
    }
    pub use store::CellInfo;
    pub fn open(root: H256) -> ProtocolResult<ImageCellStore> { Ok(ImageCellStore { trie: header_cells(root)? }) }
    pub fn commit(s: &mut ImageCellStore) -> ProtocolResult<()> { header_cells_commit(&mut s.trie) }
    // cells are found by transaction hash and index (little endian)
    pub fn key_new(tx_hash: [u8; 32], index: u32) -> CellKey { CellKey { tx_hash: H256(tx_hash), index } }
    pub fn key_of(p: &packed::OutPoint) -> CellKey { CellKey { tx_hash: H256(p.tx_hash().unpack().0), index: p.index().unpack() } }
    pub fn key_bytes(k: &CellKey) -> Bytes {
        let mut b = Vec::with_capacity(36);
        b.extend_from_slice(&k.tx_hash.0);
        b.extend_from_slice(&k.index.to_le_bytes());
        b.into()
    }
    pub fn key_parse(b: &[u8]) -> ProtocolResult<CellKey> {
        if b.len() != 36 {
            return bad();
        }
        let mut i = [0u8; 4];
        i.copy_from_slice(&b[32..36]);
        Ok(CellKey { tx_hash: H256::from_slice(&b[..32]), index: u32::from_le_bytes(i) })
    }
    pub fn get(s: &mut ImageCellStore, k: &CellKey) -> ProtocolResult<Option<CellInfo>> {
        match s.trie.get(&key_bytes(k)) {
            Ok(None) => Ok(None),
            Ok(Some(raw)) => match rlp::decode(&raw) {
                Ok(c) => Ok(Some(c)),
                Err(_) => bad(),
            },
            Err(_) => bad(),
        }
    }
    pub fn insert(s: &mut ImageCellStore, k: &CellKey, c: &CellInfo) -> ProtocolResult<()> {
        match s.trie.insert(key_bytes(k).to_vec(), rlp::encode(c).to_vec()) {
            Ok(()) => Ok(()),
            Err(_) => bad(),
        }
    }
    pub fn remove(s: &mut ImageCellStore, k: &CellKey) -> ProtocolResult<()> {
        match s.trie.remove(&key_bytes(k)) {
            Ok(true) => Ok(()),
            _ => bad(),
        }
    }
    /// A block creates its outputs and consumes its inputs, in this order: it may consume what it creates.
    pub fn update(s: &mut ImageCellStore, d: image_cell_abi::UpdateCall) -> ProtocolResult<()> {
        for b in d.blocks {
            save(s, b.tx_outputs, b.block_number)?;
            consume(s, b.tx_inputs, b.block_number)?;
        }
        commit(s)
    }
    pub fn rollback(s: &mut ImageCellStore, d: image_cell_abi::RollbackCall) -> ProtocolResult<()> {
        for b in d.blocks {
            forget(s, b.tx_outputs)?;
            release(s, b.tx_inputs)?;
        }
        commit(s)
    }
    pub fn consume(s: &mut ImageCellStore, inputs: Vec<OutPoint>, number: u64) -> ProtocolResult<()> {
        for i in inputs {
            let k = key_new(i.tx_hash, i.index);
            if let Some(mut c) = get(s, &k)? {
                c.consumed_number = Some(number);
                insert(s, &k, &c)?;
            }
        }
        Ok(())
    }
    pub fn release(s: &mut ImageCellStore, inputs: Vec<OutPoint>) -> ProtocolResult<()> {
        for i in inputs {
            let k = key_new(i.tx_hash, i.index);
            if let Some(mut c) = get(s, &k)? {
                c.consumed_number = None;
                insert(s, &k, &c)?;
            }
        }
        Ok(())
    }
    pub fn forget(s: &mut ImageCellStore, outputs: Vec<OutPoint>) -> ProtocolResult<()> {
        for o in outputs {
            remove(s, &key_new(o.tx_hash, o.index))?;
        }
        Ok(())
    }
    fn script(s: &image_cell_abi::Script) -> packed::Script {
        packed::Script::new_builder().args(s.args.0.pack()).code_hash(s.code_hash.pack()).hash_type(s.hash_type.into()).build()
    }
    pub fn save(s: &mut ImageCellStore, outputs: Vec<image_cell_abi::CellInfo>, number: u64) -> ProtocolResult<()> {
        for o in outputs {
            let lock = script(&o.output.lock);
            let type_ = if o.output.type_.is_empty() {
                packed::ScriptOpt::new_builder()
            } else {
                packed::ScriptOpt::new_builder().set(Some(script(&o.output.type_[0])))
            }
            .build();
            let output = packed::CellOutput::new_builder().lock(lock).type_(type_).capacity(o.output.capacity.pack()).build();
            let c = CellInfo { cell_output: output.as_bytes(), cell_data: o.data.0, created_number: number, consumed_number: None };
            insert(s, &key_new(o.out_point.tx_hash, o.out_point.index), &c)?;
        }
        Ok(())
    }
    pub fn data_hash(d: &Bytes) -> packed::Byte32 {
        if d.is_empty() {
            packed::Byte32::zero()
        } else {
            protocol::ckb_blake2b_256(d).pack()
        }
    }
    pub fn meta(c: CellInfo, p: &packed::OutPoint) -> CellMeta {
        CellMeta {
            cell_output: packed::CellOutput::new_unchecked(c.cell_output),
            out_point: p.clone(),
            transaction_info: None,
            data_bytes: c.cell_data.len() as u64,
            mem_cell_data_hash: Some(data_hash(&c.cell_data)),
            mem_cell_data: Some(c.cell_data),
        }
    }
    pub fn cell(r: &ImageCellReader, root: H256, k: &CellKey) -> ProtocolResult<Option<CellInfo>> { get(&mut open(root)?, k) }
    pub fn exec<A: ExecutorAdapter + ApplyBackend>(c: &ImageCellContract<A>, a: &mut A, tx: &SignedTransaction) -> TxResp {
        let u = &tx.transaction.unsigned;
        let limit = *u.gas_limit();
        let mut s = match open(CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow())) {
            Ok(s) => s,
            Err(_) => return reverted(limit),
        };
        let done = match Calls::decode(u.data()) {
            Ok(Calls::SetState(d)) => {
                ALLOW_READ.store(d.allow_read, Ordering::Relaxed);
                Ok(())
            }
            Ok(Calls::Update(d)) => update(&mut s, d),
            Ok(Calls::Rollback(d)) => rollback(&mut s, d),
            Err(_) => bad(),
        };
        match done {
            Err(_) => reverted(limit),
            Ok(()) => {
                update_states(a, tx.sender, CELLS);
                succeeded(limit)
            }
        }
    }
    pub fn out_point_abi(p: protocol::types::OutPoint) -> OutPoint { OutPoint { tx_hash: p.tx_hash.0, index: p.index } }
    pub fn script_abi(s: packed::Script) -> image_cell_abi::Script {
        let args: Vec<u8> = s.args().unpack();
        image_cell_abi::Script { code_hash: s.code_hash().unpack().0, hash_type: s.hash_type().into(), args: args.into() }
    }
    pub fn output_abi(o: packed::CellOutput) -> image_cell_abi::CellOutput {
        let type_ = match o.type_().to_opt() {
            Some(t) => vec![script_abi(t)],
            None => vec![],
        };
        image_cell_abi::CellOutput { capacity: o.capacity().unpack(), lock: script_abi(o.lock()), type_ }
    }
}

// ---- what CKB-VM can read: cells and headers at a root
pub mod provider {
    use super::*;
    use ckb_types::core::{cell::CellStatus, HeaderBuilder, HeaderView};
    use ckb_types::{packed, prelude::*};
    use protocol::types::Bytes;
    pub struct DataProvider {
        root: H256,
    }
    pub fn new_(root: H256) -> DataProvider { DataProvider { root } }
    fn found(p: &DataProvider, o: &packed::OutPoint) -> Option<image_cell::CellInfo> {
        match image_cell::cell(&image_cell::ImageCellReader, p.root, &image_cell::key_of(o)) {
            Ok(c) => c,
            Err(_) => None,
        }
    }
    pub fn cell(p: &DataProvider, o: &packed::OutPoint, eager: bool) -> CellStatus {
        match found(p, o) {
            Some(c) => CellStatus::Live(image_cell::meta(c, o)),
            None => CellStatus::Unknown,
        }
    }
    pub fn data(p: &DataProvider, o: &packed::OutPoint) -> Option<Bytes> { found(p, o).map(|c| c.cell_data) }
    pub fn data_hash(p: &DataProvider, o: &packed::OutPoint) -> Option<packed::Byte32> {
        data(p, o).map(|d| if d.is_empty() { packed::Byte32::zero() } else { protocol::ckb_blake2b_256(d).pack() })
    }
    fn header_of(p: &DataProvider, hash: &packed::Byte32) -> Option<ckb_light_client_abi::Header> {
        match ckb_light_client::header_by_hash(&ckb_light_client::CkbHeaderReader, p.root, &H256(hash.unpack().0)) {
            Ok(h) => h,
            Err(_) => None,
        }
    }
    pub fn header(p: &DataProvider, hash: &packed::Byte32) -> Option<HeaderView> {
        let h = header_of(p, hash)?;
        Some(
            HeaderBuilder::default()
                .version(h.version.pack())
                .parent_hash(h.parent_hash.pack())
                .timestamp(h.timestamp.pack())
                .number(h.number.pack())
                .epoch(h.epoch.pack())
                .transactions_root(h.transactions_root.pack())
                .proposals_hash(h.proposals_hash.pack())
                .extra_hash(h.extra_hash.pack())
                .compact_target(h.compact_target.pack())
                .dao(h.dao.pack())
                .nonce(h.nonce.pack())
                .build(),
        )
    }
    pub fn extension(p: &DataProvider, hash: &packed::Byte32) -> Option<packed::Bytes> { header_of(p, hash).map(|h| h.extension.pack()) }
}
