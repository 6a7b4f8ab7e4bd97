use common_crypto::Secp256k1PublicKey;
use ophelia::{PublicKey, UncompressedPublicKey};
use overlord::DurationConfig;
use protocol::codec::error::CodecError;
use protocol::codec::{hex_decode, hex_encode};
use protocol::traits::{MessageCodec, NodeInfo, PeerTag, StateStorageCategory, StorageCategory};
use protocol::types::*;
use protocol::{ProtocolError, ProtocolResult};
use rlp::{Decodable, DecoderError, Encodable, Rlp, RlpStream};
use ethers_core::utils::parse_checksummed;
use faster_hex::withpfx_lowercase;
use protocol::codec::decode_256bits_key;
use serde::de::Error as _;
use serde::{Deserialize, Deserializer, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::str::FromStr;

// ---- keccak256; the empty input's is written down
pub fn digest<B: AsRef<[u8]>>(b: B) -> Hash {
    if b.as_ref().is_empty() {
        return H256([
            0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6, 0x53, 0xca,
            0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
        ]);
    }
    H256(common_hasher::keccak256(b))
}

pub fn null_hash() -> Hash {
    RLP_NULL
}

// ---- hex text
pub fn hex_encode_(b: &[u8]) -> String {
    faster_hex::hex_string(b)
}

pub fn hex_encode_t<T: AsRef<[u8]>>(b: T) -> String {
    faster_hex::hex_string(b.as_ref())
}

pub fn hex_decode_(s: &str) -> ProtocolResult<Vec<u8>> {
    if s.is_empty() {
        return Ok(vec![]);
    }
    let s = s.strip_prefix("0x").unwrap_or(s);
    let mut v = vec![0; s.len() / 2];
    faster_hex::hex_decode(s.as_bytes(), &mut v).map_err(TypesError::FromHex)?;
    Ok(v)
}

pub fn hex_from_str(s: &str) -> ProtocolResult<Hex> {
    if !s.starts_with("0x") {
        return Err(TypesError::HexPrefix.into());
    }
    let v = hex_decode(&s[2..])?;
    Ok(Hex::encode(v))
}

pub fn hex_string(h: &Hex) -> String {
    "0x".to_string() + &hex_encode(h.as_ref())
}

pub fn hex_string_trim(h: &Hex) -> String {
    hex_encode(h.as_ref())
}

pub fn hex_append(h: &Hex, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(&h.as_ref());
}

pub fn hex_rlp_decode(r: &Rlp) -> Result<Hex, DecoderError> {
    let v: Vec<u8> = r.val_at(0)?;
    Ok(Hex::encode(v))
}

pub fn key256(s: &str) -> Result<Key256Bits, String> {
    if !(s.starts_with("0x") || s.starts_with("0X")) {
        return Err(String::new());
    }
    if s.len() != 66 {
        return Err(String::new());
    }
    let mut v = [0u8; 32];
    match faster_hex::hex_decode(&s.as_bytes()[2..], &mut v) {
        Ok(_) => Ok(Key256Bits::from(v)),
        Err(_) => Err(String::new()),
    }
}

// ---- addresses
fn of_point(p: &[u8]) -> Address {
    Address(H160::from_slice(&Hasher::digest(&p[1..]).as_bytes()[12..]))
}

pub fn address_of_hash(h: Hash) -> Address {
    Address(H160::from_slice(&h.as_bytes()[12..]))
}

pub fn address_of_key(k: &Secp256k1PublicKey) -> Address {
    of_point(&k.to_uncompressed_bytes())
}

pub fn address_of_key_bytes<B: AsRef<[u8]>>(b: B) -> ProtocolResult<Address> {
    let b = b.as_ref();
    if b.len() == <Secp256k1PublicKey as PublicKey>::LENGTH {
        let k = Secp256k1PublicKey::try_from(b).map_err(|_| TypesError::InvalidPublicKey)?;
        return Ok(of_point(&k.to_uncompressed_bytes()));
    }
    if b.len() == <Secp256k1PublicKey as UncompressedPublicKey>::LENGTH {
        return Ok(of_point(b));
    }
    Err(TypesError::InvalidPublicKey.into())
}

pub fn address_of_bytes(b: Bytes) -> ProtocolResult<Address> {
    if b.len() != 20 {
        return Err(TypesError::LengthMismatch { expect: 20, real: b.len() }.into());
    }
    Ok(Address(H160::from_slice(&b)))
}

pub fn address_of_hex(s: &str) -> ProtocolResult<Address> {
    if s.starts_with("0x") || s.starts_with("0X") {
        return address_of_bytes(Bytes::from(hex_decode(&s[2..])?));
    }
    Err(TypesError::HexPrefix.into())
}

pub fn address_of_str(s: &str) -> ProtocolResult<Address> {
    if s.len() != 42 || checksum(s) != s {
        return Err(TypesError::InvalidCheckSum.into());
    }
    address_of_hex(&s.to_lowercase())
}

pub fn address_slice(a: &Address) -> &[u8] {
    a.0.as_bytes()
}

pub fn address_append(a: &Address, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(&a.0);
}

pub fn address_decode(r: &Rlp) -> Result<Address, DecoderError> {
    let h: H160 = r.val_at(0)?;
    Ok(Address(h))
}

pub fn node_info(chain_id: u64, key: Secp256k1PublicKey, h: Option<HardforkInfoInner>) -> NodeInfo {
    NodeInfo {
        chain_id,
        self_address: address_of_key(&key),
        self_pub_key: key,
        hardfork_proposals: std::sync::Arc::new(std::sync::RwLock::new(h)),
    }
}

// ---- validators, metadata, hardforks
pub fn contains(v: &MetadataVersion, n: u64) -> bool {
    n >= v.start && n <= v.end
}

pub fn version_new(start: u64, end: u64) -> MetadataVersion {
    MetadataVersion { start, end }
}

pub fn metadata_of_spec(s: SpecMetadata) -> Metadata {
    let mut verifier_list = Vec::new();
    for v in s.verifier_list {
        verifier_list.push(ValidatorExtend::from(v));
    }
    Metadata {
        version: s.version,
        epoch: s.epoch,
        verifier_list,
        propose_counter: s.propose_counter,
        consensus_config: s.consensus_config,
    }
}

pub fn metadata_parts(m: Metadata) -> (MetadataInner, ConsensusConfig) {
    let inner = MetadataInner {
        version: m.version,
        epoch: m.epoch,
        verifier_list: m.verifier_list,
        propose_counter: m.propose_counter,
    };
    (inner, m.consensus_config)
}

pub fn metadata_from_parts(i: MetadataInner, c: ConsensusConfig) -> Metadata {
    Metadata {
        version: i.version,
        epoch: i.epoch,
        verifier_list: i.verifier_list,
        propose_counter: i.propose_counter,
        consensus_config: c,
    }
}

pub fn config_of_v0(v: ConsensusConfigV0) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: v.gas_limit,
        interval: v.interval,
        propose_ratio: v.propose_ratio,
        prevote_ratio: v.prevote_ratio,
        precommit_ratio: v.precommit_ratio,
        brake_ratio: v.brake_ratio,
        tx_num_limit: v.tx_num_limit,
        max_tx_size: v.max_tx_size,
        max_contract_limit: 24576,
    }
}

pub fn config_to_v0(v: ConsensusConfig) -> ConsensusConfigV0 {
    ConsensusConfigV0 {
        gas_limit: v.gas_limit,
        interval: v.interval,
        propose_ratio: v.propose_ratio,
        prevote_ratio: v.prevote_ratio,
        precommit_ratio: v.precommit_ratio,
        brake_ratio: v.brake_ratio,
        tx_num_limit: v.tx_num_limit,
        max_tx_size: v.max_tx_size,
    }
}

pub fn contract_limit() -> u64 {
    24576
}

pub fn durations(m: Metadata) -> DurationConfig {
    let c = m.consensus_config;
    DurationConfig {
        propose_ratio: c.propose_ratio,
        prevote_ratio: c.prevote_ratio,
        precommit_ratio: c.precommit_ratio,
        brake_ratio: c.brake_ratio,
    }
}

pub fn increase(c: &mut ProposeCount) {
    c.count = c.count + 1;
}

pub fn count_of(v: (H160, u64)) -> ProposeCount {
    let (address, count) = v;
    ProposeCount { address, count }
}

pub fn extend_of(v: Validator) -> ValidatorExtend {
    ValidatorExtend {
        address: Address::from_pubkey_bytes(v.pub_key.as_ref()).expect("").0,
        bls_pub_key: v.bls_pub_key,
        pub_key: v.pub_key,
        propose_weight: v.propose_weight,
        vote_weight: v.vote_weight,
    }
}

pub fn extend_cmp(a: &ValidatorExtend, b: &ValidatorExtend) -> Ordering {
    a.bls_pub_key.cmp(&b.bls_pub_key)
}

pub fn extend_partial_cmp(a: &ValidatorExtend, b: &ValidatorExtend) -> Option<Ordering> {
    Some(a.bls_pub_key.cmp(&b.bls_pub_key))
}

pub fn consensus_of(v: &ValidatorExtend) -> ConsensusValidator {
    ConsensusValidator {
        pub_key: v.pub_key.as_bytes(),
        propose_weight: v.propose_weight,
        vote_weight: v.vote_weight,
    }
}

// Flags only accumulate, block numbers only grow, and an entry that adds no flag is not recorded.
pub fn hardfork_push(h: &mut HardforkInfo, other: HardforkInfoInner) {
    let Some(last) = h.inner.last_mut() else {
        h.inner.push(other);
        return;
    };
    let flags = other.flags | last.flags;
    if flags == last.flags {
        return;
    }
    if other.block_number < last.block_number {
        return;
    }
    if other.block_number == last.block_number {
        last.flags = flags;
        return;
    }
    h.inner.push(HardforkInfoInner {
        block_number: other.block_number,
        flags,
    });
}

// ---- messages
pub fn db_encode(b: &DBBytes) -> ProtocolResult<Bytes> {
    Ok(b.0.clone())
}

pub fn db_decode<B: AsRef<[u8]>>(b: B) -> ProtocolResult<DBBytes> {
    Ok(DBBytes(Bytes::copy_from_slice(b.as_ref())))
}

pub fn any_encode<T: Encodable + Decodable + Send>(t: &T) -> ProtocolResult<Bytes> {
    Ok(t.rlp_bytes().freeze())
}

pub fn any_decode<T: Encodable + Decodable + Send, B: AsRef<[u8]>>(b: B) -> ProtocolResult<T> {
    match T::decode(&Rlp::new(b.as_ref())) {
        Ok(t) => Ok(t),
        Err(e) => Err(ProtocolError::from(CodecError::Rlp(e.to_string()))),
    }
}

pub fn txs_encode(b: &mut BatchSignedTxs) -> ProtocolResult<Bytes> {
    Ok(rlp::encode_list(&b.0).freeze())
}

pub fn txs_decode(b: Bytes) -> ProtocolResult<BatchSignedTxs> {
    let v: Vec<SignedTransaction> = Rlp::new(&b).as_list().map_err(|e| CodecError::Rlp(e.to_string()))?;
    Ok(BatchSignedTxs(v))
}

pub fn blocks_encode(b: &mut BatchBlocks) -> ProtocolResult<Bytes> {
    Ok(rlp::encode_list(&b.0).freeze())
}

pub fn blocks_decode(b: Bytes) -> ProtocolResult<BatchBlocks> {
    let v: Vec<Block> = Rlp::new(&b).as_list().map_err(|e| CodecError::Rlp(e.to_string()))?;
    Ok(BatchBlocks(v))
}

pub fn tag_str(t: &PeerTag) -> &str {
    match t {
        PeerTag::Consensus => "consensus",
        PeerTag::AlwaysAllow => "always_allow",
        PeerTag::Ban { .. } => "ban",
        PeerTag::Custom(s) => s,
    }
}

pub fn tag_custom<S: AsRef<str>>(s: S) -> Option<PeerTag> {
    let s = s.as_ref();
    if s == "consensus" || s == "always_allow" || s == "ban" {
        return None;
    }
    Some(PeerTag::Custom(s.to_string()))
}

pub fn tag_eq(a: &PeerTag, b: &PeerTag) -> bool {
    tag_str(a) == tag_str(b)
}

pub fn tag_ban(until: u64) -> PeerTag {
    PeerTag::Ban { until }
}

pub fn category(c: StateStorageCategory) -> StorageCategory {
    match c {
        StateStorageCategory::EvmState => StorageCategory::EvmState,
        StateStorageCategory::MetadataState => StorageCategory::MetadataState,
        StateStorageCategory::CkbLightClientState => StorageCategory::CkbLightClientState,
    }
}

// ---- EIP-55
pub fn eip55(address: &str) -> String {
    let a = address.trim_start_matches("0x").to_lowercase();
    let hash = hex_encode(Hasher::digest(a.as_bytes()));
    let mut out = String::from("0x");
    for (i, c) in a.char_indices() {
        let n = u16::from_str_radix(&hash[i..i + 1], 16).unwrap();
        if n >= 8 {
            out.push_str(&c.to_uppercase().to_string());
        } else {
            out.push(c);
        }
    }
    out
}

pub fn address_text(a: &Address) -> String {
    a.to_string()
}

pub fn address_debug(a: &Address, f: &mut fmt::Formatter) -> fmt::Result {
    let s = checksum(&hex_encode(a.0));
    fmt::Debug::fmt(&s, f)?;
    Ok(())
}

pub fn address_display(a: &Address, f: &mut fmt::Formatter) -> fmt::Result {
    let s = checksum(&hex_encode(a.0));
    fmt::Display::fmt(&s, f)?;
    Ok(())
}

pub fn address_ser<S: Serializer>(a: &Address, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&a.to_string())
}

pub fn checked_address<'de, D: Deserializer<'de>>(d: D) -> Result<H160, D::Error> {
    let s = String::deserialize(d)?;
    parse_checksummed(&s, None).map_err(|_| D::Error::custom(""))
}

pub fn address_de<'de, D: Deserializer<'de>>(d: D) -> Result<Address, D::Error> {
    let s = String::deserialize(d)?;
    let h = parse_checksummed(&s, None).map_err(|_| D::Error::custom(""))?;
    Ok(Address(h))
}

pub fn hex_ser<S: Serializer>(h: &Hex, s: S) -> Result<S::Ok, S::Error> {
    withpfx_lowercase::serialize(h.as_bytes(), s)
}

pub fn hex_de<'de, D: Deserializer<'de>>(d: D) -> Result<Hex, D::Error> {
    let s = String::deserialize(d)?;
    Hex::from_str(&s).map_err(|_| D::Error::custom(""))
}

pub fn key256_de<'de, D: Deserializer<'de>>(d: D) -> Result<Key256Bits, D::Error> {
    let s = String::deserialize(d)?;
    decode_256bits_key(&s).map_err(|_| D::Error::custom(""))
}

// A quantity: 0x, then hex digits without leading zeros, 0x0 for zero.
pub fn quantity<S: Serializer, U: Into<U256> + Copy>(v: &U, s: S) -> Result<S::Ok, S::Error> {
    const CHARS: &[u8] = b"0123456789abcdef";
    let v: U256 = (*v).into();
    let mut be = [0u8; 32];
    v.to_big_endian(&mut be);
    let zeros = be.iter().take_while(|b| **b == 0).count();
    let be = &be[zeros..];
    if be.is_empty() {
        return s.serialize_str("0x0");
    }
    let mut out = [0u8; 66];
    out[0] = b'0';
    out[1] = b'x';
    let mut i = 2;
    let hi = be[0] >> 4;
    if hi != 0 {
        out[i] = CHARS[hi as usize];
        i += 1;
    }
    out[i] = CHARS[(be[0] & 15) as usize];
    i += 1;
    for &b in be.iter().skip(1) {
        out[i] = CHARS[(b >> 4) as usize];
        out[i + 1] = CHARS[(b & 15) as usize];
        i += 2;
    }
    s.serialize_str(unsafe { std::str::from_utf8_unchecked(&out[0..i]) })
}

pub fn tag_hash<H: std::hash::Hasher>(t: &PeerTag, h: &mut H) {
    std::hash::Hash::hash(tag_str(t), h)
}

// ---- keccak256 of rlp("") = 0x80 and of rlp([]) = 0xc0
pub fn rlp_null() -> H256 {
    RLP_NULL
}
pub fn rlp_null_() -> H256 {
    H256([
        0x56, 0xe8, 0x1f, 0x17, 0x1b, 0xcc, 0x55, 0xa6, 0xff, 0x83, 0x45, 0xe6, 0x92, 0xc0, 0xf8, 0x6e, 0x5b, 0x48, 0xe0, 0x1b, 0x99, 0x6c, 0xad, 0xc0,
        0x01, 0x62, 0x2f, 0xb5, 0xe3, 0x63, 0xb4, 0x21,
    ])
}
pub fn rlp_empty() -> H256 {
    RLP_EMPTY_LIST
}
pub fn rlp_empty_() -> H256 {
    H256([
        0x1d, 0xcc, 0x4d, 0xe8, 0xde, 0xc7, 0x5d, 0x7a, 0xab, 0x85, 0xb5, 0x67, 0xb6, 0xcc, 0xd4, 0x1a, 0xd3, 0x12, 0x45, 0x1b, 0x94, 0x8a, 0x74, 0x13,
        0xf0, 0xa1, 0x42, 0xfd, 0x40, 0xd4, 0x93, 0x47,
    ])
}
