//! axon-tools: what light clients and contracts verify blocks with.
use crate::layout::{get, layout, put};
use axon_tools::types as at;
use axon_tools::Error;
use bit_vec::BitVec;
use blst::min_pk::{AggregatePublicKey, PublicKey, Signature};
use blst::BLST_ERROR;
use bytes::Bytes;
use ethereum_types::{H256, U256, U64};
use rlp::{DecoderError, Encodable, Rlp, RlpStream};
use std::cmp::Ordering;

// ---- layouts: the same as the node's
layout!(extra, axon_tools::types::ExtraData, 1, 0 one inner);
layout!(proof, axon_tools::types::Proof, 5, 0 one number, 1 one round, 2 one proposal_hash, 3 one signature, 4 one bitmap);
layout!(header, axon_tools::types::Header, 17, 0 one version, 1 one prev_hash, 2 one proposer, 3 one state_root, 4 one transactions_root,
    5 one signed_txs_hash, 6 one receipts_root, 7 one log_bloom, 8 one timestamp, 9 one number, 10 one gas_used, 11 one gas_limit,
    12 many extra_data, 13 one base_fee_per_gas, 14 one proof, 15 one call_system_script_count, 16 one chain_id);
layout!(block, axon_tools::types::Block, 2, 0 one header, 1 many tx_hashes);
layout!(validator, axon_tools::types::Validator, 3, 0 one pub_key, 1 one propose_weight, 2 one vote_weight);
layout!(metadata_version, axon_tools::types::MetadataVersion, 2, 0 one start, 1 one end);
layout!(metadata, axon_tools::types::Metadata, 5, 0 one version, 1 one epoch, 2 many verifier_list, 3 many propose_counter, 4 one consensus_config);
layout!(config, axon_tools::types::ConsensusConfig, 8, 0 one gas_limit, 1 one interval, 2 one propose_ratio, 3 one prevote_ratio,
    4 one precommit_ratio, 5 one brake_ratio, 6 one tx_num_limit, 7 one max_tx_size);
layout!(propose_count, axon_tools::types::ProposeCount, 2, 0 one address, 1 one count);
layout!(validator_extend, axon_tools::types::ValidatorExtend, 5, 0 one bls_pub_key, 1 one pub_key, 2 one address, 3 one propose_weight, 4 one vote_weight);

pub fn version_append(v: &at::BlockVersion, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(&version_u8(*v));
}

pub fn version_decode(r: &Rlp) -> Result<at::BlockVersion, DecoderError> {
    let x: u8 = r.val_at(0)?;
    if x == 0 {
        Ok(at::BlockVersion::V0)
    } else {
        Err(DecoderError::Custom(""))
    }
}

pub fn version_u8(v: at::BlockVersion) -> u8 {
    match v {
        at::BlockVersion::V0 => 0,
    }
}

pub fn version_ok(v: u8) -> bool {
    v == 0
}

pub fn vote_append(v: &at::Vote, s: &mut RlpStream) {
    s.begin_list(4);
    s.append(&v.height);
    s.append(&v.round);
    s.append(&v.vote_type);
    s.append(&v.proposal_hash);
}

pub fn proposal_append(p: &at::Proposal, s: &mut RlpStream) {
    s.begin_list(13);
    s.append(&p.version);
    s.append(&p.prev_hash);
    s.append(&p.proposer);
    s.append(&p.prev_state_root);
    s.append(&p.transactions_root);
    s.append(&p.signed_txs_hash);
    s.append(&p.timestamp);
    s.append(&p.number);
    s.append(&p.gas_limit.low_u64());
    s.append_list(&p.extra_data);
    s.append(&p.proof);
    s.append(&p.call_system_script_count);
    s.append_list(&p.tx_hashes);
}

// ---- hex: a byte string
pub fn hex_append(h: &Bytes, s: &mut RlpStream) {
    s.begin_list(1);
    s.append(h);
}

pub fn hex_decode(r: &Rlp) -> Result<Bytes, DecoderError> {
    r.val_at(0)
}

pub fn hex_empty() -> Bytes {
    Bytes::new()
}

pub fn hex_is_empty(h: &Bytes) -> bool {
    h.is_empty()
}

pub fn hex_len(h: &Bytes) -> usize {
    h.len()
}

pub fn hex_of<T: AsRef<[u8]>>(x: T) -> Bytes {
    Bytes::copy_from_slice(x.as_ref())
}

pub fn hex_of_vec(x: Vec<u8>) -> Bytes {
    Bytes::from(x)
}

pub fn hex_bytes(h: &Bytes) -> Bytes {
    h.clone()
}

pub fn hex_into(h: Bytes) -> Bytes {
    h
}

pub fn hex_ref(h: &Bytes) -> &[u8] {
    h.as_ref()
}

pub fn hex_digits(h: &Bytes) -> String {
    faster_hex::hex_string(h.as_ref())
}

pub fn hex_string(h: &Bytes) -> String {
    "0x".to_string() + &faster_hex::hex_string(h.as_ref())
}

pub fn encode_hex<T: AsRef<[u8]>>(x: T) -> String {
    faster_hex::hex_string(x.as_ref())
}

pub fn decode_hex(s: &str) -> Result<Vec<u8>, Error> {
    if s.is_empty() {
        return Ok(vec![]);
    }
    let s = if s.starts_with("0x") { &s[2..] } else { s };
    let mut out = vec![0u8; s.len() / 2];
    faster_hex::hex_decode(s.as_bytes(), &mut out)?;
    Ok(out)
}

pub fn hex_from_str(s: &str) -> Result<Bytes, Error> {
    if s.starts_with("0x") {
        Ok(Bytes::from(decode_hex(&s[2..])?))
    } else {
        Err(Error::HexPrefix)
    }
}

// ---- metadata and validators
pub fn version_of_range(start: u64, end: u64) -> at::MetadataVersion {
    at::MetadataVersion { start, end }
}

pub fn range_contains(v: &at::MetadataVersion, n: u64) -> bool {
    v.start <= n && n <= v.end
}

pub fn validator_cmp(a: &at::Validator, b: &at::Validator) -> Ordering {
    a.pub_key.cmp(&b.pub_key)
}

pub fn validator_partial_cmp(a: &at::Validator, b: &at::Validator) -> Option<Ordering> {
    Some(a.pub_key.cmp(&b.pub_key))
}

pub fn extend_cmp(a: &at::ValidatorExtend, b: &at::ValidatorExtend) -> Ordering {
    a.pub_key.as_bytes().cmp(&b.pub_key.as_bytes())
}

pub fn extend_partial_cmp(a: &at::ValidatorExtend, b: &at::ValidatorExtend) -> Option<Ordering> {
    Some(extend_cmp(a, b))
}

// ---- keccak
pub fn keccak_256(data: &[u8]) -> [u8; 32] {
    crate::misc::keccak(data)
}

// ---- block proofs
const DST: &str = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
const PRECOMMIT: u8 = 2;

pub fn verify_proof(
    block: at::Block,
    previous_state_root: H256,
    validators: &mut [at::ValidatorExtend],
    proof: at::Proof,
) -> Result<(), Error> {
    let h = block.header;
    let proposal = at::Proposal {
        version: h.version,
        prev_hash: h.prev_hash,
        proposer: h.proposer,
        prev_state_root: previous_state_root,
        transactions_root: h.transactions_root,
        signed_txs_hash: h.signed_txs_hash,
        timestamp: h.timestamp,
        number: h.number,
        gas_limit: h.gas_limit,
        extra_data: h.extra_data,
        base_fee_per_gas: h.base_fee_per_gas,
        proof: h.proof,
        chain_id: h.chain_id,
        call_system_script_count: h.call_system_script_count,
        tx_hashes: block.tx_hashes,
    };
    // the proof is about this very proposal
    if keccak_256(&proposal.rlp_bytes()) != proof.proposal_hash.0 {
        return Err(Error::InvalidProofBlockHash);
    }
    // what has been signed: the precommit for it
    let vote = at::Vote {
        height: proof.number,
        round: proof.round,
        vote_type: PRECOMMIT,
        proposal_hash: Bytes::copy_from_slice(proof.proposal_hash.as_bytes()),
    };
    let message = keccak_256(rlp::encode(&vote).as_ref());
    // by whom: those that are marked, in the order of the sorted validators
    validators.sort();
    let marked = BitVec::from_bytes(&proof.bitmap);
    let mut signers = Vec::new();
    let mut n = 0usize;
    for (v, bit) in validators.iter().zip(marked.iter()) {
        if bit {
            signers.push(PublicKey::from_bytes(&v.bls_pub_key.as_bytes())?);
            n += 1;
        }
    }
    // more than two thirds
    if n * 3 <= validators.len() * 2 {
        return Err(Error::NotEnoughSignatures);
    }
    let signers = signers.iter().collect::<Vec<_>>();
    let key = PublicKey::from_aggregate(&AggregatePublicKey::aggregate(&signers, true)?);
    let signature = Signature::from_bytes(&proof.signature)?;
    let r = signature.verify(true, &message, DST.as_bytes(), &[], &key, true);
    if r == BLST_ERROR::BLST_SUCCESS {
        Ok(())
    } else {
        Err(r.into())
    }
}

// ---- proofs for the precompiled contract
pub mod ckb_proof {
    use super::*;
    use axon_tools::precompile::{Proof, VerifyProofPayload};
    use ckb_types::prelude::*;
    use ckb_types::utilities::{merkle_root, MerkleProof};

    pub fn payload_append(p: &VerifyProofPayload, s: &mut RlpStream) {
        s.begin_list(5);
        s.append(&p.verify_type);
        s.append(&p.transactions_root.as_slice());
        s.append(&p.witnesses_root.as_slice());
        s.append(&p.raw_transactions_root.as_slice());
        s.append(&p.proof);
    }

    pub fn proof_append(p: &Proof, s: &mut RlpStream) {
        s.begin_list(3);
        s.append_list(&p.indices);
        s.begin_list(p.lemmas.len());
        for x in p.lemmas.iter() {
            s.append(&x.as_slice());
        }
        s.begin_list(p.leaves.len());
        for x in p.leaves.iter() {
            s.append(&x.as_slice());
        }
    }

    pub fn verify(p: VerifyProofPayload) -> Result<(), String> {
        let root: ckb_types::packed::Byte32 = p.transactions_root.pack();
        let raw: ckb_types::packed::Byte32 = p.raw_transactions_root.pack();
        let wit: ckb_types::packed::Byte32 = p.witnesses_root.pack();
        if merkle_root(&[raw.clone(), wit.clone()]) != root {
            return Err(String::new());
        }
        let lemmas: Vec<_> = p.proof.lemmas.iter().map(|x| x.pack()).collect();
        let leaves: Vec<_> = p.proof.leaves.iter().map(|x| x.pack()).collect();
        let want = if p.verify_type == 0 { raw } else { wit };
        if MerkleProof::new(p.proof.indices, lemmas).verify(&want, &leaves) {
            Ok(())
        } else {
            Err(String::new())
        }
    }
}

// ---- numbers in JSON: 0x and hex digits, leading zeros allowed, within the type's range
fn number_digits(hex: &str) -> Result<Vec<u8>, &'static str> {
    if hex.len() > 64 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Err("");
    }
    let mut bytes = Vec::new();
    let mut at = 0;
    if hex.len() % 2 != 0 {
        bytes.push(u8::from_str_radix(&hex[0..1], 16).map_err(|_| "")?);
        at = 1;
    }
    for i in (at..hex.len()).step_by(2) {
        let end = if i + 2 > hex.len() { i + 1 } else { i + 2 };
        bytes.push(u8::from_str_radix(&hex[i..end], 16).map_err(|_| "")?);
    }
    Ok(bytes)
}

pub fn number_u32<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u32, D::Error> {
    use serde::de::Error;
    use serde::Deserialize;
    let s = String::deserialize(d)?;
    if s == "0x0" {
        return Ok(0);
    }
    if !s.starts_with("0x") {
        return Err(D::Error::custom(""));
    }
    let bytes = number_digits(&s[2..]).map_err(D::Error::custom)?;
    ethereum_types::U256::from_big_endian(&bytes).try_into().map_err(|_| D::Error::custom(""))
}

pub fn number_u64<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
    use serde::de::Error;
    use serde::Deserialize;
    let s = String::deserialize(d)?;
    if s == "0x0" {
        return Ok(0);
    }
    if !s.starts_with("0x") {
        return Err(D::Error::custom(""));
    }
    let bytes = number_digits(&s[2..]).map_err(D::Error::custom)?;
    ethereum_types::U256::from_big_endian(&bytes).try_into().map_err(|_| D::Error::custom(""))
}
