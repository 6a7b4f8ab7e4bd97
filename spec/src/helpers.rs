//! Small helpers that everything else relies on: transport codecs, batches, initial values, lookups.
use std::hash::{Hash, Hasher};

use ckb_types::prelude::*;
use evm::{ExitReason, ExitSucceed};
use protocol::codec::ProtocolCodec;
use protocol::traits::{PeerTag, StorageAdapter, StorageSchema};
use protocol::types::{
    Address, BatchBlocks, BatchSignedTxs, Block, Bloom, Bytes, DBBytes, Eip1559Transaction, Eip2930Transaction, Hex, LegacyTransaction, Receipt,
    SignedTransaction, TransactionAction, TxResp, ValidatorExtend, H160, H256, U256, U64,
};
use protocol::ProtocolResult;

pub fn encode_msg<T: ProtocolCodec>(t: &mut T) -> ProtocolResult<Bytes> {
    t.encode()
}

pub fn decode_msg<T: ProtocolCodec>(b: Bytes) -> ProtocolResult<T> {
    T::decode(b)
}

pub fn txs_new(x: Vec<SignedTransaction>) -> BatchSignedTxs {
    BatchSignedTxs(x)
}

pub fn txs_inner(x: BatchSignedTxs) -> Vec<SignedTransaction> {
    x.0
}

pub fn blocks_new(x: Vec<Block>) -> BatchBlocks {
    BatchBlocks(x)
}

pub fn blocks_inner(x: BatchBlocks) -> Vec<Block> {
    x.0
}

pub fn get_batch<A: StorageAdapter, S: StorageSchema>(a: &A, keys: Vec<S::Key>) -> ProtocolResult<Vec<Option<S::Value>>> {
    let mut out = Vec::new();
    for k in keys {
        out.push(a.get::<S>(k)?);
    }
    Ok(out)
}

pub fn ban_key() -> PeerTag {
    PeerTag::Ban { until: 0 }
}

pub fn db_bytes(x: Vec<u8>) -> DBBytes {
    DBBytes(Bytes::from(x))
}

pub fn db_ref(x: &DBBytes) -> &[u8] {
    x.0.as_ref()
}

// ---- hex strings
pub fn hex_zeros(n: usize) -> Vec<u8> {
    vec![0u8; n]
}

pub fn hex_empty() -> Bytes {
    Bytes::default()
}

pub fn hex_is_empty(h: &Bytes) -> bool {
    h.is_empty()
}

pub fn hex_len(h: &Bytes) -> usize {
    h.len()
}

pub fn hex_bytes(h: Bytes) -> Bytes {
    h
}

// ---- initial values
pub fn response() -> TxResp {
    TxResp {
        exit_reason:  ExitReason::Succeed(ExitSucceed::Stopped),
        gas_used:     0,
        remain_gas:   0,
        fee_cost:     U256::zero(),
        removed:      false,
        ret:          vec![],
        logs:         vec![],
        code_address: None,
    }
}

pub fn receipt() -> Receipt {
    Receipt {
        tx_hash:      H256::default(),
        block_number: 0,
        block_hash:   H256::default(),
        tx_index:     0,
        state_root:   H256::default(),
        used_gas:     U64::default(),
        logs_bloom:   Bloom::default(),
        logs:         vec![],
        log_index:    0,
        code_address: None,
        sender:       H160::default(),
        ret:          ExitReason::Succeed(ExitSucceed::Stopped),
        removed:      false,
    }
}

pub fn validator() -> ValidatorExtend {
    ValidatorExtend {
        bls_pub_key:    Hex::with_length(8),
        pub_key:        Hex::with_length(8),
        address:        H160::default(),
        propose_weight: 0,
        vote_weight:    0,
    }
}

pub fn address() -> Address {
    Address::from_hex("0x0000000000000000000000000000000000000000").unwrap()
}

pub fn dummy_input() -> ckb_types::packed::OutPoint {
    ckb_types::packed::OutPointBuilder::default()
        .tx_hash(protocol::ckb_blake2b_256("DummyInputOutpointTxHash").pack())
        .index(0u32.pack())
        .build()
}

// ---- ABI of the proof payload
pub mod abi {
    use axon_tools::precompile::{Proof, VerifyProofPayload};
    use ethers_core::abi::{AbiEncode, ParamType, Token, Tokenizable};

    fn word() -> ParamType {
        <[u8; 32] as ethers_core::abi::AbiType>::param_type()
    }

    pub fn proof_type() -> ParamType {
        ParamType::Tuple(vec![
            <Vec<u32> as ethers_core::abi::AbiType>::param_type(),
            <Vec<[u8; 32]> as ethers_core::abi::AbiType>::param_type(),
            <Vec<[u8; 32]> as ethers_core::abi::AbiType>::param_type(),
        ])
    }

    pub fn payload_type() -> ParamType {
        ParamType::Tuple(vec![<u8 as ethers_core::abi::AbiType>::param_type(), word(), word(), word(), <Proof as ethers_core::abi::AbiType>::param_type()])
    }

    pub fn proof_token(p: Proof) -> Token {
        Token::Tuple(vec![p.indices.into_token(), p.lemmas.into_token(), p.leaves.into_token()])
    }

    pub fn payload_token(p: VerifyProofPayload) -> Token {
        Token::Tuple(vec![
            p.verify_type.into_token(),
            p.transactions_root.into_token(),
            p.witnesses_root.into_token(),
            p.raw_transactions_root.into_token(),
            p.proof.into_token(),
        ])
    }
}

pub mod trie {
    use axon_tools::Error;
    use ethereum_types::H256;

    #[derive(Default)]
    pub struct InnerKeccak;

    impl cita_trie::Hasher for InnerKeccak {
        const LENGTH: usize = 32;

        fn digest(&self, d: &[u8]) -> Vec<u8> {
            axon_tools::keccak_256(d).to_vec()
        }
    }

    pub fn verify(root: H256, key: &[u8], proof: Vec<Vec<u8>>) -> Result<Option<Vec<u8>>, Error> {
        Ok(cita_trie::verify_proof(&root.0, key, proof, InnerKeccak)?)
    }

    pub fn digest(_: &InnerKeccak, d: &[u8]) -> Vec<u8> {
        axon_tools::keccak_256(d).to_vec()
    }
}
