"""Transport codecs, batches, initial values, lookups, hash/equality agreement."""
from .tx import specs
from .misc import all_of
P, MC, B = "types::primitive", "tr:traits::network::MessageCodec:", "in:types::batch"
HX, D = f"in:{P}::Hex", "tr:core::default::Default:"
PC = "tr:ethers_core::abi::"
RULES = {
    "C01": specs(
        ("helpers::encode_msg", MC + "T:encode_msg"), ("helpers::decode_msg", MC + "T:decode_msg"),
        ("helpers::txs_new", B + "::BatchSignedTxs::new"), ("helpers::txs_inner", B + "::BatchSignedTxs::inner"),
        ("helpers::blocks_new", B + "::BatchBlocks::new"), ("helpers::blocks_inner", B + "::BatchBlocks::inner"),
        ("helpers::db_bytes", f"tr:core::convert::From:{P}::DBBytes:from"), ("helpers::db_ref", f"tr:core::convert::AsRef:{P}::DBBytes:as_ref"),
    ),
    "C07": specs(
        ("helpers::hex_zeros", HX + "::with_length"), ("helpers::hex_empty", HX + "::empty"), ("helpers::hex_is_empty", HX + "::is_empty"),
        ("helpers::hex_len", HX + "::len"), ("helpers::hex_bytes", f"tr:core::convert::From:bytes::bytes::Bytes:from:{P}::Hex"),
        newtype=f"axon_protocol::{P}::Hex"),
    "C22": specs(("helpers::ban_key", "in:traits::network::PeerTag::ban_key")),
    "C10": specs(
        ("helpers::abi::proof_type", PC + "AbiType:axon_tools::precompile::Proof:param_type"),
        ("helpers::abi::payload_type", PC + "AbiType:axon_tools::precompile::VerifyProofPayload:param_type"),
        ("helpers::abi::proof_token", PC + "tokens::Tokenizable:axon_tools::precompile::Proof:into_token"),
        ("helpers::abi::payload_token", PC + "tokens::Tokenizable:axon_tools::precompile::VerifyProofPayload:into_token"),
    ),
    "C12": specs(
        ("helpers::trie::verify", "fn:axon_tools::proof::verify_trie_proof"),
        ("helpers::trie::digest", "tr:hasher::Hasher:axon_tools::hash::InnerKeccak:digest"),
    ),
    "C25": specs(
        ("helpers::get_batch", "fn:axon_protocol::traits::storage::StorageAdapter::get_batch"),
        ("helpers::response", D + "types::executor::TxResp:default"), ("helpers::receipt", D + "types::receipt::Receipt:default"),
        ("helpers::validator", D + f"{P}::ValidatorExtend:default"), ("helpers::address", D + f"{P}::Address:default"),
        ("helpers::dummy_input", "?fn:<axon_protocol::lazy::DUMMY_INPUT_OUT_POINT as core::ops::deref::Deref>::deref::__static_ref_initialize"),
    ),
}
