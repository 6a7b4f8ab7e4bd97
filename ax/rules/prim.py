"""Hashes, hex text, addresses, validators, metadata, hardforks, network messages."""
from .tx import specs
from .block import enc
P = "types::primitive"
A, HX = f"in:{P}::Address", f"in:{P}::Hex"
FROM = "tr:core::convert::From:"
RULES = {
    "C01": specs(
        *enc(f"{P}::Hex", "prim::hex_append", "prim::hex_rlp_decode"),
        *enc(f"{P}::Address", "prim::address_append", "prim::address_decode"),
        ("prim::db_encode", f"tr:codec::ProtocolCodec:{P}::DBBytes:encode"),
        ("prim::db_decode", f"tr:codec::ProtocolCodec:{P}::DBBytes:decode"),
        ("prim::any_encode", "tr:codec::ProtocolCodec:T:encode"),
        ("prim::any_decode", "tr:codec::ProtocolCodec:T:decode"),
        ("prim::txs_encode", "tr:traits::network::MessageCodec:types::batch::BatchSignedTxs:encode_msg"),
        ("prim::txs_decode", "tr:traits::network::MessageCodec:types::batch::BatchSignedTxs:decode_msg"),
        ("prim::blocks_encode", "tr:traits::network::MessageCodec:types::batch::BatchBlocks:encode_msg"),
        ("prim::blocks_decode", "tr:traits::network::MessageCodec:types::batch::BatchBlocks:decode_msg"),
    ),
    "C06": specs(
        ("prim::address_of_key_bytes", A + "::from_pubkey_bytes"),
        ("prim::address_of_key", A + "::from_pubkey"),
        ("prim::address_of_hash", A + "::from_hash"),
        ("prim::address_of_bytes", A + "::from_bytes"),
        ("prim::address_of_hex", A + "::from_hex"),
        ("prim::address_slice", A + "::as_slice"),
        ("prim::address_of_str", f"tr:core::str::traits::FromStr:{P}::Address:from_str"),
        ("prim::eip55", f"fn:{P}::checksum"),
        ("prim::address_text", A + "::eip55"),
        ("prim::address_debug", f"tr:core::fmt::Debug:{P}::Address:fmt"),
        ("prim::address_display", f"tr:core::fmt::Display:{P}::Address:fmt"),
        ("prim::address_ser", f"tr:serde::ser::Serialize:{P}::Address:serialize"),
        ("prim::address_de", f"tr:serde::de::Deserialize:{P}::Address:deserialize"),
        ("prim::checked_address", "fn:axon_protocol::codec::deserialize_address"),
        ("prim::node_info", "in:traits::consensus::NodeInfo::new"),
    ),
    "C07": specs(
        ("prim::hex_encode_t", "fn:axon_protocol::codec::hex_encode"),
        ("prim::hex_decode_", "fn:axon_protocol::codec::hex_decode"),
        ("prim::hex_from_str", f"tr:core::str::traits::FromStr:{P}::Hex:from_str"),
        ("prim::hex_string", HX + "::as_string"),
        ("prim::hex_string_trim", HX + "::as_string_trim0x"),
        ("prim::hex_ser", f"tr:serde::ser::Serialize:{P}::Hex:serialize"),
        ("prim::hex_de", f"tr:serde::de::Deserialize:{P}::Hex:deserialize"),
        ("prim::key256_de", "fn:axon_protocol::codec::deserialize_256bits_key"),
        ("prim::quantity", "fn:axon_protocol::codec::serialize_uint"),
        ("prim::key256", "fn:axon_protocol::codec::decode_256bits_key"),
    ),
    "C11": specs(
        ("prim::digest", f"in:{P}::Hasher::digest"),
        ("prim::rlp_null_", "spec:prim::rlp_null"),
        ("prim::rlp_empty_", "spec:prim::rlp_empty"),
    ),
    "C24": specs(
        ("prim::contains", f"in:{P}::MetadataVersion::contains"),
        ("prim::version_new", f"in:{P}::MetadataVersion::new"),
        ("prim::metadata_of_spec", f"{FROM}{P}::Metadata:from"),
        ("prim::metadata_parts", f"in:{P}::Metadata::into_part"),
        ("prim::metadata_from_parts", f"in:{P}::Metadata::from_parts"),
        ("prim::config_of_v0", f"{FROM}{P}::ConsensusConfig:from"),
        ("prim::config_to_v0", f"{FROM}{P}::ConsensusConfigV0:from"),
        ("prim::contract_limit", f"fn:{P}::default_max_contract_limit"),
        ("prim::durations", f"{FROM}overlord::DurationConfig:from"),
        ("prim::increase", f"in:{P}::ProposeCount::increase"),
        ("prim::count_of", f"{FROM}{P}::ProposeCount:from"),
        ("prim::extend_of", f"{FROM}{P}::ValidatorExtend:from"),
        ("prim::consensus_of", f"{FROM}{P}::ConsensusValidator:from"),
        ("prim::extend_cmp", f"tr:core::cmp::Ord:axon_protocol::{P}::ValidatorExtend:cmp"),
        ("prim::extend_partial_cmp", f"tr:core::cmp::PartialOrd:axon_protocol::{P}::ValidatorExtend:partial_cmp"),
        ("prim::hardfork_push", f"in:{P}::HardforkInfo::push"),
    ),
    "C22": specs(
        ("prim::tag_str", "in:traits::network::PeerTag::str"),
        ("prim::tag_custom", "in:traits::network::PeerTag::custom"),
        ("prim::tag_ban", "in:traits::network::PeerTag::ban"),
        ("prim::tag_hash", "tr:core::hash::Hash:traits::network::PeerTag:hash"),
        ("prim::tag_eq", "tr:core::cmp::PartialEq:traits::network::PeerTag:eq"),
        ("prim::category", f"{FROM}traits::storage::StorageCategory:from"),
    ),
}
