"""axon-tools."""
from .tx import specs
from .layout import codec
from .misc import all_of
T = "axon_tools::types"
H = f"in:{T}::Hex"
FROM = "tr:core::convert::From:"
CMP = "tr:core::cmp::"
TYPES = {"extra": "ExtraData", "proof": "Proof", "header": "Header", "block": "Block", "validator": "Validator", "metadata_version": "MetadataVersion",
         "metadata": "Metadata", "config": "ConsensusConfig", "propose_count": "ProposeCount", "validator_extend": "ValidatorExtend"}
ENC, DEC = "tr:rlp::traits::Encodable:axon_tools::", "tr:rlp::traits::Decodable:axon_tools::"
RULES = {
    "C08": all_of(
        specs(*[x for m, t in TYPES.items() for x in codec(f"types::{t}", m, "tools", "axon_tools::")],
              ("tools::version_append", ENC + "types::BlockVersion:rlp_append"),
              ("tools::version_decode", DEC + "types::BlockVersion:decode"),
              ("tools::vote_append", ENC + "types::Vote:rlp_append"),
              ("tools::proposal_append", ENC + "types::Proposal:rlp_append"),
              ("tools::version_u8", f"{FROM}u8:from:{T}::BlockVersion"),
              ("tools::version_of_range", f"in:{T}::MetadataVersion::new"),
              ("tools::range_contains", f"in:{T}::MetadataVersion::contains"),
              ("tools::validator_cmp", f"{CMP}Ord:{T}::Validator:cmp"),
              ("tools::validator_partial_cmp", f"{CMP}PartialOrd:{T}::Validator:partial_cmp"),
              ("tools::extend_cmp", f"{CMP}Ord:{T}::ValidatorExtend:cmp"),
              ("tools::extend_partial_cmp", f"{CMP}PartialOrd:{T}::ValidatorExtend:partial_cmp")),
        specs(("tools::hex_append", ENC + "types::Hex:rlp_append"),
              ("tools::hex_decode", DEC + "types::Hex:decode"),
              newtype=f"{T}::Hex"),
    ),
    "C09": specs(("tools::verify_proof", "fn:axon_tools::proof::verify_proof"),),
    "C10": specs(("tools::ckb_proof::payload_append", ENC + "precompile::VerifyProofPayload:rlp_append"),
                 ("tools::ckb_proof::proof_append", ENC + "precompile::Proof:rlp_append"),
                 ("tools::ckb_proof::verify", "fn:axon_tools::precompile::verify_proof")),
    "C07": specs(("prim::quantity", "?fn:axon_tools::types::encode::serialize_uint"),
                 ("tools::number_u32", "?fn:axon_tools::types::decode::deserialize_hex_u32"),
                 ("tools::number_u64", "?fn:axon_tools::types::decode::deserialize_hex_u64"),
                 ("tools::hex_empty", H + "::empty"), ("tools::hex_is_empty", H + "::is_empty"), ("tools::hex_len", H + "::len"),
                 ("tools::hex_of", H + "::encode"), ("tools::hex_digits", H + "::as_string_trim0x"), ("tools::hex_string", H + "::as_string"),
                 ("tools::hex_bytes", H + "::as_bytes"),
                 ("tools::hex_from_str", f"tr:core::str::traits::FromStr:{T}::Hex:from_str"),
                 ("tools::hex_of_vec", f"{FROM}{T}::Hex:from"),
                 ("tools::hex_ref", f"tr:core::convert::AsRef:{T}::Hex:as_ref"),
                 ("tools::encode_hex", "fn:axon_tools::hex::hex_encode"), ("tools::decode_hex", "fn:axon_tools::hex::hex_decode"),
                 newtype=f"{T}::Hex"),
    "C11": specs(("tools::keccak_256", "fn:axon_tools::hash::keccak_256")),
}
