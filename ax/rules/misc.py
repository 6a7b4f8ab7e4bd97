"""Merkle trees, hashing, versions, CKB."""
from .tx import specs
M, TM = "in:common_merkle::Merkle", "in:common_merkle::TrieMerkle"
I, K = "types::interoperation", "types::ckb_client"
FROM = "tr:core::convert::From:"
CMP = "tr:core::cmp::"


def all_of(*fs):
    def f(ctx):
        for g in fs:
            g(ctx)
    return f


RULES = {
    "C12": all_of(
        specs(
            ("merkle::tree_of", M + "::from_hashes"),
            ("merkle::tree_root", M + "::get_root_hash"),
            ("merkle::tree_proof", M + "::get_proof_by_input_index"),
            newtype="common_merkle::Merkle"),
        specs(
            ("merkle::trie_of", "tr:FromIterator:common_merkle::TrieMerkle:from_iter"),
            ("merkle::trie_root", TM + "::root_hash"),
            ("merkle::trie_proof", TM + "::get_proof_by_index"),
            ("merkle::trie_of_receipts", TM + "::from_receipts"),
            newtype="common_merkle::TrieMerkle"),
    ),
    "C11": specs(
        ("misc::keccak", "fn:common_hasher::keccak256"),
    ),
    "C19": all_of(
        specs(
            ("misc::version_from_str", "tr:core::str::traits::FromStr:common_version::Version:from_str"),
            ("misc::version_new", "in:common_version::Version::new"),
            ("misc::version_with", "in:common_version::Version::new_with_commit_id"),
            ("misc::commit_id", "in:common_version::Version::commit_id"),
            newtype="common_version::Version"),
    ),
    "C18": specs(
        ("ckb::gas_to_cycle", "fn:core_interoperation::gas_to_cycle"),
        ("ckb::cycle_to_gas", "fn:core_interoperation::cycle_to_gas"),
        ("ckb::chain_type", "tr:core::convert::TryFrom:core_interoperation::BlockchainType:try_from"),
        ("ckb::call_vm", "tr:traits::interoperation::Interoperation:core_interoperation::InteroperationImpl:call_ckb_vm"),
        ("ckb::packed_script", f"{FROM}ckb_gen_types::generated::blockchain::Script:from:&{I}::Script"),
        ("ckb::script_len", f"in:{I}::Script::len"),
        ("ckb::out_point", f"{FROM}{I}::OutPoint:from:&ckb_gen_types::generated::blockchain::OutPoint"),
        ("ckb::packed_dep", f"{FROM}ckb_gen_types::generated::blockchain::CellDep:from:&{I}::CellDep"),
        ("ckb::sig_s_new", f"in:{I}::SignatureS::new"),
        ("ckb::sign", f"in:{K}::TransactionCompletionResponse::sign"),
        ("ckb::action_eq", f"{CMP}PartialEq:{K}::SignatureAction:eq"),
        ("ckb::action_cmp", f"{CMP}Ord:{K}::SignatureAction:cmp"),
        ("ckb::action_partial_cmp", f"{CMP}PartialOrd:{K}::SignatureAction:partial_cmp"),
        ("ckb::identity", f"in:{K}::Identity::new"),
    ),
}
