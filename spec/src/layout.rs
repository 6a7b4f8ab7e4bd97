//! Layouts of the values whose encoding is derived: a list of all fields, in this order.
use protocol::types::*;
use rlp::{DecoderError, Rlp, RlpStream};

macro_rules! put {
    ($s:ident, one, $x:expr) => {
        $s.append(&$x)
    };
    ($s:ident, many, $x:expr) => {
        $s.append_list(&$x)
    };
}

macro_rules! get {
    ($r:ident, one, $i:expr) => {
        $r.val_at($i)?
    };
    ($r:ident, many, $i:expr) => {
        $r.list_at($i)?
    };
}

macro_rules! layout {
    ($m:ident, $t:ty, $n:expr, $($i:literal $k:ident $f:ident),*) => {
        pub mod $m {
            use super::*;
            use $t as Value;
            pub fn append(v: &Value, s: &mut RlpStream) {
                s.begin_list($n);
                $( put!(s, $k, v.$f); )*
            }
            pub fn decode(r: &Rlp) -> Result<Value, DecoderError> {
                $( let $f = get!(r, $k, $i); )*
                Ok(Value { $($f),* })
            }
        }
    };
}
pub(crate) use {get, layout, put};

layout!(script, protocol::types::Script, 3, 0 one code_hash, 1 one args, 2 one hash_type);
layout!(signature_s, protocol::types::SignatureS, 1, 0 many witnesses);
layout!(dep_with_key, protocol::types::CellDepWithPubKey, 2, 0 one cell_dep, 1 one pub_key);
layout!(out_point, protocol::types::OutPoint, 2, 0 one tx_hash, 1 one index);
layout!(cell_dep, protocol::types::CellDep, 3, 0 one tx_hash, 1 one index, 2 one dep_type);
layout!(metadata_version, protocol::types::MetadataVersion, 2, 0 one start, 1 one end);
layout!(metadata, protocol::types::Metadata, 5, 0 one version, 1 one epoch, 2 many verifier_list, 3 many propose_counter, 4 one consensus_config);
layout!(metadata_inner, protocol::types::MetadataInner, 4, 0 one version, 1 one epoch, 2 many verifier_list, 3 many propose_counter);
layout!(config_v0, protocol::types::ConsensusConfigV0, 8, 0 one gas_limit, 1 one interval, 2 one propose_ratio, 3 one prevote_ratio,
    4 one precommit_ratio, 5 one brake_ratio, 6 one tx_num_limit, 7 one max_tx_size);
layout!(config, protocol::types::ConsensusConfig, 9, 0 one gas_limit, 1 one interval, 2 one propose_ratio, 3 one prevote_ratio,
    4 one precommit_ratio, 5 one brake_ratio, 6 one tx_num_limit, 7 one max_tx_size, 8 one max_contract_limit);
layout!(propose_count, protocol::types::ProposeCount, 2, 0 one address, 1 one count);
layout!(consensus_validator, protocol::types::ConsensusValidator, 3, 0 one pub_key, 1 one propose_weight, 2 one vote_weight);
layout!(validator, protocol::types::Validator, 4, 0 one bls_pub_key, 1 one pub_key, 2 one propose_weight, 3 one vote_weight);
layout!(validator_extend, protocol::types::ValidatorExtend, 5, 0 one bls_pub_key, 1 one pub_key, 2 one address, 3 one propose_weight, 4 one vote_weight);
layout!(ckb_info, protocol::types::CkbRelatedInfo, 6, 0 one metadata_type_id, 1 one checkpoint_type_id, 2 one xudt_args,
    3 one stake_smt_type_id, 4 one delegate_smt_type_id, 5 one reward_smt_type_id);
layout!(hardfork, protocol::types::HardforkInfo, 1, 0 many inner);
layout!(hardfork_inner, protocol::types::HardforkInfoInner, 2, 0 one block_number, 1 one flags);
layout!(cell_with_data, protocol::types::CellWithData, 3, 0 one type_script, 1 one lock_script, 2 one data);
layout!(witness, protocol::types::Witness, 3, 0 one lock, 1 one input_type, 2 one output_type);
