"""Values whose encoding is derived."""
from .tx import specs

I, P = "types::interoperation::", "types::primitive::"
DERIVED = {
    "script": I + "Script", "signature_s": I + "SignatureS", "dep_with_key": I + "CellDepWithPubKey", "out_point": I + "OutPoint",
    "cell_dep": I + "CellDep", "cell_with_data": I + "CellWithData", "witness": I + "Witness",
    "metadata_version": P + "MetadataVersion", "metadata": P + "Metadata", "metadata_inner": P + "MetadataInner",
    "config_v0": P + "ConsensusConfigV0", "config": P + "ConsensusConfig", "propose_count": P + "ProposeCount",
    "consensus_validator": P + "ConsensusValidator", "validator": P + "Validator", "validator_extend": P + "ValidatorExtend",
    "ckb_info": P + "CkbRelatedInfo", "hardfork": P + "HardforkInfo", "hardfork_inner": P + "HardforkInfoInner",
}


def codec(t, m, mod="layout", crate="axon_protocol::", dec=True):
    r = [(f"{mod}::{m}::append", f"tr:rlp::traits::Encodable:{crate}{t}:rlp_append")]
    if dec:
        r.append((f"{mod}::{m}::decode", f"tr:rlp::traits::Decodable:{crate}{t}:decode"))
    return r


RULES = {
    "C01": specs(*[x for m, t in DERIVED.items() for x in codec(t, m)]),
}
