"""core/executor/src/system_contract: the contracts that are part of the node."""
from ..equiv import named
from .tx import specs
from .misc import all_of
from .precompile import ABI, derived
WIDE = True
S = "fn:core_executor::system_contract::"
X = "tr:core_executor::system_contract::SystemContract:core_executor::system_contract::"
U, M = S + "utils::", S + "metadata::"
ST, HA, SEG = "in:store::MetadataStore::", "in:handle::MetadataHandle::", "in:segment::EpochSegment::"
CL, CR = "in:ckb_light_client::store::CkbLightClientStore::", "in:ckb_light_client::CkbHeaderReader::"
IC, IK = "in:image_cell::store::ImageCellStore::", "in:image_cell::store::CellKey::"
done = named("::apply", "::swap", "::store", "::insert", "::remove", "::commit", "::replace", "::set_hardfork_info", "::append_metadata", "::update_propose_count",
             "::set_ckb_related_info", "::update_consensus_config", "::put", "::exec_", "::after_block_hook")


def opaque(name):
    """the stores of the contracts: their methods are compared on their own"""
    return any(f"{s}::" in name for s in ("MetadataStore", "EpochSegment", "MetadataHandle")) and "core_executor" in name and " as " not in name


PRIVATE = ("::get_epoch_by_block_number", "::get_metadata_inner")


def inner(name):
    """within a store: what the segment of epochs and the other stores do"""
    return any(f"{s}::" in name for s in ("MetadataStore", "EpochSegment")) and "core_executor" in name and " as " not in name and not name.endswith(PRIVATE)


def key(f, n):
    return (f"system::{f}", f"?fn:<core_executor::system_contract::{n} as core::ops::deref::Deref>::deref::__static_ref_initialize")


ABI_M = "core_executor::system_contract::metadata::abi::metadata_abi::metadata_contract::"
TYPES = (("metadata", "Metadata"), ("config", "ConsensusConfig"), ("version", "MetadataVersion"), ("validator", "ValidatorExtend"), ("counter", "ProposeCount"),
         ("related", "CkbRelatedInfo"))
ROOTS = ("system::root_changes", U + "generate_mpt_root_changes")
STATES = ("system::update_states", U + "update_states")
REV, OK = ("system::reverted", U + "revert_resp"), ("system::succeeded", U + "succeed_resp")
NATIVE, META = ("system::native_token", X + "native_token::NativeTokenContract<Adapter>:exec_"), ("system::metadata", X + "metadata::MetadataContract<Adapter>:exec_")
HOOK = ("system::after_block_metadata", X + "metadata::MetadataContract<Adapter>:after_block_hook")
HEADERS, CELLS = ("system::ckb_light_client::exec", X + "ckb_light_client::CkbLightClientContract<Adapter>:exec_"), ("system::image_cell::exec", X + "image_cell::ImageCellContract<Adapter>:exec_")
INIT = (("system::init_db", S + "init_system_contract_db"), ("system::init_metadata", S + "init_metadata_and_hardfork"))

RULES = {"C33": all_of(
    specs(("system::swap_metadata_db", S + "swap_metadata_db"), ("system::swap_header_cell_db", S + "swap_header_cell_db"),
          INIT[0], INIT[1], ("system::looks_like_system", S + "is_system_contract_address_format"), ("system::calls_system", S + "is_call_system_script"),
          REV, OK, ("system::sender_changes", U + "generate_sender_changes"), ROOTS, STATES, NATIVE, META, HOOK,
          ("system::related_info_exists", M + "check_ckb_related_info_exist"),
          key("key_header_cells", "HEADER_CELL_ROOT_KEY"), key("key_metadata", "METADATA_ROOT_KEY"), key("key_segment", "metadata::EPOCH_SEGMENT_KEY"),
          key("key_ckb_related", "metadata::CKB_RELATED_INFO_KEY"), key("key_consensus", "metadata::CONSENSUS_CONFIG"), key("key_hardfork", "metadata::HARDFORK_KEY"),
          effects=done, opaque=(opaque,), modules=ABI),
    specs(("system::init", S + "init"), effects=done, opaque=(opaque,), lemmas=INIT),
    specs(("system::before_block", S + "before_block_hook"), ("system::after_block", S + "after_block_hook"), ("system::dispatch", S + "system_contract_dispatch"),
          effects=done, opaque=(opaque,), lemmas=(NATIVE, META, HOOK, HEADERS, CELLS)),
    specs(*((f"system::segment::{a}", SEG + b) for a, b in (
        ("new_", "new"), ("append", "append_endpoint"), ("epoch", "get_epoch_number"), ("latest", "get_latest_epoch_number"), ("empty", "is_empty"),
        ("end", "last_block_number"), ("ends_at", "is_last_block_in_epoch"), ("bytes", "as_bytes"), ("parse", "from_raw")))),
    specs(*((f"system::{a}", ST + b) for a, b in (
        ("store_new", "new"), ("set_related_info", "set_ckb_related_info"), ("append_metadata", "append_metadata"), ("count_proposal", "update_propose_count"),
        ("epoch_segment", "get_epoch_segment"), ("epoch_of", "get_epoch_by_block_number"), ("metadata_inner", "get_metadata_inner"),
        ("metadata_of", "get_metadata"), ("metadata_at", "get_metadata_by_block_number"), ("consensus_config", "get_consensus_config"),
        ("related_info", "get_ckb_related_info"), ("update_config", "update_consensus_config"), ("set_hardfork", "set_hardfork_info"),
        ("hardfork_at", "hardfork_info"), ("hardforks", "hardfork_infos"))),
          ("system::config_parse", M + "store::decode_consensus_config"), ("system::config_bytes", M + "store::encode_consensus_config"),
          effects=done, opaque=(inner,)),
    specs(*((f"system::handle::{a}", HA + b) for a, b in (
        ("new_", "new"), ("at", "get_metadata_by_block_number"), ("of_epoch", "get_metadata_by_epoch"), ("is_last", "is_last_block_in_current_epoch"),
        ("is_validator", "is_validator"), ("related_info", "get_ckb_related_info"), ("hardforks", "hardfork_infos"), ("init_hardfork", "init_hardfork"),
        ("config", "get_consensus_config"))), effects=done, opaque=(inner,)),
    specs(*((f"system::conv::{a}_in", f"tr:core::convert::From:axon_protocol::types::primitive::{t}:from:{ABI_M}{t}") for a, t in TYPES if a != "version"),
          *((f"system::conv::{a}_out", f"tr:core::convert::From:{ABI_M}{t}:from:axon_protocol::types::primitive::{t}") for a, t in TYPES), modules=ABI),
    lambda ctx: derived(ctx, *ABI[2], ABI),
)}

SCI = "axwide::system::image_cell::store::"
CP = "tr:ckb_types::core::cell::CellProvider:core_executor::system_contract::DataProvider:"
DP = "core_executor::system_contract::DataProvider:"
ABI_C = "core_executor::system_contract::image_cell::abi::image_cell_abi::image_cell_contract::"
HEADER, CELL = ("system::ckb_light_client::header_by_hash", CR + "get_header_by_block_hash"), ("system::image_cell::cell", "in:ImageCellReader::get_cell")


def trie(name):
    """what the trie does is compared on its own"""
    return "MPTTrie<DB>" in name or "::MPTTrie::" in name


RULES["C34"] = all_of(
    specs(*((f"system::ckb_light_client::{a}", CL + b) for a, b in (
        ("open", "new"), ("commit", "commit"), ("save", "save_header"), ("remove", "remove_header"), ("update", "update"), ("rollback", "rollback"), ("header", "get_header"))),
          HEADER, ("system::ckb_light_client::raw", CR + "get_raw"), HEADERS, effects=done, modules=ABI, opaque=(trie,)),
    specs(*((f"system::image_cell::{a}", IC + b) for a, b in (
        ("open", "new"), ("commit", "commit"), ("get", "get_cell"), ("insert", "insert_cell"), ("remove", "remove_cell"), ("update", "update"), ("rollback", "rollback"),
        ("consume", "mark_cells_consumed"), ("release", "mark_cells_not_consumed"), ("forget", "remove_cells"), ("save", "save_cells"))),
          ("system::image_cell::key_new", IK + "new"), ("system::image_cell::key_of", "tr:core::convert::From:image_cell::store::CellKey:from"),
          ("system::image_cell::key_bytes", IK + "encode"), ("system::image_cell::key_parse", IK + "decode"),
          ("system::image_cell::data_hash", S + "image_cell::store::cell_data_hash"), ("system::image_cell::meta", "in:image_cell::store::CellInfo::into_meta"),
          CELL, CELLS, effects=done, modules=ABI, opaque=(trie,)),
    specs(("system::image_cell::out_point_abi", f"tr:core::convert::From:{ABI_C}OutPoint:from"), ("system::image_cell::script_abi", f"tr:core::convert::From:{ABI_C}Script:from"),
          ("system::image_cell::output_abi", f"tr:core::convert::From:{ABI_C}CellOutput:from"), modules=ABI),
    specs(("system::provider::new_", "in:system_contract::DataProvider::new"), ("system::provider::cell", CP + "cell"),
          ("system::provider::data", "tr:ckb_traits::cell_data_provider::CellDataProvider:" + DP + "get_cell_data"),
          ("system::provider::data_hash", "tr:ckb_traits::cell_data_provider::CellDataProvider:" + DP + "get_cell_data_hash"),
          ("system::provider::header", "tr:ckb_traits::header_provider::HeaderProvider:" + DP + "get_header"),
          ("system::provider::extension", "tr:ckb_traits::extension_provider::ExtensionProvider:" + DP + "get_block_extension"),
          modules=ABI, lemmas=(HEADER, CELL), opaque=(trie,)),
    lambda ctx: (derived(ctx, *ABI[0], ABI), derived(ctx, *ABI[1], ABI)),
    specs(*((f"{SCI}_::<impl rlp::traits::{t} for {SCI}CellInfo>::{m}", f"tr:rlp::traits::{t}:image_cell::store::CellInfo:{m}") for t, m in (("Encodable", "rlp_append"), ("Decodable", "decode")))),
)
