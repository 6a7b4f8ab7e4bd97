"""core/run: how a chain begins, and how a node starts from what it has stored."""
from ..equiv import named
from .misc import all_of
from .tx import specs

WIDE = True


def parts(name):
    """What the parts of a node do is compared on its own."""
    return name.endswith(("::start_if_possible", "::set_ctrl_c_handle")) or "::profiling::" in name or "core_run" not in name and "axwide" not in name and "context::Context" not in name and "Context::new" not in name and not name.endswith("::clone") and any(
        c in name for c in ("core_executor::", "core_storage::", "core_consensus::", "core_mempool::", "core_db::", "core_network::", "core_api::", "core_interoperation::",
                            "common_crypto::", "common_config_parser::", "axon_protocol::types", "axon_protocol::traits", "axon_protocol::codec"))


DB, NS, KP = "in:storage::DatabaseGroup::", "tr:NetworkServiceExt:NetworkService<K>:", "tr:KeyProvider:KeyP<K>:"
GENESIS = [("node::databases", DB + "new"), ("node::genesis_block", "tr:ChainSpecExt:ChainSpec:generate_genesis_block"), ("node::accounts", "?fn:storage::TrieExt::insert_accounts"),
           ("node::genesis_state", "?fn:core_run::execute_genesis_transactions"), ("node::genesis", "?fn:core_run::execute_genesis"), ("node::store", "?fn:storage::StorageExt::save_block"),
           ("node::init", "fn:core_run::init"), ("node::propose", "fn:core_run::set_hardfork_info")]
START = [("node::network", "?fn:core_run::init_network_service"), ("node::pool", "?fn:core_run::init_mempool"), ("node::crypto", "?fn:core_run::init_crypto"),
         ("node::status", "?fn:core_run::get_status_agent"), ("node::consensus", "?fn:core_run::run_overlord_consensus"), 
         *((f"node::{a}", NS + b) for a, b in (("mempool_endpoints", "register_mempool_endpoint"), ("consensus_endpoints", "register_consensus_endpoint"), ("sync_endpoints", "register_synchronization_endpoint"),
                                               ("storage_endpoints", "register_storage_endpoint"), ("responses", "register_rpc"), ("tag_peers", "tag_consensus"))),
         ("node::key_provider::sign", KP + "sign_ecdsa"), ("node::key_provider::public", KP + "pubkey"), ("node::key_provider::signed", KP + "verify_ecdsa")]
done = named("::update_latest_proof", "::insert_block", "::insert_transactions", "::insert_receipts", "::commit", "Trie::insert", "system_contract::init", "::init_system_contract_db",
             "::exec", "::set_args", "::swap", "::set_overlord_handler", "::register_endpoint_handler", "::register_rpc_response", "::tag_consensus", "NetworkService::run", "spawn",
             "::run_jsonrpc_server", "OverlordConsensus::run", *("::" + a.rsplit(":", 1)[-1] for _, a in START if "KeyP" not in a and "fn:" in a), "::load_by_number", "::init_hardfork", "::set_hardfork_proposal", "::observe_listen_port_occupancy", "::block_on",
             "::shutdown_timeout", "::polling_broadcast", "::sleep", "MemPoolImpl::new", "RocksAdapter::new", "RocksAdapter::open")
RULES = {"C43": all_of(specs(*GENESIS, effects=done, opaque=(parts,)), specs(*START, effects=done, opaque=(parts,)),
                       specs(("node::start", "?fn:core_run::start"), effects=done, opaque=(parts,), lemmas=[("node::stopped", "?fn:system::set_ctrl_c_handle"), *(x for x in START if "key_provider" not in x[0])]),
                       specs(("node::run", "fn:core_run::run"), effects=done, opaque=(parts,), lemmas=[("node::start", "?fn:core_run::start"), GENESIS[0]]))}
