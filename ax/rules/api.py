"""core/api: what a node's JSON-RPC answers."""
from ..equiv import named, calls, deep, rewritten, err_only
from ..term import T
from .tx import specs
from .misc import all_of
WIDE = True
W = "tr:jsonrpc::Web3RpcServer:web3::Web3RpcImpl<Adapter>:"
AX = "tr:jsonrpc::AxonRpcServer:axon::AxonRpcImpl<Adapter>:"
NO = "tr:jsonrpc::AxonNodeRpcServer:node::NodeRpcImpl:"
CK = "tr:jsonrpc::CkbLightClientRpcServer:ckb_light_client::CkbLightClientRpcImpl<Adapter>:"
AD = "tr:traits::api::APIAdapter:adapter::DefaultAPIAdapter<M, S, DB, Net>:"
T3 = "jsonrpc::web3_types::"


def shown(name):
    """what is shown of a block, of a transaction and of a receipt is compared on its own, and so is what the other parts of the node compute"""
    return "axwide" not in name and "APIAdapter>" not in name and ("web3_types::Web3" in name and name.endswith(("::from", "Web3Receipt::new", "::update_with_receipt", "::add_block_number", "::add_block_hash", "::add_tx_index"))
                                     or name.endswith(("UnverifiedTransaction::check_hash", "SignedTransaction::from_unverified", "Block::hash", "new_without_state_root", "new_with_state_root",
                                                       "is_system_contract_address_format", "Executor>::call", "get_metadata_by_block_number",
                                                       "get_ckb_related_info", "hardfork_infos", "::get_metadata_root", "::get_image_cell_root", "::from_root", "DataProvider::new",
                                                       "CellProvider>::cell", "HeaderProvider>::get_header")))


done = named("::insert_signed_txs")
SENT = specs(("api::web3_new", "in:web3::Web3RpcImpl<Adapter>::new"), *((f"api::{a}", W + b) for a, b in (
    ("send_raw", "send_raw_transaction"), ("tx_by_hash", "get_transaction_by_hash"), ("receipt", "get_transaction_receipt"), ("tx_in_block_hash", "get_transaction_by_block_hash_and_index"),
    ("tx_in_block_number", "get_transaction_by_block_number_and_index"), ("block_by_number", "get_block_by_number"), ("block_by_hash", "get_block_by_hash"), ("block_number", "block_number"),
    ("tx_count_by_number", "get_block_transaction_count_by_number"), ("tx_count_by_hash", "get_block_transaction_count_by_hash"), ("tx_count", "get_transaction_count"), ("balance", "get_balance"),
    ("code", "get_code"), ("storage_at", "get_storage_at"), ("proof", "get_proof"), ("gas_price", "gas_price"), ("accounts", "accounts"),
    ("no_uncle_at", "get_uncle_by_block_hash_and_index"), ("no_uncle_of", "get_uncle_by_block_number_and_index"), ("no_uncles_at", "get_uncle_count_by_block_hash"),
    ("no_uncles_of", "get_uncle_count_by_block_number"), ("peers", "peer_count"), ("protocol_version", "protocol_version"), ("fee_history", "fee_history"))), effects=done, opaque=(shown,))
OWN = specs(("api::axon::new", "in:axon::AxonRpcImpl<Adapter>::new"), *((f"api::axon::{a}", AX + b) for a, b in (
    ("block", "get_block_by_id"), ("proof", "get_proof_by_id"), ("metadata", "get_metadata_by_number"), ("current_metadata", "get_current_metadata"), ("ckb_related", "get_ckb_related_info"),
    ("proposal", "get_proposal_by_number"), ("hardforks", "hardfork_infos"))),
    *((f"api::node::{a}", NO + b) for a, b in (("chain_id", "chain_id"), ("net_version", "net_version"), ("version", "client_version"), ("listening", "listening"), ("syncing", "syncing"),
                                               ("mining", "mining"), ("coinbase", "coinbase"), ("sha3", "sha3"))),
    ("api::ckb_light_client::header", CK + "get_block_header_by_hash"), ("api::ckb_light_client::cell", CK + "get_cell_info"), opaque=(shown,))
SHOWN = specs(("api::show::transaction", f"tr:From:{T3}Web3Transaction:from"), ("api::show::block", f"tr:From:{T3}Web3Block:from"), ("api::show::header", f"tr:From:{T3}Web3Header:from"),
              ("api::show::status", f"tr:From:{T3}Web3SyncStatus:from"), ("api::show::receipt", f"in:{T3}Web3Receipt::new"), ("api::show::executed", f"in:{T3}Web3Transaction::update_with_receipt"),
              ("api::show::in_block", f"in:{T3}Web3Transaction::add_block_number"), ("api::show::in_block_hash", f"in:{T3}Web3Transaction::add_block_hash"),
              ("api::show::at_index", f"in:{T3}Web3Transaction::add_tx_index"), ("api::show::hash_of", f"in:{T3}RichTransactionOrHash::get_hash"), ("api::error_code", "in:error::RpcError::code"))
FROM = specs(*((f"api::adapter::{a}", AD + b) for a, b in (
    ("insert", "insert_signed_txs"), ("contains", "mempool_contains_tx"), ("block", "get_block_by_number"), ("block_by_hash", "get_block_by_hash"), ("header", "get_block_header_by_number"),
    ("number", "get_block_number_by_hash"), ("receipt", "get_receipt_by_tx_hash"), ("receipts", "get_receipts_by_hashes"), ("transaction", "get_transaction_by_hash"),
    ("transactions", "get_transactions_by_hashes"), ("account", "get_account"), ("pending", "get_pending_tx_count"), ("evm_call", "evm_call"), ("code", "get_code_by_hash"), ("peers", "peer_count"),
    ("storage_at", "get_storage_at"), ("proof", "get_proof"), ("metadata", "get_metadata_by_number"), ("ckb_related", "get_ckb_related_info"), ("image_cell_root", "get_image_cell_root"),
    ("metadata_root", "get_metadata_root"), ("hardforks", "hardfork_info"), ("hardfork_proposal", "hardfork_proposal"))),
    ("api::adapter::backend", "in:adapter::DefaultAPIAdapter<M, S, DB, Net>::evm_backend"), effects=named("::insert"), opaque=(shown,))
CALL = [("api::run", "in:web3::Web3RpcImpl<Adapter>::call_evm"), ("api::meant", "in:web3::Web3RpcImpl<Adapter>::get_block_number_by_id")]
CALLED = specs(*CALL, ("api::call", W + "call"), ("api::estimate_gas", W + "estimate_gas"), lemmas=CALL[:1], opaque=(shown,))


def sent(ev):
    """What is sent: a message to a channel or a client leaves when the future is awaited, an answer at once."""
    def show(e):
        t = e.args[0] if e.k == "await" and e.args else T("call", "::".join(e.name.rsplit("::", 2)[-2:]), *e.args) if e.name.endswith(("oneshot::Sender::send", "::try_send", "::blocking_send")) else None
        if e.k == "await" and not (t.op == "call" and str(t.a[0]).endswith("::send")):
            return None
        return t and deep(t, lambda x: rewritten(x, err_only))
    return calls(ev, show, ("call", "await"))


def given(n):
    """One, many or none of something, as a client writes it."""
    return "MultiType<" in n and n.endswith("::from") or "MultiNestType<" in n and n.endswith("::from")


FI, FH, FS = "tr:jsonrpc::Web3FilterServer:filter::AxonWeb3RpcFilter:", "in:filter::FilterHub<Adapter>::", "filters::filter::"
WS, SU = "filters::ws_subscription::", "in:ws_subscription::Subscription<Adapter>::"
PICK = [("filters::picked", "fn:web3::from_receipt_to_web3_log")]
HUB = [(FS + "answer", FH + "impl_filter"), (FS + "blocks", FH + "filter_block"), (FS + "logs", FH + "filter_logs")]
FILTERS = specs(*PICK, ("filters::get_logs", W + "get_logs"), (FS + "meant", "tr:From:filter::LoggerFilter:from"), (FS + "new_filter", FI + "new_filter"), (FS + "block_filter", FI + "block_filter"),
                (FS + "changes", FI + "get_filter_logs"), (FS + "changes", FI + "get_filter_changes"), (FS + "uninstall", FI + "uninstall_filter"), (FS + "new", FH + "new"), (FS + "expire", FH + "check_hubs"),
                (FS + "handle", FH + "handle"), *HUB, effects=sent, opaque=(shown, given), lemmas=PICK + HUB)
TOLD = specs((WS + "meant", "tr:From:ws_subscription::LoggerFilter:from"), (WS + "kind", "tr:TryFrom:ws_subscription::Type:try_from"), (WS + "next_id", "tr:jsonrpsee::server::IdProvider:ws_subscription::HexIdProvider:next_id"),
             (WS + "new", SU + "new"), (WS + "notify", SU + "notify"), effects=sent, opaque=(shown, given), lemmas=PICK)
def lived(ev):
    """What a task does while it runs: what it waits for, and the steps it takes."""
    def show(e):
        if e.k == "call" and (e.name.startswith(("core_api::jsonrpc", "<core_api::jsonrpc")) or e.name.endswith(("::interval", "::tick", "::recv", "::reject", "::accept", "spawn::spawn"))):
            return deep(T("call", e.name, *e.args), lambda x: rewritten(x, err_only))
    return calls(ev, show)


LOOPS = specs((FS + "run", FH + "run"), (WS + "run", SU + "run"), (WS + "subscribed", "fn:ws_subscription::subscription_callback"), effects=lived, opaque=(shown, given),
              lemmas=[(FS + "handle", FH + "handle"), (FS + "expire", FH + "check_hubs"), (WS + "notify", SU + "notify"), (WS + "kind", "tr:TryFrom:ws_subscription::Type:try_from")])
FORMS = specs(("api::show::height", f"tr:From:Option<u64>:from:{T3}BlockId"), ("api::show::one_or_many", "path:core_api::jsonrpc::web3_types::<impl core::convert::From<core_api::jsonrpc::web3_types::MultiType<T>> for core::option::Option<alloc::vec::Vec<T>>>::from"), ("api::show::topics", "path:core_api::jsonrpc::web3_types::<impl core::convert::From<core_api::jsonrpc::web3_types::MultiNestType<T>> for core::option::Option<alloc::vec::Vec<core::option::Option<T>>>>::from"))
NAMED = [(m, f"fn:jsonrpc::{t}Server::into_rpc") for m, t in (("web3", "Web3Rpc"), ("filters", "Web3Filter"), ("node", "AxonNodeRpc"), ("axon", "AxonRpc"), ("ckb_light_client", "CkbLightClientRpc"))]
NAMES = specs(*((f"served::{m}", t) for m, t in NAMED), effects=named("::register_method", "::register_async_method"))
TASKS = [("served::filter_hub", "fn:filter::filter_module"), ("served::subscriptions", "fn:ws_subscription::ws_subscription_module")]
SERVED = all_of(NAMES, specs(*TASKS, effects=named("::spawn", "::register_subscription"), opaque=(shown, given),
                             lemmas=[(FS + "new", FH + "new"), (FS + "run", FH + "run"), (WS + "new", SU + "new"), (WS + "run", SU + "run"), (WS + "kind", "tr:TryFrom:ws_subscription::Type:try_from")]),
                specs(("served::servers", "fn:core_api::jsonrpc::run_jsonrpc_server"), effects=named("::spawn", "::merge", "::start", "::filter_module", "::ws_subscription_module"), opaque=(shown,),
                      lemmas=[*((f"served::of::{m}", t) for m, t in NAMED), *TASKS]))
RULES = {"C42": all_of(FILTERS, TOLD, LOOPS, FORMS), "C41": all_of(SENT, CALLED, OWN, SHOWN, FROM, SERVED)}
