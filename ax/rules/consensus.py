"""core/consensus: what is voted for, what a decision does, what synchronization accepts, and what is kept over a crash."""
from ..engine import Engine
from ..term import T, subterms
from ..equiv import named, drive, deep, rewritten, err_only
from .tx import specs
from .misc import all_of
WIDE = True
EN = "tr:overlord::Consensus:core_consensus::engine::ConsensusEngine<Adapter>:"
CA = "tr:traits::consensus::CommonConsensusAdapter:core_consensus::adapter::OverlordConsensusAdapter<M, N, S, DB>:"
AA = "tr:traits::consensus::ConsensusAdapter:core_consensus::adapter::OverlordConsensusAdapter<M, N, S, DB>:"
SA = "tr:traits::consensus::SynchronizationAdapter:core_consensus::adapter::OverlordConsensusAdapter<M, N, S, DB>:"
AI = "in:adapter::OverlordConsensusAdapter<M, N, S, DB>::"
OC = "tr:overlord::Crypto:core_consensus::util::OverlordCrypto:"
OI = "in:core_consensus::util::OverlordCrypto::"
EI = "in:engine::ConsensusEngine<Adapter>::"


def known(name):
    """what the other parts of the node compute is compared on its own"""
    return "axwide" not in name and ("core_consensus::wal::" in name or name.rsplit("::", 1)[-1] in ("root_hash", "from_iter", "time_now", "encode_list",
        "from_root", "get_metadata_root", "get_metadata_by_block_number", "get_metadata_by_epoch", "extract_voters"))


asked = named("::get_txs_from_mempool", "::get_full_txs", "::remove_hardfork_proposal", "Option::take", "HashSet::insert", "::verify_block_header", "::get_block_by_number",
              "::verify_proof", "::verify_txs", "::get_metadata_by_block_number", "SignedTxsWAL::save")
VERIFY = specs(("consensus::verify::header", CA + "verify_block_header"), ("consensus::verify::block", CA + "get_block_by_number"), ("consensus::verify::metadata", AI + "get_metadata_handle"),
               ("consensus::verify::proof", CA + "verify_proof"), ("consensus::verify::weight", CA + "verify_proof_weight"), ("consensus::verify::signature", CA + "verify_proof_signature"),
               ("consensus::verify::txs", AA + "verify_txs"), ("consensus::verify::full_txs", AA + "get_full_txs"), ("consensus::verify::package", AA + "get_txs_from_mempool"),
               ("consensus::verify::by_number", CA + "get_metadata_by_block_number"), effects=asked, opaque=(known,))
RULES = {"C37": all_of(
    specs(("consensus::get_block", EN + "get_block"), ("consensus::check_block", EN + "check_block"), ("consensus::inner_check", EI + "inner_check_block"),
          ("consensus::chosen_by_nobody", EI + "verify_proposal_header"), ("consensus::order", EI + "check_order_transactions"), ("consensus::timestamp", "fn:engine::validate_timestamp"),
          effects=asked, opaque=(known,)),
    VERIFY,
    specs(("consensus::util::hash", OC + "hash"), ("consensus::util::sign", OC + "sign"), ("consensus::util::verify", OC + "verify_signature"), ("consensus::util::aggregate", OC + "aggregate_signatures"),
          ("consensus::util::verify_aggregated", OC + "verify_aggregated_signature"), ("consensus::util::inner", OI + "inner_verify_aggregated_signature"), ("consensus::util::update", OI + "update"),
          ("consensus::util::new", OI + "new"), ("consensus::util::from_hex", "fn:core_consensus::util::convert_hex_to_bls_pubkeys"), ("consensus::util::keys", "fn:engine::generate_new_crypto_map"),
          effects=asked, opaque=(known,)),
)}


stored = named("::get_full_txs", "SignedTxsWAL::load", "SignedTxsWAL::remove", "::exec", "::save_proof", "::save_signed_txs", "::save_receipts", "::save_block", "::flush_mempool", "HashSet::clear",
               "::broadcast_number", "::get_metadata_root", "::remove_hardfork_proposal", "::is_last_block_in_current_epoch", "::get_metadata_by_block_number", "::tag_consensus", "::set_args",
               "::transmit", "::send", "Mutex::try_lock", "ConsensusWal::update_overlord_wal", "::insert_block", "::update_latest_proof", "::insert_transactions", "::insert_receipts", "::flush",
               "::broadcast", "::multicast", "::call", "::send_msg", "Overlord::run", "ConsensusEngine::<Adapter>::update_status")
WE = "tr:overlord::Wal:core_consensus::engine::ConsensusEngine<Adapter>:"


def whole(name):
    """what is compared on its own"""
    return known(name) or "axwide" not in name and name.endswith(("Block::new", "::generate_receipts_and_logs", "engine::generate_new_crypto_map", "MetadataHandle::hardfork_infos",
                                                                  "Block::hash", "new_without_state_root", "is_last_block_in_current_epoch", "Executor>::exec"))


SERVED = specs(*((f"consensus::served::{a}", CA + b) for a, b in (
    ("save_block", "save_block"), ("save_proof", "save_proof"), ("save_txs", "save_signed_txs"), ("save_receipts", "save_receipts"), ("flush", "flush_mempool"),
    ("header", "get_block_header_by_number"), ("current", "get_current_number"), ("is_last", "is_last_block_in_current_epoch"), ("by_epoch", "get_metadata_by_epoch"),
    ("metadata_root", "get_metadata_root"), ("broadcast_number", "broadcast_number"), ("no_proposal", "remove_hardfork_proposal"), ("exec", "exec"), ("set_args", "set_args"), ("tag", "tag_consensus"))),
    ("consensus::served::current_for_consensus", AA + "get_current_number"), ("consensus::served::transmit", AA + "transmit"),
    ("consensus::adapter_new", AI + "new"), ("consensus::set_handler", AI + "set_overlord_handler"), ("consensus::pull_block", AA + "pull_block"), effects=stored, opaque=(whole,))
RULES["C38"] = all_of(
    specs(("consensus::decide::commit", EN + "commit"), ("consensus::decide::adopt", EI + "update_status"), ("consensus::decide::authority", "fn:engine::convert_to_overlord_authority"),
          ("consensus::decide::authority_list", EN + "get_authority_list"), ("consensus::decide::broadcast", EN + "broadcast_to_other"), ("consensus::decide::transmit", EN + "transmit_to_relayer"),
          ("consensus::decide::wal_save", WE + "save"), ("consensus::decide::wal_load", WE + "load"), ("consensus::decide::overlord_status", "fn:consensus::gen_overlord_status"),
          effects=stored, opaque=(whole,), lemmas=[("consensus::decide::adopt", EI + "update_status")]),
    SERVED,
    specs(*((f"consensus::stop_signal::{a}", "in:stop_signal::StopSignal::" + b) for a, b in (("new", "new"), ("with_stop_at", "with_stop_at"), ("check", "check_height_and_send"), ("send", "send"),
                                                                                              ("is_stopped", "is_stopped"))),
          *((f"consensus::status::{a}", "in:status::StatusAgent::" + a) for a in ("new", "inner", "swap")),
          *((f"consensus::consensus::{a}", "tr:traits::consensus::Consensus:consensus::OverlordConsensus<Adapter>:set_" + a) for a in ("proposal", "vote", "qc", "choke")),
          ("consensus::consensus::run", "in:consensus::OverlordConsensus<Adapter>::run"), effects=stored, opaque=(whole,)),
    specs(("consensus::engine_new", EI + "new"), effects=stored),
    specs(("consensus::consensus::begin", "in:consensus::OverlordConsensus<Adapter>::new"), effects=stored, opaque=(whole, lambda n: "axwide" not in n and n.endswith("::status")),
          lemmas=[("consensus::engine_new", EI + "new"), ("consensus::decide::overlord_status", "fn:consensus::gen_overlord_status")]),
)


def alone(*fns):
    """A decision and synchronization never run at the same time: both do what they do while holding the lock they share."""
    acts = ("::exec", "::save_block", "::save_proof", "::save_signed_txs", "::save_receipts", "::flush_mempool", "::swap", "StatusAgent::inner", "::start_sync", "::update_status",
            "::get_metadata_by_block_number", "::inner")

    def rule(ctx):
        for anchor, locks in fns:
            path = ctx.find(anchor)
            E = Engine(ctx.F, opaque=(lambda n: n.endswith(("::start_sync", "::update_status", "StatusAgent::swap", "StatusAgent::inner")),))
            n = 0
            for e in drive(E, E.summarize(path)):
                held = []
                for v in e.ev:
                    if v.k == "call" and v.name.endswith("Mutex::try_lock"):
                        held.append(T("call", v.name, *v.args))
                    elif v.k == "drop":
                        held = [h for h in held if not any(x == h or x.op == "call" and x.a[0] == h.a[0] and x.a[1:2] == h.a[1:2] for x in subterms(v.args[0]))]
                    elif v.k == "call" and v.name.endswith(("::exec", "::update_status", "::start_sync", "::flush_mempool", "StatusAgent::swap")):
                        n += 1
                        if len(held) < locks:
                            ctx.violate("not done under the lock consensus and synchronization share", f"{path} {v.name.rsplit('::', 1)[-1]}", f"{v.name} at {v.loc} is reached with {len(held)} of {locks} lock(s) held")
            if n:
                ctx.ok("done under the lock consensus and synchronization share", path)
            else:
                ctx.undecided.append(f"{path}: nothing is done")
    return rule


RULES["C38"] = all_of(RULES["C38"], alone((EN + "commit", 1)))

SY = "in:synchronization::OverlordSynchronization<Adapter>::"
asked_for = named("::get_block_from_remote", "::get_tx_from_mem", "::get_txs_from_remote", "::get_proof_from_remote", "::verify_proof", "::verify_block_header", "::get_block_by_number", "::exec",
               "::save_signed_txs", "::save_receipts", "::save_proof", "::save_block", "::flush_mempool", "StatusAgent::swap", "StatusAgent::inner", "::get_metadata_by_block_number", "::update_crypto",
               "::update_status", "::broadcast_number", "Mutex::try_lock", "time::sleep", "SyncStatus::start", "SyncStatus::finish", "SyncStatus::add_one", "::call", "::send_msg",
               "OverlordCrypto::update", "::start_sync", "::verify_block", "::commit_block", "::get_rich_block_from_remote", "::save_chain_data", "::need_sync")
STEPS = [(f"consensus::synchronization::{a}", SY + b) for a, b in (("needed", "need_sync"), ("go", "start_sync"), ("fetch", "get_rich_block_from_remote"), ("check", "verify_block"),
                                                                     ("commit", "commit_block"), ("save", "save_chain_data"), ("adopt", "update_status"))]


def synced(ev):
    """what is asked, stored and told; the status of the synchronization itself is this task's own, when it is read does not matter"""
    return asked_for([e for e in ev if not (e.k == "call" and e.name.endswith("StatusAgent::inner") and not e.args[0].op == "f")])


def apart(name):
    return whole(name) or "axwide" not in name and name.endswith(("SyncStatus::start", "SyncStatus::finish", "SyncStatus::add_one", "StatusAgent::swap", "StatusAgent::inner", "digest_signed_transactions",
                                                                  "Proposal::new_with_state_root", "consensus::gen_overlord_status", "OverlordCrypto::update"))


RULES["C39"] = all_of(
    specs(("consensus::synchronization::receive", "tr:traits::consensus::Synchronization:synchronization::OverlordSynchronization<Adapter>:receive_remote_block"), *STEPS,
          ("consensus::synchronization::new", SY + "new"), ("consensus::synchronization::announce", SY + "polling_broadcast"), effects=synced, opaque=(apart,), lemmas=STEPS),
    specs(*((f"consensus::sync_status::{a}", "in:synchronization::SyncStatus::" + a) for a in ("start", "finish", "add_one"))),
    specs(*((f"consensus::remote::{a}", SA + b) for a, b in (("status", "update_status"), ("crypto", "update_crypto"), ("block", "get_block_from_remote"), ("txs", "get_txs_from_remote"),
                                                             ("proof", "get_proof_from_remote"), ("tx", "get_tx_from_mem"))), effects=synced, opaque=(apart,)),
    alone(("tr:traits::consensus::Synchronization:synchronization::OverlordSynchronization<Adapter>:receive_remote_block", 2)),
)

# what other nodes say and ask

MH = "tr:traits::network::MessageHandler:message::"
told = named("::set_proposal", "::set_vote", "::set_qc", "::set_choke", "::receive_remote_block", "::get_block", "::get_latest_proof", "::get_block_header", "::get_transactions", "::response")


def answered(ev):
    """what is asked and answered; which error it was does not matter"""
    return tuple(deep(t, lambda x: rewritten(x, err_only)) for t in told(ev))


MESSAGES = all_of(
    specs(*((f"consensus::message::{a}", MH + b + ":process") for a, b in (
        ("proposal", "ProposalMessageHandler<C>"), ("vote", "VoteMessageHandler<C>"), ("qc", "QCMessageHandler<C>"), ("choke", "ChokeMessageHandler<C>"), ("height", "RemoteHeightMessageHandler<Sy>"),
        ("pull_block", "PullBlockRpcHandler<R, S>"), ("pull_proof", "PullProofRpcHandler<R, S>"), ("pull_txs", "PullTxsRpcHandler<R, S>"))), effects=answered),
    specs(*((f"consensus::message::put_{n}", f"tr:ProtocolCodec:message::{a}:encode") for n, a in (("proposal", "Proposal"), ("vote", "Vote"), ("qc", "QC"), ("choke", "Choke"))),
          *((f"consensus::message::get_{n}", f"tr:ProtocolCodec:message::{a}:decode") for n, a in (("proposal", "Proposal"), ("vote", "Vote"), ("qc", "QC"), ("choke", "Choke"))),
          *((f"consensus::message::of_{n}", f"tr:From:message::{a}:from") for n, a in (("proposal", "Proposal"), ("vote", "Vote"), ("qc", "QC"), ("choke", "Choke"))),
          ("consensus::message::request", "in:types::PullTxsRequest::new"), ("consensus::message::put", "tr:MessageCodec:types::ConsensusRpcResponse:encode_msg"),
          ("consensus::message::get", "tr:MessageCodec:types::ConsensusRpcResponse:decode_msg")),
)
RULES["C40"] = MESSAGES
# what is kept over a crash
TW, OW = "in:wal::SignedTxsWAL::", "in:wal::ConsensusWal::"
disk = named("fs::create_dir", "fs::create_dir_all", "OpenOptions::open", "::write_all", "fs::read_dir", "fs::remove_file", "fs::remove_dir_all", "File::open", "::read_to_end", "Path::exists",
             "SignedTxsWAL::remove", "SystemTime::now")
WALS = specs(("consensus::wal::new_txs", TW + "new"), ("consensus::wal::save", TW + "save"), ("consensus::wal::numbers", TW + "available_number"), ("consensus::wal::remove", TW + "remove"),
             ("consensus::wal::remove_all", TW + "remove_all"), ("consensus::wal::load", TW + "load"), ("consensus::wal::load_by_number", TW + "load_by_number"),
             ("consensus::wal::recover", TW + "recover_stxs"), ("consensus::wal::new", OW + "new"), ("consensus::wal::clear", OW + "clear"), ("consensus::wal::update", OW + "update_overlord_wal"),
             ("consensus::wal::newest", OW + "load_overlord_wal"), effects=disk, lemmas=[("consensus::wal::remove", TW + "remove"), ("consensus::wal::recover", TW + "recover_stxs")])
RULES["C40"] = all_of(MESSAGES, WALS)
