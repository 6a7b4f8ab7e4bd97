"""core/mempool: which transactions come into the pool, and what the pool does with them."""
from ..engine import Engine, St
from ..term import T, pp
from ..equiv import named, drive
from .tx import specs
from .misc import all_of
WIDE = True
AD = "in:adapter::DefaultMemPoolAdapter<C, N, S, DB, I>::"
TA = "tr:axon_protocol::traits::mempool::MemPoolAdapter:core_mempool::adapter::DefaultMemPoolAdapter<C, N, S, DB, I>:"
kept = named("DashMap::insert", "DashMap::clear", "::store", "DashMap<K, V, S>::insert", "DashMap<K, V, S>::clear")

def known(name):
    """what the other parts of the node compute is compared on its own"""
    return "core_mempool" not in name and "axwide" not in name and name.rsplit("::", 1)[-1] in (
        "from_root", "get_image_cell_root", "get_metadata_root", "is_validator", "is_call_system_script", "may_cost", "call_ckb_vm", "signature_hash", "as_bytes",
        "recover_intact_pub_key", "encode", "gas_price", "basic", "is_eth_sig")


def field(name):
    """what the kinds of transactions have in common is compared on its own"""
    return name.endswith(("UnsignedTransaction::nonce", "UnsignedTransaction::data", "UnsignedTransaction::gas_price"))


CHECKS = specs(("mempool::chain_id", AD + "verify_chain_id"), ("mempool::size", AD + "verify_tx_size"), ("mempool::gas_price", AD + "verify_gas_price"),
               ("mempool::gas_limit", AD + "verify_gas_limit"), ("mempool::signature", AD + "verify_signature"), ("mempool::transaction", TA + "check_transaction"),
               ("mempool::system_authorization", AD + "check_system_script_tx_authorization"), ("mempool::authorization", TA + "check_authorization"),
               ("mempool::not_committed", TA + "check_storage_exist"), ("mempool::height", TA + "get_latest_height"), ("mempool::set_args", TA + "set_args"),
               ("mempool::forget", TA + "clear_nonce_cache"), effects=kept, opaque=(known,))
MI, MP = "in:core_mempool::MemPoolImpl<Adapter>::", "tr:axon_protocol::traits::mempool::MemPool:core_mempool::MemPoolImpl<Adapter>:"
PQ, PP, BB, TW = "in:tx_wrapper::PendingQueue::", "in:pool::PriorityPool::", "in:pool::BuiltInContractTxBucket::", "in:tx_wrapper::TxWrapper::"
moved = named("spawn", "sleep::sleep", "::insert", "::remove", "::push", "::pop", "::fetch_update", "::fetch_sub", "::fetch_add", "::fetch_or", "::retain", "::entry", "::clear", "::broadcast_tx",
              "::report_good", "::pull_txs", "::insert_system", "::clear_nonce_cache", "::flush", "::set_args", "::store", "::or_default", "::or_insert_with")


entered = named("PriorityPool::insert", "PriorityPool::insert_system_script_tx", "pool::insert", "pool::insert_system", "::broadcast_tx", "::report_good", "::pull_txs",
                "::clear_nonce_cache", "PriorityPool::flush", "pool::flush", "MemPoolAdapter::set_args")
POOL = [(f"mempool::pool::{a}", PP + b) for a, b in (
    ("count", "get_tx_count_by_address"), ("reach_limit", "reach_limit"), ("contains", "contains"), ("by_hash", "get_by_hash"), ("insert_system", "insert_system_script_tx"),
    ("insert", "insert"), ("package", "package"), ("flush", "flush"))]


RULES = {"C35": all_of(
    CHECKS, specs(("mempool::report_good", TA + "report_good"), effects=named("::report")),
    specs(("mempool::insert", MP + "insert"), ("mempool::initial", MI + "initial_insert"), ("mempool::len", MI + "len"), ("mempool::contains", MP + "contains"), ("mempool::package", MP + "package"),
          ("mempool::flush", MP + "flush"), ("mempool::full_txs", MP + "get_full_txs"), ("mempool::no_repeats", "fn:core_mempool::check_dup_order_hashes"),
          ("mempool::verify_all", MI + "verify_tx_in_parallel"), ("mempool::ensure", MP + "ensure_order_txs"), ("mempool::count", MP + "get_tx_count_by_address"),
          ("mempool::from_mem", MP + "get_tx_from_mem"), ("mempool::mem_args", MP + "set_args"), effects=entered, opaque=(known,), lemmas=POOL),
    specs(("mempool::begin", MI + "new"), effects=named("::initial_insert", "PriorityPool::new"), lemmas=[("mempool::initial", MI + "initial_insert"), ("mempool::pool::fresh", PP + "new")]),
    specs(("mempool::message::new_txs", "tr:traits::network::MessageHandler:adapter::message::NewTxsHandler<M>:process"),
          ("mempool::message::pull", "tr:traits::network::MessageHandler:adapter::message::PullTxsHandler<N, M>:process"), ("mempool::message::pull_txs", TA + "pull_txs"),
          ("mempool::message::broadcast", TA + "broadcast_tx"), ("mempool::message::stored", TA + "get_transactions_from_storage"),
          ("mempool::message::gossip", "fn:adapter::IntervalTxsBroadcaster::do_broadcast"),
          effects=named("spawn", "::insert", "::get_full_txs", "::response", "::call", "::unbounded_send", "::gossip", "::try_join_all")),
    specs(("mempool::message::gather", "fn:adapter::IntervalTxsBroadcaster::broadcast"), effects=named("::interval", "::set_missed_tick_behavior", "::next", "::tick", "::push", "::do_broadcast"),
          lemmas=[("mempool::message::gossip", "fn:adapter::IntervalTxsBroadcaster::do_broadcast")]),
    specs(("mempool::message::adapter", AD + "new"), effects=named("spawn"), lemmas=[("mempool::message::gather", "fn:adapter::IntervalTxsBroadcaster::broadcast")]),
), "C36": all_of(
    specs(("mempool::tx_wrapper::wrap", "tr:core::convert::From:tx_wrapper::TxWrapper:from"), ("mempool::tx_wrapper::order", "tr:core::cmp::Ord:tx_wrapper::TxWrapper:cmp"),
          ("mempool::tx_wrapper::same", "tr:core::cmp::PartialEq:tx_wrapper::TxWrapper:eq"), ("mempool::tx_wrapper::dropped", TW + "is_dropped"),
          ("mempool::tx_wrapper::drop_it", TW + "set_dropped"), ("mempool::tx_wrapper::insert", PQ + "insert"), ("mempool::tx_wrapper::search", PQ + "try_search_package_list"),
          ("mempool::tx_wrapper::clear", PQ + "clear_droped"), ("mempool::tx_wrapper::drop_to", PQ + "set_drop_by_nonce_tip"), ("mempool::tx_wrapper::count", PQ + "count"),
          *POOL, ("mempool::pool::drain", PP + "flush_to_pending_queue"), ("mempool::pool::fresh", PP + "new"),
          *((f"mempool::pool::{a}", BB + b) for a, b in (("bucket_insert", "insert"), ("bucket_package", "package"), ("bucket_flush", "flush"), ("bucket_get", "get_tx_by_hash"), ("bucket_has", "contains"))),
          effects=moved, opaque=(field,)),
)}


def locked(*fns):
    """While the pool is flushed nobody else touches it: what reads or changes it is done holding `flush_lock`, by the flush exclusively."""
    touch = ("DashMap::insert", "DashMap::remove", "DashMap::get", "DashMap::entry", "DashMap::contains_key", "DashMap::retain", "ArrayQueue::push", "ArrayQueue::pop", "mutex::Mutex::lock")

    def walk(evs, held):
        for e in evs:
            a = pp(e.args[0], 3) if e.args else ""
            if e.k == "call" and e.name.endswith(("RwLock::read", "RwLock::write")):
                held = held + [(pp(T("call", "::".join(e.name.rsplit("::", 2)[-2:]), *e.args), 4), e.name.endswith("write"))]
            elif e.k == "drop" and held:
                held = [h for h in held if h[0] != pp(e.args[0], 4)]
            elif e.k == "call" and e.name.endswith(touch):
                yield e, held
            elif e.k == "loop" and e.x:
                for _, evs2 in e.x:
                    yield from walk(evs2, held)

    def rule(ctx):
        for anchor, alone in fns:
            path = ctx.find(anchor)
            E = Engine(ctx.F)
            ex, n = E.summarize(path), 0
            if anchor.endswith("::new"):        # the task it starts
                cl = {a.a[0]: a for e in drive(E, ex) for v in e.ev if v.k == "call" and v.name.endswith("spawn") for a in v.args if a.op == "closure"}
                ex = [e for c in cl.values() for e in E.call_fn(ctx.F.fns[c.a[0]], [c, T("ctx")], St(), {}, 1, ())]
            for e in ex:
                for v, held in walk(e.ev, []):
                    n += 1
                    if not any(w or not alone for _, w in held):
                        ctx.violate("the pool is touched without holding its lock", f"{path} {v.name.rsplit('::', 2)[-2]}::{v.name.rsplit('::', 1)[-1]}", f"{v.name}({pp(v.args[0], 3)})", ctx.loc(path))
                        break
            if n:
                ctx.ok("what touches the pool holds its lock", path)
            else:
                ctx.undecided.append(f"{path}: nothing touches the pool")
    return rule


RULES["C36"] = all_of(RULES["C36"], locked((PP + "insert", False), (PP + "insert_system_script_tx", False), (PP + "contains", False), (PP + "get_by_hash", False),
                                           (PP + "package", False), (PP + "flush", True), (PP + "new", False)))
