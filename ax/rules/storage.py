"""core/storage and core/db: which record is kept where."""
from ..term import T
from ..equiv import named
from .tx import specs
from .misc import all_of
WIDE = True
R, W = "tr:axon_protocol::traits::storage::ReadOnlyStorage:core_storage::ImplStorage<Adapter>:", "tr:axon_protocol::traits::storage::Storage:core_storage::ImplStorage<Adapter>:"
PK, HK = "in:hash_key::CommonPrefix::", "in:hash_key::CommonHashKey::"
PC, SC = "tr:codec::ProtocolCodec:hash_key::", "tr:traits::storage::StorageSchema:schema::"
kept = named("StorageAdapter::insert", "StorageAdapter::remove", "StorageAdapter::batch_modify", "LruCache::put", "ArcSwapAny::store", "ArcSwapAny::swap")
CAT = {"Transaction": "signed_transaction", "TransactionBytes": "signed_transaction", "Block": "block", "BlockHeader": "header", "BlockHashNumber": "height",
       "Receipt": "receipt", "ReceiptBytes": "receipt", "TxHashNumber": "height", "LatestBlock": "block", "LatestProof": "block", "OverlordWal": "wal",
       "EvmCode": "code", "EvmCodeAddress": "code", "Hardfork": "version"}


def decoder(name):
    return name.endswith("ProtocolCodec>::decode") and name.startswith("<T as")


def key(n, f):
    return (f"storage::{f}", f"?fn:<core_storage::{n} as core::ops::deref::Deref>::deref::__static_ref_initialize")


RULES = {
    "C28": all_of(
        specs(*((f"storage::{f}", R + m) for f, m in (
            ("get_block", "get_block"), ("get_block_header", "get_block_header"), ("get_latest_block", "get_latest_block"),
            ("get_latest_block_header", "get_latest_block_header"), ("get_latest_proof", "get_latest_proof"),
            ("get_block_number_by_hash", "get_block_number_by_hash"), ("get_block_by_hash", "get_block_by_hash"),
            ("get_code_by_hash", "get_code_by_hash"), ("get_code_by_address", "get_code_by_address"),
            ("get_transaction_by_hash", "get_transaction_by_hash"), ("get_receipt_by_hash", "get_receipt_by_hash"),
            ("hardfork_proposal", "hardfork_proposal"))),
            *((f"storage::{f}", W + m) for f, m in (
                ("set_block", "set_block"), ("set_latest_block", "set_latest_block"), ("insert_block", "insert_block"), ("remove_block", "remove_block"),
                ("insert_transactions", "insert_transactions"), ("insert_receipts", "insert_receipts"), ("insert_code", "insert_code"),
                ("update_latest_proof", "update_latest_proof"), ("set_hardfork", "set_hardfork_proposal"), ("remove_hardfork", "remove_hardfork_proposal"))),
            effects=kept),
        specs(("storage::get_transactions", R + "get_transactions"), ("storage::get_receipts", R + "get_receipts"),
              effects=kept, opaque=(decoder,)),
        specs(("storage::new", "in:core_storage::ImplStorage<Adapter>::new"),
              ("storage::prefix", PK + "new"), ("storage::prefix_height", "?" + PK + "height"), ("storage::prefix_bytes", "tr:core::convert::AsRef:hash_key::CommonPrefix:as_ref"),
              ("storage::prefix_encode", PC + "CommonPrefix:encode"), ("storage::prefix_decode", PC + "CommonPrefix:decode"),
              ("storage::key", HK + "new"), ("storage::key_height", "?" + HK + "height"), ("storage::key_hash", "?" + HK + "hash"),
              ("storage::key_encode", PC + "CommonHashKey:encode"), ("storage::key_decode", PC + "CommonHashKey:decode"),
              *((f"storage::schema::category::{c}", f"{SC}{n}Schema:category") for n, c in CAT.items()),
              key("LATEST_BLOCK_KEY", "latest_block_key"), key("LATEST_PROOF_KEY", "latest_proof_key"), key("OVERLORD_WAL_KEY", "wal_key"),
              key("MONITOR_CKB_NUMBER_KEY", "monitor_key"), key("HAEDFORK_PROPOSAL", "hardfork_key")),
    ),
}

RA = "tr:axon_protocol::traits::storage::StorageAdapter:rocks::RocksAdapter:"
written = named("::put_cf", "::delete_cf", "::write_opt", "::write", "create_dir_all")


def unordered(t):
    """the order in which the tables are named when the database is opened does not matter"""
    if t.op == "array" and len(t.a) > 8 and all(x.op == "str" for x in t.a):
        return T("array", *sorted(t.a, key=repr))
    return t


RULES["C29"] = all_of(
    specs(*((f"db::{f}", RA + f) for f in ("insert", "get", "remove", "contains", "batch_modify", "prepare_iter")),
          ("db::name", "fn:core_db::rocks::map_category"), ("db::column", "fn:core_db::rocks::get_column"),
          ("db::new", "in:rocks::RocksAdapter::new"), ("db::open", "in:rocks::RocksAdapter::open"), ("db::inner_db", "in:rocks::RocksAdapter::inner_db"),
          ("db::next", "tr:core::iter::traits::iterator::Iterator:rocks::RocksIterator:next"),
          ("db::iter", "tr:core::iter::traits::collect::IntoIterator:&core_db::rocks::RocksIntoIterator<'_, S, P>:into_iter"),
          effects=written, canon=unordered))
