"""core/executor/src/adapter: the world state."""
from ..equiv import named
from .tx import specs
from .misc import all_of
WIDE = True
T = "tr:cita_trie::trie::Trie:adapter::trie::wrapped::MPTTrie<DB>:"
TI = "in:adapter::trie::wrapped::MPTTrie<DB>::"
D, DI = "tr:cita_trie::db::DB:adapter::trie::db::RocksTrieDB:", "in:adapter::trie::db::RocksTrieDB::"
RO, RW = "AxonExecutorReadOnlyAdapter<S, DB>", "AxonExecutorApplyAdapter<S, DB>"
B, X, E = "tr:evm::backend::Backend:", "tr:axon_protocol::traits::executor::ExecutorReadOnlyAdapter:", "tr:axon_protocol::traits::executor::ExecutorAdapter:"
BACKEND = ("gas_price", "origin", "block_hash", "block_number", "block_coinbase", "block_timestamp", "block_difficulty", "block_gas_limit",
           "block_base_fee_per_gas", "chain_id", "exists", "basic", "code", "storage", "original_storage")
EVICT = ("state::evicted", "fn:adapter::trie::db::rand_remove_list")
ONE = ("state::apply_one", f"in:{RW}::apply")
done = named("::put_cf", "::delete_cf", "::write_opt", "WriteOps::write", "::insert_code", "HashMap::insert", "HashMap::remove", "HashMap::clear")



RULES = {"C31": all_of(
    specs(("state::trie_get", T + "get"), ("state::trie_contains", T + "contains"), ("state::trie_insert", T + "insert"), ("state::trie_remove", T + "remove"),
          ("state::trie_root", T + "root"), ("state::trie_proof", T + "get_proof"), ("state::trie_verify", T + "verify_proof"),
          ("state::trie_new", TI + "new"), ("state::trie_at", TI + "from_root"), ("state::trie_commit", TI + "commit"), effects=done),
    specs(*((f"state::db_{m}", D + m) for m in ("get", "contains", "insert", "insert_batch", "remove", "remove_batch", "flush")),
          ("state::db_column", "?" + DI + "get_column"), ("state::db_evm", DI + "new_evm"), ("state::db_metadata", DI + "new_metadata"),
          ("state::db_light_client", DI + "new_ckb_light_client"), effects=done, lemmas=(EVICT,)),
    specs(("state::get_ctx", f"{X}{RO}:get_ctx"), ("state::get", f"{X}{RO}:get"), ("state::get_account", f"{X}{RO}:get_account"),
          ("state::rw_ctx", f"{X}{RW}:get_ctx"), ("state::rw_get", f"{X}{RW}:get"), ("state::rw_account", f"{X}{RW}:get_account"),
          *((f"state::{m}", f"{B}{RO}:{m}") for m in BACKEND), *((f"state::rw_{m}", f"{B}{RW}:{m}") for m in BACKEND),
          ("state::ro_new", f"in:{RO}::new"), ("state::ro_at", f"in:{RO}::from_root"), ("state::rw_new", f"in:{RW}::new"), ("state::rw_at", f"in:{RW}::from_root"),
          ("state::metadata_root", f"in:{RO}::get_metadata_root"), ("state::cell_root", f"in:{RO}::get_image_cell_root"), ("state::rw_metadata_root", f"in:{RW}::get_metadata_root"),
          effects=done),
    specs(*((f"state::{m}", f"{E}{RW}:{m}") for m in ("set_origin", "set_gas_price", "take_logs", "commit", "save_account")),
          ONE, effects=done),
    specs(("state::apply", f"tr:evm::backend::ApplyBackend:{RW}:apply"), effects=done, lemmas=(ONE,)),
)}
