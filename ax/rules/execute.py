"""core/executor: transactions and blocks."""
from ..equiv import named
from .tx import specs
from .misc import all_of
WIDE = True
X = "in:AxonExecutor::"
EX = "tr:axon_protocol::traits::executor::Executor:AxonExecutor:"
SET = ("exec::precompile_set", "fn:core_executor::precompiles::build_precompile_set")
ROOTS, CONFIG = ("exec::roots", X + "init_local_system_contract_roots"), ("exec::config", X + "config")
EVM = ("exec::evm_exec", X + "evm_exec")
ADDR = ("exec::code_addr", "fn:core_executor::utils::code_address")
done = named("::save_account", "::apply", "::commit", "::set_gas_price", "::set_origin", "::take_logs", "_block_hook", "::system_contract_dispatch",
             "::transact_call", "::transact_create", "::init_local_system_contract_roots", "::roots", "::evm_exec", "::swap", "::store")


def opaque(name):
    return name.endswith(("::logs_bloom", "::system_contract_dispatch", "::before_block_hook", "::after_block_hook", "::get_consensus_config", "::encode_receipt",
                          "TrieMerkle::from_receipts"))


RULES = {"C32": all_of(
    specs(ADDR, EVM, ROOTS, CONFIG, ("exec::hardfork", "fn:core_executor::enable_hardfork"), ("exec::is_call", "fn:core_executor::is_transaction_call"),
          ("exec::revert_msg", "fn:core_executor::utils::decode_revert_msg"),
          ("exec::allocate", "tr:core_executor::FeeAllocate:DefaultFeeAllocator:allocate"),
          effects=done, opaque=(opaque,)),
    specs(("exec::call", EX + "call"), effects=done, opaque=(opaque,), lemmas=(SET, ROOTS, CONFIG)),
    specs(("exec::exec", EX + "exec"), effects=done, opaque=(opaque,), lemmas=(SET, ROOTS, CONFIG, EVM)),
)}
