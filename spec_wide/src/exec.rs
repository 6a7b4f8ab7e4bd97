//! core/executor/src/{lib,utils}.rs: transactions and blocks.
use arc_swap::ArcSwap;
use common_merkle::TrieMerkle;
use core_executor::system_contract::{
    after_block_hook, before_block_hook, system_contract_dispatch, CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, HEADER_CELL_ROOT_KEY, METADATA_CONTRACT_ADDRESS,
    METADATA_ROOT_KEY,
};
use core_executor::{AxonExecutor, FeeAllocate, FeeInlet, MetadataHandle, HARDFORK_INFO};
use evm::executor::stack::{MemoryStackState, PrecompileFn, StackExecutor, StackSubstateMetadata};
use evm::CreateScheme;
use protocol::traits::{ApplyBackend, Backend, ExecutorAdapter};
use protocol::types::{
    logs_bloom, Config, ExecResp, Hasher, SignedTransaction, TransactionAction, TxResp, ValidatorExtend, H160, H256, RLP_NULL, U256,
};
use std::{cell::RefCell, collections::BTreeMap};

lazy_static::lazy_static! {
    pub static ref FEE_ALLOCATOR: ArcSwap<Box<dyn FeeAllocate>> = unimplemented!();
}
thread_local! {
    pub static CURRENT_HEADER_CELL_ROOT: RefCell<H256> = RefCell::new(H256::default());
    pub static CURRENT_METADATA_ROOT: RefCell<H256> = RefCell::new(H256::default());
}
pub fn precompile_set() -> BTreeMap<H160, PrecompileFn> { unimplemented!() }

/// The system contracts' own states are those of the roots in the world state.
pub fn roots<A: Backend>(e: &AxonExecutor, a: &A) {
    let cells = a.storage(CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, *HEADER_CELL_ROOT_KEY);
    let metadata = a.storage(METADATA_CONTRACT_ADDRESS, *METADATA_ROOT_KEY);
    CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow_mut() = cells);
    CURRENT_METADATA_ROOT.with(|r| *r.borrow_mut() = metadata);
}
pub fn hardfork(name: common_config_parser::types::spec::HardforkName) -> bool {
    let flag = H256::from_low_u64_be((name as u64).to_be());
    flag == (&**HARDFORK_INFO.load() & &flag)
}
pub fn config(e: &AxonExecutor) -> Config {
    let mut c = Config::london();
    if hardfork(common_config_parser::types::spec::HardforkName::Andromeda) {
        let root = CURRENT_METADATA_ROOT.with(|r| *r.borrow());
        c.create_contract_limit = Some(MetadataHandle::new(root).get_consensus_config().unwrap().max_contract_limit as usize);
    }
    c
}
/// One transaction in the EVM.
pub fn evm_exec<A: ExecutorAdapter + ApplyBackend>(a: &mut A, config: &Config, precompiles: &BTreeMap<H160, PrecompileFn>, tx: &SignedTransaction) -> TxResp {
    let price = a.gas_price();
    let u = &tx.transaction.unsigned;
    let limit = u.gas_limit().low_u64();

    let mut account = a.get_account(&tx.sender);
    let nonce = account.nonce;
    account.balance = account.balance.saturating_sub(price * U256::from(limit));
    a.save_account(&tx.sender, &account);

    let mut evm = StackExecutor::new_with_precompiles(MemoryStackState::new(StackSubstateMetadata::new(limit, config), a), config, precompiles);
    let list: Vec<_> = u.access_list().into_iter().map(|x| (x.address, x.storage_keys)).collect();
    let create = u.action() == &TransactionAction::Create;
    let (exit, ret) = match u.action() {
        TransactionAction::Create => evm.transact_create(tx.sender, *u.value(), u.data().to_vec(), limit, list),
        TransactionAction::Call(to) => evm.transact_call(tx.sender, *to, *u.value(), u.data().to_vec(), limit, list),
    };
    let (left, used) = (evm.gas(), evm.used_gas());
    let mut code_address = None;
    if exit.is_succeed() {
        if create {
            code_address = Some(code_addr(&tx.sender, &nonce));
        }
        let (values, logs) = evm.into_state().deconstruct();
        a.apply(values, logs, true);
    }
    let mut account = a.get_account(&tx.sender);
    account.nonce = nonce + U256::one();
    if left != 0 {
        account.balance = account.balance.checked_add(price * U256::from(left)).unwrap_or_else(U256::max_value);
    }
    a.save_account(&tx.sender, &account);
    TxResp { exit_reason: exit, ret, gas_used: used, remain_gas: left, fee_cost: price * U256::from(used), logs: vec![], code_address, removed: false }
}
/// A call that leaves no trace.
pub fn call<B: Backend>(e: &AxonExecutor, b: &B, limit: u64, from: Option<H160>, to: Option<H160>, value: U256, data: Vec<u8>, estimate: bool) -> TxResp {
    roots(e, b);
    let config = config(e);
    let precompiles = precompile_set();
    let mut evm = StackExecutor::new_with_precompiles(MemoryStackState::new(StackSubstateMetadata::new(limit, &config), b), &config, &precompiles);
    let sender = from.unwrap_or_default();
    let (exit_reason, ret) = match to {
        Some(to) => evm.transact_call(sender, to, value, data, limit, vec![]),
        None => evm.transact_create(sender, value, data, limit, vec![]),
    };
    let used = evm.used_gas();
    let gas_used = if estimate { used + used / 4 } else { used };
    TxResp {
        exit_reason,
        ret,
        gas_used,
        remain_gas: evm.gas(),
        fee_cost: b.gas_price().checked_mul(gas_used.into()).unwrap_or(U256::max_value()),
        logs: vec![],
        code_address: if to.is_none() { Some(evm.create_address(CreateScheme::Legacy { caller: sender }).into()) } else { None },
        removed: false,
    }
}
/// A block.
pub fn exec<A: ExecutorAdapter + ApplyBackend>(e: &AxonExecutor, a: &mut A, txs: &[SignedTransaction], validators: &[ValidatorExtend]) -> ExecResp {
    let number = a.block_number();
    let precompiles = precompile_set();
    roots(e, a);
    let config = config(e);
    before_block_hook(a);

    let mut tx_resp = vec![];
    let mut receipts = vec![];
    let mut gas_used = 0u64;
    let mut fee = U256::zero();
    for tx in txs {
        a.set_gas_price(tx.transaction.unsigned.gas_price());
        a.set_origin(tx.sender);
        let mut r = match system_contract_dispatch(a, tx) {
            Some(r) => r,
            None => evm_exec(a, &config, &precompiles, tx),
        };
        r.logs = a.take_logs();
        gas_used += r.gas_used;
        fee = fee.checked_add(r.fee_cost).unwrap_or(U256::max_value());
        receipts.push(tx.encode_receipt(&r, logs_bloom(r.logs.iter())));
        tx_resp.push(r);
    }
    if !number.is_zero() {
        for i in FEE_ALLOCATOR.load().allocate(number, fee, a.block_coinbase(), validators).iter() {
            if !i.amount.is_zero() {
                let mut account = a.get_account(&i.address);
                account.balance += i.amount;
                a.save_account(&i.address, &account);
            }
        }
    }
    after_block_hook(a);
    let state_root = a.commit();
    let receipt_root = if receipts.is_empty() { RLP_NULL } else { TrieMerkle::from_receipts(&receipts).root_hash().unwrap() };
    ExecResp { state_root, receipt_root, gas_used, tx_resp }
}
pub fn is_call(action: &TransactionAction, a: &H160) -> bool { &TransactionAction::Call(*a) == action }

// ---- utils.rs
/// Every validator gets its share of the fees by weight.
pub fn allocate(d: &core_executor::DefaultFeeAllocator, number: U256, fee: U256, proposer: H160, validators: &[ValidatorExtend]) -> Vec<FeeInlet> {
    if fee.is_zero() || number.is_zero() {
        return vec![];
    }
    let all = U256::from(validators.iter().map(|v| v.vote_weight).sum::<u32>());
    validators.iter().map(|v| FeeInlet { address: v.address, amount: fee / all * v.vote_weight }).collect()
}
/// keccak256(rlp([sender, nonce])), of which the address is the last 20 bytes
pub fn code_addr(sender: &H160, nonce: &U256) -> H256 {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(sender);
    s.append(nonce);
    Hasher::digest(&s.out())
}
/// Error(string): 4 bytes of selector, 32 bytes offset, 32 bytes length, the text
pub fn revert_msg(input: &[u8]) -> String {
    let say = |b: &[u8]| "execution reverted: ".to_string() + &b.iter().map(|c| *c as char).collect::<String>();
    if input.is_empty() {
        return "execution reverted: ".to_string();
    }
    if input.len() < 68 {
        return say(input);
    }
    let len = U256::from_big_endian(&input[36..68]);
    if len > U256::from(input.len() - 68) {
        return say(input);
    }
    say(&input[68..68 + len.as_usize()])
}
