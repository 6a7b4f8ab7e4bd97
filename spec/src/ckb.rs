use ckb_jsonrpc_types::Transaction;
use ckb_traits::CellDataProvider;
use ckb_types::{packed, prelude::*};
use ckb_vm::machine::{asm::AsmCoreMachine, DefaultMachineBuilder, SupportMachine, VERSION1};
use ckb_vm::{ISA_B, ISA_IMC, ISA_MOP};
use common_crypto::{HashValue, PrivateKey, Secp256k1RecoverablePrivateKey, Signature};
use core_interoperation::{BlockchainType, InteroperationError};
use protocol::traits::Context;
use protocol::types::*;
use protocol::ProtocolResult;
use std::cmp::Ordering;

// ---- gas and cycles
pub fn gas_to_cycle(gas: u64) -> u64 {
    gas * 6000
}

pub fn cycle_to_gas(cycle: u64) -> u64 {
    cycle / 6000
}

pub fn chain_type(v: u8) -> Result<BlockchainType, String> {
    if v == 0 {
        Ok(BlockchainType::BTC)
    } else if v == 1 {
        Ok(BlockchainType::Ada)
    } else {
        Err(String::new())
    }
}

pub fn call_vm<DL: CellDataProvider>(_ctx: Context, loader: &DL, dep: CellDep, args: &[Bytes], max: u64) -> ProtocolResult<VMResp> {
    let dep = packed_dep(&dep);
    let code = match loader.get_cell_data(&dep.out_point()) {
        Some(x) => x,
        None => return Err(InteroperationError::GetProgram((&dep.out_point()).into()).into()),
    };
    let core = AsmCoreMachine::new(ISA_IMC | ISA_B | ISA_MOP, VERSION1, max);
    let mut vm = ckb_vm::machine::asm::AsmMachine::new(DefaultMachineBuilder::new(core).build());
    if let Err(e) = vm.load_program(&code, args) {
        return Err(InteroperationError::CkbVM(e).into());
    }
    match vm.run() {
        Ok(exit_code) => Ok(VMResp { exit_code, cycles: vm.machine.cycles() }),
        Err(e) => Err(InteroperationError::CkbVM(e).into()),
    }
}

// ---- molecule
pub fn packed_script(s: &Script) -> packed::Script {
    packed::ScriptBuilder::default().hash_type(s.hash_type.into()).code_hash(s.code_hash.0.pack()).args(s.args.pack()).build()
}

pub fn script_len(s: &Script) -> usize {
    s.args.len() + 33
}

pub fn out_point(o: &packed::OutPoint) -> OutPoint {
    OutPoint { tx_hash: H256(o.tx_hash().unpack().0), index: o.index().unpack() }
}

pub fn packed_dep(d: &CellDep) -> packed::CellDep {
    let o = packed::OutPointBuilder::default().tx_hash(d.tx_hash.0.pack()).index(d.index.pack()).build();
    packed::CellDepBuilder::default().out_point(o).dep_type(packed::Byte::new(d.dep_type)).build()
}

pub fn sig_s_new(witnesses: Vec<Witness>) -> SignatureS {
    SignatureS { witnesses }
}

// ---- Mercury transactions: sighash-all over the group, put into the lock of the witness at the location
pub fn sign(r: TransactionCompletionResponse, key: &Secp256k1RecoverablePrivateKey) -> Transaction {
    let tx: packed::Transaction = r.tx_view.inner.into();
    let old = tx.witnesses();
    let mut out: Vec<(usize, ckb_types::bytes::Bytes)> = vec![];
    let h = tx.calc_tx_hash();
    let mut firsts: Vec<(Bytes, SignatureAction)> = vec![];
    for a in r.signature_actions {
        firsts.push((old.get_unchecked(a.signature_location.index).unpack(), a));
    }
    for (first, a) in firsts {
        let mut b = ckb_hash::new_blake2b();
        b.update(h.as_slice());
        b.update(&(first.len() as u64).to_le_bytes());
        b.update(&first);
        for i in a.other_indexes_in_group.iter() {
            let w = old.get_unchecked(*i).raw_data();
            b.update(&(w.len() as u64).to_le_bytes());
            b.update(w.as_ref());
        }
        let mut m = [0u8; 32];
        b.finalize(&mut m);
        let s = key.sign_message(&HashValue::from_bytes_unchecked(m)).to_bytes();
        let w = packed::WitnessArgs::new_unchecked(first).as_builder().lock(Some(s).pack()).build().as_bytes();
        out.push((a.signature_location.index, w));
    }
    let mut new = old.as_builder();
    for (i, w) in out {
        new.replace(i, w.pack());
    }
    tx.as_builder().witnesses(new.build()).build().into()
}

pub fn action_eq(a: &SignatureAction, b: &SignatureAction) -> bool {
    a.signature_info.algorithm == b.signature_info.algorithm && a.signature_info.address == b.signature_info.address
}

pub fn action_cmp(a: &SignatureAction, b: &SignatureAction) -> Ordering {
    a.signature_location.index.cmp(&b.signature_location.index)
}

pub fn action_partial_cmp(a: &SignatureAction, b: &SignatureAction) -> Option<Ordering> {
    Some(a.signature_location.index.cmp(&b.signature_location.index))
}

pub fn identity(flag: u8, content: Vec<u8>) -> Identity {
    Identity { flag, content: Hex::encode(content) }
}
