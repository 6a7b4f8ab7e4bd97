//! core/executor/src/precompiles: the contracts that are part of the node.
use az::SaturatingAs as _;
use bn::{pairing_batch, AffineG1, AffineG2, Fq, Fq2, Fr, Group, Gt, G1, G2};
use ckb_types::{packed, prelude::*, utilities::{merkle_root, MerkleProof}};
use common_crypto::{secp256k1_recover, Secp256k1RecoverableSignature, Signature};
use core_interoperation::{cycle_to_gas, gas_to_cycle, InteroperationImpl};
use ethers::abi::{AbiDecode, AbiEncode};
use evm::executor::stack::{PrecompileFailure, PrecompileOutput};
use evm::{Context, ExitError, ExitSucceed};
use protocol::types::{Hasher, H160, H256, U256};
use rug::{integer::Order, ops::Pow, Integer};
use sha2::Digest;
use std::ops::BitAnd;

type Out = Result<(PrecompileOutput, u64), PrecompileFailure>;

fn fail<T>(_: T) -> PrecompileFailure { PrecompileFailure::Error { exit_status: ExitError::OutOfGas } }
fn no<T>() -> Result<T, PrecompileFailure> { Err(fail(())) }
fn done(output: Vec<u8>, gas: u64) -> Out { Ok((PrecompileOutput { exit_status: ExitSucceed::Returned, output }, gas)) }
fn paid(gas: u64, limit: Option<u64>) -> Result<u64, PrecompileFailure> {
    match limit {
        Some(l) if l < gas => no(),
        _ => Ok(gas),
    }
}
/// `each` for every 32 bytes begun and `base`
fn by_words(input: &[u8], each: usize, base: u64) -> u64 { (((input.len() + 31) / 32) * each) as u64 + base }

pub fn identity(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(by_words(input, 3, 15), limit)?;
    done(input.to_vec(), gas)
}
pub fn sha256(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(by_words(input, 12, 60), limit)?;
    let mut h = sha2::Sha256::default();
    h.update(input);
    done(h.finalize().to_vec(), gas)
}
pub fn ripemd160(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(by_words(input, 120, 600), limit)?;
    let mut h = ripemd::Ripemd160::default();
    h.update(input);
    let mut out = [0u8; 32];
    out[12..].copy_from_slice(&h.finalize());
    done(out.to_vec(), gas)
}
pub fn ckb_blake2b(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(by_words(input, 12, 60), limit)?;
    done(protocol::ckb_blake2b_256(input).to_vec(), gas)
}

pub fn ecrecover(origin: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(3000, limit)?;
    let mut input = [0u8; 128];
    let n = origin.len().min(128);
    input[..n].copy_from_slice(&origin[..n]);
    let v = input[63];
    if (v != 27 && v != 28) || input[32..63] != [0; 31] {
        return no();
    }
    let mut sig = [0u8; 65];
    sig[..64].copy_from_slice(&input[64..128]);
    sig[64] = v - 27;
    let sig = Secp256k1RecoverableSignature::try_from(sig.as_slice()).map_err(fail)?;
    let public = secp256k1_recover(&input[0..32], &sig.to_bytes()).map_err(fail)?;
    let hash = Hasher::digest(&public.serialize_uncompressed()[1..65]);
    let mut out = [0u8; 32];
    out[12..].copy_from_slice(&hash.as_bytes()[12..]);
    done(out.to_vec(), gas)
}

fn point(input: &[u8], at: usize) -> Result<G1, PrecompileFailure> {
    if input.len() < at + 64 {
        return no();
    }
    let x = Fq::from_slice(&input[at..at + 32]).map_err(fail)?;
    let y = Fq::from_slice(&input[at + 32..at + 64]).map_err(fail)?;
    if x == Fq::zero() && y == Fq::zero() {
        return Ok(G1::zero());
    }
    Ok(AffineG1::new(x, y).map_err(fail)?.into())
}
fn point_out(p: G1) -> Result<Vec<u8>, PrecompileFailure> {
    let mut out = [0u8; 64];
    if let Some(p) = AffineG1::from_jacobian(p) {
        p.x().to_big_endian(&mut out[0..32]).map_err(fail)?;
        p.y().to_big_endian(&mut out[32..64]).map_err(fail)?;
    }
    Ok(out.to_vec())
}
pub fn ec_add(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(150, limit)?;
    let a = point(input, 0)?;
    let b = point(input, 64)?;
    done(point_out(a + b)?, gas)
}
pub fn ec_mul(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(6000, limit)?;
    let p = point(input, 0)?;
    if input.len() < 96 {
        return no();
    }
    let k = Fr::from_slice(&input[64..96]).map_err(fail)?;
    done(point_out(p * k)?, gas)
}
fn word(n: U256) -> Vec<u8> {
    let mut out = [0u8; 32];
    n.to_big_endian(&mut out);
    out.to_vec()
}
pub fn ec_pairing(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    if input.is_empty() {
        return done(word(U256::one()), 45_000);
    }
    let n = input.len() / 192;
    let gas = paid((n as u64) * 34_000 + 45_000, limit)?;
    if input.len() % 192 != 0 {
        return no();
    }
    let mut pairs = Vec::new();
    for i in 0..n {
        let at = |o: usize| &input[i * 192 + o..i * 192 + o + 32];
        let ax = Fq::from_slice(at(0)).map_err(fail)?;
        let ay = Fq::from_slice(at(32)).map_err(fail)?;
        let bx1 = Fq::from_slice(at(64)).map_err(fail)?;
        let bx0 = Fq::from_slice(at(96)).map_err(fail)?;
        let by1 = Fq::from_slice(at(128)).map_err(fail)?;
        let by0 = Fq::from_slice(at(160)).map_err(fail)?;
        let bx = Fq2::new(bx0, bx1);
        let by = Fq2::new(by0, by1);
        let a = if ax.is_zero() && ay.is_zero() { G1::zero() } else { G1::from(AffineG1::new(ax, ay).map_err(fail)?) };
        let b = if bx.is_zero() && by.is_zero() { G2::zero() } else { G2::from(AffineG2::new(bx, by).map_err(fail)?) };
        pairs.push((a, b));
    }
    done(word(if pairing_batch(&pairs) == Gt::one() { U256::one() } else { U256::zero() }), gas)
}

// ---- EIP-152
pub fn blake2f(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    if input.len() != 213 {
        return no();
    }
    let gas = paid(blake2f_rounds(input) as u64, limit)?;
    let rounds = blake2f_rounds(input);
    let mut h = blake2f_h(input);
    let m = blake2f_m(input);
    let (t0, t1) = blake2f_t(input);
    let last = match input[212] {
        0 => false,
        1 => true,
        _ => return no(),
    };
    blake2f_compress(&mut h, m, [t0, t1], last, rounds as usize);
    let mut out = [0u8; 64];
    for (i, x) in h.iter().enumerate() {
        out[i * 8..(i + 1) * 8].copy_from_slice(&x.to_le_bytes());
    }
    done(out.to_vec(), gas)
}
pub fn blake2f_rounds(input: &[u8]) -> u32 {
    let mut b = [0u8; 4];
    b.copy_from_slice(&input[0..4]);
    u32::from_be_bytes(b)
}
fn le(input: &[u8]) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(input);
    u64::from_le_bytes(b)
}
pub fn blake2f_t(input: &[u8]) -> (u64, u64) {
    (le(&input[196..204]), le(&input[204..212]))
}
pub fn blake2f_h(input: &[u8]) -> [u64; 8] {
    let mut all = [0u8; 64];
    all.copy_from_slice(&input[4..68]);
    let mut h = [0u64; 8];
    for (i, x) in h.iter_mut().enumerate() {
        *x = le(&all[i * 8..(i + 1) * 8]);
    }
    h
}
pub fn blake2f_m(input: &[u8]) -> [u64; 16] {
    let mut all = [0u8; 128];
    all.copy_from_slice(&input[68..196]);
    let mut m = [0u64; 16];
    for (i, x) in m.iter_mut().enumerate() {
        *x = le(&all[i * 8..(i + 1) * 8]);
    }
    m
}
/// RFC 7693
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
fn mix(v: &mut [u64], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}
pub fn blake2f_compress(h: &mut [u64; 8], m: [u64; 16], t: [u64; 2], last: bool, rounds: usize) {
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t[0];
    v[13] ^= t[1];
    if last {
        v[14] = !v[14];
    }
    for i in 0..rounds {
        let s = &SIGMA[i % 10];
        mix(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

// ---- EIP-198, EIP-2565
/// `size` bytes of `data` from `start` on, with zeros for what is missing, as a number
pub fn get_data(data: &[u8], start: usize, size: usize) -> Integer {
    let n = data.len();
    let start = if start > n { n } else { start };
    let end = start.wrapping_add(size);
    let end = if end > n { n } else { end };
    let mut b = if start < end { data[start..end].to_vec() } else { Vec::new() };
    b.extend(std::iter::repeat(0).take(size - end.saturating_sub(start)));
    Integer::from_digits(&b, Order::MsfBe)
}
fn rest(input: &[u8]) -> &[u8] {
    if input.len() > 96 { &input[96..] } else { &input[0..0] }
}
pub fn iterations(size: Integer, exponent: Integer) -> u64 {
    let n = if size <= 32 {
        if exponent == Integer::ZERO { 0 } else { (exponent.significant_bits() - 1) as usize }
    } else {
        let head = exponent.bitand(Integer::from_digits(&[0xFFu8; 32], Order::MsfBe)).significant_bits().saturating_sub(1) as usize;
        let tail: Integer = 8 * (size - 32);
        tail.saturating_as::<usize>().saturating_add(head)
    };
    n.max(1) as u64
}
pub fn modexp_gas(input: &[u8]) -> u64 {
    let base = get_data(input, 0, 32);
    let modulo = get_data(input, 64, 32);
    if base == 0 && modulo == 0 {
        return 200;
    }
    let size = get_data(input, 32, 32);
    let at = base.clone().saturating_as::<usize>();
    let exponent = if size > 32 { get_data(rest(input), at, 32) } else { get_data(rest(input), at, size.clone().saturating_as::<usize>()) };
    let words: Integer = (base.max(modulo) + 7) / 8;
    let gas = words.pow(2) * iterations(size, exponent) / 3u64;
    gas.max(Integer::from(200u64)).saturating_as::<u64>()
}
pub fn modexp(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(modexp_gas(input), limit)?;
    let base_size = get_data(input, 0, 32).saturating_as::<usize>();
    let modulo_size = get_data(input, 64, 32).saturating_as::<usize>();
    if base_size == 0 && modulo_size == 0 {
        return done(Vec::new(), gas);
    }
    let exponent_size = get_data(input, 32, 32).saturating_as::<usize>();
    let base = get_data(rest(input), 0, base_size);
    let exponent = get_data(rest(input), base_size, exponent_size);
    let modulo = get_data(rest(input), base_size.wrapping_add(exponent_size), modulo_size);
    let r = if modulo == Integer::ZERO {
        Integer::ZERO
    } else if Integer::from(base.abs_ref()) == 1 {
        base % modulo
    } else {
        base.pow_mod(&exponent, &modulo).map_err(fail)?
    };
    let mut r = r.to_digits::<u8>(Order::MsfBe);
    if r.len() > modulo_size {
        return no();
    }
    if r.len() < modulo_size {
        let mut out = vec![0u8; modulo_size - r.len()];
        out.append(&mut r);
        return done(out, gas);
    }
    done(r, gas)
}

// ---- Axon's own
thread_local! {
    static CURRENT_HEADER_CELL_ROOT: std::cell::RefCell<H256> = std::cell::RefCell::new(H256::default());
}
fn root() -> H256 { CURRENT_HEADER_CELL_ROOT.with(|r| *r.borrow()) }

pub struct CkbHeaderReader;
/// stands for the function of the code of this name
pub fn header_raw(_: &CkbHeaderReader, root: H256, key: &[u8]) -> protocol::ProtocolResult<Option<Vec<u8>>> { unimplemented!() }

pub fn get_header(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(42000, limit)?;
    let hash = <[u8; 32] as AbiDecode>::decode(input).map_err(fail)?;
    match header_raw(&CkbHeaderReader, root(), &hash).map_err(fail)? {
        Some(raw) => {
            let h = <crate::abi::ckb_light_client_abi::Header as AbiDecode>::decode(raw).unwrap();
            done(AbiEncode::encode((h,)), gas)
        }
        None => no(),
    }
}

#[derive(ethers::contract::EthAbiCodec, ethers::contract::EthAbiType, Clone, Debug, PartialEq, Eq)]
pub struct VerifyProofPayload {
    pub verify_type:           u8,
    pub transactions_root:     [u8; 32],
    pub witnesses_root:        [u8; 32],
    pub raw_transactions_root: [u8; 32],
    pub proof:                 Proof,
}
#[derive(ethers::contract::EthAbiCodec, ethers::contract::EthAbiType, Clone, Debug, PartialEq, Eq)]
pub struct Proof {
    pub indices: Vec<u32>,
    pub lemmas:  Vec<[u8; 32]>,
    pub leaves:  Vec<[u8; 32]>,
}
pub fn cmbt_verify(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let gas = paid(56000, limit)?;
    let p = <(VerifyProofPayload,) as AbiDecode>::decode(input).map_err(fail)?.0;
    let transactions: packed::Byte32 = p.transactions_root.pack();
    let raw: packed::Byte32 = p.raw_transactions_root.pack();
    let witnesses: packed::Byte32 = p.witnesses_root.pack();
    if merkle_root(&[raw.clone(), witnesses.clone()]) != transactions {
        return no();
    }
    let lemmas = p.proof.lemmas.iter().map(|l| l.pack()).collect::<Vec<_>>();
    let leaves = p.proof.leaves.iter().map(|l| l.pack()).collect::<Vec<_>>();
    let of = if p.verify_type == 0 { raw } else { witnesses };
    if MerkleProof::new(p.proof.indices, lemmas).verify(&of, &leaves) {
        done(vec![1], gas)
    } else {
        no()
    }
}

#[derive(ethers::contract::EthAbiCodec, ethers::contract::EthAbiType, Clone, Default, Debug, PartialEq, Eq)]
pub struct CallCkbVmPayload {
    pub cell:   CellDep,
    pub inputs: Vec<ethers::core::types::Bytes>,
}
#[derive(ethers::contract::EthAbiCodec, ethers::contract::EthAbiType, Clone, Default, Debug, PartialEq, Eq)]
pub struct CellDep {
    pub out_point: crate::abi::image_cell_abi::OutPoint,
    pub dep_type:  u8,
}
pub fn call_ckb_vm(input: &[u8], limit: Option<u64>, _: &Context, _: bool) -> Out {
    let limit = limit.ok_or(()).map_err(fail)?;
    let p = <(CallCkbVmPayload,) as AbiDecode>::decode(input).map_err(fail)?.0;
    let dep = protocol::types::CellDep { tx_hash: p.cell.out_point.tx_hash.into(), index: p.cell.out_point.index, dep_type: p.cell.dep_type };
    let args: Vec<protocol::types::Bytes> = p.inputs.into_iter().map(|i| i.0).collect();
    let r = <InteroperationImpl as protocol::traits::Interoperation>::call_ckb_vm(
        Default::default(), &core_executor::DataProvider::new(root()), dep, &args, gas_to_cycle(limit),
    ).map_err(fail)?;
    done(r.exit_code.to_le_bytes().to_vec(), cycle_to_gas(r.cycles).max(500))
}
