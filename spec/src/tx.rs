use common_crypto::secp256k1_recover;
use protocol::types::*;
use protocol::ProtocolResult;
use rlp::{DecoderError, Encodable, Rlp, RlpStream};

// ---- EIP-2718 types
pub fn type_(t: &UnsignedTransaction) -> u64 {
    if let UnsignedTransaction::Eip1559(_) = t {
        return 2;
    }
    if let UnsignedTransaction::Eip2930(_) = t {
        return 1;
    }
    0
}

pub fn as_u8(t: &UnsignedTransaction) -> u8 {
    match t {
        UnsignedTransaction::Legacy(_) => panic!(),
        UnsignedTransaction::Eip2930(_) => 1,
        UnsignedTransaction::Eip1559(_) => 2,
    }
}

pub fn is_legacy(t: &UnsignedTransaction) -> bool {
    match t {
        UnsignedTransaction::Legacy(_) => true,
        UnsignedTransaction::Eip2930(_) | UnsignedTransaction::Eip1559(_) => false,
    }
}

pub fn is_eip1559(t: &UnsignedTransaction) -> bool {
    match t {
        UnsignedTransaction::Eip1559(_) => true,
        UnsignedTransaction::Eip2930(_) | UnsignedTransaction::Legacy(_) => false,
    }
}

// ---- signature encodings
fn head<'a>(x: &'a Bytes) -> &'a [u8] {
    if x.len() > 32 {
        &x[..32]
    } else {
        &x[..]
    }
}

fn eth_sig(s: &SignatureComponents) -> bool {
    s.r.len() + s.s.len() + 1 == 65
}

pub fn is_eth_sig(s: &SignatureComponents) -> bool {
    s.r.len() + s.s.len() + 1 == 65
}

pub fn sig_append(sig: &SignatureComponents, s: &mut RlpStream) {
    s.append(&sig.standard_v);
    if eth_sig(sig) {
        s.append(&U256::from(head(&sig.r)));
        s.append(&U256::from(head(&sig.s)));
    } else {
        s.append(&sig.r);
        s.append(&sig.s);
    }
}

// EIP-155: v = {0,1} + 35 + 2 * chain id, or {0,1} + 27
pub fn legacy_v(sig: &SignatureComponents, chain_id: Option<u64>) -> u64 {
    match chain_id {
        Some(id) => sig.standard_v as u64 + (id * 2 + 35),
        None => sig.standard_v as u64 + 27,
    }
}

pub fn standard_v(v: u64) -> Option<u8> {
    if v == 27 {
        return Some(0);
    }
    if v == 28 {
        return Some(1);
    }
    if v < 35 {
        return None;
    }
    Some(((v - 1) % 2) as u8)
}

pub fn chain_id_of(v: u64) -> Option<u64> {
    if v < 35 {
        return None;
    }
    Some((v - 35) / 2)
}

pub fn sig_bytes(sig: &SignatureComponents) -> Bytes {
    let mut b = BytesMut::from(&sig.r[..]);
    b.extend_from_slice(&sig.s);
    b.extend_from_slice(&[sig.standard_v]);
    b.freeze()
}

pub fn sig_into_bytes(sig: SignatureComponents) -> Bytes {
    let mut b = BytesMut::from(&sig.r[..]);
    b.extend_from_slice(&sig.s);
    b.extend_from_slice(&[sig.standard_v]);
    b.freeze()
}

// an Ethereum signature is r || s || v, 32 + 32 + 1 bytes
pub fn sig_from_bytes(b: Bytes) -> SignatureComponents {
    SignatureComponents { standard_v: b[64], s: Bytes::from(b[32..64].to_vec()), r: Bytes::from(b[..32].to_vec()) }
}

// ---- transaction encodings
pub fn legacy_encode(tx: &LegacyTransaction, s: &mut RlpStream, chain_id: Option<u64>, signature: Option<&SignatureComponents>) {
    let n = if signature.is_none() && chain_id.is_none() { 6 } else { 9 };
    s.begin_list(n);
    s.append(&tx.nonce);
    s.append(&tx.gas_price);
    s.append(&tx.gas_limit);
    s.append(&tx.action);
    s.append(&tx.value);
    s.append(&tx.data);
    match (signature, chain_id) {
        (None, None) => {}
        (None, Some(id)) => {
            s.append(&id);
            s.append(&0u8);
            s.append(&0u8);
        }
        (Some(sig), id) => {
            s.append(&legacy_v(sig, id));
            if eth_sig(sig) {
                s.append(&U256::from(head(&sig.r)));
                s.append(&U256::from(head(&sig.s)));
            } else {
                s.append(&sig.r);
                s.append(&sig.s);
            }
        }
    }
}

fn access(s: &mut RlpStream, l: &AccessList) {
    s.begin_list(l.len());
    for a in l {
        s.begin_list(2);
        s.append(&a.address);
        s.begin_list(a.storage_keys.len());
        for k in &a.storage_keys {
            s.append(k);
        }
    }
}

pub fn eip2930_encode(tx: &Eip2930Transaction, s: &mut RlpStream, chain_id: Option<u64>, signature: Option<&SignatureComponents>) {
    s.begin_list(match signature {
        None => 8,
        Some(_) => 11,
    });
    s.append(&chain_id.unwrap_or(0));
    s.append(&tx.nonce);
    s.append(&tx.gas_price);
    s.append(&tx.gas_limit);
    s.append(&tx.action);
    s.append(&tx.value);
    s.append(&tx.data);
    access(s, &tx.access_list);
    if signature.is_some() {
        sig_append(signature.unwrap(), s);
    }
}

pub fn eip1559_encode(tx: &Eip1559Transaction, s: &mut RlpStream, chain_id: Option<u64>, signature: Option<&SignatureComponents>) {
    s.begin_list(match signature {
        None => 9,
        Some(_) => 12,
    });
    s.append(&chain_id.unwrap_or(0));
    s.append(&tx.nonce);
    s.append(&tx.max_priority_fee_per_gas);
    s.append(&tx.gas_price);
    s.append(&tx.gas_limit);
    s.append(&tx.action);
    s.append(&tx.value);
    s.append(&tx.data);
    access(s, &tx.access_list);
    if signature.is_some() {
        sig_append(signature.unwrap(), s);
    }
}

pub fn unverified_append(t: &UnverifiedTransaction, s: &mut RlpStream) {
    let sig = t.signature.as_ref();
    match &t.unsigned {
        UnsignedTransaction::Legacy(x) => legacy_encode(x, s, t.chain_id, sig),
        UnsignedTransaction::Eip2930(x) => eip2930_encode(x, s, t.chain_id, sig),
        UnsignedTransaction::Eip1559(x) => eip1559_encode(x, s, t.chain_id, sig),
    }
}

// EIP-2718 envelope: type || payload, without a type for legacy transactions
fn envelope(unsigned: &UnsignedTransaction, chain_id: Option<u64>, sig: Option<&SignatureComponents>) -> BytesMut {
    let mut s = RlpStream::new();
    let mut out = BytesMut::new();
    match unsigned {
        UnsignedTransaction::Legacy(x) => legacy_encode(x, &mut s, chain_id, sig),
        UnsignedTransaction::Eip2930(x) => {
            out.extend_from_slice(&[1u8]);
            eip2930_encode(x, &mut s, chain_id, sig)
        }
        UnsignedTransaction::Eip1559(x) => {
            out.extend_from_slice(&[2u8]);
            eip1559_encode(x, &mut s, chain_id, sig)
        }
    }
    out.extend_from_slice(&s.out());
    out
}

pub fn unverified_bytes(t: &UnverifiedTransaction) -> BytesMut {
    envelope(&t.unsigned, t.chain_id, t.signature.as_ref())
}

pub fn unsigned_encode(t: &UnsignedTransaction, chain_id: Option<u64>, sig: Option<SignatureComponents>) -> BytesMut {
    envelope(t, chain_id, sig.as_ref())
}

pub fn get_hash(t: &UnverifiedTransaction) -> H256 {
    Hasher::digest(&envelope(&t.unsigned, t.chain_id, t.signature.as_ref()))
}

pub fn calc_hash(t: UnverifiedTransaction) -> UnverifiedTransaction {
    let hash = get_hash(&t);
    UnverifiedTransaction { hash, unsigned: t.unsigned, signature: t.signature, chain_id: t.chain_id }
}

pub fn check_hash(t: &UnverifiedTransaction) -> ProtocolResult<()> {
    let calc = get_hash(t);
    if t.hash == calc {
        Ok(())
    } else {
        Err(TypesError::TxHashMismatch { origin: t.hash, calc }.into())
    }
}

// what is signed: everything but the signature; the chain id is left out only of a legacy transaction
// that is asked for without
pub fn signature_hash(t: &UnverifiedTransaction, with_chain_id: bool) -> H256 {
    if let UnsignedTransaction::Legacy(x) = &t.unsigned {
        if !with_chain_id {
            let mut s = RlpStream::new();
            legacy_encode(x, &mut s, None, None);
            return Hasher::digest(s.out());
        }
    }
    Hasher::digest(envelope(&t.unsigned, t.chain_id, None))
}

pub fn recover_public(t: &UnverifiedTransaction, with_chain_id: bool) -> ProtocolResult<Public> {
    let h = signature_hash(t, with_chain_id);
    let sig = match &t.signature {
        Some(s) => s,
        None => return Err(TypesError::MissingSignature.into()),
    };
    match secp256k1_recover(h.as_bytes(), &sig_bytes(sig)) {
        Ok(p) => Ok(Public::from_slice(&p.serialize_uncompressed()[1..65])),
        Err(e) => Err(TypesError::Crypto(e).into()),
    }
}

// ---- decoding
fn words(r: &Rlp, at: usize) -> Result<(Bytes, Bytes), DecoderError> {
    let size = r.at(at)?.size() + r.at(at + 1)?.size();
    if size > 64 {
        return Ok((r.val_at(at)?, r.val_at(at + 1)?));
    }
    let a: U256 = r.val_at(at)?;
    let b: U256 = r.val_at(at + 1)?;
    Ok((be32(a), be32(b)))
}

fn be32(x: U256) -> Bytes {
    use ethereum_types::BigEndianHash;
    let h: H256 = BigEndianHash::from_uint(&x);
    Bytes::from(h.as_bytes().to_vec())
}

fn decode_err<T>() -> Result<T, DecoderError> {
    Err(DecoderError::RlpIncorrectListLen)
}

pub fn legacy_decode(r: &Rlp) -> Result<UnverifiedTransaction, DecoderError> {
    if r.item_count()? != 9 {
        return decode_err();
    }
    let tx = LegacyTransaction {
        nonce: r.val_at(0)?,
        gas_price: r.val_at(1)?,
        gas_limit: r.val_at(2)?,
        action: r.val_at(3)?,
        value: r.val_at(4)?,
        data: r.val_at(5)?,
    };
    let v: u64 = r.val_at(6)?;
    let standard_v = match standard_v(v) {
        Some(v) => v,
        None => return decode_err(),
    };
    let (a, b) = words(r, 7)?;
    Ok(UnverifiedTransaction {
        unsigned: UnsignedTransaction::Legacy(tx),
        signature: Some(SignatureComponents { r: a, s: b, standard_v }),
        chain_id: chain_id_of(v),
        hash: Hasher::digest(r.as_raw()),
    })
}

fn access_decode(r: Rlp) -> Result<AccessList, DecoderError> {
    let mut l = Vec::new();
    for i in 0..r.item_count()? {
        let x = r.at(i)?;
        if x.item_count()? != 2 {
            return decode_err();
        }
        l.push(AccessListItem { address: x.val_at(0)?, storage_keys: x.list_at(1)? });
    }
    Ok(l)
}

fn typed_hash(ty: u8, r: &Rlp) -> H256 {
    Hasher::digest([&[ty], r.as_raw()].concat())
}

pub fn eip2930_decode(r: &Rlp) -> Result<UnverifiedTransaction, DecoderError> {
    if r.item_count()? != 11 {
        return decode_err();
    }
    let id: u64 = r.val_at(0)?;
    let tx = Eip2930Transaction {
        nonce: r.val_at(1)?,
        gas_price: r.val_at(2)?,
        gas_limit: r.val_at(3)?,
        action: r.val_at(4)?,
        value: r.val_at(5)?,
        data: r.val_at(6)?,
        access_list: access_decode(r.at(7)?)?,
    };
    let v: u8 = r.val_at(8)?;
    let (a, b) = words(r, 9)?;
    Ok(UnverifiedTransaction {
        unsigned: UnsignedTransaction::Eip2930(tx),
        signature: Some(SignatureComponents { r: a, s: b, standard_v: v }),
        chain_id: Some(id),
        hash: typed_hash(1, r),
    })
}

pub fn eip1559_decode(r: &Rlp) -> Result<UnverifiedTransaction, DecoderError> {
    if r.item_count()? != 12 {
        return decode_err();
    }
    let id: u64 = r.val_at(0)?;
    let tx = Eip1559Transaction {
        nonce: r.val_at(1)?,
        max_priority_fee_per_gas: r.val_at(2)?,
        gas_price: r.val_at(3)?,
        gas_limit: r.val_at(4)?,
        action: r.val_at(5)?,
        value: r.val_at(6)?,
        data: r.val_at(7)?,
        access_list: access_decode(r.at(8)?)?,
    };
    let v: u8 = r.val_at(9)?;
    let (a, b) = words(r, 10)?;
    Ok(UnverifiedTransaction {
        unsigned: UnsignedTransaction::Eip1559(tx),
        signature: Some(SignatureComponents { r: a, s: b, standard_v: v }),
        chain_id: Some(id),
        hash: typed_hash(2, r),
    })
}

// first byte >= 0x80: an RLP list, that is a legacy transaction; otherwise the EIP-2718 type
pub fn unverified_decode(r: &Rlp) -> Result<UnverifiedTransaction, DecoderError> {
    let raw = r.as_raw();
    if raw.is_empty() {
        return decode_err();
    }
    if raw[0] & 0x80 != 0 {
        return legacy_decode(r);
    }
    if raw[0] == 1 {
        return eip2930_decode(&Rlp::new(&raw[1..]));
    }
    if raw[0] == 2 {
        return eip1559_decode(&Rlp::new(&raw[1..]));
    }
    decode_err()
}

pub fn signed_append(t: &SignedTransaction, s: &mut RlpStream) {
    s.append(&unverified_bytes(&t.transaction));
}

// the sender is never taken from the encoding: it is recovered from the signature
pub fn signed_decode(r: &Rlp) -> Result<SignedTransaction, DecoderError> {
    let t = unverified_decode(&Rlp::new(r.data()?))?;
    let sig = match &t.signature {
        Some(s) => s,
        None => return decode_err(),
    };
    if !eth_sig(sig) {
        let sender = match interop_sender(sig) {
            Ok(s) => s,
            Err(_) => return decode_err(),
        };
        return Ok(SignedTransaction { sender, public: Some(Public::zero()), transaction: t });
    }
    match secp256k1_recover(signature_hash(&t, true).as_bytes(), &sig_bytes(sig)) {
        Ok(p) => {
            let p = Public::from_slice(&p.serialize_uncompressed()[1..65]);
            Ok(SignedTransaction { sender: address_of(&p), public: Some(p), transaction: t })
        }
        Err(_) => decode_err(),
    }
}

// the lower 20 bytes of the hash of the public key
pub fn address_of(p: &Public) -> H160 {
    let h = Hasher::digest(p);
    let mut a = H160::zero();
    a.as_bytes_mut().copy_from_slice(&h.as_bytes()[12..]);
    a
}

pub fn intact_pub_key(p: &Public) -> H520 {
    let mut x = vec![4u8];
    x.extend_from_slice(p.as_bytes());
    H520::from_slice(&x[..65])
}

// r = 0 || rlp(cell dep with the public key); the sender is the hash of the public key
pub fn interop_sender(s: &SignatureComponents) -> ProtocolResult<H160> {
    if s.r.is_empty() || s.r[0] != 0 {
        return Err(TypesError::InvalidSignatureRType.into());
    }
    match rlp::decode::<CellDepWithPubKey>(&s.r[1..]) {
        Ok(x) => Ok(H160::from(Hasher::digest(&x.pub_key))),
        Err(e) => Err(TypesError::DecodeInteroperationSigR(e).into()),
    }
}

pub fn from_unverified(t: UnverifiedTransaction) -> ProtocolResult<SignedTransaction> {
    let sig = match &t.signature {
        Some(s) => s.clone(),
        None => return Err(TypesError::Unsigned.into()),
    };
    let (sender, public) = if eth_sig(&sig) {
        match secp256k1_recover(signature_hash(&t, true).as_bytes(), &sig_bytes(&sig)) {
            Ok(p) => {
                let p = Public::from_slice(&p.serialize_uncompressed()[1..65]);
                (address_of(&p), p)
            }
            Err(e) => return Err(TypesError::Crypto(e).into()),
        }
    } else {
        (interop_sender(&sig)?, Public::zero())
    };
    Ok(SignedTransaction { sender, public: Some(public), transaction: calc_hash(t) })
}

pub fn signed_type(t: &SignedTransaction) -> u64 {
    type_(&t.transaction.unsigned)
}

pub fn signed_to(t: &SignedTransaction) -> Option<H160> {
    to(&t.transaction.unsigned)
}

pub fn is_eip155(t: &SignedTransaction) -> bool {
    match t.transaction.chain_id {
        Some(_) => true,
        None => false,
    }
}

// EIP-658/2718 receipts
pub fn encode_receipt(t: &SignedTransaction, r: &TxResp, bloom: Bloom) -> Bytes {
    let mut s = RlpStream::new();
    s.begin_list(4);
    match r.exit_reason {
        ExitReason::Succeed(_) => s.append(&1u64),
        _ => s.append(&0u64),
    };
    s.append(&U256::from(r.gas_used));
    s.append(&bloom);
    s.append_list(&r.logs);
    let payload = s.out().freeze();
    match &t.transaction.unsigned {
        UnsignedTransaction::Legacy(_) => payload,
        UnsignedTransaction::Eip2930(_) => [&[1u8][..], &payload].concat().into(),
        UnsignedTransaction::Eip1559(_) => [&[2u8][..], &payload].concat().into(),
    }
}

// ---- accessors
pub fn to(t: &UnsignedTransaction) -> Option<H160> {
    match action(t) {
        TransactionAction::Call(a) => Some(*a),
        TransactionAction::Create => None,
    }
}

pub fn legacy_to(t: &LegacyTransaction) -> Option<H160> {
    match t.action {
        TransactionAction::Call(a) => Some(a),
        TransactionAction::Create => None,
    }
}

pub fn eip2930_to(t: &Eip2930Transaction) -> Option<H160> {
    match t.action {
        TransactionAction::Call(a) => Some(a),
        TransactionAction::Create => None,
    }
}

pub fn eip1559_to(t: &Eip1559Transaction) -> Option<H160> {
    match t.action {
        TransactionAction::Call(a) => Some(a),
        TransactionAction::Create => None,
    }
}

pub fn action(t: &UnsignedTransaction) -> &TransactionAction {
    match t {
        UnsignedTransaction::Legacy(x) => &x.action,
        UnsignedTransaction::Eip2930(x) => &x.action,
        UnsignedTransaction::Eip1559(x) => &x.action,
    }
}

pub fn data(t: &UnsignedTransaction) -> &[u8] {
    match t {
        UnsignedTransaction::Legacy(x) => &x.data,
        UnsignedTransaction::Eip2930(x) => &x.data,
        UnsignedTransaction::Eip1559(x) => &x.data,
    }
}

pub fn value(t: &UnsignedTransaction) -> &U256 {
    match t {
        UnsignedTransaction::Legacy(x) => &x.value,
        UnsignedTransaction::Eip2930(x) => &x.value,
        UnsignedTransaction::Eip1559(x) => &x.value,
    }
}

pub fn nonce(t: &UnsignedTransaction) -> &U64 {
    match t {
        UnsignedTransaction::Legacy(x) => &x.nonce,
        UnsignedTransaction::Eip2930(x) => &x.nonce,
        UnsignedTransaction::Eip1559(x) => &x.nonce,
    }
}

pub fn gas_limit(t: &UnsignedTransaction) -> &U64 {
    match t {
        UnsignedTransaction::Legacy(x) => &x.gas_limit,
        UnsignedTransaction::Eip2930(x) => &x.gas_limit,
        UnsignedTransaction::Eip1559(x) => &x.gas_limit,
    }
}

pub fn gas_price(t: &UnsignedTransaction) -> U64 {
    match t {
        UnsignedTransaction::Legacy(x) => x.gas_price,
        UnsignedTransaction::Eip2930(x) => x.gas_price,
        UnsignedTransaction::Eip1559(x) => x.gas_price.max(x.max_priority_fee_per_gas),
    }
}

pub fn priority_fee(t: &UnsignedTransaction) -> &U64 {
    match t {
        UnsignedTransaction::Legacy(x) => &x.gas_price,
        UnsignedTransaction::Eip2930(x) => &x.gas_price,
        UnsignedTransaction::Eip1559(x) => &x.max_priority_fee_per_gas,
    }
}

pub fn access_list(t: &UnsignedTransaction) -> AccessList {
    match t {
        UnsignedTransaction::Legacy(_) => vec![],
        UnsignedTransaction::Eip2930(x) => x.access_list.to_vec(),
        UnsignedTransaction::Eip1559(x) => x.access_list.to_vec(),
    }
}

pub fn get_legacy(t: &UnsignedTransaction) -> Option<LegacyTransaction> {
    if let UnsignedTransaction::Legacy(x) = t {
        return Some(x.clone());
    }
    None
}

pub fn set_action(t: &mut UnsignedTransaction, a: TransactionAction) {
    match t {
        UnsignedTransaction::Legacy(x) => x.action = a,
        UnsignedTransaction::Eip2930(x) => x.action = a,
        UnsignedTransaction::Eip1559(x) => x.action = a,
    }
}

pub fn set_data(t: &mut UnsignedTransaction, d: Bytes) {
    match t {
        UnsignedTransaction::Legacy(x) => x.data = d,
        UnsignedTransaction::Eip2930(x) => x.data = d,
        UnsignedTransaction::Eip1559(x) => x.data = d,
    }
}

// gas price * gas limit + value, saturating: never an understated cost
pub fn may_cost(t: &UnsignedTransaction) -> ProtocolResult<U256> {
    let p = U256::from(gas_price(t).low_u64());
    let l = U256::from(gas_limit(t).low_u64());
    match p.checked_mul(l) {
        None => Err(TypesError::PrepayGasIsTooLarge.into()),
        Some(x) => match x.checked_add(*value(t)) {
            Some(y) => Ok(y),
            None => Ok(U256::max_value()),
        },
    }
}
