use ckb_types::{packed, prelude::*};
use common_crypto::{HashValue, PrivateKey, Secp256k1RecoverablePrivateKey, Signature};
use common_merkle::ProofNode;
use hasher::HasherKeccak;
use protocol::codec::ProtocolCodec;
use protocol::trie::{MemoryDB, PatriciaTrie, Trie};
use protocol::types::{Bytes, Hash, Hasher};
use static_merkle_tree::Tree;
use std::error::Error;
use std::sync::Arc;

// ---- complete binary tree over hashes
pub fn parent(left: &Hash, right: &Hash) -> Hash {
    let mut b = vec![];
    b.extend_from_slice(left.as_bytes());
    b.extend_from_slice(right.as_bytes());
    Hasher::digest(b)
}

pub fn tree_of(hashes: Vec<Hash>) -> Tree<Hash> {
    Tree::from_hashes(hashes, parent)
}

pub fn tree_root(t: &Tree<Hash>) -> Option<Hash> {
    t.get_root_hash().copied()
}

pub fn tree_proof(t: &Tree<Hash>, i: usize) -> Option<Vec<ProofNode>> {
    match t.get_proof_by_input_index(i) {
        None => None,
        Some(p) => Some(p.0.into_iter().map(|n| ProofNode { is_right: n.is_right, hash: n.hash }).collect()),
    }
}

// ---- Merkle Patricia trie: key rlp(index), value the item
type T = PatriciaTrie<MemoryDB, HasherKeccak>;

pub fn trie_new() -> T {
    PatriciaTrie::new(Arc::new(MemoryDB::new(false)), Arc::new(HasherKeccak::new()))
}

pub fn trie_of<'a, C: ProtocolCodec + 'a, I: IntoIterator<Item = (usize, &'a C)>>(it: I) -> T {
    let mut t = trie_new();
    for (i, c) in it {
        t.insert(rlp::encode(&i).to_vec(), c.encode().unwrap().to_vec()).unwrap();
    }
    t
}

pub fn trie_root(t: &mut T) -> Result<Hash, Box<dyn Error + 'static>> {
    Ok(Hash::from_slice(&t.root()?))
}

pub fn trie_proof(t: &T, i: usize) -> Result<Vec<Vec<u8>>, Box<dyn Error + 'static>> {
    Ok(t.get_proof(&rlp::encode(&i))?)
}

pub fn trie_of_receipts(r: &[Bytes]) -> T {
    let mut t = trie_new();
    for (i, x) in r.iter().enumerate() {
        t.insert(rlp::encode(&i).to_vec(), x.to_vec()).unwrap();
    }
    t
}
