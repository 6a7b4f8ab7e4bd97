//! Signatures only: lets the type checker see the code that uses the crate. Never run.
use std::{borrow::Borrow, hash::Hash, marker::PhantomData, num::NonZeroUsize};
pub struct LruCache<K, V>(PhantomData<(K, V)>);
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(_: NonZeroUsize) -> Self { unimplemented!() }
    pub fn unbounded() -> Self { unimplemented!() }
    pub fn put(&mut self, _: K, _: V) -> Option<V> { unimplemented!() }
    pub fn push(&mut self, _: K, _: V) -> Option<(K, V)> { unimplemented!() }
    pub fn get<Q: Hash + Eq + ?Sized>(&mut self, _: &Q) -> Option<&V> where K: Borrow<Q> { unimplemented!() }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&mut self, _: &Q) -> Option<&mut V> where K: Borrow<Q> { unimplemented!() }
    pub fn peek<Q: Hash + Eq + ?Sized>(&self, _: &Q) -> Option<&V> where K: Borrow<Q> { unimplemented!() }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, _: &Q) -> bool where K: Borrow<Q> { unimplemented!() }
    pub fn pop<Q: Hash + Eq + ?Sized>(&mut self, _: &Q) -> Option<V> where K: Borrow<Q> { unimplemented!() }
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
    pub fn clear(&mut self) { unimplemented!() }
}
impl<K, V> std::fmt::Debug for LruCache<K, V> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
