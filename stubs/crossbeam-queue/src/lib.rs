//! Signatures only. Never run.
use std::{cell::UnsafeCell, marker::PhantomData};
pub struct ArrayQueue<T>(PhantomData<UnsafeCell<T>>);
unsafe impl<T: Send> Sync for ArrayQueue<T> {}
unsafe impl<T: Send> Send for ArrayQueue<T> {}
impl<T> ArrayQueue<T> {
    pub fn new(_: usize) -> Self { unimplemented!() }
    pub fn push(&self, _: T) -> Result<(), T> { unimplemented!() }
    pub fn force_push(&self, _: T) -> Option<T> { unimplemented!() }
    pub fn pop(&self) -> Option<T> { unimplemented!() }
    pub fn capacity(&self) -> usize { unimplemented!() }
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
    pub fn is_full(&self) -> bool { unimplemented!() }
}
