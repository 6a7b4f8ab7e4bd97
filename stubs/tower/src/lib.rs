//! Signatures. Never run.
pub struct Identity;
pub struct ServiceBuilder<L>(L);
impl ServiceBuilder<Identity> { pub fn new() -> Self { unimplemented!() } }
impl<L> ServiceBuilder<L> { pub fn layer<T>(self, _: T) -> ServiceBuilder<(T, L)> { unimplemented!() } }
