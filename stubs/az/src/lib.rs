//! Signatures only. Never run.
pub trait SaturatingCast<D> { fn saturating_cast(self) -> D; }
pub trait SaturatingAs { fn saturating_as<D>(self) -> D where Self: SaturatingCast<D>; }
impl<T> SaturatingAs for T { fn saturating_as<D>(self) -> D where Self: SaturatingCast<D> { self.saturating_cast() } }
