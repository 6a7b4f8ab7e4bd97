//! Signatures only. Never run.
use std::{cmp::Ordering, ops::*};
#[derive(Clone, Debug, Eq)]
pub struct Integer(Vec<u64>);
pub mod integer { #[derive(Clone, Copy)] pub enum Order { Lsf, LsfLe, LsfBe, Msf, MsfLe, MsfBe } pub use crate::Integer; }
pub mod ops { pub trait Pow<R> { type Output; fn pow(self, r: R) -> Self::Output; } }
pub struct Ref<'a>(&'a Integer);
impl<'a> From<Ref<'a>> for Integer { fn from(_: Ref<'a>) -> Integer { unimplemented!() } }
impl Integer {
    pub const ZERO: Integer = Integer(Vec::new());
    pub fn new() -> Self { unimplemented!() }
    pub fn from_digits<T>(_: &[T], _: integer::Order) -> Self { unimplemented!() }
    pub fn to_digits<T>(&self, _: integer::Order) -> Vec<T> { unimplemented!() }
    pub fn significant_bits(&self) -> u32 { unimplemented!() }
    pub fn is_zero(&self) -> bool { unimplemented!() }
    pub fn is_odd(&self) -> bool { unimplemented!() }
    pub fn is_even(&self) -> bool { unimplemented!() }
    pub fn abs_ref(&self) -> Ref<'_> { unimplemented!() }
    pub fn abs(self) -> Integer { unimplemented!() }
    pub fn to_u64(&self) -> Option<u64> { unimplemented!() }
    pub fn to_usize(&self) -> Option<usize> { unimplemented!() }
    pub fn pow_mod(self, _: &Integer, _: &Integer) -> Result<Integer, Integer> { unimplemented!() }
    pub fn pow_mod_ref<'a>(&'a self, _: &'a Integer, _: &'a Integer) -> Option<Ref<'a>> { unimplemented!() }
}
impl ops::Pow<u32> for Integer { type Output = Integer; fn pow(self, _: u32) -> Integer { unimplemented!() } }
macro_rules! bin { ($($tr:ident $m:ident)*) => { $(
    impl $tr<Integer> for Integer { type Output = Integer; fn $m(self, _: Integer) -> Integer { unimplemented!() } }
    impl<'a> $tr<&'a Integer> for Integer { type Output = Integer; fn $m(self, _: &'a Integer) -> Integer { unimplemented!() } }
)* }; }
bin!(Add add Sub sub Mul mul Div div Rem rem BitAnd bitand BitOr bitor);
macro_rules! num { ($($t:ident)*) => { $(
    impl From<$t> for Integer { fn from(_: $t) -> Integer { unimplemented!() } }
    impl PartialEq<$t> for Integer { fn eq(&self, _: &$t) -> bool { unimplemented!() } }
    impl PartialOrd<$t> for Integer { fn partial_cmp(&self, _: &$t) -> Option<Ordering> { unimplemented!() } }
    impl az::SaturatingCast<$t> for Integer { fn saturating_cast(self) -> $t { unimplemented!() } }
    impl<'a> az::SaturatingCast<$t> for &'a Integer { fn saturating_cast(self) -> $t { unimplemented!() } }
    impl Add<$t> for Integer { type Output = Integer; fn add(self, _: $t) -> Integer { unimplemented!() } }
    impl Sub<$t> for Integer { type Output = Integer; fn sub(self, _: $t) -> Integer { unimplemented!() } }
    impl Mul<$t> for Integer { type Output = Integer; fn mul(self, _: $t) -> Integer { unimplemented!() } }
    impl Div<$t> for Integer { type Output = Integer; fn div(self, _: $t) -> Integer { unimplemented!() } }
    impl Mul<Integer> for $t { type Output = Integer; fn mul(self, _: Integer) -> Integer { unimplemented!() } }
    impl Add<Integer> for $t { type Output = Integer; fn add(self, _: Integer) -> Integer { unimplemented!() } }
)* }; }
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl PartialEq for Integer { fn eq(&self, _: &Integer) -> bool { unimplemented!() } }
impl PartialOrd for Integer { fn partial_cmp(&self, _: &Integer) -> Option<Ordering> { unimplemented!() } }
impl Ord for Integer { fn cmp(&self, _: &Integer) -> Ordering { unimplemented!() } }
