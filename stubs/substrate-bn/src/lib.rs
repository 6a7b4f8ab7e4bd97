//! Signatures only. Never run.
use std::ops::{Add, Mul, Neg, Sub};
#[derive(Debug)] pub enum FieldError { InvalidSliceLength, InvalidU512Encoding, NotMember }
#[derive(Debug)] pub enum GroupError { NotOnCurve, NotInSubgroup }
pub use GroupError as CurveErrorInner;
#[derive(Debug)] pub enum CurveError { InvalidEncoding, NotMember, Field(FieldError), ToAffineConversion }
macro_rules! field { ($n:ident) => {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct $n([u64; 4]);
    impl $n {
        pub fn zero() -> Self { unimplemented!() }
        pub fn one() -> Self { unimplemented!() }
        pub fn is_zero(&self) -> bool { unimplemented!() }
        pub fn from_slice(_: &[u8]) -> Result<Self, FieldError> { unimplemented!() }
        pub fn to_big_endian(&self, _: &mut [u8]) -> Result<(), FieldError> { unimplemented!() }
    }
}; }
field!(Fq); field!(Fr);
#[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct Fq2(Fq, Fq);
impl Fq2 {
    pub fn new(_: Fq, _: Fq) -> Self { unimplemented!() }
    pub fn zero() -> Self { unimplemented!() }
    pub fn one() -> Self { unimplemented!() }
    pub fn is_zero(&self) -> bool { unimplemented!() }
    pub fn real(&self) -> Fq { unimplemented!() }
    pub fn imaginary(&self) -> Fq { unimplemented!() }
}
pub trait Group: Copy + Clone + PartialEq + Eq + Sized + Add<Self, Output = Self> + Sub<Self, Output = Self> + Neg<Output = Self> + Mul<Fr, Output = Self> {
    fn zero() -> Self; fn one() -> Self; fn is_zero(&self) -> bool; fn normalize(&mut self);
}
macro_rules! group { ($n:ident, $a:ident, $f:ident) => {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct $n([u64; 4]);
    impl Add for $n { type Output = $n; fn add(self, _: $n) -> $n { unimplemented!() } }
    impl Sub for $n { type Output = $n; fn sub(self, _: $n) -> $n { unimplemented!() } }
    impl Neg for $n { type Output = $n; fn neg(self) -> $n { unimplemented!() } }
    impl Mul<Fr> for $n { type Output = $n; fn mul(self, _: Fr) -> $n { unimplemented!() } }
    impl Group for $n { fn zero() -> Self { unimplemented!() } fn one() -> Self { unimplemented!() } fn is_zero(&self) -> bool { unimplemented!() } fn normalize(&mut self) { unimplemented!() } }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct $a([u64; 4]);
    impl $a {
        pub fn new(_: $f, _: $f) -> Result<Self, GroupError> { unimplemented!() }
        pub fn x(&self) -> $f { unimplemented!() }
        pub fn y(&self) -> $f { unimplemented!() }
        pub fn from_jacobian(_: $n) -> Option<Self> { unimplemented!() }
    }
    impl From<$a> for $n { fn from(_: $a) -> $n { unimplemented!() } }
}; }
group!(G1, AffineG1, Fq); group!(G2, AffineG2, Fq2);
#[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct Gt([u64; 4]);
impl Gt { pub fn one() -> Self { unimplemented!() } }
pub fn pairing_batch(_: &[(G1, G2)]) -> Gt { unimplemented!() }
pub fn pairing(_: G1, _: G2) -> Gt { unimplemented!() }
