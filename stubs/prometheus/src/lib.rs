//! Signatures only. Never run.
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
macro_rules! counter { ($($n:ident $t:ty)*) => { $( #[derive(Clone, Debug)] pub struct $n; impl $n {
    pub fn inc(&self) {} pub fn dec(&self) {} pub fn inc_by(&self, _: $t) {} pub fn set(&self, _: $t) {} pub fn add(&self, _: $t) {} pub fn sub(&self, _: $t) {} pub fn get(&self) -> $t { unimplemented!() } pub fn reset(&self) {}
} )* }; }
counter!(Counter f64 IntCounter u64 Gauge f64 IntGauge i64 LocalCounter f64 LocalIntCounter u64);
macro_rules! hist { ($($n:ident)*) => { $( #[derive(Clone, Debug)] pub struct $n; impl $n { pub fn observe(&self, _: f64) {} } )* }; }
hist!(Histogram LocalHistogram);
macro_rules! vecs { ($($n:ident $t:ident)*) => { $( #[derive(Clone, Debug)] pub struct $n; impl $n { pub fn with_label_values(&self, _: &[&str]) -> $t { unimplemented!() } pub fn remove_label_values(&self, _: &[&str]) -> Result<()> { unimplemented!() } pub fn reset(&self) {} } )* }; }
vecs!(CounterVec Counter IntCounterVec IntCounter GaugeVec Gauge IntGaugeVec IntGauge HistogramVec Histogram);
pub fn exponential_buckets(_: f64, _: f64, _: usize) -> Result<Vec<f64>> { unimplemented!() }
pub fn linear_buckets(_: f64, _: f64, _: usize) -> Result<Vec<f64>> { unimplemented!() }
pub struct MetricFamily;
pub fn gather() -> Vec<MetricFamily> { unimplemented!() }
pub struct TextEncoder;
impl TextEncoder { pub fn new() -> Self { unimplemented!() } }
pub trait Encoder { fn encode<W: std::io::Write>(&self, _: &[MetricFamily], _: &mut W) -> Result<()>; }
impl Encoder for TextEncoder { fn encode<W: std::io::Write>(&self, _: &[MetricFamily], _: &mut W) -> Result<()> { unimplemented!() } }
pub fn made<T>() -> Result<T> { unimplemented!() }
#[macro_export] macro_rules! register_counter_vec { ($($t:tt)*) => { $crate::made::<$crate::CounterVec>() }; }
#[macro_export] macro_rules! register_histogram { ($($t:tt)*) => { $crate::made::<$crate::Histogram>() }; }
#[macro_export] macro_rules! register_histogram_vec { ($($t:tt)*) => { $crate::made::<$crate::HistogramVec>() }; }
#[macro_export] macro_rules! register_int_counter { ($($t:tt)*) => { $crate::made::<$crate::IntCounter>() }; }
#[macro_export] macro_rules! register_int_counter_vec { ($($t:tt)*) => { $crate::made::<$crate::IntCounterVec>() }; }
#[macro_export] macro_rules! register_int_gauge { ($($t:tt)*) => { $crate::made::<$crate::IntGauge>() }; }
#[macro_export] macro_rules! register_int_gauge_vec { ($($t:tt)*) => { $crate::made::<$crate::IntGaugeVec>() }; }
