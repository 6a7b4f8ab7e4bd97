use arc_swap::ArcSwap;
use protocol::traits::Context;
use std::{borrow::Cow, sync::Arc};
pub use rustracing_jaeger::span::{SpanContext, SpanContextState, TraceId};
pub struct Tag;
impl Tag { pub fn new<N: Into<Cow<'static, str>>, V>(_: N, _: V) -> Tag { Tag } }
pub struct LogField;
impl LogField { pub fn new<N: Into<Cow<'static, str>>, V: Into<Cow<'static, str>>>(_: N, _: V) -> LogField { LogField } }
pub struct Log;
impl Log { pub fn time<T>(&mut self, _: T) -> &mut Self { self } pub fn field<T>(&mut self, _: T) -> &mut Self { self } }
pub struct Span;
impl Span {
    pub fn set_tag<F: FnOnce() -> Tag>(&mut self, _: F) {}
    pub fn log<F: FnOnce(&mut Log)>(&mut self, _: F) {}
    pub fn context(&self) -> Option<&SpanContext> { unimplemented!() }
}
pub struct AxonTracer(());
lazy_static::lazy_static! { pub static ref TRACER: ArcSwap<AxonTracer> = ArcSwap::new(Arc::new(AxonTracer(()))); }
#[derive(Debug)] pub struct TraceError;
impl std::fmt::Display for TraceError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for TraceError {}
impl AxonTracer {
    pub fn child_of_span<N: Into<Cow<'static, str>>>(&self, _: N, _: SpanContext, _: Vec<Tag>) -> Option<Span> { unimplemented!() }
    pub fn span<N: Into<Cow<'static, str>>>(&self, _: N, _: Vec<Tag>) -> Option<Span> { unimplemented!() }
    pub fn new_state(_: TraceId, _: u64) -> SpanContextState { unimplemented!() }
    pub fn span_state(_: &Context) -> Option<SpanContextState> { unimplemented!() }
    pub fn inject_span_state(_: Context, _: SpanContextState) -> Context { unimplemented!() }
    pub fn str_to_trace(_: &str) -> Result<TraceId, TraceError> { unimplemented!() }
}
pub fn global_tracer_register(_: &str, _: std::net::SocketAddr, _: usize) { unimplemented!() }
impl Default for AxonTracer { fn default() -> Self { unimplemented!() } }
