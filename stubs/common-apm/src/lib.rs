//! common/apm with its metrics, and the signatures of its tracing (which needs crates that are not here). Never run.
pub mod metrics;
pub mod tracing;
pub mod server { pub async fn run_prometheus_server(_: std::net::SocketAddr) { unimplemented!() } }
pub use common_apm_derive::{metrics_rpc, trace_span};
pub use prometheus;
pub use prometheus_static_metric;
pub use rustracing_jaeger::span::TraceId;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct Instant(());
impl Instant {
    pub fn now() -> Self { unimplemented!() }
    pub fn elapsed(&self) -> std::time::Duration { unimplemented!() }
    pub fn duration_since(&self, _: Instant) -> std::time::Duration { unimplemented!() }
}
