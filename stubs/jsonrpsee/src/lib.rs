//! Signatures of jsonrpsee's server. Never run.
pub use async_trait::async_trait;
pub use jsonrpsee_types as types;
pub mod proc_macros { pub use jsonrpsee_rpc::rpc; }
pub mod core { pub type RpcResult<T> = std::result::Result<T, crate::types::ErrorObjectOwned>; }
pub mod server {
    use crate::types::{ErrorObjectOwned, Params, SubscriptionId};
    use std::{future::Future, marker::PhantomData, sync::Arc};

    #[derive(Debug)] pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for Error {}

    pub struct Methods;
    pub struct RpcModule<C> { ctx: Arc<C> }
    impl<C> Clone for RpcModule<C> { fn clone(&self) -> Self { unimplemented!() } }
    impl<C> From<RpcModule<C>> for Methods { fn from(_: RpcModule<C>) -> Methods { unimplemented!() } }
    impl<C: Send + Sync + 'static> RpcModule<C> {
        pub fn new(ctx: C) -> Self { RpcModule { ctx: Arc::new(ctx) } }
        pub fn register_method<R, F: Fn(Params<'_>, &C) -> R + Send + Sync + 'static>(&mut self, _: &'static str, _: F) -> Result<(), Error> { unimplemented!() }
        pub fn register_async_method<R, Fut: Future<Output = R> + Send, F: Fn(Params<'static>, Arc<C>) -> Fut + Clone + Send + Sync + 'static>(&mut self, _: &'static str, _: F) -> Result<(), Error> { unimplemented!() }
        pub fn register_subscription<R: IntoSubscriptionCloseResponse + Send, Fut: Future<Output = R> + Send + 'static, F: Fn(Params<'static>, PendingSubscriptionSink, Arc<C>) -> Fut + Clone + Send + Sync + 'static>(&mut self, _: &'static str, _: &'static str, _: &'static str, _: F) -> Result<(), Error> { unimplemented!() }
        pub fn merge(&mut self, _: impl Into<Methods>) -> Result<(), Error> { unimplemented!() }
    }

    #[derive(Debug, Clone)] pub struct SubscriptionMessage(());
    impl SubscriptionMessage {
        pub fn from_json(_: &impl serde::Serialize) -> Result<Self, SerializeError> { unimplemented!() }
    }
    #[derive(Debug)] pub struct SerializeError;
    #[derive(Debug)] pub struct DisconnectError;
    #[derive(Debug)] pub struct TrySendError;
    #[derive(Debug)] pub struct PendingSubscriptionAcceptError;
    #[derive(Debug)] pub struct SubscriptionError;
    impl From<PendingSubscriptionAcceptError> for SubscriptionError { fn from(_: PendingSubscriptionAcceptError) -> Self { SubscriptionError } }
    pub struct PendingSubscriptionSink(());
    impl PendingSubscriptionSink {
        pub async fn accept(self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> { unimplemented!() }
        pub async fn reject(self, _: impl Into<ErrorObjectOwned>) { unimplemented!() }
    }
    #[derive(Debug, Clone)] pub struct SubscriptionSink(());
    impl SubscriptionSink {
        pub async fn send(&self, _: SubscriptionMessage) -> Result<(), DisconnectError> { unimplemented!() }
        pub fn try_send(&mut self, _: SubscriptionMessage) -> Result<(), TrySendError> { unimplemented!() }
        pub fn is_closed(&self) -> bool { unimplemented!() }
    }
    pub trait IntoSubscriptionCloseResponse {}
    impl IntoSubscriptionCloseResponse for () {}
    impl IntoSubscriptionCloseResponse for Result<(), SubscriptionError> {}
    pub trait IdProvider: Send + Sync + std::fmt::Debug { fn next_id(&self) -> SubscriptionId<'static>; }

    pub struct ServerHandle(());
    pub struct Identity;
    pub struct ServerBuilder<B = Identity>(PhantomData<B>);
    impl ServerBuilder<Identity> { pub fn new() -> Self { unimplemented!() } }
    impl<B> ServerBuilder<B> {
        pub fn http_only(self) -> Self { unimplemented!() }
        pub fn ws_only(self) -> Self { unimplemented!() }
        pub fn max_request_body_size(self, _: u32) -> Self { unimplemented!() }
        pub fn max_response_body_size(self, _: u32) -> Self { unimplemented!() }
        pub fn max_connections(self, _: u32) -> Self { unimplemented!() }
        pub fn set_id_provider<I: IdProvider + 'static>(self, _: I) -> Self { unimplemented!() }
        pub fn set_middleware<T>(self, _: T) -> ServerBuilder<T> { unimplemented!() }
        pub async fn build(self, _: impl std::net::ToSocketAddrs) -> Result<Server<B>, Error> { unimplemented!() }
    }
    pub struct Server<B>(PhantomData<B>);
    impl<B> Server<B> { pub fn start(self, _: impl Into<Methods>) -> ServerHandle { unimplemented!() } }
}
