//! What the other crates use of core/network, as signatures. Never run.
use protocol::{traits::Context, types::Bytes, ProtocolError};
#[derive(Debug)] pub enum NetworkError { InvalidPeerId }
impl std::fmt::Display for NetworkError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for NetworkError {}
impl From<NetworkError> for ProtocolError { fn from(_: NetworkError) -> ProtocolError { unimplemented!() } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct PeerId(());
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct SessionId(usize);
impl SessionId { pub fn value(&self) -> usize { unimplemented!() } }
pub struct ConnectedAddr(());
pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(_: B) -> Result<PeerId, NetworkError> { unimplemented!() }
    fn from_bytes<'a, B: AsRef<[u8]> + 'a>(_: B) -> Result<PeerId, NetworkError> { unimplemented!() }
    fn to_string(&self) -> String;
    fn into_bytes_ext(self) -> Bytes;
}
impl PeerIdExt for PeerId {
    fn to_string(&self) -> String { unimplemented!() }
    fn into_bytes_ext(self) -> Bytes { unimplemented!() }
}
pub trait NetworkContext: Sized {
    fn session_id(&self) -> Result<SessionId, NetworkError>;
    fn remote_peer_id(&self) -> Result<PeerId, NetworkError>;
    fn remote_connected_addr(&self) -> Option<ConnectedAddr>;
    fn rpc_id(&self) -> Result<u64, NetworkError>;
    fn url(&self) -> Result<&str, NetworkError>;
}
impl NetworkContext for Context {
    fn session_id(&self) -> Result<SessionId, NetworkError> { unimplemented!() }
    fn remote_peer_id(&self) -> Result<PeerId, NetworkError> { unimplemented!() }
    fn remote_connected_addr(&self) -> Option<ConnectedAddr> { unimplemented!() }
    fn rpc_id(&self) -> Result<u64, NetworkError> { unimplemented!() }
    fn url(&self) -> Result<&str, NetworkError> { unimplemented!() }
}
// what core/run needs to start a node
use protocol::{async_trait, traits::{Gossip, MessageCodec, MessageHandler, Network, PeerTag, PeerTrust, Priority, Rpc, TrustFeedback}, ProtocolResult};
#[derive(Debug)] pub struct SecioError(());
#[derive(Clone, Debug)] pub struct SecioKeyPair(());
#[async_trait]
pub trait KeyProvider: Clone + Send + Sync + 'static {
    type Error: Into<SecioError>;
    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn sign_ecdsa<T: AsRef<[u8]>>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn pubkey(&self) -> Vec<u8>;
    fn verify_ecdsa<P, T, F>(&self, pubkey: P, message: T, signature: F) -> bool where P: AsRef<[u8]>, T: AsRef<[u8]>, F: AsRef<[u8]>;
}
#[async_trait]
impl KeyProvider for SecioKeyPair {
    type Error = SecioError;
    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, _: T) -> Result<Vec<u8>, SecioError> { unimplemented!() }
    fn sign_ecdsa<T: AsRef<[u8]>>(&self, _: T) -> Result<Vec<u8>, SecioError> { unimplemented!() }
    fn pubkey(&self) -> Vec<u8> { unimplemented!() }
    fn verify_ecdsa<P, T, F>(&self, _: P, _: T, _: F) -> bool where P: AsRef<[u8]>, T: AsRef<[u8]>, F: AsRef<[u8]> { unimplemented!() }
}
pub async fn observe_listen_port_occupancy(_: &[tentacle_multiaddr::MultiAddr]) -> Result<(), NetworkError> { unimplemented!() }
pub struct NetworkConfig { pub secio_keypair: SecioKeyPair }
impl NetworkConfig { pub fn from_config(_: &common_config_parser::types::Config, _: u64) -> ProtocolResult<Self> { unimplemented!() } }
pub struct NetworkService<K>(K);
impl<K: KeyProvider> NetworkService<K> {
    pub fn new(_: NetworkConfig, _: K) -> Self { unimplemented!() }
    pub fn register_endpoint_handler<M: MessageCodec>(&mut self, _: &str, _: impl MessageHandler<Message = M>) -> ProtocolResult<()> { unimplemented!() }
    pub fn register_rpc_response(&mut self, _: &str) -> ProtocolResult<()> { unimplemented!() }
    pub fn handle(&self) -> NetworkServiceHandle { unimplemented!() }
    pub async fn run(self) { unimplemented!() }
}
#[derive(Clone)] pub struct NetworkServiceHandle(());
#[async_trait]
impl Gossip for NetworkServiceHandle {
    async fn broadcast<M>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { unimplemented!() }
    async fn gossip<M>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { unimplemented!() }
    async fn multicast<'a, M, P>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a { unimplemented!() }
}
#[async_trait]
impl Rpc for NetworkServiceHandle {
    async fn call<M, R>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<R> where M: MessageCodec, R: MessageCodec { unimplemented!() }
    async fn response<M>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> where M: MessageCodec { unimplemented!() }
}
impl PeerTrust for NetworkServiceHandle { fn report(&self, _: Context, _: TrustFeedback) {} }
impl Network for NetworkServiceHandle {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> { unimplemented!() }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> { unimplemented!() }
    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> { unimplemented!() }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> { unimplemented!() }
}
