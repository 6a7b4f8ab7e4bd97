//! core/api: logs, filters and subscriptions.
use crate::api::web3::Web3RpcImpl;
use crate::api::{no, up};
use core_api::jsonrpc::web3_types::*;
use jsonrpsee::core::RpcResult;
use protocol::tokio::{self, select, sync::{mpsc, oneshot}, time::interval};
use protocol::traits::{APIAdapter, Context};
use protocol::types::*;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// At most this many logs are collected before the search ends.
const MAX_LOG_NUM: usize = 10000;
type Topics = Vec<Option<Vec<Option<Hash>>>>;

/// A log is wanted if it has at least as many topics as were asked for and each is one of those named; a position left open takes every topic.
fn wanted(topics: &[Option<Vec<Option<Hash>>>], log: &Log) -> bool {
    let named = |i: usize| match topics[i].as_ref() {
        Some(l) => l.contains(&None) || l.contains(&Some(log.topics[i])),
        None => true,
    };
    topics.is_empty()
        || topics.len() == 1 && log.topics.len() >= 1 && named(0)
        || topics.len() == 2 && log.topics.len() >= 2 && named(0) && named(1)
        || topics.len() == 3 && log.topics.len() >= 3 && named(0) && named(1) && named(2)
        || topics.len() == 4 && log.topics.len() >= 4 && named(0) && named(1) && named(2) && named(3)
}

pub fn picked(index: usize, topics: &[Option<Vec<Option<Hash>>>], address: &[H160], receipt: &Receipt, out: &mut Vec<Web3Log>) {
    for (i, log) in receipt.logs.iter().enumerate() {
        if (address.is_empty() || address.contains(&log.address)) && wanted(topics, log) {
            out.push(Web3Log {
                address: log.address,
                topics: log.topics.clone(),
                data: Hex::encode(&log.data),
                block_hash: Some(receipt.block_hash),
                block_number: Some(receipt.block_number.into()),
                transaction_hash: Some(receipt.tx_hash),
                transaction_index: Some(index.into()),
                log_index: Some((receipt.log_index as usize + i).into()),
                removed: false,
            });
        }
    }
}

fn at(id: &BlockId, latest: u64) -> u64 {
    match id { BlockId::Num(n) => n.low_u64(), BlockId::Earliest => 0, _ => latest }
}

async fn of_block<A: APIAdapter>(a: &A, block: &Block, topics: &Topics, address: Option<&Vec<H160>>, out: &mut Vec<Web3Log>, full: &mut bool) -> RpcResult<()> {
    let receipts = up(a.get_receipts_by_hashes(Context::new(), block.header.number, &block.tx_hashes).await)?;
    for (i, receipt) in receipts.into_iter().flatten().enumerate() {
        picked(i, topics, address.as_ref().unwrap_or(&&Vec::new()), &receipt, out);
        if out.len() > MAX_LOG_NUM {
            *full = true;
            return Ok(());
        }
    }
    Ok(())
}

pub async fn get_logs<Adapter: APIAdapter + 'static>(s: &Web3RpcImpl<Adapter>, filter: Web3Filter) -> RpcResult<Vec<Web3Log>> {
    let topics: Topics = match filter.topics { Some(t) => t.into_iter().take(4).map(|t| t.into()).collect(), None => Vec::new() };
    let address: Option<Vec<H160>> = filter.address.into();
    let mut out = Vec::new();
    let mut full = false;
    if let Some(hash) = filter.block_hash {
        match up(s.adapter.get_block_by_hash(Context::new(), hash).await)? {
            Some(b) => of_block(&*s.adapter, &b, &topics, address.as_ref(), &mut out, &mut full).await?,
            None => return no(),
        }
        return Ok(out);
    }
    let last = up(s.adapter.get_block_by_number(Context::new(), None).await)?.unwrap();
    let latest = last.header.number;
    let start = match filter.from_block { Some(id) => at(&id, latest), None => latest };
    let end = std::cmp::min(match filter.to_block { Some(id) => at(&id, latest), None => latest }, latest);
    if start > latest {
        return no();
    }
    if end.saturating_sub(start) > s.log_filter_max_block_range {
        return no();
    }
    let mut with_last = false;
    for n in start..=end {
        if n == latest {
            with_last = true;
        } else {
            let b = up(s.adapter.get_block_by_number(Context::new(), Some(n)).await)?.unwrap();
            of_block(&*s.adapter, &b, &topics, address.as_ref(), &mut out, &mut full).await?;
            if full {
                return Ok(out);
            }
        }
    }
    if with_last {
        of_block(&*s.adapter, &last, &topics, address.as_ref(), &mut out, &mut full).await?;
    }
    Ok(out)
}

pub mod filter {
    use super::*;
    use protocol::rand::prelude::*;
    use std::collections::HashMap;

    pub struct LoggerFilter {
        pub from_block: Option<BlockId>,
        pub to_block:   Option<BlockId>,
        pub address:    Option<Vec<H160>>,
        pub topics:     Topics,
    }
    pub struct AxonWeb3RpcFilter {
        pub sender: mpsc::Sender<Command>,
    }
    pub enum Command {
        NewLogs((LoggerFilter, oneshot::Sender<U256>)),
        NewBlocks(oneshot::Sender<U256>),
        FilterRequest((U256, oneshot::Sender<RpcResult<FilterChanges>>)),
        Uninstall((U256, oneshot::Sender<bool>)),
    }
    pub struct FilterHub<Adapter> {
        pub logs_hub:                   HashMap<U256, (LoggerFilter, Instant)>,
        pub blocks_hub:                 HashMap<U256, (BlockNumber, Instant)>,
        pub recv:                       mpsc::Receiver<Command>,
        pub adapter:                    Arc<Adapter>,
        pub log_filter_max_block_range: u64,
    }

    pub fn meant(f: RawLoggerFilter) -> LoggerFilter {
        LoggerFilter {
            from_block: f.from_block,
            to_block:   f.to_block,
            address:    f.address.into(),
            topics:     match f.topics { Some(t) => t.into_iter().take(4).map(|t| t.into()).collect(), None => Vec::new() },
        }
    }

    // what a client asks for reaches the hub, whose answer is the answer

    pub async fn new_filter(s: &AxonWeb3RpcFilter, f: RawLoggerFilter) -> RpcResult<U256> {
        if let Some(BlockId::Pending) = f.from_block {
            return no();
        }
        match f.to_block {
            Some(BlockId::Earliest) | Some(BlockId::Num(U64([0]))) => return no(),
            _ => (),
        }
        let (tx, rx) = oneshot::channel();
        if s.sender.send(Command::NewLogs((meant(f), tx))).await.is_err() {
            return no();
        }
        Ok(rx.await.unwrap())
    }
    pub async fn block_filter(s: &AxonWeb3RpcFilter) -> RpcResult<U256> {
        let (tx, rx) = oneshot::channel();
        if s.sender.send(Command::NewBlocks(tx)).await.is_err() {
            return no();
        }
        Ok(rx.await.unwrap())
    }
    pub async fn changes(s: &AxonWeb3RpcFilter, id: U256) -> RpcResult<FilterChanges> {
        let (tx, rx) = oneshot::channel();
        if s.sender.send(Command::FilterRequest((id, tx))).await.is_err() {
            return no();
        }
        rx.await.unwrap()
    }
    pub async fn uninstall(s: &AxonWeb3RpcFilter, id: U256) -> RpcResult<bool> {
        let (tx, rx) = oneshot::channel();
        if s.sender.send(Command::Uninstall((id, tx))).await.is_err() {
            return no();
        }
        Ok(rx.await.unwrap())
    }

    // the hub

    pub fn new<Adapter: APIAdapter + 'static>(adapter: Arc<Adapter>, recv: mpsc::Receiver<Command>, range: u64) -> FilterHub<Adapter> {
        FilterHub { logs_hub: HashMap::new(), blocks_hub: HashMap::new(), recv, adapter, log_filter_max_block_range: range }
    }
    fn random() -> U256 {
        let b: [u8; 32] = thread_rng().gen();
        U256::from_big_endian(&b)
    }
    /// A filter that nobody asked about for 40 seconds is gone.
    pub fn expire<Adapter: APIAdapter + 'static>(s: &mut FilterHub<Adapter>) {
        let now = Instant::now();
        s.blocks_hub.retain(|_, (_, t)| now.saturating_duration_since(*t) < Duration::from_secs(40));
        s.logs_hub.retain(|_, (_, t)| now.saturating_duration_since(*t) < Duration::from_secs(40))
    }
    pub async fn handle<Adapter: APIAdapter + 'static>(s: &mut FilterHub<Adapter>, cmd: Command) {
        match cmd {
            Command::NewLogs((mut f, tx)) => {
                let id = random();
                let latest = s.adapter.get_block_header_by_number(Context::new(), None).await.unwrap().unwrap().number;
                match f.from_block.as_ref().unwrap_or(&BlockId::Latest) {
                    BlockId::Num(n) => {
                        if n.low_u64() < latest {
                            f.from_block = Some(BlockId::Num(U64::from(latest + 1)));
                        }
                    }
                    _ => f.from_block = Some(BlockId::Num(U64::from(latest + 1))),
                }
                s.logs_hub.insert(id, (f, Instant::now()));
                let _ = tx.send(id);
            }
            Command::NewBlocks(tx) => {
                let id = random();
                let latest = s.adapter.get_block_header_by_number(Context::new(), None).await.unwrap().unwrap().number;
                s.blocks_hub.insert(id, (latest, Instant::now()));
                let _ = tx.send(id);
            }
            Command::FilterRequest((id, tx)) => answer(s, id, tx).await,
            Command::Uninstall((id, tx)) => {
                let gone = s.blocks_hub.remove(&id).is_some() || s.logs_hub.remove(&id).is_some();
                let _ = tx.send(gone);
            }
        }
    }
    /// Requests are handled as they come; every 20 seconds, what nobody asked about is dropped.
    pub async fn run<Adapter: APIAdapter + 'static>(mut s: FilterHub<Adapter>) {
        let mut every = interval(Duration::from_secs(20));
        loop {
            select! {
                event = s.recv.recv() => match event {
                    Some(cmd) => handle(&mut s, cmd).await,
                    None => break,
                },
                _ = every.tick() => expire(&mut s),
                else => break,
            }
        }
    }
    pub async fn answer<Adapter: APIAdapter + 'static>(s: &mut FilterHub<Adapter>, id: U256, tx: oneshot::Sender<RpcResult<FilterChanges>>) {
        if s.blocks_hub.contains_key(&id) {
            let l = blocks(s, &id).await;
            let _ = tx.send(Ok(FilterChanges::Blocks(l)));
        } else if s.logs_hub.contains_key(&id) {
            let l = logs(s, &id).await;
            if l.is_err() {
                s.logs_hub.remove(&id);
            }
            let _ = tx.send(l.map(FilterChanges::Logs));
        } else {
            let _ = tx.send(no());
        }
    }
    /// The hashes of the blocks since the last answer, oldest first.
    pub async fn blocks<Adapter: APIAdapter + 'static>(s: &mut FilterHub<Adapter>, id: &U256) -> Vec<H256> {
        let (start, time) = s.blocks_hub.get_mut(id).unwrap();
        let latest = s.adapter.get_block_by_number(Context::new(), None).await.unwrap().unwrap();
        if *start >= latest.header.number {
            return Vec::new();
        }
        let mut out = Vec::new();
        for n in *start + 1..latest.header.number {
            out.push(s.adapter.get_block_by_number(Context::new(), Some(n)).await.unwrap().unwrap().hash());
        }
        out.push(latest.hash());
        *start = latest.header.number;
        *time = Instant::now();
        out
    }
    /// The logs since the last answer, up to the filter's last block.
    pub async fn logs<Adapter: APIAdapter + 'static>(s: &mut FilterHub<Adapter>, id: &U256) -> RpcResult<Vec<Web3Log>> {
        let (f, time) = s.logs_hub.get_mut(id).unwrap();
        let mut out = Vec::new();
        let last = up(s.adapter.get_block_by_number(Context::new(), None).await)?.unwrap();
        let latest = last.header.number;
        let start = match f.from_block.as_ref() { Some(id) => at(id, latest), None => latest };
        let end = std::cmp::min(match f.to_block.as_ref() { Some(id) => at(id, latest), None => latest }, latest);
        if start > latest {
            return Ok(Vec::new());
        }
        if end.saturating_sub(start) > s.log_filter_max_block_range {
            return no();
        }
        let mut with_last = false;
        for n in start..=end {
            if n == latest {
                with_last = true;
            } else {
                let b = up(s.adapter.get_block_by_number(Context::new(), Some(n)).await)?.unwrap();
                let receipts = up(s.adapter.get_receipts_by_hashes(Context::new(), b.header.number, &b.tx_hashes).await)?;
                for (i, receipt) in receipts.into_iter().flatten().enumerate() {
                    picked(i, f.topics.as_slice(), f.address.as_ref().unwrap_or(&Vec::new()), &receipt, &mut out);
                }
            }
        }
        if with_last {
            let receipts = up(s.adapter.get_receipts_by_hashes(Context::new(), last.header.number, &last.tx_hashes).await)?;
            for (i, receipt) in receipts.into_iter().flatten().enumerate() {
                picked(i, f.topics.as_slice(), f.address.as_ref().unwrap_or(&Vec::new()), &receipt, &mut out);
            }
        }
        if let Some(BlockId::Num(ref mut n)) = f.from_block {
            *n = U64::from(end + 1)
        }
        *time = Instant::now();
        Ok(out)
    }
}

pub mod ws_subscription {
    use super::*;
    use core_consensus::SYNC_STATUS;
    use jsonrpsee::server::{IntoSubscriptionCloseResponse, PendingSubscriptionSink, SubscriptionMessage, SubscriptionSink};
    use jsonrpsee::types::{error::ErrorCode, params::Params, ErrorObjectOwned, SubscriptionId};
    use protocol::types::BigEndianHash;
    use std::sync::atomic::{AtomicU64, Ordering};

    pub enum Type {
        NewHeads,
        Logs(LoggerFilter),
        Syncing,
    }
    #[derive(serde::Deserialize)]
    pub struct RawLoggerFilter {
        pub address: MultiType<H160>,
        pub topics:  Option<Vec<MultiNestType<Hash>>>,
    }
    pub struct LoggerFilter {
        pub address: Option<Vec<H160>>,
        pub topics:  Topics,
    }
    pub struct RawHub {
        pub typ:  Type,
        pub sink: SubscriptionSink,
    }
    pub struct Hub<T> {
        pub filter: T,
        pub sink:   SubscriptionSink,
    }
    pub struct Subscription<Adapter> {
        pub log_hubs:       Vec<Hub<LoggerFilter>>,
        pub header_hubs:    Vec<Hub<()>>,
        pub sync_hubs:      Vec<Hub<()>>,
        pub adapter:        Arc<Adapter>,
        pub current_number: u64,
        pub recv:           mpsc::Receiver<RawHub>,
    }
    #[derive(Debug)]
    pub struct HexIdProvider {
        pub id: AtomicU64,
    }

    pub fn meant(f: RawLoggerFilter) -> LoggerFilter {
        LoggerFilter { address: f.address.into(), topics: match f.topics { Some(t) => t.into_iter().take(4).map(|t| t.into()).collect(), None => Vec::new() } }
    }
    pub fn kind(p: Params<'_>) -> Result<Type, ErrorObjectOwned> {
        let mut rest = p.sequence();
        let name: &str = rest.next()?;
        match name {
            "newHeads" => Ok(Type::NewHeads),
            "syncing" => Ok(Type::Syncing),
            "logs" => {
                let f: RawLoggerFilter = rest.next()?;
                Ok(Type::Logs(meant(f)))
            }
            _ => Err(ErrorCode::MethodNotFound.into()),
        }
    }
    impl jsonrpsee::server::IdProvider for HexIdProvider { fn next_id(&self) -> SubscriptionId<'static> { unimplemented!() } }
    pub fn next_id(s: &HexIdProvider) -> SubscriptionId<'static> {
        let hash: Hash = BigEndianHash::from_uint(&U256::from(s.id.fetch_add(1, Ordering::Acquire)));
        SubscriptionId::Str(beef::Cow::owned(Hex::encode(hash.as_bytes()).as_string()))
    }
    pub async fn new<Adapter: APIAdapter + 'static>(adapter: Arc<Adapter>, recv: mpsc::Receiver<RawHub>) -> Subscription<Adapter> {
        let latest = adapter.get_block_header_by_number(Context::new(), None).await.unwrap().unwrap();
        Subscription { log_hubs: Vec::new(), header_hubs: Vec::new(), sync_hubs: Vec::new(), adapter, current_number: latest.number, recv }
    }
    /// Every block since the last time, in order, is told to every client that asked for what is in it.
    pub async fn notify<Adapter: APIAdapter + 'static>(s: &mut Subscription<Adapter>) {
        s.header_hubs.retain(|hub| !hub.sink.is_closed());
        s.sync_hubs.retain(|hub| !hub.sink.is_closed());
        s.log_hubs.retain(|hub| !hub.sink.is_closed());
        let last = s.adapter.get_block_by_number(Context::new(), None).await.unwrap().unwrap();
        if s.current_number == last.header.number {
            return;
        }
        let mut blocks = Vec::new();
        let latest = last.header.number;
        if !s.header_hubs.is_empty() {
            for n in s.current_number + 1..last.header.number {
                let b = s.adapter.get_block_by_number(Context::new(), Some(n)).await.unwrap().unwrap();
                blocks.push((b.header.number, b.tx_hashes));
                let msg = SubscriptionMessage::from_json(&Web3Header::from(b.header)).unwrap();
                for hub in s.header_hubs.iter_mut() {
                    let _ = hub.sink.send(msg.clone()).await;
                }
            }
            let msg = SubscriptionMessage::from_json(&Web3Header::from(last.header)).unwrap();
            for hub in s.header_hubs.iter_mut() {
                let _ = hub.sink.send(msg.clone()).await;
            }
        }
        if !s.sync_hubs.is_empty() {
            let state: Web3SyncStatus = { SYNC_STATUS.read().clone().into() };
            let msg = SubscriptionMessage::from_json(&state).unwrap();
            for hub in s.sync_hubs.iter_mut() {
                let _ = hub.sink.send(msg.clone()).await;
            }
        }
        if !s.log_hubs.is_empty() {
            if blocks.is_empty() {
                for n in s.current_number + 1..latest {
                    let b = s.adapter.get_block_by_number(Context::new(), Some(n)).await.unwrap().unwrap();
                    blocks.push((b.header.number, b.tx_hashes));
                }
            }
            blocks.push((latest, last.tx_hashes));
            for (number, hashes) in blocks {
                let receipts = s.adapter.get_receipts_by_hashes(Context::new(), number, &hashes).await.unwrap();
                let mut logs = Vec::new();
                for (i, receipt) in receipts.into_iter().flatten().enumerate() {
                    for hub in s.log_hubs.iter_mut() {
                        picked(i, hub.filter.topics.as_slice(), hub.filter.address.as_ref().unwrap_or(&Vec::new()), &receipt, &mut logs);
                        for log in logs.drain(..) {
                            let msg = SubscriptionMessage::from_json(&log).unwrap();
                            let _ = hub.sink.send(msg).await;
                        }
                    }
                }
            }
        }
        s.current_number = latest;
    }

    pub async fn subscribed(params: Params<'static>, sink: PendingSubscriptionSink, hub: Arc<mpsc::Sender<RawHub>>) -> impl IntoSubscriptionCloseResponse {
        match kind(params) {
            Ok(typ) => {
                let new = RawHub { typ, sink: sink.accept().await? };
                tokio::spawn(async move {
                    let _ = hub.send(new).await;
                });
                Ok(())
            }
            Err(e) => {
                sink.reject(e).await;
                Ok(())
            }
        }
    }
    pub async fn run<Adapter: APIAdapter + 'static>(mut s: Subscription<Adapter>) {
        let mut every = interval(Duration::from_secs(3));
        loop {
            select! {
                event = s.recv.recv() => match event {
                    Some(hub) => match hub.typ {
                        Type::NewHeads => s.header_hubs.push(Hub { filter: (), sink: hub.sink }),
                        Type::Logs(filter) => s.log_hubs.push(Hub { filter, sink: hub.sink }),
                        Type::Syncing => s.sync_hubs.push(Hub { filter: (), sink: hub.sink }),
                    },
                    None => break,
                },
                _ = every.tick() => notify(&mut s).await,
                else => break,
            }
        }
    }
}
