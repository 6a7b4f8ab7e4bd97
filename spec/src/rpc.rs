//! The JSON-RPC client of CKB, its indexer and Mercury.
use ckb_jsonrpc_types::{BlockNumber, BlockView, HeaderView, JsonBytes, OutputsValidator, Transaction, TransactionView, TxStatus, Uint32};
use ckb_sdk::rpc::ckb_indexer::{Cell, Order, Pagination, SearchKey};
use ckb_types::H256;
use futures::FutureExt;
use jsonrpc_core::response::Output;
use protocol::traits::{Context, RPC};
use protocol::types::{CrossChainTransferPayload, SubmitCheckpointPayload, TransactionCompletionResponse};
use protocol::{tokio, ProtocolError, ProtocolErrorKind, ProtocolResult};
use reqwest::{Client, Url};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub struct RpcClient {
    raw: Client,
    ckb_uri: Url,
    mercury_uri: Url,
    indexer_uri: Url,
    id: Arc<AtomicU64>,
}

pub fn new(ckb: &str, mercury: &str, indexer: &str) -> RpcClient {
    RpcClient {
        ckb_uri: Url::parse(ckb).unwrap(),
        mercury_uri: Url::parse(mercury).unwrap(),
        indexer_uri: Url::parse(indexer).unwrap(),
        raw: Client::new(),
        id: Arc::new(AtomicU64::new(0)),
    }
}

/// Each request has a number of its own; whatever the server answers, no panic.
fn request<R: DeserializeOwned>(c: &RpcClient, url: &Url, method: &str, params: serde_json::Value) -> impl Future<Output = ProtocolResult<R>> {
    let id = c.id.fetch_add(1, Ordering::Relaxed);
    let data = serde_json::json!({"id": id, "jsonrpc": "2.0", "method": method, "params": params});
    let r = c.raw.post(url.clone()).json(&data);
    async {
        let e = |e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e));
        let resp = r.send().await.map_err(e)?;
        match resp.json::<Output>().await.map_err(e)? {
            Output::Success(s) => serde_json::from_value::<R>(s.result).map_err(|e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e))),
            Output::Failure(e) => Err(ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(std::fmt::Error))),
        }
    }
}

fn params(p: impl Serialize) -> serde_json::Value {
    serde_json::to_value(p).unwrap()
}

pub fn get_block_by_number(c: &RpcClient, _: Context, number: BlockNumber) -> RPC<BlockView> {
    request(c, &c.ckb_uri, "get_block_by_number", params((number,))).boxed()
}

pub fn get_tip_header(c: &RpcClient, _: Context) -> RPC<HeaderView> {
    request(c, &c.ckb_uri, "get_tip_header", params(())).boxed()
}

#[derive(Deserialize)]
struct TransactionWithStatusResponse {
    transaction: Option<TransactionView>,
    tx_status: TxStatus,
}

fn transaction(c: &RpcClient, hash: &H256) -> impl Future<Output = ProtocolResult<Option<TransactionView>>> {
    let r = request::<TransactionWithStatusResponse>(c, &c.ckb_uri, "get_transaction", params((hash,)));
    async { Ok(r.await?.transaction) }
}

pub fn get_transaction(c: &RpcClient, _: Context, hash: &H256) -> RPC<Option<TransactionView>> {
    transaction(c, hash).boxed()
}

pub fn send_transaction(c: &RpcClient, _: Context, tx: &Transaction, validator: Option<OutputsValidator>) -> RPC<H256> {
    request(c, &c.ckb_uri, "send_transaction", params((tx, validator))).boxed()
}

/// In the order of the hashes, of which there may be none.
pub fn get_txs_by_hashes(c: &RpcClient, _: Context, hashes: Vec<H256>) -> RPC<Vec<Option<TransactionView>>> {
    let mut tasks = Vec::new();
    for h in hashes {
        tasks.push(tokio::spawn(transaction(c, &h)));
    }
    async {
        let mut res = Vec::new();
        for t in tasks {
            res.push(t.await.unwrap()?);
        }
        Ok(res)
    }
    .boxed()
}

pub fn build_cross_chain_transfer_transaction(c: &RpcClient, _: Context, payload: CrossChainTransferPayload) -> RPC<TransactionCompletionResponse> {
    request(c, &c.mercury_uri, "build_cross_chain_transfer_transaction", params((payload,))).boxed()
}

pub fn build_submit_checkpoint_transaction(c: &RpcClient, _: Context, payload: SubmitCheckpointPayload) -> RPC<TransactionCompletionResponse> {
    request(c, &c.mercury_uri, "build_submit_checkpoint_transaction", params((payload,))).boxed()
}

pub fn fetch_live_cells(c: &RpcClient, _: Context, key: SearchKey, limit: u32, cursor: Option<JsonBytes>) -> RPC<Pagination<Cell>> {
    request(c, &c.indexer_uri, "get_cells", params((key, Order::Asc, Uint32::from(limit), cursor))).boxed()
}
