"""The JSON-RPC client."""
from .tx import specs
R = "core_rpc_client::client::RpcClient"
K = f"tr:axon_protocol::traits::ckb_client::CkbClient:{R}:"
RULES = {"C17": specs(("rpc::new", f"in:{R}::new"),
                      *((f"rpc::{n}", K + n) for n in "get_block_by_number get_tip_header get_transaction send_transaction get_txs_by_hashes "
                        "build_cross_chain_transfer_transaction build_submit_checkpoint_transaction fetch_live_cells".split()))}
