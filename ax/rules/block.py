"""Blocks, proposals, receipts, execution contexts."""
from .tx import specs
B = "types::block"


def enc(t, a, d):
    return [(a, f"tr:rlp::traits::Encodable:{t}:rlp_append"), (d, f"tr:rlp::traits::Decodable:{t}:decode")]


LAYOUT = [x for t, a in ((f"{B}::BlockVersion", "version"), (f"{B}::Proposal", "proposal"), (f"{B}::Header", "header"), (f"{B}::Block", "block"),
                         (f"{B}::ExtraData", "extra"), (f"{B}::Proof", "proof"), ("types::executor::TxResp", "tx_resp"),
                         ("types::receipt::Receipt", "receipt"), ("types::executor::ExecutorContext", "ctx"))
          for x in enc(t, f"block::{a}_append", f"block::{a}_decode")]
RULES = {
    "C01": specs(*LAYOUT,
        ("block::proposal_codec_encode", "tr:overlord::Codec:types::block::Proposal:encode"),
        ("block::proposal_codec_decode", "tr:overlord::Codec:types::block::Proposal:decode"),
    ),
    "C02": specs(
        ("block::proposal_hash", f"in:{B}::Proposal::hash"),
        ("block::header_hash", f"in:{B}::Header::hash"),
        ("block::block_hash", f"in:{B}::Block::hash"),
        ("block::header_size", f"in:{B}::Header::size"),
        ("block::proposal_of", f"in:{B}::Proposal::new_with_state_root"),
        ("block::proposal_without", f"in:{B}::Proposal::new_without_state_root"),
    ),
    "C23": specs(
        ("block::block_new", f"in:{B}::Block::new"),
        ("block::receipts", f"in:{B}::Block::generate_receipts_and_logs"),
        ("block::rich_receipts", f"in:{B}::RichBlock::generate_receipts_and_logs"),
        ("block::receipt_status", "in:types::receipt::Receipt::status"),
        ("block::ctx_of_header", "tr:core::convert::From:types::executor::ExecutorContext:from:&types::block::Header"),
        ("block::ctx_of_proposal", "tr:core::convert::From:types::executor::ExecutorContext:from:types::block::Proposal"),
        ("block::bloom", "fn:types::executor::logs_bloom"),
    ),
    "C22": specs(
        ("block::version_u8", f"tr:core::convert::From:u8:from:{B}::BlockVersion"),
        ("block::version_of", f"tr:core::convert::TryFrom:{B}::BlockVersion:try_from"),
    ),
}
