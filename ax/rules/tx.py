"""Transactions: types, encodings, hashes, senders, fees."""
P = "types::transaction"
U, V, S, G = f"in:{P}::UnsignedTransaction", f"in:{P}::UnverifiedTransaction", f"in:{P}::SignatureComponents", f"in:{P}::SignedTransaction"
ENC, DEC = f"tr:rlp::traits::Encodable:{P}::", f"tr:rlp::traits::Decodable:{P}::"
KINDS = (("Legacy", "legacy"), ("Eip2930", "eip2930"), ("Eip1559", "eip1559"))


def specs(*l, **k):
    def f(ctx):
        for spec, target in l:
            ctx.same(spec, target, **k)
    return f


HASHING = (
    ("tx::signature_hash", V + "::signature_hash"),
    ("tx::get_hash", V + "::get_hash"),
    ("tx::calc_hash", V + "::calc_hash"),
    ("tx::check_hash", V + "::check_hash"),
    ("tx::unsigned_encode", U + "::encode"),
    ("tx::unverified_append", f"{ENC}UnverifiedTransaction:rlp_append"),
    ("tx::unverified_bytes", f"{ENC}UnverifiedTransaction:rlp_bytes"),
)
LEGACY_V = (
    ("tx::legacy_v", S + "::add_chain_replay_protection"),
    ("tx::standard_v", S + "::extract_standard_v"),
    ("tx::chain_id_of", S + "::extract_chain_id"),
)
DECODING = (
    *((f"tx::{l}_decode", f"tr:rlp::traits::Decodable:{P}::{k}Transaction:decode") for k, l in ()),
    ("tx::unverified_decode", f"{DEC}UnverifiedTransaction:decode"),
    ("tx::signed_decode", f"{DEC}SignedTransaction:decode"),
)
RULES = {
    "C01": specs(
        ("tx::sig_append", f"{ENC}SignatureComponents:rlp_append"),
        *HASHING[4:], *DECODING,
        ("tx::signed_append", f"{ENC}SignedTransaction:rlp_append"),
    ),
    "C03": specs(*HASHING, *LEGACY_V,
        ("tx::type_", U + "::type_"),
        ("tx::as_u8", U + "::as_u8"),
        ("tx::is_legacy", U + "::is_legacy"),
        ("tx::is_eip1559", U + "::is_eip1559"),
        ("tx::signed_type", G + "::type_"),
        ("tx::is_eip155", G + "::is_eip155"),
        ("tx::encode_receipt", G + "::encode_receipt"),
    ),
    "C04": specs(*DECODING, *LEGACY_V,
        ("tx::recover_public", V + "::recover_public"),
        ("tx::from_unverified", G + "::from_unverified"),
        ("tx::address_of", f"fn:{P}::public_to_address"),
        ("tx::intact_pub_key", f"fn:{P}::recover_intact_pub_key"),
        ("tx::interop_sender", S + "::extract_interoperation_tx_sender"),
        ("tx::is_eth_sig", S + "::is_eth_sig"),
        ("tx::sig_bytes", S + "::as_bytes"),
        ("tx::sig_into_bytes", f"tr:core::convert::From:bytes::bytes::Bytes:from:{P}::SignatureComponents"),
        ("tx::sig_from_bytes", f"tr:core::convert::From:{P}::SignatureComponents:from:bytes::bytes::Bytes"),
    ),
    "C26": specs(
        *((f"tx::{n}", U + "::" + n) for n in "to action data value nonce gas_limit gas_price access_list get_legacy set_action set_data may_cost".split()),
        ("tx::priority_fee", U + "::max_priority_fee_per_gas"),
        ("tx::signed_to", G + "::get_to"),
        *((f"tx::{l}_to", f"in:{P}::{k}Transaction::get_to") for k, l in KINDS),
    ),
}
