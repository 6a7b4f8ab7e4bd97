"""Input that comes from outside never makes a decoder or parser panic."""
from ..engine import Engine
from .. import panics
from ..check import Undecided

TRAITS = [("rlp::traits::Decodable", "decode"), ("core::str::traits::FromStr", "from_str"), ("serde::de::Deserialize", "deserialize"),
          ("core::convert::TryFrom", "try_from"), ("ProtocolCodec", "decode"), ("overlord::Codec", "decode")]
CRATES = ("axon_protocol", "axon_tools", "common_version")
FNS = ["axon_protocol::codec::hex_decode", "axon_protocol::codec::deserialize_address", "axon_protocol::codec::deserialize_256bits_key",
       "axon_tools::hex::hex_decode", "axon_tools::types::decode::deserialize_hex_u32", "axon_tools::types::decode::deserialize_hex_u64",
       "axon_tools::proof::verify_proof", "axon_tools::proof::verify_trie_proof", "axon_tools::precompile::verify_proof",
       "axon_protocol::types::transaction::SignedTransaction::from_unverified",
       "axon_protocol::types::transaction::UnverifiedTransaction::recover_public",
       "axon_protocol::types::transaction::UnverifiedTransaction::check_hash",
       "axon_protocol::types::transaction::SignatureComponents::extract_standard_v",
       "axon_protocol::types::transaction::SignatureComponents::extract_chain_id",
       "axon_protocol::types::transaction::public_to_address",
       "axon_protocol::types::transaction::recover_intact_pub_key"]


def entries(ctx):
    F = ctx.F
    out = []
    for tr, m in TRAITS:
        for i in F.trait_impls(tr):
            if i["crate"] in CRATES:
                out += [p for n, p in i["items"] if n == m]
    out += [p for p in FNS if p in F.fns]
    return sorted({p for p in out if p in F.fns and "__" not in p})


def nopanic(ctx):
    sites = {}      # (fn, kind, place) -> verdicts
    for e in entries(ctx):
        L = []
        E = Engine(ctx.F, on_panic=lambda kind, st, terms, loc, fn: L.append((kind, st, terms, loc, fn)))
        try:
            ex = E.summarize(e)
        except RecursionError:
            ctx.undecided.append(f"{e}: too deep")
            continue
        except Exception as x:
            ctx.undecided.append(f"{e}: {x!r}"[:300])
            continue
        ctx.paths += len(ex)
        ctx.fns |= set(E.visited)
        for kind, st, terms, loc, fn in L:
            v = panics.judge(kind, st, terms)
            sites.setdefault((fn, kind, str(loc)), {}).setdefault(v, (e, st, terms))
        ctx.ok("analysed for panics on untrusted input", e)
    for (fn, kind, loc), vs in sorted(sites.items()):
        if False in vs:
            e, st, terms = vs[False]
            ctx.violate("input can make it panic", f"{fn} {kind}", f"{fn} ({loc}) can panic ({kind}) on input given to {e}",
                        panics.explain(st, terms))
        elif None in vs:
            ctx.notes.append(f"not proved: {kind} at {loc} in {fn}")
        else:
            ctx.ok("cannot panic", f"{fn} {kind} {loc}")


RULES = {"C05": nopanic}
