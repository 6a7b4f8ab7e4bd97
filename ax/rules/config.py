"""Configuration, chain specification, private keys."""
from ..engine import Engine
from ..term import pp, subterms
from .tx import specs
from .misc import all_of
S = "common_config_parser::types::spec"
C = "common_config_parser::types::config"
PARSE = "tr:clap_builder::builder::value_parser::TypedValueParser:"


def hidden(ctx):
    """What is given to the formatter has nothing of the key in it."""
    F = ctx.F
    for i in F.trait_impls("core::fmt::Debug"):
        if i.get("self_d") != f"{S}::PrivateKey":
            continue
        if i["derived"]:
            ctx.violate("key material is not printed", f"{S}::PrivateKey", f"the derived Debug of {S}::PrivateKey prints the key")
            continue
        for n, p in i["items"]:
            if n != "fmt":
                continue
            ex = Engine(F).summarize(p)
            ctx.paths += len(ex)
            ctx.fns.add(p)
            for e in ex:
                for v in e.ev:
                    if v.k != "call":
                        continue
                    for a in v.args:
                        if any(t.op == "f" and t.a[0].op == "param" and t.a[0].a[0] == 1 for t in subterms(a)):
                            ctx.violate("key material is not printed", p, f"{p} gives {pp(a)[:200]} to {v.name}")
            ctx.ok("key material is not printed", p)


def numbers(want):
    """The documented numbers of an enumeration's members."""
    def run(ctx):
        for name, members in want.items():
            d = ctx.F.adts.get(name)
            if d is None:
                ctx.undecided.append(f"enumeration {name} not found")
                continue
            have = {v["name"]: v["discr"] for v in d["variants"]}
            for m, n in members.items():
                key = f"{name}::{m}"
                if have.get(m) != str(n):
                    ctx.violate("members have their documented numbers", key, f"{key} is {have.get(m)}, documented is {n}")
                else:
                    ctx.ok("members have their documented numbers", key)
    return run


RULES = {
    "C22": numbers({"axon_protocol::types::block::BlockVersion": {"V0": 0}}),
    "C15": all_of(hidden, numbers({f"{S}::HardforkName": {"None": 0, "Andromeda": 1}}), specs(("config::genesis_header", f"in:{S}::Genesis::build_header"),
                 ("config::genesis_hardforks", f"in:{S}::Genesis::generate_hardfork_info"),
                 ("config::all_hardforks", f"in:{S}::HardforkName::all"),
                 ("config::hardfork_info", "tr:core::convert::From:axon_protocol::types::primitive::HardforkInfoInner:from:" + S + "::HardforkInput"),
                 ("config::parse_spec", f"{PARSE}{S}::ChainSpecValueParser:parse_ref"))),
    "C14": specs(("config::rocksdb_path", f"in:{C}::Config::data_path_for_rocksdb"),
                 ("config::txs_wal_path", f"in:{C}::Config::data_path_for_txs_wal"),
                 ("config::consensus_wal_path", f"in:{C}::Config::data_path_for_consensus_wal"),
                 ("config::version_path", f"in:{C}::Config::data_path_for_version"),
                 ("config::parse_reader", "fn:common_config_parser::parse_reader"),
                 ("config::parse_json", "fn:common_config_parser::parse_json"),
                 ("config::parse_file", "fn:common_config_parser::parse_file"),
                 ("config::parse_config", f"{PARSE}{C}::ConfigValueParser:parse_ref"),
                 ("config::parse_key_text", f"{PARSE}{S}::PrivateKeyDataValueParser:parse_ref"),
                 ("config::parse_key_file", f"{PARSE}{S}::PrivateKeyFileValueParser:parse_ref"),
                 ("config::parse_json_file", f"{PARSE}common_config_parser::types::JsonValueParser:parse_ref"),
                 ("config::key_data", f"in:{S}::PrivateKey::data")),
}
