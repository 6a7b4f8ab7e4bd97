"""core/executor/src/precompiles: the contracts that are part of the node."""
from ..term import T, pp
from ..engine import Engine
WIDE = True
M = "fn:precompiles::modexp::"
LEMMAS = (("precompile::header_raw", "in:ckb_light_client::CkbHeaderReader::get_raw"),
          ("precompile::get_data", M + "get_data"), ("precompile::iterations", M + "iterator_count"),
          *((f"precompile::blake2f_{x}", f"fn:precompiles::blake2_f::{y}") for x, y in (("rounds", "parse_round"), ("h", "parse_h"), ("m", "parse_m"), ("t", "parse_t"), ("compress", "compress"))))
SC = "core_executor::system_contract::"
P = "core_executor::precompiles::"
ABI = tuple((f"axwide::abi::{n}_abi::", f"{SC}{n}::abi::{n}_abi::") for n in ("ckb_light_client", "image_cell", "metadata"))
AT = {1: "ecrecover", 2: "sha256", 3: "ripemd160", 4: "identity", 5: "modexp", 6: "ec_add", 7: "ec_mul", 8: "ec_pairing", 9: "blake2f",
      0x102: "get_header", 0x104: "call_ckb_vm", 0x106: "ckb_blake2b", 0x107: "cmbt_verify"}


def derived(ctx, spec, code, modules=()):
    """The ABI forms of the copied types: the same tokens, in the same order."""
    n = 0
    for y in sorted(ctx.F.fns):
        if y.startswith(f"<{spec}") and ("ethers_core::abi" in y and y.endswith(("::from_token", "::into_token", "::param_type", "::decode"))
                                         or "EthCall>" in y and y.endswith(("::selector", "::function_name", "::abi_signature"))):
            t = y[1:].split(" as ")[0]
            z = y.replace(t, code + t[len(spec):], 1)
            if z in ctx.F.fns:
                n += 1
                ctx.same(y, f"path:{z}", modules=modules)
    return n


def precompiles(ctx):
    path = ctx.find("fn:precompiles::build_precompile_set")
    ex = [e for e in Engine(ctx.F).summarize(path) if e.kind == "ret"]
    at = {}
    for e in ex:
        m = e.val
        while m.op == "mut" and m.a[0].endswith("::insert"):
            k, f = m.a[3], m.a[4]
            b = next((x for x in (k, *(k.a[3] if k.op == "adt" else ())) if x.op == "bytes"), None)
            if b is None or f.op != "fn":
                ctx.undecided.append(f"{path}: an entry is not a constant")
                break
            at.setdefault(int(b.a[0], 16), f.a[0])      # the last insertion wins
            m = m.a[2]
        if m.op != "call" or not m.a[0].endswith("::new"):
            ctx.undecided.append(f"{path}: {pp(m, 3)}")
            return
    for a in sorted(AT.keys() - at.keys()):
        ctx.violate("a precompiled contract is missing", f"{path} {a:#x}", f"no contract at {a:#x} ({AT[a]})", ctx.loc(path))
    for a in sorted(at.keys() - AT.keys()):
        ctx.violate("an address has a contract that is not specified", f"{path} {a:#x}", f"{at[a]} at {a:#x}", ctx.loc(path))
    for a in sorted(AT.keys() & at.keys()):
        ctx.same(f"precompile::{AT[a]}", f"path:{at[a]}", lemmas=LEMMAS, modules=ABI, opaque=(lambda n: n.endswith("Interoperation>::call_ckb_vm"),))
    for s, t in LEMMAS[1:]:
        ctx.same(s, "?" + t)
    for t in ("call_ckb_vm::CallCkbVmPayload", "call_ckb_vm::CellDep", "call_ckb_vm::OutPoint", "ckb_mbt_verify::VerifyProofPayload", "ckb_mbt_verify::Proof"):
        derived(ctx, "axwide::precompile::" + t.split("::")[1], P + t, ABI + (("axwide::precompile::", P + t.split("::")[0] + "::"),))


RULES = {"C30": precompiles}
