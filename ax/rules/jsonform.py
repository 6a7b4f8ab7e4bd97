"""The JSON form of a type: the names of its members, which field each is, and how it is written and read."""
import json
import os
import re
from ..engine import Engine
from ..term import pp, subterms
from ..check import Undecided


def terms(F, path):
    return [b[1] for b in F.fns[path].d["blocks"]]


def calls(F, path):
    return [t[1][1]["f"] for t in terms(F, path) if t[0] == "call" and t[1][0] == "fn"]


def base(f):
    return re.sub(r"::<.*$", "", f).rsplit("::", 1)[-1] if "with" not in f else "::".join(f.rsplit("::", 2)[-2:])


def helper(F, prefix, method):
    """What serde's helper type for `serialize_with`/`deserialize_with` calls."""
    for p in F.fns:
        if p.startswith("<" + prefix) and p.endswith("::" + method):
            cs = [base(c) for c in calls(F, p) if "serialize" in c and "::private" not in c]
            return "+".join(cs) or "?"
    return "?"


def writer(F, path):
    """serialize() of a struct with named members -> [(member, field, function)]; of an enum -> [(name, variant, "")]"""
    out = []
    for e in Engine(F, opaque=(lambda n: "__SerializeWith" in n,)).summarize(path):
        row = []
        for v in e.ev:
            if v.k != "call":
                continue
            m = v.name.rsplit("::", 1)[-1]
            if m == "serialize_field" and len(v.args) == 3:
                key, val = v.args[1], v.args[2]
                w = [t.a[0] for t in subterms(val) if t.op == "adt" and "__SerializeWith" in t.a[0]]
                fs = [t.a[1] for t in subterms(val) if t.op == "f" and t.a[0].op == "param"]
                row.append((key.a[0] if key.op == "str" else pp(key), ".".join(dict.fromkeys(map(str, fs))), helper(F, w[0], "serialize") if w else ""))
            elif m in ("serialize_unit_variant", "serialize_newtype_variant"):
                c = [w for t, w in e.conds if t.op == "discr"]
                out.append((v.args[3].a[0], "variant", pp(v.args[2])))
            elif m == "serialize_newtype_struct" or m in ("serialize_str", "serialize_bytes"):
                out.append(("", m, ""))
        if len(row) > len([x for x in out if x[1] != "variant"]):
            out = row
    return sorted(set(out), key=out.index)


def places(x):
    """Locals used in an operand or place."""
    return x[1][0] if isinstance(x, list) and x[0] in ("mv", "cp") else None


def reader(F, deser):
    """deserialize() of a struct -> {field: (names, how an absent member is treated, function)}"""
    pre = deser.removesuffix("::deserialize")
    vs = [p for p in F.fns if p.startswith(f"<{pre}::deserialize::__FieldVisitor") and p.endswith("visit_str")]
    vm = [p for p in F.fns if p.startswith(f"<{pre}::deserialize::__Visitor") and p.endswith("visit_map")]
    if not vs:
        return None
    names, other = {}, "ignored"
    for e in Engine(F).summarize(vs[0]):
        if e.kind != "ret":
            continue
        eqs = [t for t, v in e.conds if v == 1 and t.op == "eq"]
        if e.val.op == "adt" and e.val.a[1] == "Ok":
            tag = e.val.a[3][0]
            n = tag.a[1].removeprefix("__field") if tag.op == "adt" else "?"
            for t in eqs:
                s = [x.a[0] for x in t.a if x.op == "str"]
                names.setdefault(n, []).extend(s)
        elif not eqs:
            other = "refused"
    if not vm:
        return {n: (sorted(v), "variant", "") for n, v in names.items()} | {"*": ([], other, "")}
    fn = F.fns[vm[0]]
    B = fn.d["blocks"]
    nm = lambda i: fn.local_name(i) or ""
    local = {}
    for i in range(len(fn.d["locals"])):
        if re.fullmatch(r"__field\d+", nm(i)) and fn.local_ty(i)["s"].startswith("core::option::Option"):
            local.setdefault(nm(i)[7:], i)
    absent, arms = {}, {}
    for st, t, cleanup in B:
        if t[0] != "switch" or cleanup:
            continue
        for s in st:
            if s[0] != "=" or s[2][0] != "discr":
                continue
            tg = dict(t[2])
            ty = fn.local_ty(s[2][1][0])
            if len(s[2][1]) == 1 and s[2][1][0] in local.values():
                n = next(k for k, v in local.items() if v == s[2][1][0])
                absent[n] = first_call(F, fn, B, tg.get("0", t[3]), lambda c: True)
            elif "__Field" in ty["s"] and not ty["s"].startswith("core::"):
                for k in names:
                    arms[k] = first_call(F, fn, B, tg.get(k, t[3]), lambda c: c.endswith("next_value"))
                arms["*"] = first_call(F, fn, B, t[3], lambda c: c.endswith("next_value"))
    src = {}
    for st, t, _ in B:
        for s in st:
            if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] in ("mv", "cp") and len(s[2][1][1]) == 1:
                src.setdefault(s[1][0], s[2][1][1][0])
        if t[0] == "call" and len(t[3]) == 1:
            src.setdefault(t[3][0], ("call", t))
    want = pre.rsplit(" for ", 1)[1].rsplit(">", 1)[0].split("<")[0]
    out = {}
    for st, t, _ in B:
        for s in st:
            if s[0] == "=" and s[2][0] == "adt" and s[2][1] == want:
                for f, o in zip(s[2][5], s[2][6]):
                    x = o[1][0] if o[0] in ("mv", "cp") else None
                    seen = set()
                    while x in src and not nm(x).startswith("__field") and x not in seen:
                        seen.add(x)
                        x = src[x] if not isinstance(src[x], tuple) else src[x]
                        if isinstance(x, tuple):
                            break
                    if isinstance(x, tuple):
                        out[f] = ([], "skipped: " + const(F, fn, x[1]), "")
                    elif x is not None and nm(x)[7:] in names:
                        n = nm(x)[7:]
                        out[f] = (sorted(names[n]), how(F, fn, absent.get(n)), via(F, fn, arms.get(n)))
                    else:
                        out[f] = ([], "?", "")
    out["*"] = ([], other, "")
    return out


def first_call(F, fn, B, b, want):
    seen, todo = set(), [b]
    while todo:
        b = todo.pop(0)
        if b is None or b in seen or B[b][2]:
            continue
        seen.add(b)
        t = B[b][1]
        if t[0] == "call":
            f = t[1][1]["f"] if t[1][0] == "fn" else ""
            if want(f):
                return t
            todo.append(t[4])
        elif t[0] == "goto":
            todo.append(t[1])
        elif t[0] == "switch":
            todo += [y for _, y in t[2]] + [t[3]]
        elif t[0] == "drop":
            todo.append(t[2])
    return None


def const(F, fn, t):
    """The value a default function gives."""
    op = t[1][1]
    p = op.get("r") or op["f"]
    if p in F.fns:
        try:
            return " | ".join(sorted({pp(e.val) for e in Engine(F).summarize(p)}))
        except Exception:
            pass
    d = fn.types[op["g"][0]]["s"] if op.get("g") else ""
    if op["f"].endswith("Default::default") and d.startswith(("alloc::vec::Vec", "std::collections::hash::map::HashMap")):
        return "newvec()" if "Vec" in d[:16] else "HashMap::new()"
    return "Default of " + fn.types[op["g"][0]]["s"] if op["f"].endswith("Default::default") and op.get("g") else base(op["f"])


def how(F, fn, t):
    if t is None:
        return "?"
    f = t[1][1]["f"] if t[1][0] == "fn" else "?"
    if f.endswith("missing_field"):
        g = [fn.types[x]["s"] for x in t[1][1]["g"]]
        return "none" if any(x.startswith("core::option::Option") for x in g) else "required"
    return "default " + const(F, fn, t)


def via(F, fn, t):
    """The function that reads the member, if not its type's own."""
    if t is None:
        return "?"
    for x in t[1][1]["g"]:
        s = fn.types[x].get("d", "")
        m = re.search(r"__DeserializeWith\d*", s)
        if m and "::visit_map::" in s:
            return helper(F, s[:m.end()], "deserialize")
    return ""


def forms(F, want=lambda t: True):
    """-> {(direction, type): {member or field: [..]}} of the derived implementations"""
    out, bad = {}, {}
    for tr, d in (("serde::ser::Serialize", "W"), ("serde::de::Deserialize", "R")):
        for i in F.trait_impls(tr):
            if not i["derived"]:
                continue
            p = i["items"][0][1]
            n = p.rsplit(" for ", 1)[1].rsplit(">", 1)[0].split("<")[0]
            if not want(n) or p not in F.fns:
                continue
            try:
                if d == "W":
                    out[d, n] = {m: [f, v] for m, f, v in writer(F, p)}
                else:
                    out[d, n] = {f: ["|".join(a), b, c] for f, (a, b, c) in (reader(F, p) or {}).items()}
            except Exception as x:
                bad[d, n] = repr(x)[:200]
    return out, bad


def load():
    with open(TABLE) as f:
        return {(r["dir"], r["type"]): r["form"] for r in map(json.loads, f)}


def hand_written(F, tr, n):
    return any(not i["derived"] and i.get("self_d", "") == n for i in F.trait_impls(tr))


def rule(prop, pick):
    def go(ctx):
        F = ctx.F
        want = {k: v for k, v in load().items() if pick(k[1])}
        names = {n for _, n in want}
        got, bad = forms(F, lambda n: n in names)
        for k, x in bad.items():
            ctx.undecided.append(f"{k}: {x}")
        for (d, n), ref in sorted(want.items()):
            verb = "written" if d == "W" else "read"
            if (d, n) not in got:
                if (d, n) not in bad:
                    ctx.undecided.append(f"{n} is no longer {verb} by generated code")
                continue
            now = got[d, n]
            ctx.fns.add(n)
            for m, v in ref.items():
                w = now.get(m)
                what = f"{n}.{m} {verb}"
                if w is None:
                    ctx.violate("documented members", what, f"member `{m}` of {n} is not {verb}: it has {sorted(now)}")
                elif w[:-1] != v[:-1]:
                    ctx.violate("documented members", what, f"member `{m}` of {n} is {verb} as {w[:-1]} and has to be {v[:-1]}")
                elif w[-1] != v[-1]:
                    if "" in (w[-1], v[-1]) or w[-1] in KNOWN:
                        ctx.violate("documented formats", what, f"member `{m}` of {n} is {verb} with {w[-1] or 'its own format'} and has to be with {v[-1] or 'its own format'}")
                    else:
                        ctx.undecided.append(f"{what} with {w[-1]}, which is not known")
                else:
                    ctx.ok("documented members and formats", what)
            for m in now:
                if m not in ref and d == "W":
                    ctx.notes.append(f"{n} has a further member {m}")
                elif m not in ref and now[m][1] == "required":
                    ctx.violate("documented members", f"{n}.{m} {verb}", f"{n} cannot be read any more without a member `{now[m][0]}`")
    return go


TABLE = os.path.join(os.path.dirname(__file__), "jsonform.jsonl")
KNOWN = {"serialize_uint", "deserialize_address", "deserialize_hex_u32", "deserialize_hex_u64", "deserialize_256bits_key",
         "withpfx_lowercase::serialize", "withpfx_lowercase::deserialize"}
RULES = {"C14": rule("C14", lambda n: n.startswith("common_config_parser::types::config::")),
         "C15": rule("C15", lambda n: n.startswith("common_config_parser::types::spec::")),
         "C17": rule("C17", lambda n: n.startswith("core_rpc_client::")),
         "C27": rule("C27", lambda n: n.startswith(("axon_protocol::", "axon_tools::")))}
