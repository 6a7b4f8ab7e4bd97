"""python3 -m ax.check PROPERTY: decides one property of /repo's current tree. See DESIGN.md."""
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

from . import build
from .facts import Facts
from .engine import Engine, Budget
from . import equiv
from .term import pp, SPECS, is_spec

VERIF = build.VERIF


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, F):
        self.prop, self.tier, self.F = prop, tier, F
        self.violations = []        # (key, message, detail)
        self.done = []              # (rule, construct)
        self.fns = set()
        self.paths = 0
        self.pairs = 0
        self.notes = []
        self.undecided = []
        self.samples = []

    # ---- reporting
    def violate(self, rule, construct, msg, detail=""):
        """rule: what was violated; construct: where, without line numbers (the key of the finding)."""
        k = f"{rule} | {construct}"
        if all(v[0] != k for v in self.violations):
            self.violations.append((k, msg, detail))

    def ok(self, rule, construct):
        self.done.append((rule, construct))

    def engine(self, **k):
        E = Engine(self.F, **k)
        return E

    def loc(self, path):
        f = self.F.fns.get(path)
        return f"{f.file.replace(build.WS + '/', '')}:{f.line}" if f else "?"

    # ---- anchors
    def find(self, s, optional=False):
        """The function an anchor names. `in:Adt::method`, `tr:Trait:Self:method[:trait argument]`, `fn:path` (suffixes)."""
        F = self.F
        kind, _, rest = s.partition(":")
        got = None
        if kind == "spec":
            got = f"axspec::{rest}"        # a constant of the code, named in the reference crate
        elif kind == "fn":
            c = F.find(rest)
            c = [x for x in c if not is_spec(x)]
            got = c[0] if len(c) == 1 else (rest if rest in F.fns else None)
        elif kind == "in":
            adt, _, m = rest.rpartition("::")
            for i in F.impls:
                if i["trait"] is None and i["crate"] not in SPECS and any((x or "") == adt or (x or "").endswith("::" + adt) for x in (i["self_d"], i["self_s"])):
                    for n, p in i["items"]:
                        if n == m:
                            got = p
        elif kind == "tr":
            parts = rest.replace("::", "\0").split(":")
            parts = [p.replace("\0", "::") for p in parts]
            tr, slf, m = parts[:3]
            arg = parts[3] if len(parts) > 3 else None
            c = []
            for i in F.trait_impls(tr):
                if i["crate"] in SPECS or not any((x or "") == slf or (x or "").endswith("::" + slf) for x in (i["self_d"], i["self_s"])):
                    continue
                if arg is not None and not any(suffix(F_ty(i, x), arg) for x in i["trait_args"][1:]):
                    continue
                c += [(p, i["crate"]) for n, p in i["items"] if n == m]
            if len(c) > 1:
                c = [x for x in c if x[1] not in build.WCRATES]
            got = c[0][0] if len(c) == 1 else None
        elif kind == "path":
            got = rest
        if got is None or got not in F.fns:
            if optional:
                return None
            raise Undecided(f"anchor {s} is not in the code: {got}")
        return got

    # ---- equality with a reference
    def same(self, spec, target, mode="ok", **k):
        try:
            self._same(spec, target, mode, **k)
        except Undecided as e:
            self.undecided.append(str(e))

    def ref(self, spec):
        if spec in self.F.fns:
            return spec
        return next((f"{c}::{spec}" for c in SPECS if f"{c}::{spec}" in self.F.fns), f"axspec::{spec}")

    def _same(self, spec, target, mode="ok", **k):
        opt = target.startswith("?")
        path = self.find(target.lstrip("?"), opt)
        if path is None:
            self.notes.append(f"{target}: not there, decided through its callers")
            return
        sp = self.ref(spec)
        if sp not in self.F.fns:
            raise Undecided(f"no reference {sp}")
        opaque = tuple(k.pop("opaque", ()))
        self._E = getattr(self, "_E", {})
        alias = {}
        for s, t in k.pop("lemmas", ()):        # equal functions stay calls of the same name
            if (s, t) != (spec, target):
                p = self.find(t.lstrip("?"), True)
                if p is not None:
                    alias.update({p: p, f"{self.ref(s)}": p})
        for n, m in k.get("modules", ()):       # copies of modules: their functions too
            for y in F_in(self.F, n):
                z = y.replace(n, m)
                if z in self.F.fns and z not in (path, sp):
                    alias.update({z: z, y: z})
        key = (opaque, tuple(alias.items()))
        E = self._E.setdefault(key, None) or Engine(self.F, opaque=opaque)
        E.alias = alias
        self._E[key] = E
        E.truncated = []
        E.visited = set()
        try:
            r = equiv.compare(E, path, sp, mode=mode, **k)
        except Exception as e:      # the analysis gives up on this function; the others are still decided
            if os.environ.get("AX_DEBUG"):
                raise
            raise Undecided(f"{path}: {e!r}")
        self.fns |= {p for p in E.visited if not is_spec(p)}
        self.paths += r.paths[0]
        self.pairs += r.pairs
        if r.mismatch:
            m = r.mismatch[0]
            if m[0] == "undecided":
                raise Undecided(f"{path}: {m[1]}")
            self.violate("not what it has to compute", path,
                         f"{path} ({self.loc(path)}) differs from its reference `{spec}`",
                         f"on the path where {m[0]}\n  the code gives  {m[1]}\n  and has to give {m[2]}"
                         + (f"\n  innermost difference: {m[3][0]}\n              instead of: {m[3][1]}" if len(m) > 3 else ""))
        else:
            self.ok("equals its reference on every path", f"{path} = {spec}")
            if len(self.samples) < 4:
                self.samples.append({"function": path, "at": self.loc(path), "reference": spec, "paths": r.paths[0],
                                     "compared_pairs": r.pairs})


def F_in(F, n):
    c = F.__dict__.setdefault("_in", {})
    if n not in c:
        c[n] = [p for p in F.fns if n in p]
    return c[n]


def F_ty(i, x):
    return i["types"][x]["s"]


def suffix(have, want):
    """`&a::b::C` is named by `&b::C`"""
    while have[:1] == want[:1] == "&":
        have, want = have[1:].removeprefix("mut "), want[1:].removeprefix("mut ")
    return have == want or have.endswith("::" + want)


WIDE = set()        # properties that need the crates that are type-checked with stubs/


def registry():
    from . import rules
    reg = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module(f"ax.rules.{m.name}")
        for p, f in getattr(mod, "RULES", {}).items():
            if getattr(mod, "WIDE", False):
                WIDE.add(p)
            reg.setdefault(p, []).extend(f if isinstance(f, list) else [f])
    return reg


def known(prop):
    """key -> text, from known_findings.txt: `finding: property=<id> key=<key> :: <what fails>`"""
    out = {}
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={prop} key="):
                k, _, t = l.split(" key=", 1)[1].partition(" :: ")
                out[k.strip()] = t.strip()
    return out


def run(prop, tier, F, wall0):
    reg = registry()
    ctx = Ctx(prop, tier, F)
    undecided = ctx.undecided
    for f in reg[prop]:
        try:
            f(ctx)
        except Undecided as e:
            undecided.append(str(e))
        except Exception as e:
            if os.environ.get("AX_DEBUG"):
                raise
            undecided.append(repr(e))
    kn = known(prop)
    fresh = [v for v in ctx.violations if v[0] not in kn]
    old = [v for v in ctx.violations if v[0] in kn]
    cov = {
        "explanation": "static analysis of the type-checked program (MIR) of /repo's working tree: " + META.get(prop, ""),
        "functions_analysed": len(ctx.fns),
            "functions": sorted(ctx.fns),
        "path_summaries": ctx.paths,
        "path_pairs_compared": ctx.pairs,
        "obligations_examined": len(ctx.done) + len(ctx.violations),
        "obligations_met": len(ctx.done),
        "rules": sorted({r for r, _ in ctx.done} | {v[0].split(" | ")[0] for v in ctx.violations}),
        "met": [f"{r}: {c}" for r, c in ctx.done][:400],
        "samples": ctx.samples or [f"{r}: {c}" for r, c in ctx.done[:5]],
    }
    if ctx.notes:
        cov["notes"] = ctx.notes[:50]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - wall0, 2), "violations": len(fresh),
          "assumptions": ["the models of library calls in ax/models.py describe what the libraries do",
                          "rustc's MIR is what the program does"]}
    if undecided:
        ev["coverage"]["undecided"] = undecided
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    rc = 0
    for k, m, d in old:
        print(f"KNOWN-FINDING: property={prop} {kn[k]}")
    if fresh:
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        rp = f"{VERIF}/evidence/replay/{prop}.txt"
        with open(rp, "w") as f:
            for k, m, d in fresh:
                f.write(f"{k}\n{m}\n{d}\n\n")
        for k, m, d in fresh[:8]:
            print(f"{m} [{k}]")
            print("   " + d[:1500].replace("\n", "\n   "))
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    for u in undecided:
        print(f"undecided: {u}", file=sys.stderr)
    if undecided and not rc and not ctx.done:
        rc = 2
    if not rc:
        print(f"{prop}: {len(ctx.done)} obligations met, {len(ctx.fns)} functions, {ctx.paths} paths, {ev['wall_s']} s")
    return rc


META = {}


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    sys.setrecursionlimit(20000)
    t = time.time()
    registry()
    wide = a == ["all"] or any(p in WIDE for p in a)
    F = Facts(build.extract(wide))
    for l in open(f"{VERIF}/properties.jsonl"):
        j = json.loads(l)
        META[j["id"]] = j["title"]
    rcs = [run(p, tier, F, t if len(a) == 1 else time.time()) for p in (a if a != ["all"] else sorted(registry()))]
    sys.exit(max(rcs) if 1 not in rcs else 1)


if __name__ == "__main__":
    try:
        main()
    except build.BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
