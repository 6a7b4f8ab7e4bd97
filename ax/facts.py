"""The type-checked program of /repo, as written by driver/main.rs: functions (MIR), ADTs, impls."""
import glob
import json
import os
from collections import defaultdict


class Fn:
    __slots__ = ("d", "path", "blocks", "argc", "crate", "types", "_loops", "_succ", "_rpo", "file", "line")

    def __init__(self, d, crate, types):
        self.d = d
        self.path = d["path"]
        self.blocks = d["blocks"]
        self.argc = d["argc"]
        self.crate = crate
        self.types = types
        self._loops = None
        self._succ = None
        self._rpo = None
        f, _, l = d["loc"].rpartition(":")
        self.file, self.line = f, int(l or 0)

    @property
    def name(self):
        return self.d.get("name") or self.path.rsplit("::", 1)[-1]

    def ty(self, i):
        return self.types[i]

    def local_ty(self, i):
        return self.types[self.d["locals"][i][0]]

    def local_name(self, i):
        l = self.d["locals"][i]
        return l[1] if len(l) > 1 else None

    def succ(self):
        if self._succ is None:
            out = []
            for b in self.blocks:
                t = b[1]
                k = t[0]
                if k == "goto":
                    s = [t[1]]
                elif k == "switch":
                    s = [x[1] for x in t[2]] + [t[3]]
                elif k == "call":
                    s = [t[4]] if t[4] >= 0 else []
                elif k == "assert":
                    s = [t[4]]
                elif k == "drop":
                    s = [t[2]]
                elif k == "yield":
                    s = [t[2]]
                else:
                    s = []
                out.append([x for x in dict.fromkeys(s) if not self.blocks[x][2]])
            self._succ = out
        return self._succ

    def rpo(self):
        if self._rpo is None:
            succ = self.succ()
            seen, order = set(), []
            stack = [(0, iter(succ[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def loops(self):
        """header -> set of blocks of its natural loop (await polling loops included)."""
        if self._loops is None:
            succ, rpo = self.succ(), self.rpo()
            preds = defaultdict(list)
            for b in rpo:
                for s in succ[b]:
                    preds[s].append(b)
            order = sorted(rpo, key=rpo.get)
            idom = {0: 0}

            def inter(a, b):
                while a != b:
                    while rpo[a] > rpo[b]:
                        a = idom[a]
                    while rpo[b] > rpo[a]:
                        b = idom[b]
                return a

            changed = True
            while changed:
                changed = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for p in preds[b] if p in idom]
                    if not ps:
                        continue
                    n = ps[0]
                    for p in ps[1:]:
                        n = inter(n, p)
                    if idom.get(b) != n:
                        idom[b] = n
                        changed = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0 or b not in idom:
                        return False
                    b = idom[b]

            loops = {}
            for b in order:
                for s in succ[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(preds[x])
            self._loops = loops
        return self._loops


class Facts:
    def __init__(self, d):
        self.fns = {}
        self.adts = {}
        self.impls = []  # dicts
        self.impl_index = defaultdict(list)  # trait path -> impls
        self.traits = {}
        self.crates = []
        self.closures_of = defaultdict(list)
        for p in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(p))
            c = j["crate"]
            self.crates.append(c)
            types = j["types"]
            for f in j["fns"]:
                fn = Fn(f, c, types)
                if fn.path in self.fns:  # same printed path (e.g. two impls): keep both
                    n = 2
                    while f"{fn.path}#{n}" in self.fns:
                        n += 1
                    fn.path = f"{fn.path}#{n}"
                self.fns[fn.path] = fn
                if "root" in f:
                    self.closures_of[f["root"]].append(fn.path)
            for a in j["adts"]:
                a["types"] = types
                a["crate"] = c
                if a["local"] or a["path"] not in self.adts:
                    self.adts[a["path"]] = a
            for i in j["impls"]:
                i["crate"] = c
                i["types"] = types
                if "trait_def" in i:
                    self.traits[i["trait_def"]] = i
                    continue
                st = types[i["self"]]
                i["self_s"] = st["s"]
                i["self_d"] = st.get("d") if st["k"] == "adt" else None
                self.impls.append(i)
                if i["trait"]:
                    self.impl_index[i["trait"]].append(i)

    # -- queries
    def adt(self, path):
        return self.adts.get(path)

    def fields(self, path, variant=None):
        a = self.adts[path]
        vs = a["variants"]
        v = vs[0] if variant is None else next(x for x in vs if x["name"] == variant)
        return [f[0] for f in v["fields"]]

    def trait_impls(self, suffix, self_pred=None, crate=None):
        for t, l in self.impl_index.items():
            if t == suffix or t.endswith("::" + suffix):
                for i in l:
                    if crate and i["crate"] != crate:
                        continue
                    if self_pred is None or self_pred(i):
                        yield i

    def impl_method(self, trait, self_d, method, crate=None, trait_arg=None):
        """Path of `method` of the impl of `trait` (suffix match) for the ADT path `self_d`."""
        for i in self.trait_impls(trait, crate=crate):
            if i["self_d"] == self_d or i["self_s"] == self_d:
                if trait_arg is not None:
                    a = [i["types"][x]["s"] for x in i["trait_args"][1:]]
                    if trait_arg not in a:
                        continue
                for n, p in i["items"]:
                    if n == method:
                        return p
        return None

    def inherent(self, self_d, method):
        for i in self.impls:
            if i["trait"] is None and (i["self_d"] == self_d or i["self_s"] == self_d):
                for n, p in i["items"]:
                    if n == method:
                        return p
        return None

    def find(self, suffix, crate=None):
        r = [p for p, f in self.fns.items() if (p == suffix or p.endswith("::" + suffix)) and (crate is None or f.crate == crate)]
        return r

    def find_adt(self, suffix, crate=None):
        r = [p for p, a in self.adts.items() if (p == suffix or p.endswith("::" + suffix)) and (crate is None or p.startswith(crate + "::"))]
        return r[0] if len(r) == 1 else None
