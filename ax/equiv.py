"""Comparison of two functions by their path summaries.

Both functions are summarised by engine.py over the same symbolic parameters. Every path of the one is
compared with every path of the other whose conditions it does not contradict: the outcome (value
returned or panic, what is left behind `&mut` parameters, and the effects) has to be the same normal
form. As both sets of paths cover all inputs, that is equality for all inputs, up to the meaning of
the uninterpreted library calls, which are the same in both."""
import re
from .term import T, I, UNIT, pp, subterms, children, is_spec
from .engine import St, Engine, rebuild, discr, field, as_, OPT, RES, NVAR, eq, lt, length, slice_, index, simplify_alts, complementary, norm_conds, zero_of


def expand(conds, cap=512):
    """Conjunctions of plain atoms, from conditions with `alts`."""
    out = [()]
    for t, v in conds:
        if t.op == "alts":
            out = [o + tuple(a) for o in out for a in t.a[0]]
        else:
            out = [o + ((t, v),) for o in out]
        if len(out) > cap:
            raise TooBig()
    if any(t.op == "alts" for o in out for t, _ in o):
        return [y for o in out for y in expand(o, cap)]
    return out


class TooBig(Exception):
    pass


def add(st, conds):
    for t, v in conds:
        if st is None:
            return None
        # rewrite the atom under what is known
        if isinstance(v, frozenset):
            st = st.exclude(t, tuple(v), None)
        else:
            st = st.assume(t, v)
    return st


ENDLESS = {}


def endless(t):
    if t not in ENDLESS:
        ENDLESS[t] = any(z.op in ("fold", "run") and z.a[0].op == "nobase" for z in subterms(t))
    return ENDLESS[t]


def simp(x, st):
    """x under the facts of st: known conditions become constants, rebuilt enum values are recognised."""
    facts = {t: v for t, v in st.facts.items() if t.op in ("eq", "lt", "boolop") or NVAR.get(t) == 2 and t.op != "discr"}
    vals = {t: v for t, v in st.facts.items() if t.op not in ("eq", "lt", "boolop", "discr")}

    def go(y):
        if not isinstance(y, T):
            return y
        if y in facts:
            return I(facts[y])
        if y.op == "discr" and y in st.facts:
            return I(st.facts[y])
        if y in vals and y.op not in ("param",):
            return I(vals[y])
        if y.op == "slice" and y.a[2].op == "int" and st.facts.get(length(y.a[0])) == y.a[2].a[0]:
            return rebuild(slice_(y.a[0], y.a[1], None), go)
        if y.op in ("fold", "run") and y.a[0].op == "nobase" and any(endless(t) for t in st.facts):
            # what holds after the last turn of an endless loop says nothing about the turns before
            before = St()
            before.facts = {t: v for t, v in st.facts.items() if not endless(t)}
            a = deep(y.a, lambda t: simp(t, before))
            return y if a == y.a else T(y.op, *a)
        if y.op == "fold" and len(y.a[2]) >= 1:
            n = st.known(length(y.a[0].a[0] if y.a[0].op == "tuple" and len(y.a[0].a) == 1 else y.a[0]))
            if n in (0, 1, 2):
                acc = y.a[1]
                for i in range(n):
                    acc = step(acc, y, T("int", i), st) if acc is not None else None
                if acc is not None:
                    return rebuild(acc, go)
        if y.op == "call" and y.a[0].endswith("H256::from_low_u64_be"):
            z = rebuild(y.a[1], go)
            if z.op == "swap_bytes":
                z = z.a[0]
            if z.op == "int" and z.a[0] == 0:
                return zero_of("primitive_types::H256")
        if y.op == "upd" and isinstance(y.a[1], str):
            # the variant without fields that is there already
            b, v = rebuild(y.a[0], go), rebuild(y.a[2], go)
            f = field(b, y.a[1])
            if v.op == "adt" and not v.a[3] and v.a[0] in (OPT,) and st.known(discr(f)) == discr(v).a[0]:
                v = f
            return b if v is f else T("upd", b, y.a[1], v)
        return None

    def step(acc, y, i, st):
        e = index(y.a[0].a[0] if y.a[0].op == "tuple" and len(y.a[0].a) == 1 else y.a[0], i)

        def f(t):
            if t.op == "acc" and not t.a:
                return acc
            if t.op == "elem" and t.a[0] is y.a[0]:
                return e
            return None
        for cs, u in y.a[2]:
            if any(x.op in ("acc", "elem") and x.op == "acc" and x.a for x in subterms(u)):
                return None
            vs = [st.known(rebuild(t, f)) for t, _ in cs]
            if all(w is not None and (w == v if not isinstance(v, frozenset) else w not in v) for w, (_, v) in zip(vs, cs)):
                return rebuild(u, f)
            if any(w is None for w in vs):
                return None
        return None

    return eta(rebuild(x, go))


def eta(x):
    """adt(variant, (y as variant).0 ...) is y; a struct taken apart and put together with some fields changed
    is an update."""
    def go(y):
        if isinstance(y, T) and y.op == "adt" and y.a[3]:
            na = tuple(eta(z) for z in y.a[3])
            y2 = T("adt", y.a[0], y.a[1], y.a[2], na)
            enum = y.a[1] != y.a[0].rsplit("::", 1)[-1] or y.a[0] in (OPT, RES)
            bases = []
            for f, v in zip(y.a[2], na):
                b = None
                if v.op == "f" and v.a[1] == f:
                    b = v.a[0]
                    if b.op == "as" and b.a[1] == y.a[1]:
                        b = b.a[0]
                    elif enum:
                        b = None
                bases.append(b)
            if enum:
                return bases[0] if bases[0] is not None and all(b is bases[0] for b in bases) else y2
            got = [b for b in bases if b is not None]
            if not got:
                return y2
            best = max(set(got), key=lambda b: (got.count(b), -b.id))
            if all(b is best for b in bases):
                return best
            return updchain(best, {f: v for f, v, b in zip(y.a[2], na, bases) if b is not best})
        if isinstance(y, T) and y.op == "upd" and y.a[1] == "Some.0":
            return T("adt", OPT, "Some", ("0",), (eta(y.a[2]),))
        if isinstance(y, T) and y.op == "upd" and isinstance(y.a[1], str):
            d, b = {}, y
            while b.op == "upd" and isinstance(b.a[1], str):
                d.setdefault(b.a[1], eta(b.a[2]))
                b = b.a[0]
            return updchain(eta(b), d)
        return None
    return rebuild(x, go)


def updchain(b, d):
    for k in sorted(d):
        b = T("upd", b, k, d[k])
    return b


def outcome(e, mode, outs, effects):
    if e.kind == "panic":
        return ("panic",)
    v = e.val
    r = ["ret", v] + [e.st.mem.get(T("O", p)) for p in outs]
    r.append(effects(e.ev))
    r.append(tuple(sorted(((k.a[0], w) for k, w in e.st.mem.items() if k.op == "O" and k.a[0].op == "static" and w != k.a[0]),
                          key=lambda kw: kw[0].a[0].rsplit("::", 1)[-1])))      # statics written to
    r.append(writes(e.ev))
    return tuple(r)


QUIET = {"last_check_block_fail_reason", "last_commit_time"}        # what only goes to the log and the metrics


def writes(ev):
    """What was last written to each place reached through a reference some function returned (`last_mut`, ...), also per element of a loop."""
    last, loops = {}, []
    for x in ev:
        if x.k == "write":
            b = x.args[0]
            while b.op in ("f", "as", "idx", "elem"):
                b = b.a[0]
            if b.op in ("call", "mut") and not any(y.op == "f" and y.a[1] in QUIET for y in subterms(b)):
                last[x.args[0], x.name] = x.args[1]
        elif x.k == "loop" and x.x:
            by = {}
            for cs, evs in x.x:
                k = writes(evs)
                if k:
                    by.setdefault(k, set()).add(frozenset(cs))
            if by:
                loops.append(("loop", "", T("fold", x.args[0], UNIT, tuple(((((w, 1),) if w else ()), T("tuple", *(T("tuple", b, T("str", str(n)), v) if b != "loop" else v for b, n, v in k)))
                                                                           for k, w in ((k, simplify_alts(v)) for k, v in by.items())))))
    return tuple(sorted(((b, n, v) for (b, n), v in last.items()), key=repr)) + tuple(loops)


def err_only(v):
    """forget the payload of an Err"""
    if isinstance(v, T) and v.op == "adt" and v.a[0] == RES and v.a[1] == "Err":
        return T("adt", RES, "Err", (), ())
    return v


def canon_args(F, fn, names=None):
    args, outs = [], []
    for i in range(1, fn.argc + 1):
        p = T("param", i, f"a{i}")
        if fn.local_ty(i)["k"] == "refmut":
            args.append(T("ptr", T("O", p), ()))
            outs.append(p)
        else:
            args.append(p)
    return args, outs


def no_effects(ev):
    return ()


def calls(ev, show, kinds=("call",)):
    """The effects of a path, in order: the calls that `show` has a term for. A loop stands for what it does per element, and when."""
    out = []
    for e in ev:
        if e.k in kinds:
            t = show(e)
            if t is not None:
                out.append(t)
        elif e.k == "loop" and e.x:
            by = {}
            for cs, evs in e.x:
                k = calls(evs, show, kinds)
                if k:
                    by.setdefault(k, set()).add(frozenset(cs))
            if by:
                out.append(T("fold", e.args[0], UNIT, tuple(((((w, 1),) if w else ()), T("tuple", *k)) for k, w in ((k, simplify_alts(v)) for k, v in by.items()))))
    return tuple(out)


def named(*ends):
    """Effects: the calls of functions whose path ends like one of these."""
    def show(e):
        return T("call", "::".join(e.name.rsplit("::", 2)[-2:]), *e.args) if e.name.endswith(ends) else None
    return lambda ev: calls(ev, show)


def lambdas(E, x, depth=0):
    """Function values left in a term, as the paths of their bodies: where a closure is written does not matter."""
    def go(y):
        if y.op == "fn" and depth < 4:
            fn = E.F.fns.get(y.a[0])
            if fn is not None and not y.a[3]:
                return body(y.a[0], [T("param", 1000 * (depth + 1) + i, f"p{depth}{i}") for i in range(1, fn.argc + 1)])
        if y.op == "closure" and depth < 4:
            fn = E.F.fns.get(y.a[0])
            if fn is not None:
                st, own = St(), []
                caps = list(y.a[1]) if len(y.a) > 1 else []
                for i in fn.d.get("upmut", ()):
                    if i < len(caps) and caps[i].op != "ptr":       # what the closure leaves there is part of what it does
                        o = T("O", T("captured", depth, i))
                        st.mem[o] = caps[i]
                        own.append((o, caps[i]))
                        caps[i] = T("ptr", o, ())
                me = T("closure", y.a[0], tuple(caps), *y.a[2:]) if own else y
                args = [me] + [T("param", 1000 * (depth + 1) + i, f"p{depth}{i}") for i in range(1, fn.argc)]
                return body(y.a[0], args, st, own)
        return None

    def body(path, args, st=None, own=()):
        try:
            ex = E.summarize(path, args, st=st)
        except Exception:
            return None
        paths = {}
        for e in ex:
            v = e.val
            if E.F.fns[path].d.get("coroutine"):
                v = err_only(v) if e.kind == "ret" else v
            fx = getattr(E, "effects", no_effects)(e.ev)
            ws = {}
            for w in e.ev:
                if w.k == "write" and w.args[0] != args[0] and not any(y.op == "f" and y.a[1] in QUIET for y in subterms(w.args[0])):
                    ws[w.args[0], w.name] = w.args[1]
            ws = [(b, n, u) for (b, n), u in ws.items()]
            ws += [(old, "captured", new) for old, new in ((old, e.st.mem.get(o, old)) for o, old in own) if new != old]
            ws = tuple(sorted(((lambdas(E, b, depth + 1), n, lambdas(E, u, depth + 1)) for b, n, u in ws), key=repr))
            fx = deep(fx, lambda t: lambdas(E, t, depth + 1) if has_closure(t) else t)
            if not fx and not ws:
                fx = ws = None
            o = (e.kind, lambdas(E, v, depth + 1) if e.kind == "ret" else None, *((fx, ws) if fx is not None else ()))
            for cs in expand([(lambdas(E, t, depth + 1), v) for t, v in e.conds]):
                cs = norm_conds(cs)
                if cs is not None:
                    paths.setdefault(o, set()).add(frozenset(cs))
        return T("lam", tuple(sorted(((simplify_alts(w), *o) for o, w in paths.items()), key=repr)))
    return rebuild(x, go)


def peel(s):
    s = re.sub(r"'\w+ ", "", s)
    while s[:1] == "&":
        s = s[1:].removeprefix("mut ")
    return s.split("<")[0].rsplit("::", 1)[-1]


def has_closure(t):
    return any(x.op in ("closure", "fn") for x in subterms(t))


def unwrap(x, F, adt, ps):
    """A struct with one field is that field. ps: the parameters that are such structs."""
    def go(y):
        if y.op == "adt" and y.a[0] == adt:
            return unwrap(y.a[3][0], F, adt, ps)
        if y.op == "f" and y.a[1] == name and y.a[0] in ps:
            return y.a[0]
        if y.op == "upd" and y.a[1] == name and y.a[0] in ps:
            return unwrap(y.a[2], F, adt, ps)
        return None
    fs = F.adts[adt]["variants"][0]["fields"]
    name = fs[0]["name"] if isinstance(fs[0], dict) else fs[0][0]
    return rebuild(x, go)


def mirrored(x, names):
    """Structs of the reference stand for those of the code with the same name."""
    def go(y):
        if y.op == "adt" and y.a[0] in names:
            return T("adt", names[y.a[0]], y.a[1], y.a[2], tuple(mirrored(z, names) for z in y.a[3]))
        if y.op in ("ty", "static") and y.a[0] in names:
            return T(y.op, names[y.a[0]])
        return None
    return rebuild(x, go)


def deep(v, f):
    return f(v) if isinstance(v, T) else tuple(deep(u, f) for u in v) if isinstance(v, tuple) else v


def rewritten(t, f):
    a = tuple(rewritten(u, f) if isinstance(u, T) else tuple(rewritten(v, f) if isinstance(v, T) else v for v in u) if isinstance(u, tuple) else u for u in t.a)
    return f(t if a == t.a else T(t.op, *a))


ORDERED = {}


def ordered(t):
    """The cases of a loop and the conditions of a case have no order: the one that follows from the terms they are made of."""
    r = ORDERED.get(t)
    if r is None:
        a = tuple(deep(x, ordered) for x in t.a)
        def cases(l):
            by = {}
            for cs, u in l:
                by.setdefault(u, []).append(cs)
            return tuple(sorted({(conds(cs), u) for u, w in by.items() for cs in primes(w)}, key=lambda z: (z[1].id, *[rank(c) for c in z[0]])))
        conds = lambda cs: tuple(sorted(set(cs), key=rank))
        if t.op in ("fold", "run"):
            a = (*a[:2], cases(a[2]), *a[3:])
        elif t.op == "comp":
            a = (a[0], cases(a[1]), *a[2:])
        elif t.op == "alts":
            a = (tuple(sorted({conds(cs) for cs in primes(a[0])}, key=lambda l: [rank(c) for c in l])),)
        r = ORDERED[t] = t if a == t.a else T(t.op, *a)
    return r


def met(x, z):
    """The conditions x and those of z, or None if they cannot all hold; x itself if they all follow from it."""
    known, out = dict(c for c in x if not isinstance(c[1], frozenset)), set(x)
    for t, v in z:
        if t in known:
            if known[t] in v if isinstance(v, frozenset) else known[t] != v:
                return None
        elif (t, v) not in out:
            if any(u is t and not isinstance(v, frozenset) and v in w for u, w in x if isinstance(w, frozenset)):
                return None
            out.add((t, v))
    return frozenset(out)


def primes(sets):
    """The conjunctions `sets` of a disjunction: its prime implicants, which do not depend on how it was arrived at."""
    sets = {frozenset(x) for x in sets}
    todo, sets = list(sets), set()
    while todo:
        x = todo.pop()
        c = next((c for c in x if c[0].op == "alts" and c[1] == 1), None)
        if c is None or len(todo) + len(sets) > 4096:
            sets.add(x)
        else:
            rest = x - {c}
            new = [m for z in c[0].a[0] for m in [met(rest, z)] if m is not None]
            todo += [rest] if rest in new else new
    holds = lambda t, v: t.a[0] not in v if isinstance(v, frozenset) else t.a[0] == v
    sets = {frozenset(c for c in x if c[0].op != "int") for x in sets if all(t.op != "int" or holds(t, v) for t, v in x)}
    dom = {}
    for x in sets:
        for t, v in x:
            dom.setdefault(t, set()).update(v if isinstance(v, frozenset) else [v])
    if len(sets) < 2 or len(sets) > 4096 or len(dom) > 40 or any(type(v) is not int for d in dom.values() for v in d):
        return sets
    for t, d in dom.items():
        if complementary(t, 0, 1) and d <= {0, 1}:
            d |= {0, 1}
        elif t in NVAR and d <= set(range(NVAR[t])):
            d |= set(range(NVAR[t]))
        else:
            d.add("*")
    cubes = set()
    for x in sets:
        k = {t: frozenset(d) for t, d in dom.items()}
        for t, v in x:
            k[t] &= (frozenset(dom[t]) - v if isinstance(v, frozenset) else {v})
        if all(k.values()):
            cubes.add(tuple(k.values()))
    if len(sets) > 64 or len(dom) > 16:
        return decided(sets, dom, cubes)
    within = lambda x, y: all(p <= q for p, q in zip(x, y))
    new = True
    while new:
        new = False
        cubes = {x for x in cubes if not any(x != y and within(x, y) for y in cubes)}
        l = sorted(cubes, key=repr)
        for i, x in enumerate(l):
            for y in l[i + 1:]:
                if x not in cubes or y not in cubes:
                    continue
                both = [p & q for p, q in zip(x, y)]
                empty = [i for i, p in enumerate(both) if not p]
                if len(empty) > 1:
                    continue
                for j in empty or [i for i in range(len(x)) if x[i] != y[i]]:
                    z = tuple(x[i] | y[i] if i == j else p for i, p in enumerate(both))
                    if not any(within(z, w) for w in cubes):
                        cubes = {w for w in cubes if not within(w, z)} | {z}
                        new = True
        if len(cubes) > 500:
            return sets
    out = set()
    for x in cubes:
        k = [()]
        for (t, d), v in zip(dom.items(), x):
            if v == d:
                continue
            opts = [frozenset(d - v)] if "*" in v or len(v) > 1 and t in NVAR else sorted(v)
            k = [(*c, (t, o)) for c in k for o in opts]
        out |= {frozenset(c) for c in k}
    return out


def decided(sets, dom, cubes):
    """For a disjunction with too many prime implicants: the paths of its ordered decision diagram, reduced, hence as canonical."""
    at = sorted(range(len(dom)), key=lambda i: list(dom)[i].id)
    terms = [list(dom)[i] for i in at]
    full = [frozenset(dom[t]) for t in terms]
    memo = {}

    def node(i, l):
        if any(c[i:] == tuple(full[i:]) for c in l):
            return True
        if not l:
            return False
        k = (i, frozenset(c[i:] for c in l))
        if k not in memo:
            if len(memo) > 20000:
                raise OverflowError
            to = {}
            for v in full[i]:
                to.setdefault(node(i + 1, [c for c in l if v in c[i]]), set()).add(v)
            memo[k] = next(iter(to)) if len(to) == 1 else (i, frozenset((frozenset(v), n) for n, v in to.items()))
        return memo[k]

    def paths(n):
        if n is True:
            return [()]
        out = []
        for v, m in n[1] if n else ():
            t, d = terms[n[0]], full[n[0]]
            opts = [frozenset(d - v)] if "*" in v or len(v) > 1 and t in NVAR else sorted(v)
            out += [((t, o), *p) for p in paths(m) for o in opts]
            if len(out) > 4000:
                raise OverflowError
        return out

    try:
        return {frozenset(p) for p in paths(node(0, [tuple(c[i] for i in at) for c in cubes]))}
    except OverflowError:
        return sets


def rank(c):
    return (c[0].id, str(sorted(c[1]) if isinstance(c[1], frozenset) else c[1]))


def mirrors(F):
    """Structs of the reference stand for those of the code whose path ends alike."""
    if not hasattr(F, "mirrors"):
        F.mirrors = {}
        code = {}
        for z in F.adts:
            if not is_spec(z) and F.adts[z].get("local"):
                code.setdefault(z.rsplit("::", 1)[-1], []).append(z)
        for y in F.adts:
            if is_spec(y):
                z = nearest(y, code.get(y.rsplit("::", 1)[-1], ()))
                if z:
                    F.mirrors[y] = z
    return F.mirrors


def nearest(y, l):
    """The one path of l that has the longest end in common with y."""
    p = y.split("::")[::-1]
    l = sorted(((next((i for i, (u, v) in enumerate(zip(p, z.split("::")[::-1])) if u != v), 99), z) for z in l), reverse=True)
    return l[0][1] if l and (len(l) == 1 or l[0][0] > l[1][0]) else None


def statics(ea, eb):
    """Statics of the reference stand for those of the code whose path ends alike."""
    def used(l):
        ts = [t for e in l for t in (e.val, *(t for t, _ in e.conds), *(k for k in e.st.mem if k.op == "O"), *(w for k, w in e.st.mem.items() if k.op == "O"),
                                     *(a for x in e.ev if x.k == "call" for a in x.args)) if isinstance(t, T)]
        return {x.a[0] for t in ts for x in subterms(t) if x.op == "static"}
    a, r = used(ea), {}
    for y in used(eb):
        if is_spec(y):
            z = nearest(y, [z for z in a if z.endswith("::" + y.rsplit("::", 1)[-1]) and not is_spec(z)])
            if z:
                r[y] = z
    return r


def drive(E, exits):
    """An asynchronous function does what its body does when it is awaited."""
    out = []
    for e in exits:
        fn = E.F.fns.get(e.val.a[0]) if e.kind == "ret" and e.val.op == "closure" else None
        if fn is not None and fn.d.get("coroutine"):
            out += E.call_fn(fn, [e.val, T("ctx")], e.st, E.closure_env.get(e.val.a[0], {}), 1, ())
        else:
            out.append(e)
    return out


class Result:
    def __init__(self):
        self.mismatch = []
        self.pairs = 0
        self.paths = (0, 0)
        self.conds = 0


def compare(E, a, b, mode="ok", effects=no_effects, newtype=None, limit=3, canon=None, modules=()):
    """a: code path, b: spec path -> Result"""
    F = E.F
    fa, fb = F.fns[a], F.fns[b]
    r = Result()
    E.effects = effects
    if fa.argc != fb.argc:
        raise ValueError(f"{a} and {b} differ in arity")
    args, outs = canon_args(F, fa)
    result = fa.local_ty(0)["s"].startswith(("core::result::Result", "std::result::Result", "Result"))
    ea = drive(E, E.summarize(a, list(args)))
    eb = drive(E, E.summarize(b, list(args)))
    result = result or any(e.kind == "ret" and e.val.op == "adt" and e.val.a[0] == RES for e in ea)
    if fa.local_ty(0)["s"] == "()":
        for e in (*ea, *eb):
            if e.kind == "ret":
                e.val = UNIT
    if E.truncated:
        r.mismatch.append(("undecided", f"path budget: {E.truncated}"))
        return r
    lam = lambda l: [(tuple((lambdas(E, t) if has_closure(t) else t, v) for t, v in c), e) for e in l for c in expand(e.conds)]
    names = dict(mirrors(F), **{y: m + y[len(n):] for n, m in modules for y in F.adts if y.startswith(n) and m + y[len(n):] in F.adts})
    A, B = lam(ea), lam(eb)
    names.update(statics(ea, eb))
    if canon:
        cn = lambda t: rewritten(t, canon) if isinstance(t, T) else tuple(cn(u) for u in t) if isinstance(t, tuple) else t
        A, B = [[(tuple((cn(t), v) for t, v in c), e) for c, e in l] for l in (A, B)]
    if names:
        B = [(tuple((mirrored(t, names), v) for t, v in c), e) for c, e in B]
    un = lambda o: o
    if newtype:
        adt = F.find_adt(newtype)
        if adt is None or len(F.adts[adt]["variants"][0]["fields"]) != 1:
            r.mismatch.append(("undecided", f"{newtype} is not a struct with one field"))
            return r
        ps = {T("param", i, f"a{i}") for i in range(1, fa.argc + 1) if peel(fa.local_ty(i)["s"]) == peel(adt)}
        un = lambda o: tuple(unwrap(v, F, adt, ps) if isinstance(v, T) else v for v in o)
        A = [(tuple((unwrap(t, F, adt, ps), v) for t, v in c), e) for c, e in A]
    A, B = [[(tuple((ordered(t), v) for t, v in c), e) for c, e in l] for l in (A, B)]
    r.paths = (len(A), len(B))
    r.conds = sum(len(c) for c, _ in A)
    post = (lambda v: err_only(v)) if mode == "ok" else (lambda v: v)
    for ca, x in A:
        sa = add(St(), ca)
        if sa is None:
            continue
        met = False
        for cb, y in B:
            s = add(sa, cb)
            if s is None:
                continue
            met = True
            r.pairs += 1
            ox, oy = [un(deep(outcome(z, mode, outs, effects), lambda t: lambdas(E, t) if has_closure(t) else t)) for z in (x, y)]
            if names:
                oy = deep(oy, lambda t: mirrored(t, names))
            if canon:
                ox, oy = cn(ox), cn(oy)
            ox, oy = deep(ox, ordered), deep(oy, ordered)
            if ox == oy:
                continue
            if ox[0] == oy[0] == "ret":
                nx, ny = [deep(tuple(simp(post(v), s) if isinstance(v, T) else deep(v, lambda t: simp(t, s)) for v in o), ordered) for o in (ox, oy)]
                if nx == ny or alike(nx, ny, s):
                    continue
                # discr facts may make the value of an eta'd Result equal in the error case
                if mode == "ok" and result and nx[2:] == ny[2:] and is_err(nx[1], s) and is_err(ny[1], s):
                    continue
            else:
                nx, ny = ox, oy
            if len(r.mismatch) < limit:
                r.mismatch.append((describe(s), describe_out(nx), describe_out(ny), tuple(show(z) for z in diff(nx, ny))))
    return r


def alike(x, y, st):
    """The same, where a struct may be written as a whole or field by field, and a variant that is known be spelled out."""
    if x is y or not isinstance(x, (T, tuple)):
        return x == y
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(alike(u, v, st) for u, v in zip(x, y))
    if not isinstance(y, T):
        return False
    if x.op == y.op and len(x.a) == len(y.a) and all(alike(u, v, st) for u, v in zip(x.a, y.a)):
        return True
    for s, u in ((x, y), (y, x)):
        if s.op == "adt" and len(s.a[2]) > 1 and u.op == "upd":
            if all(alike(field(u, n), v, st) for n, v in zip(s.a[2], s.a[3])):
                return True
        if s.op == "adt" and s.a[0] in (RES, OPT) and u.op != "adt" and variant(u, st) == discr(s).a[0]:
            if all(v is UNIT or alike(field(as_(u, s.a[1]), n), v, st) for n, v in zip(s.a[2], s.a[3])):
                return True
    return False


def variant(u, st):
    """The variant of a value, also if the facts have it as it was before it was simplified."""
    k = st.known(discr(u))
    if k is None and u.a:
        for t, v in st.facts.items():
            if t.op == "discr" and t.a[0].op == u.op and t.a[0].a[:1] == u.a[:1] and not isinstance(v, frozenset) and deep(simp(t.a[0], st), ordered) == u:
                return v
    return k


def is_err(v, s):
    if not isinstance(v, T):
        return False
    if v.op == "adt" and v.a[0] == RES:
        return v.a[1] == "Err"
    d = discr(v)
    return (variant(v, s) if d.op != "int" else d.a[0]) == 1


def describe(s):
    return " & ".join(f"{pp(t)} {'=' if not isinstance(v, frozenset) else '!='} {v if not isinstance(v, frozenset) else set(v)}" for t, v in s.conds)


def diff(x, y, where=""):
    """The innermost place where two terms differ."""
    while True:
        if isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.a) == len(y.a):
            ds = [(p, q) for p, q in zip(x.a, y.a) if p != q]
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            ds = [(p, q) for p, q in zip(x, y) if p != q]
        else:
            return x, y
        if len(ds) != 1 or not all(isinstance(z, (T, tuple)) for z in ds[0]):
            return x, y
        x, y = ds[0]


def show(x, n=700):
    return (pp(x) if isinstance(x, T) else str(tuple(show(z) for z in x)) if isinstance(x, tuple) else str(x))[:n]


def describe_out(o):
    return "; ".join(pp(v) if isinstance(v, T) else str(v) for v in o)
