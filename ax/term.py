"""Interned value-numbering terms: the domain of the value-flow analysis in engine.py."""


class T:
    __slots__ = ("op", "a", "id", "_s")
    _tab = {}
    _n = 0

    def __new__(cls, op, *a):
        k = (op, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            cls._n += 1
            t.id = cls._n
            t._s = None
            cls._tab[k] = t
        return t

    def __repr__(self):
        return pp(self)

    def __reduce__(self):
        return (T, (self.op,) + self.a)


def I(n):
    return T("int", int(n))


TRUE, FALSE = I(1), I(0)
UNIT = T("tuple")


def short(p):
    p = str(p)
    out, depth = [], 0
    for ch in p:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
    segs = p.split("::")
    return "::".join(segs[-2:]) if len(segs) > 2 and "<" not in p else p


def pp(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "[" + ", ".join(pp(x, d) for x in t) + "]"
        return str(t)
    if d > 12:
        return "…"
    n = d + 1
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "bytes":
        return "0x" + a[0]
    if o == "param":
        return a[1]
    if o == "f":
        return f"{pp(a[0], n)}.{a[1]}"
    if o == "as":
        return f"({pp(a[0], n)} as {a[1]})"
    if o == "adt":
        nm = a[0].rsplit("::", 1)[-1]
        if a[1] != nm:
            nm += "::" + a[1]
        if not a[2]:
            return nm
        if a[2][0] == "0":
            return nm + "(" + ", ".join(pp(x, n) for x in a[3]) + ")"
        return nm + "{" + ", ".join(f"{k}: {pp(v, n)}" for k, v in zip(a[2], a[3])) + "}"
    if o == "tuple":
        return "(" + ", ".join(pp(x, n) for x in a) + ")"
    if o in ("call", "mut"):
        s = short(a[0]) + "(" + ", ".join(pp(x, n) for x in a[1:]) + ")"
        return s if o == "call" else "mut:" + s
    if o == "ptr":
        return "&mut " + pp(a[0], n) + "".join("." + pp(x) for x in a[1])
    return o + "(" + ", ".join(pp(x, n) for x in a) + ")"


def children(t):
    st = [t.a]
    while st:
        x = st.pop()
        for y in x:
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                st.append(y)


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def mapterm(t, fn, memo=None):
    """Rebuild bottom-up; fn(term) may return a replacement or None. Replaced subterms are rebuilt
    with the plain constructor (see engine.rebuild for the normalising one)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = fn(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if all(p is q or p == q for p, q in zip(na, x.a)) else T(x.op, *na)
        memo[x] = r
        return r

    return go(t)


SPECS = ("axspec", "axwide")        # the crates of references (spec/, spec_wide/)


def is_spec(path):
    return path.startswith(("axspec::", "axwide::"))
