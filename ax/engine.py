"""Value-flow analysis over MIR: path-sensitive, interprocedural function summaries on value-numbered
terms, in the style of Min et al. (JUXTA, SOSP 2015). Nothing is executed and no solver is used: a path
is dropped only if it contradicts itself on the very same term (x is Some / x is None).

run(fn, args) -> exits, each a state (conditions, ordered events, memory) with 'ret' or 'panic' and a value.
Local callees are inlined up to a depth, loops are summarised by havoc to a fixpoint (comp / fold terms),
library calls are either modelled (Option/Result/iterator/comparison/identity conversions) or left as
uninterpreted terms plus an event."""
import math
import re
import sys
from .term import children, T, I, TRUE, FALSE, UNIT, mapterm, subterms, pp

sys.setrecursionlimit(60000)

MOVED = T("moved")
OPT, RES, CF = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
WIDE = {"primitive_types::U256": 256, "ethereum_types::uint::U64": 64, "primitive_types::U128": 128,
        "primitive_types::U512": 512, "ethereum_types::U64": 64}
NEWTYPES = {"primitive_types::H256", "primitive_types::H160", "primitive_types::H512",
            "primitive_types::H128", "primitive_types::H64", "ethbloom::Bloom", "ethereum_types::hash::H64",
            "ckb_fixed_hash_core::H256"}


ZERO = I(0)
SIZES = {"H256": 32, "H160": 20, "H512": 64, "H128": 16, "H64": 8, "Bloom": 256}


def zero_of(path):
    n = path.rsplit("::", 1)[-1]
    return T("adt", path, n, ("0",), (T("bytes", "00" * SIZES[n]),))


# number of variants of the enum a discriminant term ranges over, where known
NVAR = {}


class Budget(Exception):
    pass


_STRIP = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*>")


def norm(p):
    """`core::option::Option::<T>::map` -> `core::option::Option::map`."""
    if p.startswith("<"):
        return p
    return _STRIP.sub("", p)


def Some(x):
    return T("adt", OPT, "Some", ("0",), (x,))


NONE = T("adt", OPT, "None", (), ())


def Ok(x):
    return T("adt", RES, "Ok", ("0",), (x,))


def Err(x):
    return T("adt", RES, "Err", ("0",), (x,))


VIDX = {(OPT, "None"): 0, (OPT, "Some"): 1, (RES, "Ok"): 0, (RES, "Err"): 1, (CF, "Continue"): 0, (CF, "Break"): 1}


def key(t):
    """Order for commutative operands: constants last."""
    return (t.op in ("int", "str", "bytes"), t.id)


def not_(t):
    if t.op == "int":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    return T("not", t)


def is_const(t):
    return t.op in ("int", "str", "bytes")


def strip_view(t):
    while t.op == "view":
        t = t.a[0]
    return t


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b) and a.op == b.op:
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return FALSE
    if a.op == "adt" and b.op != "adt":
        a, b = b, a
    if b.op == "adt" and not b.a[2] and b.a[0] != b.a[1] and a.op != "adt":
        # fieldless variant: comparison of discriminants
        vi = variant_discr(b)
        if vi is not None:
            return eq(discr(a), I(vi))
    if a.op == "adt" and b.op == "adt" and a.a[:3] == b.a[:3] and len(a.a[3]) == 1 and a.a[0] in (OPT, RES):
        return eq(a.a[3][0], b.a[3][0])
    if a.op == "adt" and a.a[0] in NEWTYPES and len(a.a[3]) == 1:
        a, b = b, a
    if b.op == "adt" and b.a[0] in NEWTYPES and len(b.a[3]) == 1 and b.a[3][0].op == "bytes":
        return eq(field(a, "0"), b.a[3][0])
    if b.op == "adt" and b.a[0] == OPT and len(b.a[3]) == 1 and a.op != "adt":
        return binop("BitAnd", eq(discr(a), I(1)), eq(some(a), b.a[3][0]))
    # x == [c] etc: keep
    if a.op in ("not",) and b.op == "int":
        return eq(a.a[0], I(1 - b.a[0]))
    if a.op in BOOLOPS and b.op == "int" and b.a[0] in (0, 1):
        return a if b.a[0] else not_(a)
    if key(a) > key(b):
        a, b = b, a
    if a.op == "sum" or b.op == "sum":
        p = padd(poly(a), poly(b), -1)
        c, m = p
        g = 0
        for k in list(m.values()) + [c]:
            g = math.gcd(g, abs(k))
        if not m:
            return TRUE if c == 0 else FALSE
        lead = min(m, key=mono_key)
        if m[lead] < 0:
            g = -g
        c, m = c // g, {k: v // g for k, v in m.items()}
        if c > 0 and all(v > 0 for v in m.values()):
            return FALSE    # a sum of unsigned numbers and a positive constant is not 0
        a = unpoly((c if c > 0 else 0, {k: v for k, v in m.items() if v > 0}))
        b = unpoly((-c if c < 0 else 0, {k: -v for k, v in m.items() if v < 0}))
        if key(a) > key(b):
            a, b = b, a
        if b is ZERO and a.op == "sum" and a.a[0] == 0:
            pass
    if b is ZERO and a.op == "len" and a.a[0].op == "rlp_out" and a.a[0].a[0].op != "rs0":
        return FALSE
    return T("eq", a, b)


def mono_key(m):
    return (len(m), tuple(t.id for t in m))


def poly(t):
    """t as (constant, {sorted atoms: coefficient})"""
    if t.op == "int":
        return (t.a[0], {})
    if t.op == "sum":
        return (t.a[0], {m: c for c, m in t.a[1]})
    return (0, {(t,): 1})


def padd(p, q, k=1):
    m = dict(p[1])
    for x, c in q[1].items():
        m[x] = m.get(x, 0) + k * c
        if not m[x]:
            del m[x]
    return (p[0] + k * q[0], m)


def pmul(p, q):
    r = (p[0] * q[0], {})
    for x, c in p[1].items():
        r = padd(r, (0, {x: c}), q[0]) if q[0] else r
    for y, d in q[1].items():
        r = padd(r, (0, {y: d}), p[0]) if p[0] else r
        for x, c in p[1].items():
            r = padd(r, (0, {tuple(sorted(x + y, key=lambda t: t.id)): c * d}))
    return r


def unpoly(p):
    c, m = p
    if not m:
        return T("int", c)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        if k == 1 and len(x) == 1:
            return x[0]
    return T("sum", c, tuple((m[x], x) for x in sorted(m, key=mono_key)))


BOOLOPS = {"eq", "lt", "not", "boolop", "exists", "hasnth", "alts"}


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b is ZERO:
        return FALSE    # unsigned
    if a is ZERO and b.op != "sum":
        return not_(eq(b, ZERO))
    if a.op == "int" and b.op == "len":
        u = maxlen(b.a[0])
        if u is not None and a.a[0] >= u:
            return FALSE
    c, m = padd(poly(b), poly(a), -1)
    if not m:
        return TRUE if c > 0 else FALSE
    neg = m[min(m, key=mono_key)] < 0
    if neg:
        c, m = 1 - c, {k: -v for k, v in m.items()}
    g = 0
    for k in m.values():
        g = math.gcd(g, abs(k))
    if g > 1:
        # sum of g*x_i + c > 0  <=>  sum of x_i > -c/g  <=>  sum of x_i + ceil(c / g) > 0
        c, m = -((-c) // g), {k: v // g for k, v in m.items()}
    pos = unpoly((c if c > 0 else 0, {k: v for k, v in m.items() if v > 0}))
    ng = unpoly((-c if c < 0 else 0, {k: -v for k, v in m.items() if v < 0}))
    if c > 0 and ng is ZERO:
        r = TRUE
    elif ng is ZERO:
        r = not_(eq(pos, ZERO))
    else:
        r = T("lt", ng, pos)
    return not_(r) if neg else r


DISTANCE = {}


def distance(t):
    """(m, c) of a < b or a == b: what b - a consists of, and the constant in it"""
    r = DISTANCE.get(t)
    if r is None:
        c, m = padd(poly(t.a[1]), poly(t.a[0]), -1)
        if t.op == "eq" and m and m[min(m, key=mono_key)] < 0:
            c, m = -c, {k: -v for k, v in m.items()}
        r = DISTANCE[t] = (frozenset(m.items()), c)
    return r


def maxlen(x):
    """A bound of the length of a slice."""
    n = length(x)
    if n.op == "int":
        return n.a[0]
    return maxlen(x.a[0]) if x.op == "slice" else None


# writes into a slice, which keeps its length
SLICE_WRITERS = re.compile(r"(^|::)(to_big_endian|to_little_endian|hex_decode|hex_encode|copy_from_slice|clone_from_slice|fill|reverse|finalize|swap)$")


ADTS = {}  # path -> adt facts, set by Engine


def variant_discr(t):
    p, v = t.a[0], t.a[1]
    r = VIDX.get((p, v))
    if r is not None:
        return r
    a = ADTS.get(p)
    if a:
        for i, x in enumerate(a["variants"]):
            if x["name"] == v:
                d = x.get("discr")
                return int(d) if d not in (None, "") else i
    return None


def flip(t):
    if t.op == "int":
        return I(1 - t.a[0])
    if t.op == "flip":
        return t.a[0]
    return T("flip", t)


def discr(x):
    x = strip_view(x)
    if x.op == "adt":
        v = variant_discr(x)
        if v is not None:
            return I(v)
    if x.op == "branch":
        return discr(x.a[0])
    if x.op == "branch_o":
        return flip(discr(x.a[0]))
    if x.op == "upd" and x.a[1] != "*":
        return discr(x.a[0])
    return T("discr", x)


def as_(x, v):
    x = strip_view(x)
    if x.op == "adt":
        return x
    if x.op == "branch":
        if v == "Continue":
            return T("as", x.a[0], "Ok")
        return T("cfbreak", x.a[0])
    if x.op == "branch_o":
        if v == "Continue":
            return T("as", x.a[0], "Some")
        return T("cfbreak", x.a[0])
    return T("as", x, v)


def field(b, name, idx=None):
    name = str(name)
    b = strip_view(b)
    if b.op == "adt":
        if name in b.a[2]:
            return b.a[3][b.a[2].index(name)]
        return T("f", b, name)
    if b.op in ("tuple", "array") and name.isdigit() and int(name) < len(b.a):
        return b.a[int(name)]
    if b.op == "closure":
        i = int(name) if name.isdigit() else idx
        if i is not None and i < len(b.a[1]):
            return b.a[1][i]
    if b.op == "upd":
        if b.a[1] == name:
            return b.a[2]
        return field(b.a[0], name, idx)
    if b.op == "cfbreak":
        return T("resid", b.a[0])
    if b.op == "elem" and b.a[0].op == "zip" and name in "01":
        return elem(b.a[0].a[int(name)])
    if name in ("pointer", "__pointer") and b.op == "pin":
        return b.a[0]
    return T("f", b, name)


def table(paths):
    """Paths that are told apart only by comparing one value with constants: which constants are tried, and in what
    order, does not matter where the result is that of the default."""
    x, by, default = None, {}, []
    for cs, r in paths:
        pos = None
        for t, v in cs:
            if t.op != "eq" or v not in (0, 1) or t.a[1].op not in ("str", "int") or x is not None and t.a[0] != x:
                return paths
            x = t.a[0]
            if v == 1:
                pos = t
        if pos is None:
            default.append(r)
        elif pos in by and by[pos] != r:
            return paths
        else:
            by[pos] = r
    if x is None or len(default) != 1:
        return paths
    d = default[0]
    keep = sorted((t for t, r in by.items() if r != d), key=pp)
    return [(((t, 1),), by[t]) for t in keep] + [(tuple((t, 0) for t in keep), d)]


def some(x):
    return field(as_(x, "Some"), "0")


def ok(x):
    return field(as_(x, "Ok"), "0")


def err(x):
    return field(as_(x, "Err"), "0")


def length(x):
    x = strip_view(x)
    if x.op == "bytes":
        return I(len(x.a[0]) // 2)
    if x.op == "str":
        return I(len(x.a[0].encode()))
    if x.op in ("array",):
        return I(len(x.a))
    if x.op == "repeat":
        return x.a[1]
    if x.op == "comp" and len(x.a[1]) == 1 and not x.a[1][0][0]:
        return length(x.a[0])
    if x.op == "range" and x.a[0] is I(0):
        return x.a[1]
    if x.op == "upd" and isinstance(x.a[1], T):
        return length(x.a[0])
    if x.op in ("rev",):
        return length(x.a[0])
    if x.op == "concat":
        r = I(0)
        for y in x.a:
            r = binop("Add", r, length(y))
        return r
    if x.op == "newvec":
        return I(0)
    if x.op == "mut" and isinstance(x.a[0], str) and SLICE_WRITERS.search(x.a[0]):
        return length(x.a[2 + x.a[1]])
    if x.op == "slice" and x.a[2].op == "int" and x.a[1].op == "int":
        return I(x.a[2].a[0] - x.a[1].a[0])
    if x.op == "slice" and x.a[2].op == "end" and x.a[1].op == "sum":
        n = binop("Sub", length(x.a[0]), x.a[1])
        if n.op == "int":
            return n
    if x.op in ("to_be_bytes", "to_le_bytes") and len(x.a) == 2:
        return x.a[1]
    if x in LENS:
        return I(LENS[x])
    return T("len", x)


LENS = {}       # arrays that became slices in the function at hand
ARRAY_REF = re.compile(r"&(?:'\w+ )?(?:mut )?\[[^;\]]+; (\d+)(?:_usize)?\]$")


def index(b, i):
    b = strip_view(b)
    if i.op == "int":
        n = i.a[0]
        if b.op == "array" and 0 <= n < len(b.a):
            return b.a[n]
        if b.op == "bytes" and 0 <= n < len(b.a[0]) // 2:
            return I(int(b.a[0][2 * n:2 * n + 2], 16))
        if b.op == "repeat":
            return b.a[0]
        if b.op == "slice" and b.a[1].op == "int":
            return index(b.a[0], I(b.a[1].a[0] + n))
        if b.op == "slice" and b.a[1].op == "sum":
            return index(b.a[0], binop("Add", b.a[1], i))
    if b.op == "upd" and isinstance(b.a[1], T):
        if b.a[1] is i:
            return b.a[2]
        if b.a[1].op == "int" and i.op == "int":
            return index(b.a[0], i)
    if i.op == "idx" and i.a[0] is b:
        return elem(b)
    return T("index", b, i)


def elem(it):
    it = strip_view(it)
    if it.op == "comp" and len(it.a[1]) == 1 and not it.a[1][0][0]:
        return it.a[1][0][1]
    if it.op == "zip":
        return T("tuple", elem(it.a[0]), elem(it.a[1]))
    if it.op == "enum":
        return T("tuple", idx(it.a[0]), elem(it.a[0]))
    if it.op == "range":
        if it.a[0] is I(0) and it.a[1].op == "len":
            return idx(it.a[1].a[0])
        return T("elem", it)
    if it.op == "keys":
        return field(elem(it.a[0]), "0")
    if it.op == "values":
        return field(elem(it.a[0]), "1")
    if it.op == "rev":
        return elem(it.a[0])
    if it.op == "array" and len(it.a) and all(x is it.a[0] for x in it.a):
        return it.a[0]
    return T("elem", it)


def idx(it):
    if it.op == "comp" and len(it.a[1]) == 1 and not it.a[1][0][0]:
        return idx(it.a[0])
    return T("idx", it)


def itbase(it):
    it = strip_view(it)
    if it.op in ("imap", "ifilter", "ifmap", "enum", "iinspect"):
        return itbase(it.a[0])
    if it.op == "zip":
        a, b = itbase(it.a[0]), itbase(it.a[1])
        return T("zip", a, b)
    if it.op == "range" and it.a[0] is I(0) and it.a[1].op == "len":
        return itbase(it.a[1].a[0])
    if it.op == "comp":
        return it.a[0]
    return it


def norm_conds(cs):
    """The conjunction without what is constant, or None when it is false."""
    out = []
    for t, v in cs:
        while t.op in ("not", "flip"):
            t = t.a[0]
            v = frozenset(1 - x for x in v) if isinstance(v, frozenset) else 1 - v
        if t.op == "int":
            if (t.a[0] in v) if isinstance(v, frozenset) else t.a[0] != v:
                return None
            continue
        if t.op == "eq" and t.a[1].op == "int":
            yes = (0 in v) if isinstance(v, frozenset) else v == 1
            t, v = t.a[0], (t.a[1].a[0] if yes else frozenset((t.a[1].a[0],)))
            if isinstance(v, frozenset) and NVAR.get(t) == 2:
                v = 1 - min(v)
        for u, w in out:
            if u is t and not isinstance(w, frozenset) and not isinstance(v, frozenset) and v != w:
                return None
        if (t, v) not in out:
            out.append((t, v))
    return tuple(out)


def join_paths(paths):
    """Paths with the same result that differ in one condition only: that condition does not matter."""
    paths = list(paths)
    again = len(paths) > 1
    while again:
        again = False
        for i in range(len(paths)):
            for j in range(i + 1, len(paths)):
                (a, x), (b, y) = paths[i], paths[j]
                if x is not y or len(a) != len(b):
                    continue
                da, db = [c for c in a if c not in b], [c for c in b if c not in a]
                if len(da) != 1 or len(db) != 1 or da[0][0] is not db[0][0]:
                    continue
                t, (v, w) = da[0][0], (da[0][1], db[0][1])
                if isinstance(v, frozenset):
                    v, w = w, v
                if isinstance(v, frozenset):
                    continue
                if isinstance(w, frozenset):
                    if v not in w:
                        continue
                    rest = w - {v}
                elif NVAR.get(t) == 2 and v != w:
                    rest = frozenset()
                else:
                    continue
                k = tuple(c for c in a if c != da[0]) if not rest else tuple((t, rest) if c == da[0] else c for c in a)
                paths[i:i + 1] = [(k, x)]
                del paths[j]
                again = True
                break
            if again:
                break
    return paths


def mkcomp(base, paths):
    p2 = []
    for cs, v in paths:
        cs = norm_conds(cs)
        if cs is not None:
            p2.append((cs, v))
    if not p2:
        return T("newvec")
    paths = join_paths(p2)
    if len(paths) == 1 and not paths[0][0] and paths[0][1] is elem(base):
        return base
    return T("comp", base, tuple(paths))


def slice_(b, lo, hi):
    """b[lo..hi]; hi None = to the end."""
    b = strip_view(b)
    if lo is I(0) and hi is None:
        return b
    if hi is not None and hi.op == "len" and hi.a[0] is b:
        hi = None
        if lo is I(0):
            return b
    h = hi if hi is not None else T("end")
    if b.op == "slice" and lo.op == "int" and b.a[1].op == "int" and h.op in ("int", "end") and b.a[2].op in ("int", "end"):
        x, l, e = b.a
        if e.op == "end" or h.op == "end" or h.a[0] <= e.a[0] - l.a[0]:
            return slice_(x, I(l.a[0] + lo.a[0]), I(l.a[0] + h.a[0]) if h.op == "int" else None if e.op == "end" else e)
    if b.op == "bytes" and lo.op == "int" and (hi is None or hi.op == "int"):
        e = hi.a[0] if hi is not None else len(b.a[0]) // 2
        return T("bytes", b.a[0][2 * lo.a[0]:2 * e])
    return T("slice", b, lo, h)


COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor"}


def floatop(o, a, b):
    """Floating point numbers obey none of the integer laws (NaN, rounding): only Gt/Ge are turned round, and == negated."""
    if o in ("Gt", "Ge"):
        o, a, b = {"Gt": "Lt", "Ge": "Le"}[o], b, a
    if o == "Ne":
        return not_(floatop("Eq", a, b))
    if o in ("Add", "Mul", "Eq"):
        a, b = sorted((a, b), key=lambda z: z.id)
    return T("call", "float." + o, a, b)


def binop(o, a, b):
    base = o
    for s in ("WithOverflow", "Unchecked"):
        if o.endswith(s):
            base = o[: -len(s)]
            r = binop(base, a, b)
            return T("tuple", r, T("overflow", base, a, b)) if s == "WithOverflow" else r
    if o == "Eq":
        return eq(a, b)
    if o == "Ne":
        return not_(eq(a, b))
    if o == "Lt":
        return lt(a, b)
    if o == "Gt":
        return lt(b, a)
    if o == "Le":
        return not_(lt(b, a))
    if o == "Ge":
        return not_(lt(a, b))
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        try:
            if o == "Add":
                return I(x + y)
            if o == "Sub" and x >= y:
                return I(x - y)
            if o == "Mul":
                return I(x * y)
            if o == "Div" and y:
                return I(x // y)
            if o == "Rem" and y:
                return I(x % y)
            if o == "BitAnd":
                return I(x & y)
            if o == "BitOr":
                return I(x | y)
            if o == "BitXor":
                return I(x ^ y)
            if o == "Shl" and y < 256:
                return I(x << y)
            if o == "Shr":
                return I(x >> y)
        except Exception:
            pass
    zero, one = I(0), I(1)
    if b is zero and o in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr"):
        return a
    if a is zero and o in ("Add", "BitOr", "BitXor"):
        return b
    if b is one and o in ("Mul", "Div"):
        return a
    if a is one and o == "Mul":
        return b
    if o in ("BitAnd", "BitOr", "BitXor") and (a.op in BOOLOPS or b.op in BOOLOPS):
        if o == "BitAnd":
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            if a is FALSE or b is FALSE:
                return FALSE
        if o == "BitOr" and (a is TRUE or b is TRUE):
            return TRUE
        x = T("bool", *sorted((a, b), key=key))
        return T("boolop", o, *sorted((a, b), key=key))
    if o in ("Add", "Sub", "Mul"):
        if o == "Mul":
            r = pmul(poly(a), poly(b))
        else:
            r = padd(poly(a), poly(b), 1 if o == "Add" else -1)
        if r[1] or r[0] >= 0:
            return unpoly(r)
    if o == "Shl" and b.op == "int" and b.a[0] < 64 and False:
        return unpoly(pmul(poly(a), (1 << b.a[0], {})))
    if o in ("BitAnd", "BitOr"):
        l, todo = [], [b, a]
        while todo:
            x = todo.pop()
            if x.op == "bin" and x.a[0] == o:
                todo += [x.a[2], x.a[1]]
            elif x not in l:
                l.append(x)
        l.sort(key=key)
        a = l[0]
        for x in l[1:]:
            a = T("bin", o, a, x)
        return a
    if o in COMM and key(a) > key(b):
        a, b = b, a
    return T("bin", o, a, b)


def rebuild(t, fn, memo=None):
    """mapterm, but re-applying the normalising constructors."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = fn(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            if all(p is q for p, q in zip(na, x.a)) or na == x.a:
                r = x
            else:
                r = mk(x.op, na)
                if x in NVAR and r.op != "int":
                    NVAR.setdefault(r, NVAR[x])
        memo[x] = r
        return r

    return go(t)


def mk(op, a):
    if op == "f":
        return field(a[0], a[1])
    if op == "as":
        return as_(a[0], a[1])
    if op == "discr":
        return discr(a[0])
    if op == "eq":
        return eq(*a)
    if op in ("max", "min") and len(a) == 2 and isinstance(a[0], T) and isinstance(a[1], T):
        return T(op, *sorted(a, key=lambda z: z.id))
    if op == "lt":
        return lt(*a)
    if op == "not":
        return not_(a[0])
    if op == "flip":
        return flip(a[0])
    if op == "len":
        return length(a[0])
    if op == "index":
        return index(*a)
    if op == "elem":
        return elem(a[0])
    if op in ("bin", "boolop"):
        return binop(*a)
    if op == "sum":
        r = (a[0], {})
        for c, m in a[1]:
            q = (c, {})
            for x in m:
                q = pmul(q, poly(x))
            r = padd(r, q)
        return unpoly(r)
    if op == "slice":
        return slice_(a[0], a[1], None if a[2].op == "end" else a[2])
    if op == "comp":
        return mkcomp(*a)
    if op == "alts":
        sets = [norm_conds(x) for x in a[0]]
        sets = [frozenset(x) for x in sets if x is not None]
        if not sets:
            return FALSE
        r = simplify_alts(sets)
        return TRUE if r is None else r
    if op == "exists":
        if a[1] is FALSE:
            return FALSE
        r = T("exists", *a)
        NVAR[r] = 2
        return r
    if op == "fold":
        ups = [(norm_conds(cs), u) for cs, u in a[2]]
        ups = tuple(join_paths(x for x in ups if x[0] is not None))
        return T("fold", a[0], a[1], ups) if ups else a[1]
    if op == "trunc" and a[1].op == "int" and isinstance(a[0], str) and a[0][:1] == "u" and a[0][1:].isdigit():
        return I(a[1].a[0] % (1 << int(a[0][1:])))
    return T(op, *a)


class St:
    __slots__ = ("mem", "conds", "facts", "neg", "ev")

    def __init__(self, mem=None, conds=(), facts=None, neg=None, ev=()):
        self.mem = mem if mem is not None else {}
        self.conds = conds
        self.facts = facts if facts is not None else {}
        self.neg = neg if neg is not None else {}
        self.ev = ev

    def fork(self):
        return St(dict(self.mem), self.conds, dict(self.facts), dict(self.neg), self.ev)

    def known(self, t):
        if t.op == "int":
            return t.a[0]
        if t.op == "not":
            k = self.known(t.a[0])
            return None if k is None else 1 - k
        if t.op == "flip":
            k = self.known(t.a[0])
            return None if k is None else 1 - k
        return self.facts.get(t)

    def assume(self, t, v):
        """self with t == v, or None when contradictory."""
        if t.op == "int":
            return self if t.a[0] == v else None
        if t.op in ("not", "flip"):
            return self.assume(t.a[0], 1 - v)
        if t.op == "eq" and t.a[1].op == "int" and v in (0, 1):
            x, k = t.a[0], t.a[1].a[0]
            if v:
                return self.assume(x, k)
            return self.exclude(x, (k,), None)
        if t.op == "boolop" and ((t.a[0] == "BitAnd" and v == 1) or (t.a[0] == "BitOr" and v == 0)):
            s = self
            for x in t.a[1:]:
                s = s and s.assume(x, v)
            return s
        if t in self.facts:
            return self if self.facts[t] == v else None
        if v in self.neg.get(t, ()):
            return None
        if t.op == "lt":
            a, b = [self.facts.get(x, x) if x.op != "int" else x.a[0] for x in t.a]
            if isinstance(a, int) and isinstance(b, int):
                return self if (a < b) == bool(v) else None
        elif isinstance(v, int) and t.op not in BOOLOPS and t.op != "discr":
            for o, ov in self.facts.items():
                if o.op == "lt" and (o.a[0] is t and o.a[1].op == "int" and (v < o.a[1].a[0]) != bool(ov)
                                     or o.a[1] is t and o.a[0].op == "int" and (o.a[0].a[0] < v) != bool(ov)):
                    return None
        # equal constants
        if t.op == "eq" and v == 1 and t.a[1].op in ("str", "bytes"):
            for o, ov in self.facts.items():
                if ov == 1 and o.op == "eq" and o.a[0] is t.a[0] and o.a[1].op == t.a[1].op:
                    return None
        if t.op == "lt" and v == 1:
            r = T("lt", t.a[1], t.a[0])
            if self.facts.get(r) == 1 or self.facts.get(T("eq", *sorted((t.a[0], t.a[1]), key=key))) == 1:
                return None
        if t.op in ("lt", "eq") and v in (0, 1):
            m, c = distance(t)
            if len(m) > 1:
                lo = hi = None
                ne = set()
                for o, ov in (*((o, ov) for o, ov in self.facts.items() if o.op in ("lt", "eq") and ov in (0, 1)), (t, v)):
                    mo, d = distance(o)
                    if mo != m:
                        continue
                    if o.op == "eq" and not ov:
                        ne.add(-d)
                        continue
                    if o.op == "eq" or ov:
                        b = -d if o.op == "eq" else 1 - d
                        lo = b if lo is None or b > lo else lo
                    if o.op == "eq" or not ov:
                        hi = -d if hi is None or -d < hi else hi
                if lo is not None and hi is not None and (lo > hi or lo == hi and lo in ne):
                    return None
        s = self.fork()
        s.facts[t] = v
        s.conds = s.conds + ((t, v),)
        return s

    def ways(self, t, v):
        """the states in which the condition t is v, one for each combination of its parts that decides it"""
        if t.op in ("not", "flip"):
            return self.ways(t.a[0], 1 - v)
        if t.op == "boolop" and t.a[0] in ("BitAnd", "BitOr"):
            k = 1 if t.a[0] == "BitAnd" else 0
            sts, out = [self], []
            for x in t.a[1:]:
                if v != k:
                    out.extend(s for s0 in sts for s in s0.ways(x, v))
                sts = [s for s0 in sts for s in s0.ways(x, k)]
            return sts if v == k else out
        s = self.assume(t, v)
        return [s] if s is not None else []

    def exclude(self, t, vs, n):
        """self with t not in vs (n: number of possible values 0..n-1, if known)."""
        if t.op == "int":
            return None if t.a[0] in vs else self
        if t.op in ("not", "flip"):
            return self.exclude(t.a[0], tuple(1 - v for v in vs), n)
        if t.op in BOOLOPS or t.op == "flip":
            n = 2
        if n is None:
            n = NVAR.get(t)
        if t.op == "eq" and t.a[1].op == "int":
            if 0 in vs:
                return self.assume(t, 1)
            if 1 in vs:
                return self.assume(t, 0)
        k = self.facts.get(t)
        if k is not None:
            return None if k in vs else self
        ex = frozenset(self.neg.get(t, ())) | frozenset(vs)
        if n is not None:
            rest = [i for i in range(n) if i not in ex]
            if not rest:
                return None
            if len(rest) == 1:
                return self.assume(t, rest[0])
        if ex == self.neg.get(t):
            return self
        s = self.fork()
        s.neg[t] = ex
        s.conds = s.conds + ((t, ex),)
        return s


def simplify_alts(sets):
    """The disjunction of conjunctions `sets` as a term, or None when it is a tautology."""
    sets = set(sets)
    while True:
        if frozenset() in sets:
            return None
        done = True
        for x in list(sets):
            c = next((c for c in x if c[0].op == "alts" and c[1] == 1), None)
            if c and len(sets) < 64:
                sets.discard(x)
                sets |= {y for y in ((x - {c}) | frozenset(z) for z in c[0].a[0]) if norm_conds(y) is not None}
                done = False
        for x in list(sets):
            for y in list(sets):
                if x is y or x not in sets or y not in sets:
                    continue
                if x < y:
                    sets.discard(y)
                    done = False
                    continue
                dx, dy = x - y, y - x
                if len(dx) == 1 and len(dy) >= 1:
                    (t, v), = dx
                    o = [(u, w) for u, w in dy if u is t and complementary(t, v, w)]
                    if o:
                        # x = c & t=v ; y = c' & t!=v with c within y: the literal is redundant in y
                        if x - dx <= y:
                            sets.discard(y)
                            sets.add(y - {o[0]})
                            done = False
        if done:
            break
    def k(c):
        return (key(c[0]), str(sorted(c[1]) if isinstance(c[1], frozenset) else c[1]))
    return T("alts", tuple(sorted((tuple(sorted(x, key=k)) for x in sets), key=lambda x: [k(c) for c in x])))


def free(el, base, t):
    """Whether the element occurs in t outside of what runs over all elements."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is el:
            return True
        if x in seen or x.op in ("fold", "run", "comp", "exists", "sum") and x.a and x.a[0] is base:
            continue
        seen.add(x)
        todo += children(x)
    return False


def exists(base, sets):
    """Some element of the iteration over `base` fulfils one of the conjunctions, or None if there are none."""
    if not sets:
        return None
    a = simplify_alts([frozenset(x) for x in sets])
    if a is None:
        return None
    r = T("exists", base, a)
    NVAR[r] = 2
    return r


def complementary(t, v, w):
    if isinstance(v, frozenset):
        v, w = w, v
    if isinstance(v, frozenset):
        return False
    if isinstance(w, frozenset):
        return w == {v}
    return {v, w} == {0, 1} and (t.op in BOOLOPS or t.op in ("flip", "not", "hasnth", "alts") or NVAR.get(t) == 2)


class Ev:
    """One event of a path."""
    __slots__ = ("k", "name", "args", "res", "loc", "fn", "x")

    def __init__(self, k, name, args=(), res=None, loc="", fn="", x=None):
        self.k, self.name, self.args, self.res, self.loc, self.fn, self.x = k, name, args, res, loc, fn, x

    def __eq__(self, o):
        return isinstance(o, Ev) and self.k == o.k and self.name == o.name and self.args == o.args and self.loc == o.loc and self.x == o.x

    def __hash__(self):
        return hash((self.k, self.name, self.args))

    def __repr__(self):
        return f"{self.k}:{self.name}({', '.join(pp(a) for a in self.args)})@{self.loc}"


class Exit:
    __slots__ = ("st", "kind", "val", "x")

    def __init__(self, st, kind, val, x=None):
        self.st, self.kind, self.val, self.x = st, kind, val, x

    @property
    def conds(self):
        return self.st.conds

    @property
    def ev(self):
        return self.st.ev

    def out(self, param):
        """Final value behind a `&mut` parameter."""
        return self.st.mem.get(T("O", param), param)


class Frame:
    __slots__ = ("fn", "id", "env", "depth", "stack", "inloop", "looptag")


class Engine:
    def __init__(self, facts, opaque=(), depth=40, maxstates=400, work=400000, inline=None, on_panic=None,
                 enter_events=False):
        self.F = facts
        ADTS.update(facts.adts)
        self.opaque = tuple(opaque)
        self.alias = {}      # path -> name: functions that are proved on their own and stay calls here
        self.maxdepth = depth
        self.maxstates = maxstates
        self.work = work
        self.left = work
        self.nframe = 0
        self.frames = {}
        self.inline_pred = inline
        self.on_panic = on_panic
        self.enter_events = enter_events
        self.closure_env = {}
        self.truncated = []
        self.impl_of = {}
        for i in facts.impls:
            for n, p in i["items"]:
                self.impl_of[p] = i
        self.visited = set()
        self.nlv = 0
        self.skips = {}
        self.nvar = NVAR

    # ---------------------------------------------------------------- types
    def ty(self, types, i, env):
        t = types[i]
        k = t["k"]
        if k == "param":
            return env.get(t["s"], ("param", t["s"]))
        a = t.get("a") or []
        if k == "adt":
            return ("adt", t["d"]) + tuple(self.ty(types, x, env) for x in a)
        if k in ("ref", "refmut", "ptr", "slice", "tuple", "array"):
            return (k,) + tuple(self.ty(types, x, env) for x in a)
        return (k, t["s"])

    def unify(self, types, i, ty, env):
        t = types[i]
        k = t["k"]
        if k == "param":
            if t["s"] in env:
                return env[t["s"]] == ty or ty[0] == "param"
            env[t["s"]] = ty
            return True
        if k != ty[0]:
            return False
        a = t.get("a") or []
        if k == "adt":
            if t["d"] != ty[1]:
                return False
            return all(self.unify(types, x, y, env) for x, y in zip(a, ty[2:]))
        if k in ("ref", "refmut", "ptr", "slice", "tuple", "array"):
            return len(a) == len(ty) - 1 and all(self.unify(types, x, y, env) for x, y in zip(a, ty[1:]))
        return t["s"] == ty[1]

    def resolve(self, fr, op):
        """callee -> (canonical name, Fn or None, env)."""
        types, env = fr.fn.types, fr.env
        f, r = op["f"], op.get("r")
        g = [self.ty(types, x, env) for x in op.get("g", [])]
        name = r or f
        if name in self.F.fns and not r and not (op.get("tr") and self.F.fns[name].d.get("in_trait")):
            fn = self.F.fns[name]
            e = dict(zip(fn.d.get("gen", []), g)) if len(fn.d.get("gen", [])) == len(g) else {}
            return name, fn, e, g
        if r and r in self.F.fns:
            fn = self.F.fns[r]
            return r, fn, self.impl_env(r, g), g
        tr = op.get("tr")
        if tr and (not r or op.get("rk") in ("none", "virtual")) and g:
            m = f.rsplit("::", 1)[-1]
            got = self.find_impl(tr, g, m)
            if got:
                return got[0], self.F.fns.get(got[0]), got[1], g
            # default method of a local trait
            if g[0][0] != "param" and f in self.F.fns:
                fn = self.F.fns[f]
                e = dict(zip(fn.d.get("gen", []), g))
                return f, fn, e, g
        if name in self.F.fns and op.get("rk") == "item":
            fn = self.F.fns[name]
            e = dict(zip(fn.d.get("gen", []), g))
            return name, fn, e, g
        return name, None, {}, g

    def impl_env(self, path, g):
        i = self.impl_of.get(path)
        fn = self.F.fns[path]
        env = {}
        if i is not None and g:
            if i["trait"]:
                for x, y in zip(i.get("trait_args") or [i["self"]], g):
                    self.unify(i["types"], x, y, env)
                n = len(i.get("trait_args") or [0])
                own = [x for x in fn.d.get("gen", []) if x not in env]
                for x, y in zip(own, g[n:]):
                    env[x] = y
            else:
                env = dict(zip(fn.d.get("gen", []), g))
        return env

    def find_impl(self, tr, g, m):
        cands = []
        for i in self.F.impl_index.get(tr, []):
            env = {}
            ta = i.get("trait_args") or [i["self"]]
            if all(self.unify(i["types"], x, y, env) for x, y in zip(ta, g)):
                cands.append((i, env))
        if len(cands) != 1:
            cands = [c for c in cands if c[0]["types"][c[0]["self"]]["k"] != "param"] or cands
        if len(cands) != 1:
            return None
        i, env = cands[0]
        for n, p in i["items"]:
            if n == m:
                fn = self.F.fns.get(p)
                if fn is not None:
                    own = [x for x in fn.d.get("gen", []) if x not in env]
                    for x, y in zip(own, g[len(i.get("trait_args") or [0]):]):
                        env[x] = y
                return p, env
        return None

    # ---------------------------------------------------------------- memory
    def read_root(self, st, root):
        if root.op == "O":
            return st.mem.get(root, root.a[0])
        return st.mem.get(root, T("uninit"))

    def get(self, v, projs):
        for p in projs:
            k = p[0]
            if k == "f":
                v = field(v, p[1], p[2])
            elif k == "as":
                v = as_(v, p[1])
            elif k == "i":
                v = index(v, p[1])
            elif k == "c":
                v = index(v, I(p[1]) if not p[2] else binop("Sub", length(v), I(p[1])))
            elif k == "s":
                v = slice_(v, I(p[1]), None) if p[3] and p[2] == 0 else T("slice", v, I(p[1]), T("fromend", I(p[2])) if p[3] else I(p[2]))
            else:
                v = T("f", v, "?")
        return v

    def put(self, v, projs, new):
        if not projs:
            return new
        p, rest = projs[0], projs[1:]
        k = p[0]
        if k == "f":
            name = p[1]
            nv = self.put(field(v, name, p[2]), rest, new)
            v = strip_view(v)
            if v.op == "adt" and name in v.a[2]:
                i = v.a[2].index(name)
                vals = list(v.a[3])
                vals[i] = nv
                return T("adt", v.a[0], v.a[1], v.a[2], tuple(vals))
            if v.op == "tuple" and name.isdigit() and int(name) < len(v.a):
                vals = list(v.a)
                vals[int(name)] = nv
                return T("tuple", *vals)
            if v.op == "closure":
                vals = list(v.a[1])
                if p[2] < len(vals):
                    vals[p[2]] = nv
                return T("closure", v.a[0], tuple(vals))
            return self.upd(v, name, nv)
        if k == "as":
            # writing inside a variant: keep the variant's identity
            if not rest:
                return new
            inner = self.put(as_(v, p[1]), rest, new)
            if strip_view(v).op == "adt":
                return inner
            return inner if inner.op != "upd" else T("upd", v, p[1] + "." + str(inner.a[1]), inner.a[2])
        if k in ("i", "c"):
            ix = p[1] if k == "i" else I(p[1]) if not p[2] else binop("Sub", length(v), I(p[1]))
            nv = self.put(index(v, ix), rest, new)
            if v.op == "array" and ix.op == "int" and ix.a[0] < len(v.a):
                vals = list(v.a)
                vals[ix.a[0]] = nv
                return T("array", *vals)
            return self.upd(v, ix, nv)
        if k == "s":
            return T("upd", v, "slice", self.put(self.get(v, (p,)), rest, new))
        return T("upd", v, "?", new)

    def upd(self, v, k, nv):
        if isinstance(k, T) and k.op == "int" and v.op == "bytes" and k.a[0] < len(v.a[0]) // 2 <= 64:
            l = [I(x) for x in bytes.fromhex(v.a[0])]
            l[k.a[0]] = nv
            return T("bytes", bytes(x.a[0] for x in l).hex()) if nv.op == "int" and nv.a[0] < 256 else T("array", *l)
        if v.op == "upd" and v.a[1] is k or (v.op == "upd" and v.a[1] == k and not isinstance(k, T)):
            return T("upd", v.a[0], k, nv)
        if not isinstance(k, T):
            if nv is T("f", v, k):
                return v
            # canonical order of independent field updates
            if v.op == "upd" and isinstance(v.a[1], str) and v.a[1] > k and v.a[1] != "slice":
                return T("upd", self.upd(v.a[0], k, nv), v.a[1], v.a[2])
        return T("upd", v, k, nv)

    def place(self, fr, st, pl):
        """-> (root, projs, through_value_deref)"""
        root, projs, thru = T("L", fr.id, pl[0]), (), False
        for e in pl[1:]:
            if e == "*":
                v = self.get(self.read_root(st, root), projs)
                if v.op == "ptr":
                    root, projs = v.a[0], v.a[1]
                elif v.op == "pin":
                    v = v.a[0]
                    if v.op == "ptr":
                        root, projs = v.a[0], v.a[1]
                else:
                    thru = True
            elif e[0] == "f":
                projs += (("f", e[2], e[1]),)
            elif e[0] == "d":
                projs += (("as", e[2]),)
            elif e[0] == "i":
                projs += (("i", self.read_root(st, T("L", fr.id, e[1]))),)
            elif e[0] == "c":
                projs += (("c", e[1], e[3]),) if not e[3] else (("c", e[1], e[3]),)
            elif e[0] == "s":
                projs += (("s", e[1], e[2], e[3]),)
            else:
                projs += (("?",),)
        return root, projs, thru

    def rd(self, fr, st, pl):
        root, projs, _ = self.place(fr, st, pl)
        return self.get(self.read_root(st, root), projs)

    def wr(self, fr, st, pl, v, loc=""):
        root, projs, thru = self.place(fr, st, pl)
        if not thru and root.op == "L" and root.a[0] in self.frames and (root.a[0] != fr.id or "*" in pl[1:] and root.a[1] != pl[0]):
            f = self.frames[root.a[0]]
            if f.local_ty(root.a[1])["k"] == "refmut" and self.read_root(st, root).op not in ("ptr", "pin"):
                thru = True         # a reference some function returned, reborrowed for a callee
        if not thru and "*" in pl[1:] and root.op == "L" and root.a[0] in self.frames and "Guard" in self.frames[root.a[0]].local_ty(root.a[1]).get("s", ""):
            thru = True             # what a lock's guard gives access to
        tgt = self.read_root(st, root)
        self.wr_at(st, root, projs, v)
        if thru or root.op == "O":
            if root.op == "O":
                base = root.a[0]
                name = ".".join(str(p[1]) for p in projs if p[0] == "f")
                st.ev = st.ev + (Ev("store", name, (base, v), None, loc, fr.fn.path),)
            else:
                name = ".".join(str(p[1]) for p in projs if p[0] == "f")
                b = tgt
                while b.op == "upd":
                    b = b.a[0]
                st.ev = st.ev + (Ev("write", name, (b, v), None, loc, fr.fn.path),)

    def stands(self, fr, st, cell):
        """A local holding a reference that some function returned stands for what it refers to: other references lead there by way of it."""
        if fr.fn.local_ty(cell.a[1])["k"] not in ("ref", "refmut") or st.mem[cell].op in ("ptr", "pin"):
            return False
        def leads(v, d):
            return v.a[0] is cell if v.op == "ptr" else d > 0 and v.op in ("tuple", "adt", "pin", "closure", "upd") and any(leads(y, d - 1) for y in children(v))
        return any(leads(v, 4) for v in list(st.mem.values()))

    def wr_at(self, st, root, projs, v):
        st.mem[root] = self.put(self.read_root(st, root), projs, v)

    def wr_via(self, fr, st, p, v, loc=""):
        """Write through a pointer, as a library function does. What a lock's guard gives access to is not the function's own."""
        root = p.a[0]
        if root.op == "L" and root.a[0] in self.frames and "Guard" in self.frames[root.a[0]].local_ty(root.a[1]).get("s", ""):
            old = self.read_root(st, root)
            while old.op == "upd":
                old = old.a[0]
            st.ev = st.ev + (Ev("write", ".".join(str(q[1]) for q in p.a[1] if q[0] == "f"), (old, v), None, loc, fr.fn.path),)
        self.wr_at(st, root, p.a[1], v)

    def deref(self, st, v):
        n = 0
        while v.op == "ptr" and n < 10:
            v = self.get(self.read_root(st, v.a[0]), v.a[1])
            n += 1
        if v.op == "pin":
            return self.deref(st, v.a[0])
        return v

    def resolve_ptrs(self, st, v):
        """Value with embedded pointers replaced by what they point to (for terms of calls)."""
        if v.op == "ptr":
            return self.deref(st, v)
        if v.op in ("adt", "tuple", "closure", "array", "pin"):
            def f(x):
                if x.op == "ptr":
                    return self.deref(st, x)
            if any(x.op == "ptr" for x in subterms(v)):
                return rebuild(v, f)
        return v

    # ---------------------------------------------------------------- operands
    def const(self, fr, c):
        if "v" in c:
            t = fr.fn.types[c["ty"]]
            if t["k"] == "adt":
                d = c.get("def")
                a = ADTS.get(t["d"])
                if a and len(a["variants"]) > 1:
                    for i, v in enumerate(a["variants"]):
                        if str(v.get("discr", i)) == c["v"] and not v["fields"]:
                            return T("adt", t["d"], v["name"], (), ())
                return T("const", d, c["v"]) if d else T("cval", t["d"], c["v"])
            return I(int(c["v"]))
        if "str" in c:
            return T("str", c["str"])
        if "static" in c and "raw" not in c:
            return T("static", c["static"])
        if "raw" in c:
            t = fr.fn.types[c["ty"]]
            while t["k"] == "ref":
                t = fr.fn.types[t["a"][0]]
            if t["k"] == "adt":
                if t["d"] in NEWTYPES:
                    return T("adt", t["d"], t["d"].rsplit("::", 1)[-1], ("0",), (T("bytes", c["raw"]),))
                return T("const", c.get("def") or t["d"], c["raw"])
            if t["k"] in ("array", "slice"):
                et = fr.fn.types[t["a"][0]]["s"]
                td = fr.fn.types[t["a"][0]].get("d")
                if td in NEWTYPES:
                    n = td.rsplit("::", 1)[-1]
                    w = 2 * SIZES[n]
                    return T("array", *[T("adt", td, n, ("0",), (T("bytes", c["raw"][i:i + w]),)) for i in range(0, len(c["raw"]), w)])
                if et != "u8" and et in BITS:
                    w = BITS[et] // 8
                    b = bytes.fromhex(c["raw"])
                    return T("array", *[I(int.from_bytes(b[i:i + w], "little")) for i in range(0, len(b), w)])
            return T("bytes", c["raw"])
        if "zst" in c:
            t = fr.fn.types[c["ty"]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return T("closure", t.get("d", t["s"]), ())
            if t["k"] == "adt":
                return T("adt", t["d"], t["d"].rsplit("::", 1)[-1], (), ())
            return T("zst", t["s"])
        if "def" in c:
            d = c["def"]
            if c.get("g"):
                g = [self.ty(fr.fn.types, x, fr.env) for x in c["g"]]
                tr, _, m = d.rpartition("::")
                r = self.find_impl(tr, g, m)
                if r and r[0] in self.F.fns and not fr.stack.count(r[0]):
                    ex = [e for e in self.call_fn(self.F.fns[r[0]], [], St(), r[1], fr.depth + 1, fr.stack) if e.kind == "ret"]
                    if len(ex) == 1:
                        return ex[0].val
                return T("const", d, tuple(str(x) for x in g))
            return T("const", d)
        if "cp" in c:
            return T("cparam", c["cp"])
        return T("const?", fr.fn.types[c["ty"]]["s"])

    def opval(self, fr, st, op):
        k = op[0]
        if k == "cp":
            return self.rd(fr, st, op[1])
        if k == "mv":
            v = self.rd(fr, st, op[1])
            if len(op[1]) == 1:
                st.mem[T("L", fr.id, op[1][0])] = MOVED
            return v
        if k == "k":
            return self.const(fr, op[1])
        if k == "fn":
            d = op[1]
            return self.fnterm(fr, d)
        return T("rt")

    def fnterm(self, fr, d):
        name, fn, env, g = self.resolve(fr, d)
        ct = self.ctor(d["f"])
        if ct:
            return T("ctor", ct[0], ct[1], ct[2])
        gs = tuple(self._hash_ty(x) for x in g)
        return T("fn", name, d["f"], gs, d.get("tr") or "")

    def _hash_ty(self, x):
        return x

    def ctor(self, f):
        a = self.F.adts.get(f)
        if a and a["kind"] == "struct":
            v = a["variants"][0]
            return f, v["name"], tuple(x[0] for x in v["fields"])
        p, _, vn = f.rpartition("::")
        p = norm(p)
        a = self.F.adts.get(p)
        if a:
            for v in a["variants"]:
                if v["name"] == vn and (a["kind"] == "enum" or v["name"] == vn):
                    return p, vn, tuple(x[0] for x in v["fields"])
        if p == OPT and vn == "Some":
            return OPT, "Some", ("0",)
        if p == RES and vn in ("Ok", "Err"):
            return RES, vn, ("0",)
        return None

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, loc):
        k = rv[0]
        if k == "use":
            return self.opval(fr, st, rv[1])
        if k == "ref":
            kind, pl = rv[1], rv[2]
            if kind == "m":
                root, projs, thru = self.place(fr, st, pl)
                return T("ptr", root, projs)
            v = self.rd(fr, st, pl)
            if kind == "raw" and False:
                return v
            return v
        if k == "repeat":
            o = rv[1]
            v = self.opval(fr, st, o)
            if v.op == "int" and isinstance(o, (list, tuple)) and isinstance(o[-1], dict) and "ty" in o[-1] and fr.fn.types[o[-1]["ty"]]["s"] == "u8" and int(rv[2]) <= 512:
                return T("bytes", f"{v.a[0]:02x}" * int(rv[2]))
            return T("repeat", v, I(rv[2]))
        if k == "static":
            return T("static", rv[1])
        if k == "cast":
            v = self.opval(fr, st, rv[2])
            if "Unsize" in str(rv[1]):
                m = ARRAY_REF.match(fr.fn.types[rv[4]]["s"])
                if m:
                    w = self.deref(st, v) if v.op == "ptr" else v
                    if length(w).op == "len":
                        LENS[w] = int(m.group(1))
            return self.cast(fr, rv[1], v, rv[3], rv[4])
        if k == "bin":
            a, b = self.opval(fr, st, rv[2]), self.opval(fr, st, rv[3])
            op = floatop if self.isfloat(fr, rv[2]) or self.isfloat(fr, rv[3]) else binop
            return op(rv[1], self.deref(st, a), self.deref(st, b))
        if k == "un":
            v = self.deref(st, self.opval(fr, st, rv[2]))
            if rv[1] == "Not":
                if rv[2][0] == "k":
                    t = fr.fn.types[rv[2][1]["ty"]]["k"]
                    return not_(v) if t == "bool" else T("un", "Not", v)
                return not_(v)
            if rv[1] == "PtrMetadata":
                return length(v)
            if rv[1] == "Neg" and v.op == "int":
                return I(-v.a[0])
            return T("un", rv[1], v)
        if k == "discr":
            v = self.deref(st, self.rd(fr, st, rv[1]))
            t = discr(v)
            ty = fr.fn.types[rv[2]]
            a = ADTS.get(ty.get("d"))
            if a:
                self.nvar[t] = len(a["variants"])
            elif ty.get("d") in (OPT, RES, CF):
                self.nvar[t] = 2
            return t
        if k == "array":
            vals = [self.opval(fr, st, x) for x in rv[1]]
            if vals and all(x.op == "int" and 0 <= x.a[0] < 256 for x in vals) and self.u8arr(fr, rv):
                return T("bytes", bytes(x.a[0] for x in vals).hex())
            return T("array", *vals)
        if k == "tuple":
            return T("tuple", *[self.opval(fr, st, x) for x in rv[1]])
        if k == "adt":
            vals = tuple(self.opval(fr, st, x) for x in rv[6])
            names = tuple(rv[5])
            if len(vals) != len(names):  # union or partial
                names = names[: len(vals)]
            if rv[1] == "core::pin::Pin":
                return vals[0]
            return T("adt", rv[1], rv[3], names, vals)
        if k == "closure":
            vals = tuple(self.opval(fr, st, x) for x in rv[2])
            self.closure_env[rv[1]] = fr.env
            return T("closure", rv[1], vals)
        return T("rv", k)

    def isfloat(self, fr, o):
        if o[0] == "k":
            return fr.fn.types[o[1]["ty"]]["k"] == "float"
        return o[0] in ("cp", "mv") and len(o[1]) == 1 and fr.fn.local_ty(o[1][0])["k"] == "float"

    def u8arr(self, fr, rv):
        for o in rv[1]:
            if o[0] == "k":
                return fr.fn.types[o[1]["ty"]]["s"] == "u8"
            if o[0] in ("cp", "mv") and len(o[1]) == 1:
                return fr.fn.local_ty(o[1][0])["s"] == "u8"
        return False

    def cast(self, fr, kind, v, to, frm):
        if not kind.startswith(("IntToInt",)):
            if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "Subtype")):
                return v
            return T("cast", kind, fr.fn.types[to]["s"], v)
        a, b = fr.fn.types[frm], fr.fn.types[to]
        return self.intcast(v, a["s"], b["s"])

    def intcast(self, v, a, b):
        if b not in BITS:
            return T("trunc", b, v)
        if v.op == "int":
            n = v.a[0] & ((1 << BITS[b]) - 1)
            if b.startswith("i") and n >> (BITS[b] - 1):
                n -= 1 << BITS[b]
            return I(n)
        if a in ("bool", "char") or a not in BITS:
            return v
        if a.startswith("u") and (BITS[a] < BITS[b] or (BITS[a] == BITS[b] and b.startswith("u"))):
            return v
        if a.startswith("i") and b.startswith("i") and BITS[a] <= BITS[b]:
            return v
        return T("trunc", b, v)

    # ---------------------------------------------------------------- execution
    def call_fn(self, fn, args, st, env=None, depth=0, stack=()):
        """-> list of Exit"""
        self.visited.add(fn.path)
        fr = Frame()
        fr.fn, fr.env, fr.depth, fr.stack, fr.inloop = fn, env or {}, depth, stack + (fn.path,), 0
        fr.looptag = []
        self.nframe += 1
        fr.id = self.nframe
        self.frames[fr.id] = fn
        st = st.fork()
        for i, a in enumerate(args[: fn.argc]):
            st.mem[T("L", fr.id, i + 1)] = a
        backs, exits, rets = self.region(fr, st, 0, None, None)
        out = []
        for e in rets:
            if e.kind == "ret":
                pass
            m = e.st.mem
            for k in [k for k in m if k.op == "L" and k.a[0] == fr.id]:
                del m[k]
            out.append(e)
        out = self.merge_exits(out)
        if len(out) > self.maxstates:
            self.truncated.append(fn.path)
            out = out[: self.maxstates]
        return out

    def merge_exits(self, exits):
        by = {}
        for e in exits:
            by.setdefault((e.kind, e.val, e.x), []).append(e)
        out = []
        for (k, v, x), l in by.items():
            if len(l) == 1:
                out.extend(l)
            else:
                for s in self.merge([e.st for e in l]):
                    out.append(Exit(s, k, v, x))
        return out

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = (frozenset(s.mem.items()), s.ev)
            groups.setdefault(k, []).append(s)
        out = []
        for l in groups.values():
            if len(l) == 1:
                out.append(l[0])
                continue
            common = set(l[0].conds)
            for s in l[1:]:
                common &= set(s.conds)
            a = l[0]
            conds = tuple(c for c in a.conds if c in common)
            alts = simplify_alts([frozenset(c for c in s.conds if c not in common) for s in l])
            if alts:
                conds += ((alts, 1),)
            facts, neg = {}, {}
            for t, v in conds:
                if isinstance(v, frozenset):
                    neg[t] = v
                else:
                    facts[t] = v
            out.append(St(a.mem, conds, facts, neg, a.ev))
        return out

    def region(self, fr, st, start, body, header):
        fn = fr.fn
        rpo = fn.rpo()
        loops = fn.loops()
        pend = {start: [st]}
        backs, exits, rets = [], [], []
        first = True

        def route(bb, s):
            if bb == header:
                backs.append(s)
            elif body is not None and bb not in body:
                exits.append((bb, s))
            else:
                pend.setdefault(bb, []).append(s)

        while pend:
            b = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            states = self.merge(pend.pop(b))
            if len(states) > self.maxstates:
                self.truncated.append(f"{fn.path} bb{b}")
                states = states[: self.maxstates]
            for s in states:
                self.left -= 1
                if self.left < 0:
                    raise Budget(fn.path)
                if b in loops and not (b == header and first):
                    ex, rt = self.loop(fr, s, b)
                    rets.extend(rt)
                    for bb, s2 in ex:
                        route(bb, s2)
                else:
                    for bb, s2 in self.step(fr, s, b, rets):
                        route(bb, s2)
            first = False
        return backs, exits, rets

    # -- loops
    def loop(self, fr, st, h):
        body = fr.fn.loops()[h]
        tag = f"{fr.fn.path}:bb{h}"

        def run(s0):
            fr.inloop += 1
            fr.looptag.append(tag)
            self.skips[tag] = []
            try:
                backs, exits, rets = self.region(fr, s0, h, body, h)
                backs += self.skips.pop(tag)        # elements the iterator leaves out
            finally:
                fr.inloop -= 1
                fr.looptag.pop()
            return backs, [(("bb", bb), s) for bb, s in exits] + [(("ret", e), e.st) for e in rets]

        outs = self.loop_core(st, run, tag, fr)
        ex, rt = [], []
        for tag, s, sub in outs:
            if tag[0] == "bb":
                ex.append((tag[1], s))
            else:
                e = tag[1]
                rt.append(Exit(s, e.kind, sub(e.val) if e.val is not None else None, e.x))
        return ex, rt

    def loop_core(self, st, run, tag, fr):
        """run(st0) -> (back states, [(tag, exit state)]). Havoc to a fixpoint, then close."""
        hav = {}  # (root, path) -> lv term
        self.nlv += 1
        mylv = self.nlv
        while True:
            s0 = st.fork()
            for (root, path), lv in hav.items():
                s0.mem[root] = self.put(self.read_root(s0, root), path, lv)
            # facts about havocked state stay valid only for terms, which are immutable: nothing to drop
            backs, exits = run(s0)
            new = False
            for b in backs:
                for root, old in s0.mem.items():
                    now = b.mem.get(root)
                    if now is None or now is old or old is MOVED or now is MOVED:
                        continue
                    for path in self.diff(old, now):
                        k = (root, path)
                        if k in hav or any(r == root and path[: len(p)] == p for r, p in hav):
                            continue
                        hav[k] = T("lv", mylv, len(hav))
                        new = True
                for root, now in b.mem.items():
                    if root.op == "O" and root not in s0.mem and now is not root.a[0]:
                        k = (root, ())
                        for path in self.diff(root.a[0], now):
                            k = (root, path)
                            if k not in hav and not any(r == root and path[: len(p)] == p for r, p in hav):
                                hav[k] = T("lv", mylv, len(hav))
                                new = True
            # a whole-root havoc subsumes partial ones
            for (root, path) in list(hav):
                if any(r == root and p != path and path[: len(p)] == p for r, p in hav):
                    del hav[(root, path)]
                    new = True
            if not new:
                break
            if len(hav) > 60:
                raise Budget("loop " + tag)
        nc, ne = len(st.conds), len(st.ev)
        base_its = []
        for b in backs:
            for e in b.ev[ne:]:
                if e.k == "next" and e.x == tag and e.args[0] not in base_its:
                    base_its.append(e.args[0])
        base = itbase(base_its[0]) if base_its else T("nobase")
        # conditions that decide *whether* something happens in an iteration, as opposed to guards that exit the loop
        allc = [tuple(c for c in b.conds if c not in st.conds) for b in backs]
        common = set(allc[0]) if allc else set()
        for c in allc[1:]:
            common &= set(c)
        closed = {}
        for (root, path), lv in hav.items():
            init = self.get(self.read_root(st, root), path)
            ups = []
            for b, cs in zip(backs, allc):
                now = self.get(self.read_root(b, root), path)
                if now is lv:
                    continue
                ups.append((tuple(c for c in cs if c not in common), now))
            closed[lv] = (init, join_paths(ups))

        lvs = list(closed)
        memo = {}

        runs = {}

        def running(lv):
            """The value an accumulator has at the start of an iteration, when it depends on no cycle of accumulators."""
            if lv in runs:
                return runs[lv]
            runs[lv] = None
            init, ups = closed[lv]
            used = {x for cs, u in ups for t in [u] + [t for t, _ in cs] for x in subterms(t) if x in closed and x is not lv}
            m = {lv: T("acc")}
            for x in used:
                m[x] = running(x)
                if m[x] is None:
                    return None
            p2 = tuple(sorted(((tuple((rebuild(t, m.get), v) for t, v in cs), rebuild(u, m.get)) for cs, u in ups),
                              key=lambda z: pp(z[1])))
            runs[lv] = T("run", base, init, p2)
            return runs[lv]

        def close(lv):
            if lv in memo:
                return memo[lv]
            init, ups = closed[lv]
            memo[lv] = T("lvcyc", lvs.index(lv))
            pushes = []
            for cs, u in ups:
                if u.op == "mut" and u.a[0] == "Vec::push" and u.a[2] is lv and not any(x is lv for x in subterms(u.a[3])):
                    pushes.append((cs, u.a[3]))
            # other accumulators stand for their running value
            sub = {l: running(l) or T("acc", lvs.index(l)) for l in lvs if l is not lv}
            sub[lv] = T("acc", lvs.index(lv))

            def f(x):
                if x in sub:
                    return sub[x]
            if pushes and len(pushes) == len(ups):
                p2 = tuple((tuple((rebuild(t, f), v) for t, v in cs), rebuild(e, f)) for cs, e in pushes)
                c = mkcomp(base, p2)
                r = c if self.is_empty_vec(init) else T("extend", init, c)
            elif ups and init.op == "call" and init.a[0].endswith(("HashMap::new", "BTreeMap::new")) and all(
                    u.op == "mut" and u.a[0].endswith(init.a[0].rsplit("::", 2)[-2] + "::insert") and len(u.a) == 5 and u.a[2] is lv
                    and not any(x is lv for w in (*u.a[3:], *(t for t, _ in cs)) for x in subterms(w)) for cs, u in ups):
                r = T("tomap", mkcomp(base, tuple((tuple((rebuild(t, f), v) for t, v in cs), T("tuple", rebuild(u.a[3], f), rebuild(u.a[4], f))) for cs, u in ups)))
            else:
                sub2 = dict(sub)
                sub2[lv] = T("acc")

                def f2(x):
                    if x in sub2:
                        return sub2[x]
                p2 = tuple(sorted(table([(tuple((rebuild(t, f2), v) for t, v in cs), rebuild(u, f2)) for cs, u in ups]),
                                  key=lambda z: pp(z[1])))
                r = T("fold", base, init, p2)
                # counter of a while loop: i = init; i < n; i += 1
            memo[lv] = r
            return r

        for lv in lvs:
            close(lv)

        def sub(t):
            return rebuild(t, lambda x: memo.get(x) if x.op == "lv" else None)

        def subev(e):
            return Ev(e.k, e.name, tuple(sub(x) for x in e.args), sub(e.res) if isinstance(e.res, T) else e.res,
                      e.loc, e.fn, subx(e.x) if e.k == "loop" and e.x else e.x)

        def subx(x):
            return tuple((tuple((sub(t), v) for t, v in cs), tuple(subev(e) for e in evs)) for cs, evs in x)

        bodies = tuple((cs, tuple(b.ev[ne:])) for b, cs in zip(backs, allc))
        # within the recorded bodies the loop-carried values are arbitrary: lv -> closed form as well
        bodies = tuple((tuple((sub(t), v) for t, v in cs), tuple(subev(e) for e in evs)) for cs, evs in bodies)
        lev = Ev("loop", tag, (base,), None, "", fr.fn.path if fr else "", bodies) if bodies else None
        outs = []
        if not exits and bodies and fr is not None:         # goes on for ever: what it does each time is all there is
            s = st.fork()
            s.ev = st.ev + (lev,)
            return [(("ret", Exit(s, "ret", T("never"))), s, sub)]
        newconds = [tuple((sub(t), v) for t, v in s.conds if (t, v) not in st.conds) for _, s in exits]
        # exits on account of an element, as opposed to exits between elements
        el = elem(base)
        early = [bool(c) and (base.op == "nobase" or any(free(el, base, t) for t, _ in c)) for c in newconds]
        if any(not c for c in newconds):
            early = [bool(c) for c in newconds]
        ex = exists(base, [c for c, e in zip(newconds, early) if e]) if not all(early) and any(early) else None
        for (tg, s), nc in zip(exits, early):
            s = s.fork()
            if ex is not None:
                s.conds = s.conds + ((ex, 1 if nc else 0),)
            s.mem = {k: sub(v) for k, v in s.mem.items()}
            newc = []
            facts, neg = dict(st.facts), dict(st.neg)
            for t, v in s.conds:
                if (t, v) in st.conds:
                    newc.append((t, v))
                    continue
                t2 = sub(t)
                newc.append((t2, v))
                if isinstance(v, frozenset):
                    neg[t2] = v
                else:
                    facts[t2] = v
            s.conds = tuple(newc)
            s.facts, s.neg = facts, neg
            s.ev = st.ev + ((lev,) if lev else ()) + tuple(subev(e) for e in s.ev[ne:])
            outs.append((tg, s, sub))
        return outs

    @staticmethod
    def is_empty_vec(t):
        if t.op == "array" and not t.a:
            return True
        return t.op == "newvec"

    def diff(self, old, now):
        """Paths at which two values differ."""
        if old is now:
            return []
        if old.op == "adt" and now.op == "adt" and old.a[:3] == now.a[:3]:
            out = []
            for i, n in enumerate(old.a[2]):
                out += [(("f", n, i),) + p for p in self.diff(old.a[3][i], now.a[3][i])]
            return out
        if old.op == "tuple" and now.op == "tuple" and len(old.a) == len(now.a):
            out = []
            for i in range(len(old.a)):
                out += [(("f", str(i), i),) + p for p in self.diff(old.a[i], now.a[i])]
            return out
        if old.op == "closure" and now.op == "closure" and old.a[0] == now.a[0] and len(old.a[1]) == len(now.a[1]):
            out = []
            for i in range(len(old.a[1])):
                out += [(("f", str(i), i),) + p for p in self.diff(old.a[1][i], now.a[1][i])]
            return out
        keys = []
        x = now
        while x.op == "upd" and isinstance(x.a[1], str) and x.a[1] not in ("slice", "?") and "." not in x.a[1]:
            if x is old:
                break
            keys.append(x.a[1])
            x = x.a[0]
        y = old
        while y.op == "upd" and isinstance(y.a[1], str) and y.a[1] not in ("slice", "?") and "." not in y.a[1]:
            keys.append(y.a[1])
            y = y.a[0]
        if keys and x is y:
            out = []
            for n in dict.fromkeys(keys):
                out += [(("f", n, None),) + p for p in self.diff(field(old, n), field(now, n))]
            return out
        return [()]

    # -- blocks
    def step(self, fr, st, b, rets):
        st = st.fork()
        stmts, term, _ = fr.fn.blocks[b]
        for s in stmts:
            k = s[0]
            if k == "=":
                if s[2][0] == "ref" and len(s[1]) == 1 and fr.fn.local_ty(s[1][0])["s"].startswith("&core::cell::RefCell<"):
                    v = T("ptr", *self.place(fr, st, s[2][2])[:2])      # what it holds can change through a shared reference
                else:
                    v = self.rvalue(fr, st, s[2], s[3])
                self.wr(fr, st, s[1], v, f"{fr.fn.file}:{s[3]}")
            elif k == "dead":
                cell = T("L", fr.id, s[1])
                if not (cell in st.mem and self.stands(fr, st, cell)):
                    st.mem.pop(cell, None)
            elif k == "setd":
                v = self.rd(fr, st, s[1])
                self.wr(fr, st, s[1], T("upd", v, "discr", I(s[2])))
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "return":
            rets.append(Exit(st, "ret", st.mem.get(T("L", fr.id, 0), UNIT)))
            return []
        if k == "unreachable":
            return []
        if k == "drop":
            ty = fr.fn.types[term[3]]["s"]
            if "Guard" in ty or "Permit" in ty:
                v = self.rd(fr, st, term[1])
                if v is not MOVED:
                    st.ev = st.ev + (Ev("drop", "drop", (self.resolve_ptrs(st, v),), None, "", fr.fn.path),)
            if len(term[1]) == 1:
                st.mem.pop(T("L", fr.id, term[1][0]), None)
            return [(term[2], st)]
        if k == "switch":
            return self.switch(fr, st, term)
        if k == "assert":
            cond = self.opval(fr, st, term[1])
            msg = term[3]
            info = self.assert_info(fr, st, msg)
            if self.on_panic and not (cond.op == "int" and bool(cond.a[0]) == bool(term[2])):
                self.on_panic(info[0], st, info[1] or (cond,), term[5], fr.fn.path)
            if info[0] == "bounds":
                s2 = st.assume(cond, 1 if term[2] else 0) if cond.op != "overflow" else st
                if s2 is None:
                    rets.append(Exit(st, "panic", None, ("bounds", term[5])))
                    return []
                st = s2
            elif info[0] in ("div0", "rem0"):
                s2 = st.assume(cond, 1 if term[2] else 0)
                st = s2 or st
            return [(term[4], st)]
        if k == "yield":
            return []  # the pending side of an await; awaits are modelled at poll
        if k == "call":
            return self.call(fr, st, term, rets)
        return []

    def assert_info(self, fr, st, msg):
        k = msg[0]
        if k == "bounds":
            return "bounds", (self.opval(fr, st, msg[1]), self.opval(fr, st, msg[2]))
        if k == "overflow":
            return "overflow", (T("str", str(msg[1])),) + tuple(self.opval(fr, st, x) for x in msg[2:] if isinstance(x, list))
        return k, ()

    def switch(self, fr, st, term):
        t = self.deref(st, self.opval(fr, st, term[1]))
        cases, other = term[2], term[3]
        out = []
        tyk = fr.fn.types[term[4]]["k"] if isinstance(term[4], int) else ""
        vals = []
        n = 2 if tyk == "bool" else None
        if n and t.op not in ("int", "not", "flip"):
            NVAR[t] = 2
        if t.op == "discr" or (t.op == "flip"):
            n = self.nvariants(fr, t)
        b = t
        while b.op in ("not", "flip"):
            b = b.a[0]
        if b.op == "boolop" and b.a[0] in ("BitAnd", "BitOr") and n == 2:
            for v, bb in [*((int(v), bb) for v, bb in cases), *((v, other) for v in (0, 1) if v not in [int(c[0]) for c in cases])]:
                out.extend((bb, s) for s in st.ways(t, v))
            return out
        for v, bb in cases:
            v = int(v)
            vals.append(v)
            s = st.assume(t, v)
            if s is not None:
                out.append((bb, s))
        if not (fr.fn.blocks[other][1][0] == "unreachable" and not fr.fn.blocks[other][0]):
            s = st.exclude(t, tuple(vals), n)
            if s is not None:
                out.append((other, s))
        return out

    def nvariants(self, fr, t):
        return self.nvar.get(t)

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, term, rets):
        _, func, aops, dest, target, unwind, loc, argtys, retty = term[:9]
        args = [self.opval(fr, st, x) for x in aops]
        outs = self.docall(fr, st, func, args, argtys, retty, loc)
        res = []
        for e in outs:
            if e.kind == "ret":
                if target < 0:
                    rets.append(Exit(e.st, "panic", None, ("diverge", loc)))
                    continue
                s = e.st
                self.wr(fr, s, dest, e.val, loc)
                res.append((target, s))
            else:
                rets.append(e)
        return res

    def docall(self, fr, st, func, args, argtys, retty, loc):
        types = fr.fn.types
        if func[0] == "fn":
            op = func[1]
            name, fn, env, g = self.resolve(fr, op)
            tr = op.get("tr")
            f = op["f"]
            from .models import model
            c = Call(self, fr, st, norm(name), norm(f), tr, g, args, argtys, retty, loc, types)
            c.raw = name
            if fn is not None and fn.d["kind"] == "Closure" and len(args) == 2 and c.f.startswith("core::ops::function::Fn") and args[1].op == "tuple":
                return self.apply(fr, st, args[0], list(args[1].a), loc)
            if self.ctor(f) and fn is None:
                ct = self.ctor(f)
                return [Exit(st, "ret", T("adt", ct[0], ct[1], ct[2], tuple(args)))]
            return self.invoke(c, fn, env)
        # call of a value (fn pointer / closure)
        fv = self.opval(fr, st, func)
        return self.apply(fr, st, fv, args, loc)

    def is_opaque(self, name, fn):
        for o in self.opaque:
            if callable(o):
                if o(name):
                    return True
            elif name == o or name.endswith("::" + o):
                return True
        return False

    def invoke(self, c, fn, env):
        from .models import model
        if fn is not None and fn.path in self.alias:
            return self.unknown(c, self.alias[fn.path])
        if fn is not None and not self.is_opaque(fn.path, fn):
            d = fn.d
            derived = d.get("derived")
            if d.get("coroutine") and c.f == "core::future::future::Future::poll":
                fut = c.val(0)
                if fut.op == "adt" and fut.a[0].endswith("pin::Pin"):
                    fut = self.deref(c.st, fut.a[3][0]) if fut.a[3][0].op == "ptr" else fut.a[3][0]
                if len(c.fr.stack) < self.maxdepth and c.fr.stack.count(fn.path) < 1:
                    return [Exit(e.st, "ret", T("adt", "core::task::poll::Poll", "Ready", ("0",), (e.val,))) if e.kind == "ret" else e
                            for e in self.call_fn(fn, [fut, T("ctx")], c.st, env, c.fr.depth + 1, c.fr.stack)]
            # derived Clone/PartialEq/… behave as their models
            if not (derived and c.method in ("clone", "eq", "ne", "cmp", "partial_cmp", "hash", "fmt")):
                if len(c.fr.stack) < self.maxdepth and c.fr.stack.count(fn.path) < 1 and \
                        (self.inline_pred is None or self.inline_pred(fn)) and d["kind"] not in ("Ctor",):
                    if not c.name.endswith(("::fmt",)):
                        st = c.st
                        if self.enter_events:
                            st = st.fork()
                            st.ev = st.ev + (Ev("enter", fn.path, tuple(self.resolve_ptrs(st, a) for a in c.args), None, c.loc, c.fr.fn.path),)
                        outs = self.call_fn(fn, c.args, st, env, c.fr.depth + 1, c.fr.stack)
                        return outs
        if fn is None or (fn.d.get("derived") or c.name.endswith("::fmt")) and not self.is_opaque(fn.path, fn):
            r = model(c)
            if r is not None:
                return r
        return self.unknown(c)

    IMPURE = re.compile(r"Atomic|[Ii]nstant|SystemTime|rand|std::fs|File::|env::|recv|::send|next_key|next_value|next_element|(?<!lock_api::mutex::Mutex)::lock|::read$|::write$")

    def marker(self, path):
        a = self.F.adts.get(path)
        return a is not None and bool(a.get("local")) and len(a["variants"]) == 1 and not a["variants"][0]["fields"]

    def unknown(self, c, name=None):
        """Uninterpreted call: a term, an event, and havoc of what it may write through."""
        st = c.st.fork()
        name = name or c.name
        vals = tuple(self.resolve_ptrs(st, a) for a in c.args)
        t = T("call", name, *vals)
        if c.tyargs:
            t = T("call", name, *vals, T("ty", c.tyargs))
        elif c.tr:
            # types that only select (a table, a kind) and have no values of their own
            mark = tuple(g[1] for g in c.g if g[0] == "adt" and self.marker(g[1]))
            if mark:
                t = T("call", name, *vals, *(T("ty", x) for x in mark))
        if self.IMPURE.search(name):
            n = sum(1 for e in st.ev if e.k == "call" and e.name == name and e.args == vals)
            t = T("call", name, *vals, T("n", n)) if n else t
        ret_ptr = None
        rt = c.types[c.retty] if c.retty >= 0 else {"k": "?"}
        muts = 0
        for i, a in enumerate(c.args):
            if a.op == "ptr":
                old = vals[i]
                self.wr_via(c.fr, st, a, T("mut", name, i, *vals))
                if a.a[0].op == "O":
                    pass
                muts += 1
                if rt["k"] == "refmut" and i == 0:
                    aty = c.types[c.argtys[i]] if i < len(c.argtys) else None
                    if aty is not None and aty.get("a") and rt.get("a") and c.types[aty["a"][0]]["s"] == c.types[rt["a"][0]]["s"]:
                        ret_ptr = a
            elif a.op in ("closure", "adt", "tuple", "array"):
                for p in [x for x in subterms(a) if x.op == "ptr"]:
                    self.wr_via(c.fr, st, p, T("mut", name, i, *vals))
        st.ev = st.ev + (Ev("call", name, vals, t, c.loc, c.fr.fn.path),)
        if rt["k"] == "never":
            if self.on_panic:
                self.on_panic("panic", c.st, vals, c.loc, c.fr.fn.path)
            return [Exit(st, "panic", None, ("panic", c.loc, name))]
        if rt["k"] == "tuple" and not rt.get("a"):
            return [Exit(st, "ret", UNIT)]
        return [Exit(st, "ret", ret_ptr if ret_ptr is not None else t)]

    def apply(self, fr, st, fv, args, loc):
        """Call a function value."""
        fv = self.deref(st, fv) if fv.op == "ptr" else fv
        if fv.op == "closure":
            fn = self.F.fns.get(fv.a[0])
            if fn is not None and fr.stack.count(fn.path) < 2 and len(fr.stack) < self.maxdepth + 4:
                return self.call_fn(fn, [fv] + list(args), st, self.closure_env.get(fv.a[0], fr.env), fr.depth + 1, fr.stack)
        if fv.op == "ctor":
            return [Exit(st, "ret", T("adt", fv.a[0], fv.a[1], fv.a[2], tuple(args)))]
        if fv.op == "fn":
            from .models import model
            fn = self.F.fns.get(fv.a[0])
            env = {}
            if fn is not None:
                env = self.impl_env(fv.a[0], list(fv.a[2])) if fv.a[3] else dict(zip(fn.d.get("gen", []), fv.a[2]))
            c = Call(self, fr, st, norm(fv.a[0]), norm(fv.a[1]), fv.a[3] or None, list(fv.a[2]), list(args), [], None, loc, fr.fn.types)
            c.raw = fv.a[0]
            if fn is None:
                r = model(c)
                if r is not None:
                    return r
                vals = tuple(self.resolve_ptrs(st, a) for a in args)
                t = T("call", c.name, *vals)
                s = st.fork()
                s.ev = s.ev + (Ev("call", c.name, vals, t, loc, fr.fn.path),)
                return [Exit(s, "ret", t)]
            return self.invoke(c, fn, env)
        vals = tuple(self.resolve_ptrs(st, a) for a in args)
        s = st.fork()
        t = T("call", "apply", fv, *vals)
        s.ev = s.ev + (Ev("call", "apply", (fv,) + vals, t, loc, fr.fn.path),)
        return [Exit(s, "ret", t)]

    # ---------------------------------------------------------------- entry
    def summarize(self, path, args=None, env=None, st=None):
        """All exits of a function on symbolic parameters."""
        fn = self.F.fns[path]
        self.left = self.work
        if st is None:
            LENS.clear()
        if args is None:
            args = self.params(fn)
        return self.call_fn(fn, args, st or St(), env or {})

    def params(self, fn):
        args = []
        for i in range(1, fn.argc + 1):
            n = fn.local_name(i) or f"arg{i}"
            p = T("param", i, n)
            if fn.local_ty(i)["k"] == "refmut":
                args.append(T("ptr", T("O", p), ()))
            else:
                args.append(p)
        return args


class Call:
    __slots__ = ("E", "fr", "st", "name", "f", "tr", "g", "args", "argtys", "retty", "loc", "types", "raw", "method", "tyargs")

    def __init__(self, E, fr, st, name, f, tr, g, args, argtys, retty, loc, types):
        self.E, self.fr, self.st, self.name, self.f, self.tr, self.g = E, fr, st, name, f, tr, g
        self.args, self.argtys, self.retty, self.loc, self.types = args, argtys, retty, loc, types
        self.method = f.rsplit("::", 1)[-1]
        self.tyargs = ""
        self.raw = name
        if retty is None:
            self.retty = -1

    def val(self, i):
        return self.E.deref(self.st, self.args[i])

    def argty(self, i):
        """Resolved type of argument i with references peeled."""
        if i < len(self.argtys):
            t = self.E.ty(self.types, self.argtys[i], self.fr.env)
            while t[0] in ("ref", "refmut"):
                t = t[1]
            return t
        if self.g and i == 0:
            t = self.g[0]
            while t[0] in ("ref", "refmut"):
                t = t[1]
            return t
        return self.owner() if i == 0 else ("?", "?")

    def owner(self):
        """The type that a function passed by name belongs to."""
        p = getattr(self, "raw", None) or ""
        p = p.rsplit("::", 1)[0]
        return ("adt", p) if self.retty < 0 and p in WIDE else ("?", "?")

    def rty(self):
        if self.retty < 0:
            return self.owner() if getattr(self, "raw", "").endswith(("::one", "::zero", "::max_value")) else ("?", "?")
        return self.E.ty(self.types, self.retty, self.fr.env)
