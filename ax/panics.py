"""Which potential panics of a function can happen, from the path conditions at each (interval reasoning over
lengths and numbers; no solver). Each site is proved impossible, shown possible (nothing on the path bounds
the value that decides it, and that value comes from the input), or left undecided."""
import re
from .term import T, I, pp, subterms, contains
from .engine import length, discr

INF = None
FIXED = [(r"PublicKey::serialize_uncompressed$", 65), (r"PublicKey::serialize$", 33), (r"BigEndianHash>::from_uint$", 32),
         (r"Keccak as tiny_keccak::Hasher>::finalize$", 32), (r"serialize_compact$", 64)]
NEWTYPE_LEN = {"primitive_types::H160": 20, "primitive_types::H256": 32, "primitive_types::H512": 64, "ethereum_types::hash::H64": 8,
               "primitive_types::H128": 16, "ethbloom::Bloom": 256}
FALLIBLE = re.compile(r"(parse|from_str|from_utf8|from_str_radix|hex_decode|decode\w*|val_at|list_at|as_val|data|first|last|get|find|rfind|pop|next|"
                      r"strip_prefix|strip_suffix|split_once|split_first|checked_\w+|to_digit|from_slice|from_bytes|recover|verify|deserialize|"
                      r"from_reader|from_value|nth|position|as_u64|as_str|as_array|try_from)$")


def rangeof(x):
    if x.op == "istep_by":
        return rangeof(x.a[0])
    if x.op == "range":
        return x.a[0], x.a[1]
    if x.op == "adt" and str(x.a[0]).endswith("::Range"):
        return x.a[3]
    return None


def dropviews(t):
    while t.op == "call" and len(t.a) == 2 and re.search(r"::(as_bytes|as_str|as_ref|deref|to_vec|to_string|clone|into_bytes|to_owned)$", str(t.a[0])):
        t = t.a[1]
    return t


def bounds(t, st, d=0):
    """(lo, hi) of an unsigned number; hi None when unbounded."""
    if t.op == "int":
        return t.a[0], t.a[0]
    if d > 6:
        return 0, INF
    k = st.facts.get(t)
    if isinstance(k, int):
        return k, k
    lo, hi = 0, INF
    if t.op == "len":
        lo, hi = lenbounds(t.a[0], st, d + 1)
    elif t.op == "sum":
        c, ms = t.a
        lo = hi = c
        for co, m in ms:
            l, h = (1, 1)
            for f in m:
                fl, fh = bounds(f, st, d + 1)
                l, h = l * fl, None if h is None or fh is None else h * fh
            a, b = (co * l, None if h is None else co * h) if co >= 0 else (None if h is None else co * h, co * l)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        lo = 0 if lo is None else lo
    elif t.op == "f" and t.a[1] == "0" and t.a[0].op == "elem" and t.a[0].a[0].op == "call" and re.search("::(char_indices|enumerate)$", str(t.a[0].a[0].a[0])):
        _, h = bounds(length(t.a[0].a[0].a[1]), st, d + 1)
        hi = None if h is None else h - 1
    elif t.op == "elem" and rangeof(t.a[0]):
        a, b = rangeof(t.a[0])
        lo, hi = bounds(a, st, d + 1)[0], bounds(b, st, d + 1)[1]
        hi = None if hi is None else hi - 1
    elif t.op == "bin" and t.a[2].op == "int" and t.a[2].a[0] > 0:
        n = t.a[2].a[0]
        l, h = bounds(t.a[1], st, d + 1)
        if t.a[0] == "Div":
            lo, hi = l // n, None if h is None else h // n
        elif t.a[0] == "Rem":
            hi = n - 1 if h is None else min(n - 1, h)
        elif t.a[0] == "BitAnd":
            hi = n
        elif t.a[0] == "Shr":
            lo, hi = l >> n, None if h is None else h >> n
    elif t.op == "call" and re.search(r"::(min|max)$", str(t.a[0])) and len(t.a) == 3:
        (l1, h1), (l2, h2) = bounds(t.a[1], st, d + 1), bounds(t.a[2], st, d + 1)
        if str(t.a[0]).endswith("min"):
            lo, hi = min(l1, l2), (h1 if h2 is None else h2 if h1 is None else min(h1, h2))
        else:
            lo, hi = max(l1, l2), (None if h1 is None or h2 is None else max(h1, h2))
    for f, v in st.facts.items():
        if f.op != "lt":
            continue
        a, b = f.a
        if b is t and a.op == "int":
            if v == 1:
                lo = max(lo, a.a[0] + 1)
            else:
                hi = a.a[0] if hi is None else min(hi, a.a[0])
        elif a is t and b.op == "int":
            if v == 1:
                hi = b.a[0] - 1 if hi is None else min(hi, b.a[0] - 1)
            else:
                lo = max(lo, b.a[0])
    if t.op == "len":
        for f, ns in st.neg.items():
            if f.op == "bin" and f.a[0] in ("Rem", "Div", "BitAnd", "Shr") and f.a[1] is t and 0 in ns:
                lo = max(lo, 1 if f.a[0] in ("Rem", "BitAnd") or f.a[2].op != "int" else f.a[2].a[0] if f.a[0] == "Div" else 1)
    ne = st.neg.get(t, ())
    while lo in ne:
        lo += 1
    return lo, hi


def lenbounds(x, st, d=0):
    x0 = x
    lo, hi = 0, INF
    x = dropviews(x)
    if x.op in ("call", "mut"):
        n = str(x.a[0])
        for r, k in FIXED:
            if re.search(r, n):
                return k, k
        if re.search(r"::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+)$", n) and isinstance(x.a[1], T):
            h = bounds(length(x.a[1]), st, d + 1)[1]
            hi = h if h is None or "case" not in n or "ascii" in n else h * 3 // 2       # `İ` grows from 2 bytes to 3
        if n.endswith("hex_string"):
            l, h = bounds(length(x.a[1]), st, d + 1)
            return 2 * l, None if h is None else 2 * h
    if x.op == "adt" and x.a[0] in NEWTYPE_LEN:
        return (NEWTYPE_LEN[x.a[0]],) * 2
    if x.op == "f" and x.a[1] == "0" and x.a[0].op in ("call", "mut"):
        return lenbounds(x.a[0], st, d + 1)
    if x.op == "slice":
        l, h = bounds(length(x.a[0]), st, d + 1)
        f, fh = bounds(x.a[1], st, d + 1)
        if x.a[2].op == "end":
            lo = max(0, l - fh) if fh is not None else 0
            hi = None if h is None else h - f
        elif x.a[2].op == "int" and fh is not None:
            lo = x.a[2].a[0] - fh
            hi = x.a[2].a[0] - f
    for f, v in st.facts.items():
        if v == 1 and f.op == "starts" and dropviews(f.a[0]) in (x, x0) and f.a[1].op in ("str", "bytes"):
            lo = max(lo, length(f.a[1]).a[0])
        if v == 1 and f.op == "call" and re.search(r"::(starts_with|ends_with)$", str(f.a[0])) and dropviews(f.a[1]) in (x, x0):
            lo = max(lo, 1)
    return lo, hi


def le(a, b, st):
    """a <= b"""
    if a is b:
        return True
    if st.facts.get(T("lt", b, a)) == 0 or st.facts.get(T("lt", a, b)) == 1:
        return True
    (_, ah), (bl, _) = bounds(a, st), bounds(b, st)
    if ah is not None and ah <= bl:
        return True
    # b = a + something not negative
    if b.op == "sum":
        c, ms = b.a
        if c >= 0 and all(co >= 0 for co, _ in ms) and any(co == 1 and m == (a,) for co, m in ms):
            return True
    if a.op == "call" and str(a.a[0]).endswith("::min") and any(x is b for x in a.a[1:]):
        return True
    if a.op == "bin" and a.a[0] in ("Div", "Rem", "Shr") and a.a[1] is b:
        return True
    if a.op in ("elem", "idx") or b.op in ("elem", "idx"):
        return None
    return False


ROOTS = ("param", "val_at", "list_at", "rlpraw", "rlpat", "rlp_data", "rlpin", "deserialize")


def untrusted(t, d=0):
    """The value is part of the input, and nothing but path conditions says anything about it."""
    t = dropviews(t)
    if d > 8:
        return False
    if t.op in ("param", "val_at", "list_at", "rlpraw"):
        return True
    if t.op in ("f", "as", "elem", "idx", "slice", "index", "rlpat", "rlp_data"):
        return untrusted(t.a[0], d + 1)
    if t.op == "len":
        return untrusted(t.a[0], d + 1)
    if t.op == "call" and re.search(r"deserialize$|::(trim\w*|to_lowercase|split|decode|val_at|as_val|data|hex_decode)$", str(t.a[0])):
        return len(t.a) > 1
    if t.op == "sum":
        return all(untrusted(f, d + 1) for _, m in t.a[1] for f in m)
    return False


def free(t, st):
    """No condition on the path that this analysis does not understand says anything about t (or its length)."""
    base = dropviews(t.a[0]) if t.op == "len" else t
    for f, v in list(st.facts.items()) + [(f, None) for f in st.neg]:
        if f is t or f is base:
            continue
        if not contains(f, base):
            continue
        if f.op == "starts" or f.op == "lt" and (f.a[0] is t and f.a[1].op == "int" or f.a[1] is t and f.a[0].op == "int"):
            continue
        if f.op == "eq" and v == 0:
            continue
        if f.op == "sum" and v is None:
            continue
        if f.op == "index" or f.op == "discr" and f.a[0].op in ("val_at", "list_at", "rlpat", "rlp_data"):
            continue
        if f.op == "bin" and (f.a[1].op == "index" or f.a[1].op == "len" and f.a[2].op == "int"):
            continue
        return False
    return True


def judge(kind, st, terms):
    """True: cannot happen; False: can; None: undecided."""
    ts = [t for t in terms if isinstance(t, T)]
    if kind == "bounds":
        n, i = ts[0], ts[1]
        r = st.facts.get(T("lt", i, n))
        if r == 1:
            return True
        (_, ih), (nl, _) = bounds(i, st), bounds(n, st)
        if ih is not None and ih < nl:
            return True
        if i.op == "int" and n.op == "len" and untrusted(n.a[0]) and free(n, st):
            return False
        if i.op == "elem" and rangeof(i.a[0]):
            end = rangeof(i.a[0])[1]
            if end is n or le(end, n, st):
                return True
            # counted up to the length of something else
            if end.op == n.op == "len" and not rel(end, n, st) and not any(contains(f, n) for f in list(st.facts) + list(st.neg)) \
                    and any(x.op == "param" for x in subterms(n)) and any(x.op == "param" for x in subterms(end)):
                return False
        if n.op == "int" and untrusted(i) and free(i, st):
            return False
        return None
    if kind == "slice":
        b, lo, hi, ty = ts
        n = length(b)
        tys = ty.a[0]
        if n.op == "len" and tys in NEWTYPE_LEN:
            n = I(NEWTYPE_LEN[tys])
        if n.op == "len" and tys.rsplit("::", 1)[-1] in [k.rsplit("::", 1)[-1] for k in NEWTYPE_LEN]:
            n = I(next(v for k, v in NEWTYPE_LEN.items() if k.endswith("::" + tys.rsplit("::", 1)[-1])))
        if hi.op == "end":
            ok = le(lo, n, st)
            if ok and ("str" in tys.lower()) and not charsafe(b, lo, st):
                return False if untrusted(b) and free(T("len", b), st) else None
        else:
            ok = le(lo, hi, st) and le(hi, n, st)
            if ok and "str" in tys.lower() and not (charsafe(b, lo, st) and charsafe(b, hi, st)):
                return False if untrusted(b) and free(T("len", b), st) else None
        if ok:
            return True
        last = lo if hi.op == "end" else hi
        e = [x for x in subterms(last) if x.op == "elem" and x.a[0].op == "call" and re.search("::(char_indices|enumerate)$", str(x.a[0].a[0]))]
        (nl, nh), lh = bounds(n, st), bounds(last, st)[1]
        if e and nh is not None and lh is None and untrusted(e[0].a[0].a[1]) and free(T("len", e[0].a[0].a[1]), st):
            return False
        if "array" in tys:
            return None
        if n.op == "len" and last.op == "int" and untrusted(n.a[0]) and free(n, st):
            return False
        if n.op == "len" and untrusted(last) and untrusted(n.a[0]) and free(last, st) and free(n, st):
            return False
        return None
    if kind == "split":
        v, i = ts[0], ts[1]
        n = length(v)
        if le(i, n, st):
            return True
        if n.op == "len" and i.op == "int" and untrusted(n.a[0]) and free(n, st):
            return False
        return None
    if kind in ("from_slice", "copylen"):
        v = ts[0] if kind == "from_slice" else ts[1]
        want = I(NEWTYPE_LEN.get(ts[1].a[0], -1)) if kind == "from_slice" else length(ts[0])
        n = length(v)
        if n is want:
            return True
        (l, h), (wl, wh) = bounds(n, st), bounds(want, st)
        if l == h == wl == wh:
            return True
        if n.op == "len" and want.op == "int" and untrusted(v) and free(n, st) and l != h:
            return False
        return None
    if kind == "overflow":
        o, a, b = ts[0].a[0], ts[1], ts[2] if len(ts) > 2 else None
        o = o.replace("WithOverflow", "")
        if o in ("Neg", "Shl", "Shr") or b is None:
            return None
        if o == "Sub":
            r = le(b, a, st)
            if r:
                return True
            al, _ = bounds(a, st)
            bl, bh = bounds(b, st)
            if untrusted(a) and free(a, st) and (b.op == "int" or untrusted(b) and free(b, st)) and not rel(a, b, st):
                return False
            return None
        if o in ("Add", "Mul"):
            if all(x.op == "int" or sized(x) for x in (a, b)):
                return True
            ah, bh = bounds(a, st)[1], bounds(b, st)[1]
            if ah is not None and bh is not None and (ah + bh if o == "Add" else ah * bh) < 2 ** 31:
                return True
            if o == "Add" and any(x.op in ("val_at",) or x.op == "f" and x.a[0].op == "as" and x.a[0].a[0].op == "val_at" for x in (a, b)):
                big = [x for x in (a, b) if bounds(x, st)[1] is None and untrusted(x) and free(x, st)]
                if big and not any(f.op == "lt" and any(contains(f, x) for x in big) for f in st.facts):
                    return False
            return None
        return None
    if kind in ("div0", "rem0"):
        c = ts[0] if ts else None
        if c is not None and c.op in ("eq", "not", "flip", "discr"):
            return None
        return None
    if kind == "unwrap":
        x = ts[0]
        d = discr(x)
        y = x
        while y.op in ("f", "as"):
            y = y.a[0]
        nm = str(y.a[0]) if y.op == "call" else y.op
        if not FALLIBLE.search(nm):
            return None
        if nm.endswith("from_str_radix") and "hex_string" in pp(y):
            return True
        others = [f for f in st.facts if f is not d and f is not x and contains(f, y)]
        if others:
            return None
        if re.search(r"(^|::)(decode|decode_list|rlp_decode|recover|verify\w*|secp256k1_\w+|deserialize|val_at|list_at|as_val|as_list|data|from_reader|from_value|"
                     r"\w*(Key|Signature)\w*::(from_bytes|from_slice|uncompress|from_compressed))$", nm):
            # no check beforehand makes these succeed, except for the same call
            return False if any(g.op in ("param", "val_at", "list_at", "rlpraw") for g in subterms(y)) else None
        arg = y.a[1] if y.op == "call" and len(y.a) > 1 else y
        if not isinstance(arg, T) or not untrusted(arg):
            return None
        if any(contains(f, dropviews(arg)) for f in st.facts if f.op not in ("starts", "lt", "eq", "len") and f is not d):
            return None
        return False
    if kind == "panic":
        if any(f.op in ("exists", "alts", "boolop") for f in st.facts):
            return None
        return False
    if kind == "narrow":
        x = ts[0]
        h = bounds(x, st)[1]
        if h is not None and h < 2 ** 32:
            return True
        if untrusted(x) and free(x, st):
            return False
        return None
    if kind == "lib":
        m, v = ts[0].a[0], ts[1:]
        if m in ("from_big_endian", "from_little_endian"):
            n = length(v[0])
            l, h = bounds(n, st)
            if h is not None and h <= 32:
                return True
            src = [x for x in subterms(v[0]) if x.op in ("param", "val_at") or x.op == "call" and str(x.a[0]).endswith("deserialize")]
            if h is None and src and not any(f.op in ("lt", "eq") and any(g.op == "len" for g in subterms(f)) or f.op == "len" for f in list(st.facts) + list(st.neg)):
                return False
            return None
        if m in ("chunks", "chunks_exact", "windows", "step_by", "rchunks") and len(v) > 1:
            return True if bounds(v[1], st)[0] > 0 else False if v[1] is I(0) or untrusted(v[1]) and free(v[1], st) else None
        if m in ("remove", "swap_remove", "split_off", "insert", "split_to", "advance", "swap") and len(v) > 1 and v[1].op in ("int", "param", "f", "sum", "len"):
            n = length(v[0])
            if m in ("remove", "swap_remove", "swap"):
                i, nl = bounds(v[1], st)[1], bounds(n, st)[0]
                if i is not None and i < nl:
                    return True
            elif le(v[1], n, st):
                return True
            if v[1].op == "int" and n.op == "len" and untrusted(n.a[0]) and free(n, st):
                return False
        return None
    return None


def rel(a, b, st):
    return any(f.op in ("lt", "eq") and contains(f, a) and contains(f, b) for f in st.facts)


def sized(x):
    """a length or index of something in memory: sums of these do not overflow"""
    if x.op in ("len", "rlp_size", "idx", "discr"):
        return True
    if x.op == "sum":
        return all(sized(f) for _, m in x.a[1] for f in m)
    if x.op == "f" and x.a[1] == "0" and x.a[0].op == "elem":
        return "enumerate" in pp(x) or "indices" in pp(x)
    if x.op == "elem":
        return "Range" in pp(x) or x.a[0].op in ("range", "istep_by")
    return False


def charsafe(b, i, st):
    """i is a character boundary of the text b (given that it is within it)"""
    if i is I(0) or i is length(b):
        return True
    x = dropviews(b)
    if i.op == "int":
        for f, v in st.facts.items():
            if v == 1 and f.op == "starts" and dropviews(f.a[0]) is x and f.a[1].op == "str" and len(f.a[1].a[0].encode()) >= i.a[0] and f.a[1].a[0].isascii():
                return True
            if v == 1 and f.op in ("call",) and "is_ascii" in str(f.a[0]) and dropviews(f.a[1]) is x:
                return True
            # no byte or character that is not a hex digit
            if f.op == "exists" and v == 0 and "is_ascii" in pp(f) and contains(f, x):
                return True
    if x.op == "call" and re.search(r"hex_string|hex_encode|::hex::encode", str(x.a[0])):
        return True
    if x.op == "slice" and charsafe(x.a[0], x.a[1], st) and i.op == "int":
        for f, v in st.facts.items():
            if f.op == "exists" and v == 0 and "is_ascii" in pp(f) and contains(f, x):
                return True
    if "char_indices" in pp(i) or "find(" in pp(i):
        return True
    return False


def explain(st, terms):
    return ("it depends on " + ", ".join(pp(t)[:200] for t in terms if isinstance(t, T)) + "\n  on the path where "
            + " & ".join(f"{pp(t)[:120]} {'=' if not isinstance(v, frozenset) else 'not in'} {v if not isinstance(v, frozenset) else set(v)}" for t, v in st.conds))
