"""Models of library functions for engine.py. Each returns a list of exits, or None to leave the call
uninterpreted. They describe the documented behaviour of core/alloc/std, bytes, primitive-types."""
from copy import copy
import re
from .term import T, I, TRUE, FALSE, UNIT, subterms
from .engine import (LENS, NVAR, exists, Some, NONE, Ok, Err, Exit, Ev, eq, lt, not_, discr, as_, field, some, ok, err, length, index,
                     elem, idx, itbase, mkcomp, slice_, binop, floatop, OPT, RES, CF, NEWTYPES, BITS, WIDE, strip_view, flip,
                     rebuild, MOVED, zero_of)

BYTEY = {"alloc::vec::Vec", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut", "alloc::string::String",
         "alloc::boxed::Box", "alloc::borrow::Cow", "std::path::PathBuf", "std::path::Path", "alloc::sync::Arc",
         "alloc::rcs::arc::Arc", "std::ffi::os_str::OsString"}


def byteish(t):
    if t[0] in ("slice", "array"):
        return True
    if t[0] == "str":
        return True
    return t[0] == "adt" and t[1] in BYTEY


def peel(t):
    while t[0] in ("ref", "refmut") or (t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc") and len(t) > 2):
        t = t[1] if t[0] != "adt" else t[2]
    return t


def width(t):
    if t[0] in ("uint",):
        return BITS.get(t[1])
    if t[0] == "adt":
        return WIDE.get(t[1])
    return None


def ret(st, v):
    return [Exit(st, "ret", v)]


IDENT_M = {"clone", "to_owned", "borrow", "borrow_mut", "as_ref", "as_mut", "deref", "deref_mut", "into_iter", "iter",
           "by_ref", "as_slice", "as_mut_slice", "as_str", "as_bytes", "as_bytes_mut", "into_bytes", "to_vec", "into_boxed_slice",
           "into_vec", "freeze", "as_path", "to_path_buf", "into_string", "as_deref", "into_inner_", "cloned", "copied",
           "iter_mut_", "as_mut_ptr_", "must_use", "into_boxed_str", "leak_", "as_ptr_", "into_future", "boxed",
           "as_os_str", "into_owned", "as_deref_mut", "as_pin_mut_", "must_use", "black_box", "identity", "get_unchecked_mut_"}

OPTRES = re.compile(r"^core::(option::Option|result::Result)::(\w+)$")
ITER = "core::iter::traits::iterator::Iterator"


BUILDER = re.compile(r"ckb_gen_types::generated::\w+::(\w+)Builder::(\w+)$")


# library functions that panic on some arguments
PANICKY = re.compile(r"(alloc::vec::Vec::(remove|swap_remove|split_off|drain|insert)|alloc::string::String::(remove|insert|split_off|drain)|"
                     r"bytes::bytes(_mut)?::Bytes(Mut)?::(split_to|split_off|slice)|bytes::buf::buf_impl::Buf::(advance|get_\w+|copy_to_\w+)|"
                     r"primitive_types::U(128|256|512)::(from_big_endian|from_little_endian|pow)|core::slice::(chunks\w*|swap|rotate_\w+|windows|copy_within)|"
                     r"core::iter::traits::iterator::Iterator::step_by|core::time::Duration::from_secs_f\d+)$")


def model(c):
    st, E, fr = c.st, c.E, c.fr
    n, f, m = c.name, c.f, c.method

    if E.on_panic:
        pm = PANICKY.match(n)
        if pm:
            vals = tuple(E.resolve_ptrs(st, a) for a in c.args)
            E.on_panic("lib", st, (T("str", m),) + vals, c.loc, fr.fn.path)

    # ---- logging and formatting never influence results
    quiet = not fr.fn.path.startswith(("common_logger::", "axspec::logger::"))
    if n == "log::max_level":
        return ret(st, T("logmax"))
    if quiet and m in ("le", "lt", "ge", "gt") and c.argtys and "log::Level" in str(c.argty(0)):
        return ret(st, FALSE)
    if n.startswith("log::") and ("enabled" in n):
        return ret(st, FALSE)
    if n.startswith("core::intrinsics::cold_path"):
        return ret(st, UNIT)

    mm = OPTRES.match(f)
    if mm:
        r = optres(c, mm.group(1).startswith("option"), mm.group(2))
        if r is not None:
            return r

    # ---- the ? operator
    if f == "core::ops::try_trait::Try::branch":
        v = c.val(0)
        t = c.argty(0)
        if t[0] == "adt" and t[1] == OPT:
            if v.op == "adt":
                return ret(st, T("adt", CF, "Continue", ("0",), (v.a[3][0],)) if v.a[1] == "Some" else T("adt", CF, "Break", ("0",), (T("resid", v),)))
            return ret(st, T("branch_o", v))
        if t[0] == "adt" and t[1] == RES:
            if v.op == "adt":
                return ret(st, T("adt", CF, "Continue", ("0",), (v.a[3][0],)) if v.a[1] == "Ok" else T("adt", CF, "Break", ("0",), (T("resid", v),)))
            return ret(st, T("branch", v))
        return None
    if f == "core::ops::try_trait::Try::from_output":
        t = c.rty()
        return ret(st, Some(c.args[0]) if t[1:2] == (OPT,) else Ok(c.args[0]))
    if f == "core::ops::try_trait::FromResidual::from_residual":
        v = c.val(0)
        if v.op == "resid":
            t = c.rty()
            if t[0] == "adt" and t[1] == OPT:
                return ret(st, NONE)
            r = v.a[0]
            e = err(r)
            if t[0] == "adt" and t[1] == RES and len(t) > 3:
                src = c.g[1] if len(c.g) > 1 else None
                se = src[3] if src is not None and src[0] == "adt" and len(src) > 3 else None
                if se is not None and se != t[3]:
                    return [x if x.kind != "ret" else Exit(x.st, "ret", Err(x.val)) for x in convert(c, st, e, se, t[3])]
            return ret(st, Err(e))
        return None

    # ---- setters of generated builders
    mb = BUILDER.match(f)
    if mb and len(c.args) == 2 and m not in ("build", "set", "push", "extend", "replace", "new_builder", "default"):
        return ret(st, T("upd", c.val(0), m, E.resolve_ptrs(st, c.val(1))))

    # ---- JSON values
    if n.startswith("serde_json::"):
        r = json_model(c)
        if r is not None:
            return r

    # ---- conversions
    if f in ("core::convert::Into::into", "core::convert::From::from") or (m == "into" and c.tr == "core::convert::Into"):
        src, dst = c.argty(0), c.rty()
        if f.endswith("From::from") and c.retty < 0 and c.g:
            dst, src = c.g[0], (c.g[1] if len(c.g) > 1 else src)
        elif c.retty < 0 and len(c.g) > 1:
            src, dst = c.g[0], c.g[1]
        return convert(c, st, c.args[0], src, dst)
    if f in ("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from"):
        src, dst = (c.g[0], c.g[1]) if m == "try_into" and len(c.g) > 1 else ((c.g[1], c.g[0]) if len(c.g) > 1 else (c.argty(0), ("?", "?")))
        g = E.find_impl("core::convert::TryFrom", [dst, src], "try_from")
        if g and g[0] in E.F.fns:
            fn = E.F.fns[g[0]]
            if fr.stack.count(fn.path) < 1 and not E.is_opaque(fn.path, fn):
                return E.call_fn(fn, c.args, st, g[1], fr.depth + 1, fr.stack)
        v = c.val(0)
        w1, w2 = width(src), width(dst)
        if w1 and w2 and w1 <= w2:
            return ret(st, Ok(v))
        c.tyargs = tystr(dst)
        if byteish(peel(src)) and byteish(peel(dst)):
            # slice -> array: fails on a length mismatch, the value is unchanged
            n_ = arrlen(c, dst)
            if n_ is not None and v.op in ("bytes",):
                return ret(st, Ok(v) if length(v) is I(n_) else Err(T("tryfromslice")))
            out = []
            cond = eq(length(v), I(n_)) if n_ is not None else T("lenfits", v, T("ty", tystr(dst)))
            s = st.assume(cond, 1)
            if s:
                out.append(Exit(s, "ret", Ok(v)))
            s = st.assume(cond, 0)
            if s:
                out.append(Exit(s, "ret", Err(T("tryfromslice"))))
            return out
        return None

    # ---- how an execution of the virtual machine ended
    if m in ("is_succeed", "is_error", "is_revert", "is_fatal") and "ExitReason" in n and len(c.args) == 1:
        return ret(st, eq(discr(c.val(0)), I({"is_succeed": 0, "is_error": 1, "is_revert": 2, "is_fatal": 3}[m])))

    # ---- bool::then
    if (n.startswith("core::bool") or "bool::" in n) and m in ("then", "then_some") and len(c.args) == 2:
        b = c.val(0)
        out = []
        s = st.assume(b, 1)
        if s:
            if m == "then_some":
                out += ret(s, Some(c.args[1]))
            else:
                out += [Exit(e.st, e.kind, Some(e.val) if e.kind == "ret" else e.val, e.x) for e in E.apply(fr, s, c.args[1], [], c.loc)]
        s = st.assume(b, 0)
        if s:
            out += ret(s, NONE)
        return out

    # ---- comparisons
    if c.tr in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord") or m in ("eq", "ne") and "core::cmp::PartialEq" in n:
        if len(c.args) == 2:
            a, b = c.val(0), c.val(1)
            ty = c.argty(0)
            a, b = E.resolve_ptrs(st, a), E.resolve_ptrs(st, b)
            if ty[0] == "float":
                if m in ("eq", "ne", "lt", "le", "gt", "ge"):
                    return ret(st, floatop(m.capitalize(), a, b))
                return None
            if m in ("ne", "lt", "le", "gt", "ge", "eq", "max", "min") and c.g:
                # a hand-written local impl is inlined through its primitive method
                r = manual_cmp(c, ty)
                if r is not None:
                    return r
            if m == "eq":
                return ret(st, eq(a, b))
            if m == "ne":
                return ret(st, not_(eq(a, b)))
            if m == "lt":
                return ret(st, lt(a, b))
            if m == "gt":
                return ret(st, lt(b, a))
            if m == "le":
                return ret(st, not_(lt(b, a)))
            if m == "ge":
                return ret(st, not_(lt(a, b)))
            if m in ("cmp", "partial_cmp"):
                t = T("cmp", a, b)
                return ret(st, t if m == "cmp" else Some(t))
            if m in ("max", "min"):
                x, y = sorted((a, b), key=lambda z: z.id)
                return ret(st, T(m, x, y))
    if f == "core::cmp::Ord::clamp":
        return None

    # ---- identities
    if m in IDENT_M and len(c.args) >= 1 and (m != "iter" or not n.startswith("std::collections")):
        a = c.args[0]
        if m in ("as_ref", "as_bytes", "deref", "as_mut", "as_bytes_mut", "borrow", "as_slice", "deref_mut", "to_vec") and newtype(c, 0) and m != "to_vec":
            if a.op == "ptr" and m in ("deref_mut", "as_mut", "as_bytes_mut"):
                return ret(st, T("ptr", a.a[0], a.a[1] + (("f", "0", 0),)))
            v = c.val(0)
            t = peel(c.argty(0))
            if m in ("as_ref", "as_bytes", "as_slice", "borrow") and t[1] in NEWTYPES:
                w, k = field(v, "0"), re.search(r"::H(\d+)$", t[1])
                if k and length(w).op == "len":
                    LENS[w] = int(k.group(1)) // 8
                return ret(st, w)
        if m in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied") and mm:
            if m.endswith("mut") and a.op == "ptr":
                v = c.val(0)
                p = T("ptr", a.a[0], a.a[1] + (("as", "Some"), ("f", "0", 0)))
                out = []
                s = st.assume(discr(v), 1)
                if s:
                    out.append(Exit(s, "ret", Some(p)))
                s = st.assume(discr(v), 0)
                if s:
                    out.append(Exit(s, "ret", NONE))
                return out
            return ret(st, c.val(0))
        if c.tr in ("core::clone::Clone", "alloc::borrow::ToOwned"):
            return ret(st, E.resolve_ptrs(st, c.val(0)))
        if m in ("deref", "deref_mut"):
            t = peel(c.argty(0))
            if "lazy" in str(t).lower() or "ArcSwap" in str(t) or "lazy_static" in n:
                return None
            if m == "deref_mut":
                if a.op == "ptr" and t[0] == "adt" and t[1] == "core::cell::RefMut":
                    v = E.get(E.read_root(st, a.a[0]), a.a[1])
                    if v.op == "ptr":
                        return ret(st, v)
                return ret(st, a)
            if t[0] == "adt" and ("Guard" in t[1] or t[1] in ("core::cell::Ref", "core::cell::RefMut")):
                return ret(st, c.val(0))
            return ret(st, c.val(0) if t[0] != "adt" or m == "deref" else a)
        if m in ("iter", "into_iter"):
            if a.op == "ptr" and m == "into_iter" and c.argtys and c.types[c.argtys[0]]["k"] == "refmut":
                if "Iterator" in n or n.startswith("<I as") or n.startswith("<&mut"):
                    return ret(st, a)
                return None
            v = c.val(0)
            if v.op == "adt" and v.a[0].startswith("core::ops::range"):
                return ret(st, mkrange(v))
            return ret(st, v)
        if m in ("cloned", "copied", "by_ref") and c.tr:
            return ret(st, a if m == "by_ref" else c.val(0))
        if m == "into_future" or m == "boxed" or m == "must_use" or m == "identity":
            return ret(st, a)
        if m in ("as_mut", "as_mut_slice") or n == "core::cell::RefCell::borrow_mut":
            return ret(st, a)
        return ret(st, c.val(0))
    if re.match(r"dashmap::mapref::(one|multiple)::Ref(Mut)?(Multi)?::(value|value_mut)$|dashmap::mapref::multiple::RefM(ut)?(ulti)?::value(_mut)?$", n):
        return ret(st, c.args[0] if m == "value_mut" else c.val(0))
    if n in ("alloc::boxed::Box::new", "alloc::sync::Arc::new", "alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new",
             "alloc::boxed::Box::pin", "core::pin::Pin::new", "core::pin::Pin::new_unchecked", "zeroize::Zeroizing::new",
             "core::pin::Pin::as_mut", "core::pin::Pin::get_mut", "alloc::boxed::Box::into_pin", "core::cell::RefCell::new_",
             "alloc::boxed::box_new", "core::mem::ManuallyDrop::new", "core::num::wrapping::Wrapping"):
        return ret(st, c.args[0])
    # ---- statics: a cell of memory named by the static
    if n == "std::thread::local::LocalKey::with":
        k = c.val(0)
        if k.op in ("const", "static"):
            return E.apply(fr, st, c.args[1], [T("ptr", T("O", T("static", k.a[0])), ())], c.loc)
    if n == "lazy_static::lazy::Lazy::get" and c.args[-1].op in ("fn", "closure"):
        mm_ = re.match(r"<(.+) as core::ops::deref::Deref>::deref::", c.args[-1].a[0])
        if mm_:
            return ret(st, T("ptr", T("O", T("static", mm_.group(1))), ()))
    if n in ("core::cell::RefCell::new", "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "core::cell::RefCell::get_mut",
             "core::cell::RefCell::into_inner"):
        return ret(st, a if n.endswith(("borrow", "borrow_mut", "get_mut", "new")) else c.val(0))
    if n == "core::cell::RefCell::replace" and a.op == "ptr":
        s = st.fork()
        old = c.val(0)
        E.wr_at(s, a.a[0], a.a[1], c.args[1])
        return ret(s, old)
    if n.endswith("to_string") and m == "to_string":
        t = peel(c.argty(0))
        v = c.val(0)
        if t[0] == "str" or (t[0] == "adt" and t[1] == "alloc::string::String"):
            return ret(st, v)
        return ret(st, T("to_string", E.resolve_ptrs(st, v)))
    mm = re.match(r"(?:std|alloc)::collections::(?:\w+::)*(Hash(?:Map|Set)|BTree(?:Map|Set)|VecDeque|BinaryHeap)::(?:new|with_capacity)$", n)
    if mm or m == "default" and c.tr == "core::default::Default" and c.rty()[0] == "adt" and re.search(r"collections::.*::(Hash(Map|Set)|BTree(Map|Set))$", c.rty()[1]):
        return ret(st, T("call", (mm.group(1) if mm else c.rty()[1].rsplit("::", 1)[-1]) + "::new"))
    if n in ("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new",
             "bytes::bytes_mut::BytesMut::new", "bytes::bytes_mut::BytesMut::with_capacity", "bytes::bytes::Bytes::new",
             "alloc::string::String::with_capacity") or (m == "default" and c.tr == "core::default::Default" and c.rty()[1:2] in (("alloc::vec::Vec",), ("bytes::bytes::Bytes",), ("alloc::string::String",), ("bytes::bytes_mut::BytesMut",))):
        return ret(st, T("newvec"))
    if n in ("rlp::stream::RlpStream::new_with_buffer",):
        return None
    if n.startswith(("alloc::vec::Vec::", "alloc::string::String::", "bytes::bytes_mut::BytesMut::")) and m in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to"):
        return ret(st, UNIT)
    if m == "default" and c.tr == "core::default::Default" and c.rty()[0] == "adt" and c.rty()[1] == "creep::Context":
        return ret(st, T("call", "creep::Context::new"))
    if m == "default" and c.tr == "core::default::Default":
        return ret(st, plain_default(E, c.rty() if c.retty >= 0 else (c.g[0] if c.g else ("?", "?"))))
    if m in ("zero", "one") and not c.args and c.rty()[0] == "adt":
        t = c.rty()
        if t[1] in WIDE:
            return ret(st, I(0 if m == "zero" else 1))
        if t[1] in NEWTYPES and m == "zero":
            return ret(st, zero_of(t[1]))
    if m in ("low_u64", "as_u64", "as_usize", "as_u32", "low_u32", "as_u128") and peel(c.argty(0))[1:2] and peel(c.argty(0))[1] in WIDE:
        v = c.val(0)
        w = WIDE[peel(c.argty(0))[1]]
        tw = {"u64": 64, "usize": 64, "u32": 32, "u128": 128}[m.split("_")[-1]]
        if v.op == "int" and v.a[0] < (1 << tw):
            return ret(st, v)
        if w <= tw:
            return ret(st, v)
        if m.startswith("as_") and E.on_panic:
            E.on_panic("narrow", st, (v,), c.loc, fr.fn.path)
        if v.op == "widened" and v.a[0] <= tw:
            return ret(st, v.a[1])
        return ret(st, T("trunc", {64: "u64", 32: "u32", 128: "u128"}[tw], v))
    if n.startswith("core::num::"):
        return intops(c)
    if n in ("core::mem::swap",):
        a, b = c.args
        if a.op == "ptr" and b.op == "ptr":
            st = st.fork()
            x, y = E.deref(st, a), E.deref(st, b)
            E.wr_via(fr, st, a, y, c.loc)
            E.wr_via(fr, st, b, x, c.loc)
            return ret(st, UNIT)
    if n in ("core::mem::replace", "core::mem::take"):
        a = c.args[0]
        if a.op == "ptr":
            st = st.fork()
            x = E.deref(st, a)
            E.wr_via(fr, st, a, c.args[1] if m == "replace" else default_of(peel(c.argty(0))), c.loc)
            return ret(st, x)
    if n.endswith("task::blocking::block_in_place") and len(c.args) == 1:
        return E.apply(fr, st, c.args[0], [], c.loc)
    if n in ("core::mem::drop", "core::mem::forget"):
        st = st.fork()
        st.ev = st.ev + (Ev("drop", "drop", (E.resolve_ptrs(st, c.args[0]),), None, c.loc, fr.fn.path),)
        return ret(st, UNIT)
    if m in ("mem::size_of",):
        return None

    if "rlp" in n:
        r = rlp_model(c)
        if r is not None:
            return r
    # ---- byte strings and vectors
    if m == "len" and len(c.args) == 1:
        return ret(st, length(c.val(0)))
    if m == "is_empty" and len(c.args) == 1:
        return ret(st, eq(length(c.val(0)), I(0)))
    if m == "count" and c.tr == ITER:
        pass
    if f in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
        return index_model(c)
    if n in ("core::slice::<impl [T]>::get", "alloc::vec::Vec::get", "core::slice::get"):
        return get_model(c)
    if n in ("core::slice::<impl [T]>::get_mut", "alloc::vec::Vec::get_mut", "core::slice::get_mut") and c.argty(1)[0] == "uint" and c.args[0].op == "ptr":
        p, i = c.args[0], c.val(1)
        cond = lt(i, length(c.val(0)))
        return [Exit(s, "ret", r) for s, r in ((st.assume(cond, 1), Some(T("ptr", p.a[0], p.a[1] + (("i", i),)))), (st.assume(cond, 0), NONE)) if s]
    if m in ("first", "last", "first_mut", "last_mut") and n.startswith("core::slice") and len(c.args) == 1:
        v, p = c.val(0), c.args[0]
        end = m.startswith("last")
        out = []
        cond = eq(length(v), I(0))
        s = st.assume(cond, 0)
        if s:
            if m.endswith("_mut") and p.op == "ptr":
                r = T("ptr", p.a[0], p.a[1] + (("c", int(end), end),))
            else:
                r = index(v, binop("Sub", length(v), I(1)) if end else I(0))
            out.append(Exit(s, "ret", Some(r)))
        s = st.assume(cond, 1)
        if s:
            out.append(Exit(s, "ret", NONE))
        return out
    if m in ("starts_with", "strip_prefix", "ends_with", "strip_suffix") and n.startswith(("core::str", "core::slice")) and len(c.args) == 2:
        v, pat = strip_view(c.val(0)), strip_view(c.val(1))
        if pat.op in ("str", "bytes"):
            k = len(pat.a[0]) if pat.op == "str" else len(pat.a[0]) // 2
            if pat.op == "bytes":
                try:
                    pat = T("str", bytes.fromhex(pat.a[0]).decode())
                except Exception:
                    pass
            cond = T("starts" if m.endswith("fix") and m != "strip_suffix" or m == "starts_with" else "ends", v, pat)
            NVAR[cond] = 2
            if m.endswith("with"):
                return ret(st, cond)
            out = []
            s = st.assume(cond, 1)
            if s:
                out.append(Exit(s, "ret", Some(slice_(v, I(k), None) if m == "strip_prefix" else slice_(v, I(0), binop("Sub", length(v), I(k))))))
            s = st.assume(cond, 0)
            if s:
                out.append(Exit(s, "ret", NONE))
            return out
    if m == "split_at" and n.startswith("core::"):
        v, i = c.val(0), c.args[1]
        if E.on_panic:
            E.on_panic("split", st, (v, i), c.loc, fr.fn.path)
        return ret(st, T("tuple", slice_(v, I(0), i), slice_(v, i, None)))
    if m == "copy_from_slice" and c.args and c.args[0].op == "ptr" and n.startswith("core::slice"):
        st = st.fork()
        p, v = c.args[0], E.resolve_ptrs(st, c.args[1])
        old = E.deref(st, p)
        if E.on_panic:
            E.on_panic("copylen", st, (old, v), c.loc, fr.fn.path)
        if p.a[1] and p.a[1][-1][0] == "slicev":
            E.wr_at(st, p.a[0], p.a[1][:-1], T("splice", E.get(E.read_root(st, p.a[0]), p.a[1][:-1]), p.a[1][-1][1], p.a[1][-1][2], v))
        else:
            E.wr_via(fr, st, p, v, c.loc)
        return ret(st, UNIT)
    if n in ("bytes::bytes::Bytes::copy_from_slice", "bytes::bytes::Bytes::from_static"):
        return ret(st, c.val(0))
    if n in ("alloc::vec::Vec::push", "std::collections::vec_deque::VecDeque::push_back", "alloc::string::String::push"):
        p = c.args[0]
        if p.op == "ptr":
            st = st.fork()
            old = E.deref(st, p)
            E.wr_via(fr, st, p, vpush(old, E.resolve_ptrs(st, c.args[1])), c.loc)
            return ret(st, UNIT)
    if m in ("extend_from_slice", "push_str", "put_slice", "put", "append", "extend") and c.args[0].op == "ptr" and \
            (n.startswith(("alloc::vec", "alloc::string", "bytes::bytes_mut")) or "bytes::buf" in n or n.startswith("<alloc::vec::Vec") or n.startswith("<bytes::")):
        st = st.fork()
        p = c.args[0]
        old = E.deref(st, p)
        v = E.resolve_ptrs(st, c.args[1])
        if m == "append" and c.args[1].op == "ptr":
            E.wr_via(fr, st, c.args[1], T("newvec"), c.loc)
        E.wr_via(fr, st, p, concat(old, v), c.loc)
        return ret(st, UNIT)
    if m == "put_u8" and c.args[0].op == "ptr":
        st = st.fork()
        p = c.args[0]
        E.wr_via(fr, st, p, vpush(E.deref(st, p), c.args[1]), c.loc)
        return ret(st, UNIT)
    if m == "concat" and n.startswith("alloc::slice"):
        v = strip_view(c.val(0))
        if v.op == "array":
            r = T("newvec")
            for x in v.a:
                r = concat(r, E.resolve_ptrs(st, x))
            return ret(st, r)
        return ret(st, T("call", "concat", v))
    if n in ("alloc::boxed::Box::new_uninit", "alloc::boxed::box_new_uninit"):
        return ret(st, T("newbox"))
    if "box_assume_init_into_vec_unsafe" in n:
        v = c.val(0)
        return ret(st, unbox(v))
    if n == "alloc::vec::from_elem":
        return ret(st, T("repeat", c.val(0), c.args[1]))
    if m == "into_vec" and n.startswith("alloc::slice"):
        return ret(st, c.val(0))
    if m in ("from_slice",) and c.rty()[0] == "adt" and c.rty()[1] in NEWTYPES:
        t = c.rty()
        if E.on_panic:
            E.on_panic("from_slice", st, (c.val(0), T("str", t[1])), c.loc, fr.fn.path)
        return ret(st, T("adt", t[1], t[1].rsplit("::", 1)[-1], ("0",), (c.val(0),)))
    if m in ("to_fixed_bytes", "as_fixed_bytes", "fixed_bytes") and newtype(c, 0):
        return ret(st, field(c.val(0), "0"))
    if m in ("as_bytes", "as_ref", "data") and newtype(c, 0):
        return ret(st, field(c.val(0), "0"))
    if m == "is_zero" and peel(c.argty(0))[0] == "adt":
        t = peel(c.argty(0))
        if t[1] in WIDE:
            return ret(st, eq(c.val(0), I(0)))
        if t[1] in NEWTYPES:
            return ret(st, eq(c.val(0), zero_of(t[1])))
    if n == "core::str::converts::from_utf8_unchecked" or n.endswith("String::from_utf8_unchecked"):
        return ret(st, c.val(0))
    if n.endswith("future::poll_fn::poll_fn") and c.args[0].op == "closure" and len(c.args[0].a) > 1 and len(c.args[0].a[1]) == 2:
        # `select!`: which of the futures is done first, apart from those that are disabled
        caps = [c.E.resolve_ptrs(st, x) for x in c.args[0].a[1]]
        if caps[0].op == "int" and caps[1].op == "tuple":
            return ret(st, T("call", "tokio::select", *caps))
    if c.tr and c.tr.startswith("core::ops::arith::") or c.tr and c.tr.startswith("core::ops::bit::"):
        return arith(c)
    if n.startswith("core::sync::atomic::Atomic") and m in ("load", "store", "fetch_add"):
        return None

    # ---- iterators
    if c.tr == ITER or c.tr in ("core::iter::traits::double_ended::DoubleEndedIterator", "core::iter::traits::exact_size::ExactSizeIterator"):
        r = iters(c)
        if r is not None:
            return r
    if n == "core::iter::adapters::zip::zip":
        return ret(st, T("zip", c.val(0), c.val(1)))
    if f == "core::iter::traits::collect::FromIterator::from_iter":
        return collect(c, c.val(0), c.rty())
    if c.tr == "core::iter::traits::collect::Extend" and m == "extend" and c.args[0].op == "ptr":
        p = c.args[0]
        out = []
        for e in collect(c, c.val(1), ("adt", "alloc::vec::Vec", ("?", "?"))):
            if e.kind != "ret":
                out.append(e)
                continue
            s = e.st.fork()
            old = E.deref(s, p)
            E.wr_via(fr, s, p, e.val if old.op == "newvec" else T("extend", old, e.val), c.loc)
            out.append(Exit(s, "ret", UNIT))
        return out
    if m == "drain" and n.startswith("alloc::vec::Vec") and c.args[0].op == "ptr" and c.argty(1)[1:2] == ("core::ops::range::RangeFull",):
        s, v = st.fork(), c.val(0)
        E.wr_via(fr, s, c.args[0], T("newvec"), c.loc)
        return ret(s, v)
    if m == "split_off" and n.startswith(("alloc::vec::Vec", "bytes::bytes::Bytes")) and c.args[0].op == "ptr":
        s, v, k = st.fork(), c.val(0), c.val(1)
        E.wr_via(fr, s, c.args[0], slice_(v, I(0), k), c.loc)
        return ret(s, slice_(v, k, None))
    if m == "slice" and re.match(r"bytes::bytes::Bytes(::|$)", n):
        r = rng(c, c.args[1])
        if r is not None:
            return ret(st, slice_(c.val(0), *r))
    if n.startswith("common_apm::tracing::AxonTracer::") and m in ("span", "child_of_span"):
        return ret(st, NONE)        # traces are not part of what is decided
    if m in ("keys", "values") and ("BTreeMap" in n or "HashMap" in n):
        return ret(st, T(m, c.val(0)))
    if m == "contains_key" and re.match(r"(std|alloc|hashbrown)::.*(BTreeMap|HashMap)(<.*>)?::contains_key$", n):
        return ret(st, eq(discr(T("call", n[:-len("contains_key")] + "get", c.val(0), c.val(1))), I(1)))

    # ---- function values and futures
    if f in ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut"):
        a = c.args[1]
        args = list(a.a) if a.op == "tuple" else [a]
        return E.apply(fr, st, c.args[0], args, c.loc)
    if f == "core::future::future::Future::poll":
        fut = c.val(0)
        m2 = fut.a[0].rsplit("::", 1)[-1] if fut.op == "call" and "TryFutureExt::" in fut.a[0] else ""
        if m2 in ("unwrap_or_else", "map_err", "map_ok"):       # what it gives is treated as a result
            out = []
            for e in poll(c, st, fut.a[1]):
                if e.kind != "ret":
                    out.append(e)
                    continue
                k = copy(c)
                k.st, k.args = e.st, [e.val.a[3][0], fut.a[2]]
                out += [Exit(x.st, "ret", READY(x.val)) if x.kind == "ret" else x for x in optres(k, False, "map" if m2 == "map_ok" else m2)]
            return out
        return poll(c, st, fut)
    if n == "tokio::runtime::runtime::Runtime::block_on":
        return [Exit(e.st, "ret", e.val.a[3][0]) if e.kind == "ret" else e for e in poll(c, st, c.val(1))]
    if n == "core::future::get_context" or n == "core::future::ResumeTy":
        return ret(st, T("ctx"))
    return None


def template(t):
    """The text of format!(..), as literal strings and displayed values; None if it is not such a text."""
    if t.op == "call" and t.a[0].endswith("fmt::format") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "str":
        return [t.a[0]]
    if t.op != "call" or not t.a[0].endswith("Arguments::new") or t.a[1].op not in ("bytes", "str") or t.a[2].op not in ("array", "tuple"):
        return None
    b = bytes.fromhex(t.a[1].a[0].removeprefix("0x")) if t.a[1].op == "bytes" else t.a[1].a[0].encode("latin1")
    args, out, i, k = t.a[2].a, [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x].decode("utf8", "replace"))
            i += x
        elif x == 0x80:
            x = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + x].decode("utf8", "replace"))
            i += 2 + x
        elif x == 0xc0 and k < len(args) and args[k].op == "call" and args[k].a[0].endswith("new_display"):
            v = args[k].a[1]
            k += 1
            out.append(v.a[0] if v.op == "str" else v)
        else:
            return None
    return out


def json_of(v):
    """The JSON value whose text is the displayed v."""
    if any(x.op == "call" and x.a[0].endswith("value::to_value") or x.op in ("jnum", "jstr", "jmap", "jnull") for x in subterms(v)):
        return v
    return T("jnum", v)


def json_model(c):
    st, E, m = c.st, c.E, c.method
    val = lambda i: E.resolve_ptrs(st, c.val(i))
    if m == "to_value" and c.g:
        t = peel(c.g[0])
        if width(t) is not None and t[0] == "uint":
            return ret(st, Ok(T("jnum", val(0))))
        if t[0] == "str" or t[0] == "adt" and t[1] == "alloc::string::String":
            return ret(st, Ok(T("jstr", val(0))))
        if t[0] == "adt" and t[1] == "serde_json::value::Value":
            return ret(st, Ok(val(0)))
        if t == ("tuple",) or t[0] == "tuple" and len(t) > 1 and not t[1]:
            return ret(st, Ok(T("jnull")))
        return None
    if "map::Map::" in c.name:
        if m in ("new", "with_capacity"):
            return ret(st, T("jmap", ()))
        if m == "insert":
            p = c.args[0]
            old = E.deref(st, p) if p.op == "ptr" else None
            k = val(1)
            if old is not None and old.op == "jmap" and k.op == "str":
                d = dict(old.a[0])
                d[k.a[0]] = val(2)
                st = st.fork()
                E.wr_at(st, p.a[0], p.a[1], T("jmap", tuple(sorted(d.items()))))
                return ret(st, NONE)
        return None
    if m in ("from_str", "from_slice") and c.g and peel(c.g[-1])[1:2] == ("serde_json::value::Value",):
        parts = template(val(0))
        if parts is None or all(isinstance(x, str) for x in parts) and len(parts) == 0:
            return None
        import json
        vals = [x for x in parts if not isinstance(x, str)]
        text, i = "", 0
        for x in parts:
            if isinstance(x, str):
                text += x
            else:
                text += f'{{"@@": {i}}}'
                i += 1

        def back(x):
            if isinstance(x, dict):
                if list(x) == ["@@"]:
                    return json_of(vals[x["@@"]])
                return T("adt", "serde_json::value::Value", "Object", ("0",), (T("jmap", tuple(sorted((k, back(v)) for k, v in x.items()))),))
            if isinstance(x, str):
                if "@@" in x:
                    raise ValueError
                return T("jstr", T("str", x))
            if x is None:
                return T("jnull")
            raise ValueError
        try:
            return ret(st, Ok(back(json.loads(text))))
        except ValueError:
            return None
    return None


def unbox(v):
    v = strip_view(v)
    while v.op == "upd":
        if isinstance(v.a[2], T) and v.a[2].op in ("array", "repeat", "bytes"):
            return v.a[2]
        v2 = v.a[2]
        if isinstance(v2, T) and v2.op in ("upd", "adt"):
            v = v2
            continue
        break
    for x in subterms(v):
        if x.op in ("array", "bytes"):
            return x
    return T("vecmac", v)


def vpush(old, x):
    if old.op == "newvec":
        return T("array", x)
    if old.op == "array":
        return T("array", *(old.a + (x,)))
    if old.op in ("concat", "bytes", "slice", "to_be_bytes", "rlp_encode", "rlp_encode_list"):
        return concat(old, T("array", x))
    return T("mut", "Vec::push", 0, old, x)


def concat(a, b):
    if a.op == "newvec":
        return b
    if b.op == "newvec":
        return a
    if a.op == "bytes" and b.op == "bytes":
        return T("bytes", a.a[0] + b.a[0])
    if a.op == "str" and b.op == "str":
        return T("str", a.a[0] + b.a[0])
    if a.op == "bytes" and not a.a[0]:
        return b
    if b.op == "bytes" and not b.a[0]:
        return a
    xs = a.a if a.op == "concat" else (a,)
    ys = b.a if b.op == "concat" else (b,)
    out = []
    for x in xs + ys:
        if x.op == "array" and all(i.op == "int" and 0 <= i.a[0] < 256 for i in x.a):
            x = T("bytes", "".join("%02x" % i.a[0] for i in x.a))
        if out and out[-1].op == x.op == "bytes":
            out[-1] = T("bytes", out[-1].a[0] + x.a[0])
        elif out and out[-1].op == x.op == "array":
            out[-1] = T("array", *(out[-1].a + x.a))
        else:
            out.append(x)
    return out[0] if len(out) == 1 else T("concat", *out)


def newtype(c, i):
    t = peel(c.argty(i))
    return t[0] == "adt" and t[1] in NEWTYPES


def tystr(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "adt":
        return t[1].rsplit("::", 1)[-1] + ("<" + ",".join(tystr(x) for x in t[2:]) + ">" if len(t) > 2 else "")
    if t[0] in ("ref", "refmut"):
        return tystr(t[1])
    if t[0] in ("slice", "tuple", "array", "ptr"):
        return t[0] + "(" + ",".join(tystr(x) for x in t[1:]) + ")"
    return str(t[1])


def arrlen(c, dst):
    """N of a [u8; N] result, from the printed type."""
    for i in ([c.retty] if c.retty >= 0 else []):
        s = c.types[i]["s"]
        m = re.search(r"\[u8; (\d+)\]", s)
        if m:
            return int(m.group(1))
    return None


def convert(c, st, v0, src, dst):
    """From/Into."""
    E, fr = c.E, c.fr
    ps, pd = peel(src), peel(dst)
    v = E.deref(st, v0) if v0.op == "ptr" else v0
    if src == dst or ps == pd:
        return ret(st, v)
    w1, w2 = width(ps), width(pd)
    if w1 and w2 and w1 <= w2:
        return ret(st, v)
    if ps[0] == "bool" and w2:
        return ret(st, T("ite01", v) if v.op not in ("bool", "int") else I(1 if v in (TRUE, I(1)) else 0))
    if byteish(ps) and byteish(pd):
        return ret(st, v)
    if pd[0] == "adt" and pd[1] in NEWTYPES and byteish(ps):
        return ret(st, T("adt", pd[1], pd[1].rsplit("::", 1)[-1], ("0",), (v,)))
    if ps[0] == "adt" and ps[1] in NEWTYPES and byteish(pd):
        return ret(st, field(v, "0"))
    if ps[0] == "adt" and pd[0] == "adt" and ps[1] in NEWTYPES and pd[1] in NEWTYPES and ps[1] != pd[1]:
        return ret(st, T("call", "From::from", v, T("ty", tystr(pd))))
    g = E.find_impl("core::convert::From", [dst, src], "from") or E.find_impl("core::convert::From", [pd, ps], "from") \
        or E.find_impl("core::convert::From", [pd, ("ref", ps)], "from")
    m = "from"
    if not g:
        g = E.find_impl("core::convert::Into", [src, dst], "into")
    if not g and pd[0] == "adt" and pd[1] == OPT:
        return ret(st, Some(v))
    if g and g[0] in E.F.fns:
        fn = E.F.fns[g[0]]
        if not E.is_opaque(fn.path, fn) and fr.stack.count(fn.path) < 1 and len(fr.stack) < E.maxdepth + 2:
            return E.call_fn(fn, [v0], st, g[1], fr.depth + 1, fr.stack)
        s = st.fork()
        t = T("call", fn.path, E.resolve_ptrs(s, v))
        s.ev = s.ev + (Ev("call", fn.path, (E.resolve_ptrs(s, v),), t, c.loc, fr.fn.path),)
        return ret(s, t)
    if v.op == "int" and v.a[0] >= 0 and pd[0] == "adt" and re.search(r"::U(64|128|256|512)$", pd[1]):
        return ret(st, v)
    return ret(st, T("from", E.resolve_ptrs(st, v), T("ty", tystr(dst))))


def manual_cmp(c, ty):
    """Comparison operators of a local type with a hand-written impl: inline that impl."""
    E, st, fr = c.E, c.st, c.fr
    g = [x for x in c.g]
    g = [peel(x) for x in g] if len(g) >= 1 else g
    if not g or g[0][0] != "adt":
        return None
    if len(g) == 1:
        g = [g[0], g[0]]
    m = c.method
    a, b = c.args[0], c.args[1]
    if m in ("eq", "ne"):
        r = E.find_impl("core::cmp::PartialEq", g[:2], "eq")
        if not r or r[0] not in E.F.fns or E.F.fns[r[0]].d.get("derived"):
            return None
        fn = E.F.fns[r[0]]
        if fr.stack.count(fn.path):
            return None
        outs = E.call_fn(fn, [a, b], st, r[1], fr.depth + 1, fr.stack)
        return [Exit(e.st, e.kind, not_(e.val) if m == "ne" and e.kind == "ret" else e.val, e.x) for e in outs]
    if m in ("lt", "le", "gt", "ge"):
        r = E.find_impl("core::cmp::PartialOrd", g[:2], "partial_cmp")
        if not r or r[0] not in E.F.fns or E.F.fns[r[0]].d.get("derived"):
            return None
        fn = E.F.fns[r[0]]
        if fr.stack.count(fn.path):
            return None
        out = []
        for e in E.call_fn(fn, [a, b], st, r[1], fr.depth + 1, fr.stack):
            if e.kind != "ret":
                out.append(e)
                continue
            o = e.val
            o = o.a[3][0] if o.op == "adt" and o.a[1] == "Some" else None
            if o is None or o.op != "cmp":
                return None
            x, y = o.a
            v = {"lt": lt(x, y), "gt": lt(y, x), "le": not_(lt(y, x)), "ge": not_(lt(x, y))}[m]
            out.append(Exit(e.st, "ret", v))
        return out
    return None


def READY(v):
    return T("adt", "core::task::poll::Poll", "Ready", ("0",), (v,))


def poll(c, st, fut):
    """A future that is driven to its end."""
    E, fr = c.E, c.fr
    if fut.op == "closure" and fut.a[0] in E.F.fns and E.F.fns[fut.a[0]].d.get("coroutine"):
        fn = E.F.fns[fut.a[0]]
        if fr.stack.count(fn.path) < 1 and len(fr.stack) < E.maxdepth:
            out = []
            for e in E.call_fn(fn, [fut, T("ctx")], st, E.closure_env.get(fut.a[0], fr.env), fr.depth + 1, fr.stack):
                out.append(Exit(e.st, "ret", READY(e.val)) if e.kind == "ret" else e)
            return out
    s = st.fork()
    v = E.resolve_ptrs(s, fut)
    t = T("await", v)
    s.ev = s.ev + (Ev("await", "await", (v,), t, c.loc, fr.fn.path),)
    return ret(s, READY(t))


def optres(c, isopt, m):
    st, E, fr = c.st, c.E, c.fr
    if not c.args:
        return None
    a = c.args[0]
    x = c.val(0)
    d = discr(x)
    if d.op == "discr":
        NVAR[d] = 2
    good, bad = (1, 0) if isopt else (0, 1)
    pay = (lambda: some(x)) if isopt else (lambda: ok(x))

    def fork(onG, onB):
        out = []
        s = st.assume(d, good)
        if s:
            out += onG(s)
        s = st.assume(d, bad)
        if s:
            out += onB(s)
        return out

    def run(s, fv, args, wrap=lambda v: v):
        return [Exit(e.st, e.kind, wrap(e.val) if e.kind == "ret" else e.val, e.x) for e in E.apply(fr, s, fv, args, c.loc)]

    bv = (lambda: NONE) if isopt else (lambda: Err(err(x)))
    wrapG = Some if isopt else Ok
    if m in ("is_some", "is_ok"):
        return ret(st, eq(d, I(good)))
    if m in ("is_none", "is_err"):
        return ret(st, eq(d, I(bad)))
    if m in ("unwrap", "expect", "unwrap_unchecked"):
        def onB(s):
            if E.on_panic:
                E.on_panic("unwrap", s, (x,), c.loc, fr.fn.path)
            return [Exit(s, "panic", None, ("unwrap", c.loc))]
        return fork(lambda s: ret(s, pay()), onB)
    if m in ("expect_err", "unwrap_err"):
        return fork(lambda s: [Exit(s, "panic", None, ("unwrap", c.loc))], lambda s: ret(s, err(x)))
    if m == "unwrap_or":
        return fork(lambda s: ret(s, pay()), lambda s: ret(s, c.args[1]))
    if m == "unwrap_or_default":
        t = c.rty()
        dv = plain_default(c.E, t)
        return fork(lambda s: ret(s, pay()), lambda s: ret(s, dv))
    if m == "unwrap_or_else":
        return fork(lambda s: ret(s, pay()), lambda s: run(s, c.args[1], [] if isopt else [err(x)]))
    if m == "map":
        return fork(lambda s: run(s, c.args[1], [pay()], wrapG), lambda s: ret(s, bv()))
    if m == "map_or":
        return fork(lambda s: run(s, c.args[2], [pay()]), lambda s: ret(s, c.args[1]))
    if m == "map_or_else":
        return fork(lambda s: run(s, c.args[2], [pay()]), lambda s: run(s, c.args[1], [] if isopt else [err(x)]))
    if m in ("is_some_and", "is_ok_and"):
        return fork(lambda s: run(s, c.args[1], [pay()]), lambda s: ret(s, FALSE))
    if m == "is_none_or":
        return fork(lambda s: run(s, c.args[1], [pay()]), lambda s: ret(s, TRUE))
    if m == "map_err":
        return fork(lambda s: ret(s, Ok(pay())), lambda s: run(s, c.args[1], [err(x)], Err))
    if m == "and_then":
        return fork(lambda s: run(s, c.args[1], [pay()]), lambda s: ret(s, bv()))
    if m == "and":
        return fork(lambda s: ret(s, c.args[1]), lambda s: ret(s, bv()))
    if m == "or":
        return fork(lambda s: ret(s, wrapG(pay())), lambda s: ret(s, c.args[1]))
    if m == "or_else":
        return fork(lambda s: ret(s, wrapG(pay())), lambda s: run(s, c.args[1], [] if isopt else [err(x)]))
    if m == "filter" and isopt:
        def g(s):
            out = []
            for e in E.apply(fr, s, c.args[1], [pay()], c.loc):
                if e.kind != "ret":
                    out.append(e)
                    continue
                for v, r in ((1, Some(pay())), (0, NONE)):
                    s2 = e.st.assume(e.val, v)
                    if s2:
                        out.append(Exit(s2, "ret", r))
            return out
        return fork(g, lambda s: ret(s, NONE))
    if m == "ok_or" and isopt:
        return fork(lambda s: ret(s, Ok(pay())), lambda s: ret(s, Err(c.args[1])))
    if m == "ok_or_else" and isopt:
        return fork(lambda s: ret(s, Ok(pay())), lambda s: run(s, c.args[1], [], Err))
    if m == "ok" and not isopt:
        return fork(lambda s: ret(s, Some(pay())), lambda s: ret(s, NONE))
    if m == "err" and not isopt:
        return fork(lambda s: ret(s, NONE), lambda s: ret(s, Some(err(x))))
    if m in ("take",) and isopt and a.op == "ptr":
        s = st.fork()
        E.wr_via(fr, s, a, NONE, c.loc)
        return ret(s, x)
    if m == "replace" and isopt and a.op == "ptr":
        s = st.fork()
        E.wr_via(fr, s, a, Some(c.args[1]), c.loc)
        return ret(s, x)
    if m in ("as_ref", "cloned", "copied", "as_deref"):
        return ret(st, x)
    if m in ("iter", "into_iter"):
        return None
    if m == "transpose":
        if isopt:
            y = some(x)
            return fork(lambda s: [Exit(s2, "ret", v) for s2, v in two(s, discr(y), Ok(Some(ok(y))), Err(err(y)))], lambda s: ret(s, Ok(NONE)))
        return None
    if m == "flatten" and isopt:
        return fork(lambda s: ret(s, some(x)), lambda s: ret(s, NONE))
    if m == "xor" or m == "zip":
        return None
    if m in ("inspect", "inspect_err"):
        return ret(st, x)
    return None


def two(s, d, v0, v1):
    out = []
    for k, v in ((0, v0), (1, v1)):
        s2 = s.assume(d, k)
        if s2:
            out.append((s2, v))
    return out


def intops(c):
    st, m = c.st, c.method
    a = c.val(0) if c.args else None
    b = c.val(1) if len(c.args) > 1 else None
    base = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
    if m.startswith("checked_") and m[8:] in base and b is not None:
        o = base[m[8:]]
        out = []
        cond = eq(b, I(0)) if o in ("Div", "Rem") else lt(a, b) if o == "Sub" and (c.argty(0)[0] == "uint" or c.argty(0)[0] == "adt" and c.argty(0)[1] in WIDE) else T("overflow", o, a, b)
        s = st.assume(cond, 0)
        if s:
            out.append(Exit(s, "ret", Some(binop(o, a, b))))
        s = st.assume(cond, 1)
        if s:
            out.append(Exit(s, "ret", NONE))
        return out
    if m.startswith("saturating_") and m[11:] in base:
        return ret(st, T("sat", base[m[11:]], a, b))
    if m.startswith("wrapping_") and m[9:] in base:
        return ret(st, T("wrap", base[m[9:]], a, b))
    if m.startswith("overflowing_") and m[12:] in base:
        o = base[m[12:]]
        return ret(st, T("tuple", T("wrap", o, a, b), T("overflow", o, a, b)))
    if m in ("min_value",):
        return ret(st, I(0))
    if m in ("to_be_bytes", "to_le_bytes", "to_ne_bytes") and a is not None:
        t = c.argty(0)
        if a.op == "int" and t[1:2] and t[1] in BITS:
            return ret(st, T("bytes", a.a[0].to_bytes(BITS[t[1]] // 8, "big" if "be" in m else "little").hex()))
        return ret(st, T(m, a, I(BITS[t[1]] // 8)) if t[1:2] and t[1] in BITS else T(m, a))
    if m in ("pow", "is_power_of_two", "abs_diff", "leading_zeros", "trailing_zeros", "count_ones", "to_be", "to_le", "swap_bytes"):
        if m == "to_be" and a.op == "int":
            return ret(st, T("swap_bytes", a))
        return ret(st, T("swap_bytes" if m == "to_be" else m, *[x for x in (a, b) if x is not None]))
    return None


def arith(c):
    st, m, E = c.st, c.method, c.E
    t = peel(c.argty(0))
    a = c.val(0)
    b = c.val(1) if len(c.args) > 1 else None
    names = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr",
             "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}
    if t[0] == "adt" and t[1] == "alloc::string::String" and m == "add":
        return ret(st, concat(a, b))
    if m == "not":
        return ret(st, T("un", "Not", a)) if t[0] != "bool" else ret(st, not_(a))
    if t[0] == "adt" and t[1] not in WIDE and t[1] not in NEWTYPES:
        return None
    if m in names and b is not None:
        o = names[m]
        if E.on_panic and o in ("Add", "Sub", "Mul", "Div", "Rem"):
            E.on_panic("overflow" if o not in ("Div", "Rem") else "div0", st, (T("str", o), a, b), c.loc, c.fr.fn.path)
        return ret(st, binop(o, a, b))
    if m.endswith("_assign") and m[:-7] in names and c.args[0].op == "ptr":
        s = st.fork()
        p = c.args[0]
        o = names[m[:-7]]
        if E.on_panic and o in ("Add", "Sub", "Mul", "Div", "Rem"):
            E.on_panic("overflow" if o not in ("Div", "Rem") else "div0", st, (T("str", o), a, b), c.loc, c.fr.fn.path)
        E.wr_at(s, p.a[0], p.a[1], binop(o, a, b))
        return ret(s, UNIT)
    return None


def mkrange(v):
    k = v.a[1]
    if k == "Range":
        return T("range", v.a[3][0], v.a[3][1])
    if k == "RangeInclusive":
        return T("rangei", v.a[3][0], v.a[3][1])
    return v


def rng(c, r):
    """-> (lo, hi or None) of a range value, hi exclusive."""
    r = strip_view(c.E.deref(c.st, r))
    if r.op == "range":
        return r.a[0], r.a[1]
    if r.op == "adt":
        n = r.a[0].rsplit("::", 1)[-1]
        v = r.a[3]
        if n == "Range":
            return v[0], v[1]
        if n == "RangeFrom":
            return v[0], None
        if n == "RangeTo":
            return I(0), v[0]
        if n == "RangeFull":
            return I(0), None
        if n == "RangeToInclusive":
            return I(0), binop("Add", v[0], I(1))
        if n == "RangeInclusive":
            return v[0], binop("Add", v[1], I(1))
    if r.op == "call" and r.a[0].endswith("RangeInclusive::new"):
        return r.a[1], binop("Add", r.a[2], I(1))
    return None


def plain_default(E, t):
    """A derived default is spelled out."""
    v = default_of(t)
    if v.op == "default" and t[0] == "adt":
        g = E.find_impl("core::default::Default", [t], "default")
        fn = g and E.F.fns.get(g[0])
        if fn and fn.d.get("derived") and not E.is_opaque(fn.path, fn):
            xs = E.summarize(fn.path)
            if len(xs) == 1 and xs[0].kind == "ret" and xs[0].val.op == "adt":
                return xs[0].val
    return v


def default_of(t):
    if t[0] in ("uint", "int", "bool") or t[0] == "adt" and t[1] in WIDE:
        return I(0)
    if t[0] == "adt" and t[1] == OPT:
        return NONE
    if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut"):
        return T("newvec")
    if t[0] == "adt" and t[1] in NEWTYPES:
        return zero_of(t[1])
    if t[0] == "tuple" and len(t) == 1:
        return UNIT
    return T("default", T("ty", tystr(t)))


def index_model(c):
    st, E, fr = c.st, c.E, c.fr
    b = c.val(0)
    i = c.args[1]
    iv = c.val(1)
    t = peel(c.argty(0))
    it = c.argty(1)
    mutp = c.args[0].op == "ptr" and c.method == "index_mut"
    if it[0] == "uint" or iv.op in ("int", "idx"):
        if E.on_panic:
            E.on_panic("bounds", st, (length(b), iv), c.loc, fr.fn.path)
        if mutp:
            p = c.args[0]
            return ret(st, T("ptr", p.a[0], p.a[1] + (("i", iv),)))
        return ret(st, index(b, iv))
    r = rng(c, i)
    if r is not None:
        if E.on_panic:
            E.on_panic("slice", st, (b, r[0], r[1] if r[1] is not None else T("end"), T("str", tystr(t))), c.loc, fr.fn.path)
        if mutp:
            if r[0] is I(0) and r[1] is None:
                return ret(st, c.args[0])
            p = c.args[0]
            return ret(st, T("ptr", p.a[0], p.a[1] + (("slicev", r[0], r[1] if r[1] is not None else T("end")),)))
        if newtype(c, 0):
            b = field(b, "0")
        return ret(st, slice_(b, r[0], r[1]))
    if mutp and iv.op != "ptr":
        p = c.args[0]
        return ret(st, T("ptr", p.a[0], p.a[1] + (("i", iv),)))
    if t[0] == "adt" and ("HashMap" in t[1] or "BTreeMap" in t[1] or "Json" in t[1] or "serde_json" in t[1]):
        if E.on_panic and "Map" in t[1] and "serde_json" not in t[1]:
            E.on_panic("mapindex", st, (b, iv), c.loc, fr.fn.path)
        return None
    return None


def get_model(c):
    st = c.st
    b, i = c.val(0), c.val(1)
    out = []
    it = c.argty(1)
    if it[0] == "uint":
        cond = lt(i, length(b))
        s = st.assume(cond, 1)
        if s:
            out.append(Exit(s, "ret", Some(index(b, i))))
        s = st.assume(cond, 0)
        if s:
            out.append(Exit(s, "ret", NONE))
        return out
    r = rng(c, c.args[1])
    if r is None:
        return None
    lo, hi = r
    conds = []
    if hi is not None:
        conds.append((not_(lt(length(b), hi)), 1))
    else:
        conds.append((not_(lt(length(b), lo)), 1))
    s = st
    for t, v in conds:
        s = s and s.assume(t, v)
    if s:
        out.append(Exit(s, "ret", Some(slice_(b, lo, hi))))
    s = st.assume(conds[0][0], 0)
    if s:
        out.append(Exit(s, "ret", NONE))
    return out


# ---------------------------------------------------------------- iterators
def elems(c, st, it):
    """The paths of producing one arbitrary element of `it`: [(state, element | None if skipped)], [other exits]"""
    E, fr = c.E, c.fr
    it = strip_view(E.deref(st, it))
    acc, other = [], []
    if it.op == "imap":
        for s, v in elems_ok(c, st, it.a[0], acc, other):
            for e in E.apply(fr, s, it.a[1], [v], c.loc):
                (acc.append((e.st, e.val)) if e.kind == "ret" else other.append(e))
        return acc, other
    if it.op in ("ifilter", "itakewhile", "iskipwhile"):
        for s, v in elems_ok(c, st, it.a[0], acc, other):
            for e in E.apply(fr, s, it.a[1], [v], c.loc):
                if e.kind != "ret":
                    other.append(e)
                    continue
                s1 = e.st.assume(e.val, 1)
                if s1:
                    acc.append((s1, v))
                s0 = e.st.assume(e.val, 0)
                if s0:
                    acc.append((s0, None))
        return acc, other
    if it.op == "ifmap":
        for s, v in elems_ok(c, st, it.a[0], acc, other):
            for e in E.apply(fr, s, it.a[1], [v], c.loc):
                if e.kind != "ret":
                    other.append(e)
                    continue
                d = discr(e.val)
                s1 = e.st.assume(d, 1)
                if s1:
                    acc.append((s1, some(e.val)))
                s0 = e.st.assume(d, 0)
                if s0:
                    acc.append((s0, None))
        return acc, other
    if it.op == "zip":
        for s, v in elems_ok(c, st, it.a[0], acc, other):
            a2, o2 = elems(c, s, it.a[1])
            other += o2
            for s2, w in a2:
                acc.append((s2, T("tuple", v, w) if w is not None else None))
        return acc, other
    if it.op == "enum":
        for s, v in elems_ok(c, st, it.a[0], acc, other):
            acc.append((s, T("tuple", idx(itbase(it.a[0])), v)))
        return acc, other
    if it.op == "rev":
        return elems(c, st, it.a[0])
    if it.op in ("newvec",) or (it.op == "array" and not it.a):
        return [], []
    if it.op == "comp" and len(it.a[1]) > 1 or it.op == "comp" and it.a[1][0][0]:
        # one of the (conditional) element forms
        for cs, v in it.a[1]:
            s = st
            for t, val in cs:
                s = s and (s.exclude(t, tuple(val), None) if isinstance(val, frozenset) else s.assume(t, val))
            if s:
                acc.append((s, v))
        if not exhaustive(it.a[1]):
            acc.append((st, None))
        return acc, other
    if it.op == "array" and len(it.a) <= 8 and not all(x is it.a[0] for x in it.a):
        return [(st, T("elem", it))], []
    return [(st, elem(it))], []


def exhaustive(paths):
    if any(not cs for cs, _ in paths):
        return True
    if len(paths) == 2 and all(len(cs) == 1 for cs, _ in paths):
        (t, a), (u, b) = paths[0][0][0], paths[1][0][0]
        return t is u and {a, b} == {0, 1}
    return False


def elems_ok(c, st, it, acc, other):
    a, o = elems(c, st, it)
    other += o
    for s, v in a:
        if v is None:
            acc.append((s, None))
        else:
            yield s, v


def src(v):
    return mkrange(v) if v.op == "adt" and v.a[0].startswith("core::ops::range") else v


def iters(c):
    st, E, fr, m = c.st, c.E, c.fr, c.method
    it = c.args[0]
    if m == "next":
        return inext(c)
    if m == "map":
        return ret(st, T("imap", src(c.val(0)), c.args[1]))
    if m == "filter":
        return ret(st, T("ifilter", src(c.val(0)), c.args[1]))
    if m == "filter_map":
        return ret(st, T("ifmap", src(c.val(0)), c.args[1]))
    if m == "enumerate":
        return ret(st, T("enum", src(c.val(0))))
    if m == "zip":
        return ret(st, T("zip", src(c.val(0)), src(c.val(1))))
    if m == "rev":
        return ret(st, T("rev", src(c.val(0))))
    if m == "inspect":
        return ret(st, T("imap", src(c.val(0)), T("ctor?", c.args[1]))) if False else ret(st, src(c.val(0)))
    if m == "skip":
        return ret(st, iskip(src(c.val(0)), c.args[1]))
    if m == "take" and src(c.val(0)).op in ("imap", "ifmap", "ifilter"):
        outs = collect(c, src(c.val(0)), ("adt", "alloc::vec::Vec", ("?",)))
        if outs and len(outs) == 1 and outs[0].kind == "ret" and not any(outs[0].st.mem.get(r) is not v for r, v in st.mem.items()):
            outs[0].val = T("itake", outs[0].val, c.args[1])
            return outs
    if m in ("take", "step_by") and src(c.val(0)).op == "newvec":
        return ret(st, src(c.val(0)))
    if m in ("take", "step_by"):
        return ret(st, T("i" + m, src(c.val(0)), c.args[1]))
    if m == "take_while":
        return ret(st, T("itakewhile", src(c.val(0)), c.args[1]))
    if m == "chain":
        return ret(st, T("chain", src(c.val(0)), src(c.val(1))))
    if m in ("flat_map",):
        return ret(st, T("iflat", c.val(0), c.args[1]))
    if m in ("peekable", "fuse", "cycle"):
        return ret(st, c.val(0)) if m != "cycle" else None
    if m == "collect":
        return collect(c, c.val(0), c.rty())
    if m in ("any", "all", "find", "position", "find_map", "for_each", "try_for_each", "fold", "sum", "count", "product", "max", "min",
             "max_by_key", "min_by_key", "try_fold", "unzip", "partition", "last", "nth"):
        return consume(c, m)
    return None


def iskip(x, n):
    x = strip_view(x)
    if n is I(0):
        return x
    if n.op == "int" and x.op == "array":
        return T("array", *x.a[n.a[0]:]) if len(x.a) > n.a[0] else T("newvec")
    if n.op == "int" and x.op in ("extend", "chain") and x.a[0].op == "array" and len(x.a[0].a) <= n.a[0]:
        return iskip(x.a[1], I(n.a[0] - len(x.a[0].a)))
    if x.op == "imap":
        return T("imap", iskip(x.a[0], n), x.a[1])
    if x.op in ("enum", "zip", "ifilter", "ifmap", "rev", "range", "rangei", "chain", "iflat", "itake", "itakewhile", "iskipwhile", "istep_by"):
        return T("iskip", x, n)
    return slice_(x, n, None)


def inext(c):
    st, E, fr = c.st, c.E, c.fr
    p = c.args[0]
    it = strip_view(c.val(0))
    if it.op == "adt" and it.a[0].startswith("core::ops::range"):
        it = mkrange(it)
    if it.op == "call" and it.a[0].endswith("RangeInclusive::new"):
        it = T("rangei", it.a[1], it.a[2])
    if it.op == "newvec" or it.op == "array" and not it.a:
        return ret(st, NONE)
    if fr.inloop:
        out = []
        tag = None
        # innermost loop of this frame: the engine tags by function and header, found through the frame
        s = st.fork()
        acc, other = elems(c, s, it)
        for s1, v in acc:
            s1 = s1.fork()
            s1.ev = s1.ev + (Ev("next", "next", (it,), None, "", fr.fn.path, fr_tag(fr)),)
            if v is None:
                # a skipped element: the iteration goes on to another one; nothing observable happened
                if fr_tag(fr) in E.skips:
                    E.skips[fr_tag(fr)].append(s1)
                continue
            out.append(Exit(s1, "ret", Some(v)))
        out.append(Exit(st, "ret", NONE))
        return out + other
    if p.op == "ptr":
        if it.op == "array" and it.a:
            s = st.fork()
            E.wr_at(s, p.a[0], p.a[1], T("array", *it.a[1:]))
            return ret(s, Some(it.a[0]))
        k = 0
        b = it
        while b.op == "rest":
            b = b.a[0]
            k += 1
        out = []
        v = T("nth", b, I(k))
        s = st.fork()
        E.wr_at(s, p.a[0], p.a[1], T("rest", it))
        cond = T("hasnth", b, I(k))
        s1 = s.assume(cond, 1)
        if s1:
            out.append(Exit(s1, "ret", Some(v)))
        s0 = st.assume(cond, 0)
        if s0:
            out.append(Exit(s0, "ret", NONE))
        return out
    return None


def fr_tag(fr):
    return fr.looptag[-1] if getattr(fr, "looptag", None) else None


def collect(c, it, t):
    st, E, fr = c.st, c.E, c.fr
    base = itbase(it)
    if base.op == "newvec" and t[0] == "adt" and t[1] == "alloc::vec::Vec":
        return ret(st, base)
    acc, other = elems(c, st.fork(), it)
    nc, ne = len(st.conds), len(st.ev)
    kind = t[1] if t[0] == "adt" else ""
    if any(s.mem.get(r, v) is not v for s, _ in acc for r, v in st.mem.items()):
        return collect_loop(c, it, t, kind)
    inner = t
    if kind in (OPT, RES) and len(t) > 2:
        inner = t[2]
    acc2, early = [], []
    if kind == RES:
        for s, v in acc:
            if v is None:
                acc2.append((s, v))
                continue
            for k in (0, 1):
                s2 = s.assume(discr(v), k)
                if s2:
                    (acc2.append((s2, ok(v))) if k == 0 else early.append(Exit(s2, "ret", Err(err(v)))))
    elif kind == OPT:
        for s, v in acc:
            if v is None:
                acc2.append((s, v))
                continue
            for k in (0, 1):
                s2 = s.assume(discr(v), k)
                if s2:
                    (acc2.append((s2, some(v))) if k == 1 else early.append(Exit(s2, "ret", NONE)))
    else:
        acc2 = acc
    allc = [tuple(x for x in s.conds if x not in st.conds) for s, v in acc2]
    exits = [tuple(x for x in e.st.conds if x not in st.conds) for e in early + other]
    ex = exists(base, exits)
    if ex is not None:
        for e in early + other:
            e.st = e.st.fork()
            e.st.conds = e.st.conds + ((ex, 1),)
            e.st.facts[ex] = 1
    # what holds of every element kept is not a condition of the comprehension: it is in `ex`
    common = set(allc[0]) if allc else set()
    for x in allc[1:]:
        common &= set(x)
    paths = tuple((tuple(x for x in cs if x not in common), v) for (s, v), cs in zip(acc2, allc) if v is not None)
    if not acc2:
        val = T("newvec")
    else:
        val = mkcomp(base, paths) if paths else T("newvec")
    s = st.fork()
    if ex is not None:
        s.conds = s.conds + ((ex, 0),)
        s.facts[ex] = 0
    bodies = tuple((cs, tuple(x.ev[ne:])) for (x, v), cs in zip(acc2, allc))
    if any(b[0] or b[1] for b in bodies):
        s.ev = s.ev + (Ev("loop", f"{fr.fn.path}:collect", (base,), None, c.loc, fr.fn.path, bodies),)
    val = wrapcoll(inner, val)
    if kind == RES:
        val = Ok(val)
    elif kind == OPT:
        val = Some(val)
    return [Exit(s, "ret", val)] + early + other


def wrapcoll(t, val):
    ik = t[1] if t[0] == "adt" else ""
    if "HashMap" in ik or "BTreeMap" in ik:
        return T("tomap", val)
    if "HashSet" in ik or "BTreeSet" in ik:
        return T("toset", val)
    if ik.endswith("String"):
        return T("tostr", val)
    if ik and ik not in ("alloc::vec::Vec", "std::collections::vec_deque::VecDeque", "alloc::boxed::Box") and not ik.endswith("Bytes"):
        return T("collect", T("ty", ik), val)
    return val


def component(v, i):
    """The i-th components of a list of pairs."""
    if v.op == "newvec":
        return v
    if v.op == "array":
        return T("array", *(field(x, str(i)) for x in v.a))
    return mkcomp(v.a[0], tuple((cs, field(x, str(i))) for cs, x in v.a[1])) if v.op == "comp" else T("component", v, I(i))


def collect_loop(c, it, t, kind):
    """collect() when producing an element changes something: the same as a loop that pushes."""
    st, E, fr = c.st, c.E, c.fr
    base = itbase(it)
    cell = T("L", -1, E.nframe)
    E.nframe += 1
    s1 = st.fork()
    s1.mem[cell] = T("newvec")
    inner = t[2] if kind in (OPT, RES) and len(t) > 2 else t

    def run(s0):
        acc, other = elems(c, s0.fork(), it)
        backs, exits = [], [(("x", e), e.st) for e in other]
        for s, v in acc:
            s = s.fork()
            s.ev = s.ev + (Ev("next", "next", (it,), None, "", fr.fn.path, "consume"),)
            if v is None:
                backs.append(s)
            elif kind in (OPT, RES):
                good = 0 if kind == RES else 1
                s2 = s.assume(discr(v), good)
                if s2:
                    s2 = s2.fork()
                    s2.mem[cell] = vpush(s2.mem[cell], ok(v) if kind == RES else some(v))
                    backs.append(s2)
                s2 = s.assume(discr(v), 1 - good)
                if s2:
                    exits.append((("v", Err(err(v)) if kind == RES else NONE), s2))
            else:
                s.mem[cell] = vpush(s.mem[cell], v)
                backs.append(s)
        exits.append((("done", None), s0.fork()))
        return backs, exits

    out = []
    for tag, s, sub in E.loop_core(s1, run, "consume", fr):
        v = s.mem.pop(cell, None)
        if tag[0] == "done":
            v = wrapcoll(inner, v)
            out.append(Exit(s, "ret", Ok(v) if kind == RES else Some(v) if kind == OPT else v))
        elif tag[0] == "v":
            out.append(Exit(s, "ret", sub(tag[1])))
        else:
            e = tag[1]
            out.append(Exit(s, e.kind, sub(e.val) if isinstance(e.val, T) else e.val, e.x))
    return out


def consume(c, m):
    st, E, fr = c.st, c.E, c.fr
    it = strip_view(c.val(0))
    base = itbase(it)
    if m in ("sum", "count", "max", "min", "product", "last", "nth"):
        if m == "count":
            body = lambda s, acc_, v: [Exit(s, "ret", binop("Add", acc_, I(1)))]
            init = I(0)
        elif m == "sum":
            body = lambda s, acc_, v: [Exit(s, "ret", binop("Add", acc_, v))]
            init = I(0)
        else:
            outs = collect(c, it, ("adt", "alloc::vec::Vec", ("?", "?")))
            r = []
            for e in outs:
                if e.kind == "ret" and m in ("last", "nth"):
                    i = c.val(1) if m == "nth" else I(0)
                    ok = lt(i, length(e.val))
                    at = index(e.val, i if m == "nth" else binop("Sub", length(e.val), I(1)))
                    r += [Exit(s, "ret", v) for s, v in ((e.st.assume(ok, 1), Some(at)), (e.st.assume(ok, 0), NONE)) if s]
                    continue
                if e.kind == "ret":
                    e = Exit(e.st, "ret", T("it" + m, e.val, *[x for x in c.args[1:]]))
                r.append(e)
            return r
        return fold(c, it, base, init, body)
    if m == "fold":
        return fold(c, it, base, c.args[1], lambda s, a, v: E.apply(fr, s, c.args[2], [a, v], c.loc))
    if m in ("unzip", "partition"):
        outs = collect(c, it, ("adt", "alloc::vec::Vec", ("?", "?")))
        t = c.rty()
        kinds = t[1:] if t[0] == "tuple" and len(t) == 3 else (("?",), ("?",))
        for e in outs:
            if e.kind == "ret" and m == "unzip":
                e.val = T("tuple", *(wrapcoll(k, component(e.val, i)) for i, k in enumerate(kinds)))
            elif e.kind == "ret":
                return None
        return outs
    if m in ("max_by_key", "min_by_key", "try_fold"):
        return None

    ne = len(st.ev)
    cell = T("L", -1, id(c))

    def run(s0):
        acc, other = elems(c, s0.fork(), it)
        backs, exits = [], []
        for e in other:
            exits.append((("x", e), e.st))
        for s, v in acc:
            s = s.fork()
            s.ev = s.ev + (Ev("next", "next", (it,), None, "", fr.fn.path, "consume"),)
            if v is None:
                backs.append(s)
                continue
            for e in E.apply(fr, s, c.args[1], [v], c.loc):
                if e.kind != "ret":
                    exits.append((("x", e), e.st))
                    continue
                if m == "for_each":
                    backs.append(e.st)
                elif m == "try_for_each":
                    t = c.rty()
                    good = 1 if t[1:2] == (OPT,) else 0
                    for k in (0, 1):
                        s2 = e.st.assume(discr(e.val), k)
                        if s2:
                            if k == good:
                                backs.append(s2)
                            else:
                                exits.append((("v", NONE if good else Err(err(e.val))), s2))
                elif m == "find_map":
                    s2 = e.st.assume(discr(e.val), 0)
                    if s2:
                        backs.append(s2)
                    s2 = e.st.assume(discr(e.val), 1)
                    if s2:
                        exits.append((("v", e.val if e.val.op == "adt" else Some(some(e.val))), s2))
                else:
                    stop = 0 if m == "all" else 1
                    s2 = e.st.assume(e.val, 1 - stop)
                    if s2:
                        backs.append(s2)
                    s2 = e.st.assume(e.val, stop)
                    if s2:
                        r = {"any": TRUE, "all": FALSE, "find": Some(v), "position": Some(idx(base))}[m]
                        exits.append((("v", r), s2))
        done = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE, "for_each": UNIT,
                "try_for_each": (Some if c.rty()[1:2] == (OPT,) else Ok)(UNIT)}[m]
        exits.append((("v", done), s0.fork()))
        return backs, exits

    out = []
    for tag, s, sub in E.loop_core(st, run, "consume", fr):
        if tag[0] == "v":
            out.append(Exit(s, "ret", sub(tag[1])))
        else:
            e = tag[1]
            out.append(Exit(s, e.kind, sub(e.val) if isinstance(e.val, T) else e.val, e.x))
    return out


def fold(c, it, base, init, body):
    st, E, fr = c.st, c.E, c.fr
    cell = T("L", -1, E.nframe)
    E.nframe += 1
    s1 = st.fork()
    s1.mem[cell] = init

    def run(s0):
        acc, other = elems(c, s0.fork(), it)
        backs, exits = [], [(("x", e), e.st) for e in other]
        for s, v in acc:
            s = s.fork()
            s.ev = s.ev + (Ev("next", "next", (it,), None, "", fr.fn.path, "consume"),)
            if v is None:
                backs.append(s)
                continue
            for e in body(s, s.mem[cell], v):
                if e.kind != "ret":
                    exits.append((("x", e), e.st))
                else:
                    s2 = e.st.fork()
                    s2.mem[cell] = e.val
                    backs.append(s2)
        exits.append((("v", None), s0.fork()))
        return backs, exits

    out = []
    for tag, s, sub in E.loop_core(s1, run, "consume", fr):
        v = s.mem.pop(cell, None)
        if tag[0] == "v":
            out.append(Exit(s, "ret", v))
        else:
            e = tag[1]
            out.append(Exit(s, e.kind, e.val, e.x))
    return out


# ---------------------------------------------------------------- rlp
def rlp_model(c):
    """The stream is a chain rs(prev, op, value, type); reads are val_at(rlp, index, type)."""
    st, E, n, m = c.st, c.E, c.name, c.method
    if n.startswith("rlp::stream::RlpStream::"):
        if m in ("new", "new_with_buffer"):
            return ret(st, T("rs0"))
        if m == "new_list":
            return ret(st, T("rs", T("rs0"), "list", c.args[0], ""))
        if m in ("out", "as_raw"):
            return ret(st, T("rlp_out", c.val(0)))
        ops = {"begin_list": "list", "append": "app", "append_list": "applist", "append_raw": "raw", "append_iter": "iter",
               "append_empty_data": "empty", "begin_unbounded_list": "ulist", "finalize_unbounded_list": "uend",
               "append_internal": "app", "append_raw_checked": "raw"}
        if m in ops and c.args[0].op == "ptr":
            s = st.fork()
            p = c.args[0]
            v = E.resolve_ptrs(s, c.args[1]) if len(c.args) > 1 else UNIT
            ty = tystr(peel(c.g[0])) if c.g and m not in ("begin_list", "append_raw") else ""
            if m == "append_list" and len(c.g) > 1:
                ty = tystr(peel(c.g[-1]))
            if ty in ("Vec<u8,Global>", "Bytes", "BytesMut", "[u8]", "String", "str"):
                ty = "bytes"
            E.wr_at(s, p.a[0], p.a[1], T("rs", E.deref(s, p), ops[m], v, ty))
            return ret(s, p)
        return None
    if n.startswith("rlp::rlpin::Rlp::"):
        if m == "new":
            return ret(st, T("rlpin", c.val(0)))
        v = c.val(0)
        raw = v.a[0] if v.op == "rlpin" else T("rlpraw", v)
        if m == "as_raw":
            return ret(st, raw)
        if m in ("val_at", "list_at"):
            return ret(st, T(m, v, c.args[1], tystr(c.g[-1]) if c.g else ""))
        if m in ("at",):
            return ret(st, T("rlpat", v, c.args[1]))
        if m in ("as_val", "as_list"):
            return ret(st, T(m, v, tystr(c.g[-1]) if c.g else ""))
        if m in ("is_list", "is_data", "is_empty", "is_null", "is_int", "item_count", "data", "size", "prototype", "payload_info"):
            return ret(st, T("rlp_" + m, v))
        return None
    if n == "rlp::encode" or (c.f == "rlp::traits::Encodable::rlp_bytes" and c.raw not in E.F.fns):
        return ret(st, T("rlp_encode", E.resolve_ptrs(st, c.val(0)), tystr(peel(c.g[0])) if c.g else ""))
    if n == "rlp::encode_list":
        return ret(st, T("rlp_encode_list", E.resolve_ptrs(st, c.val(0)), tystr(peel(c.g[0])) if c.g else ""))
    if n in ("rlp::decode", "rlp::decode_list"):
        return ret(st, T("rlp_decode" if n.endswith("decode") else "rlp_decode_list", E.resolve_ptrs(st, c.val(0)), tystr(peel(c.g[0])) if c.g else ""))
    return None
