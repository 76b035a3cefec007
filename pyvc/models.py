"""Models (assumed contracts) of built-ins and library functions."""
from __future__ import annotations
import asyncio
import builtins
import ctypes
import io
import itertools
import collections
import contextlib
import enum
import functools
import math
import os
import struct
import threading
import time
import typing
import types
import z3
import ast
from .values import *
from .values import Noop, NOOP
from .ctx import _unescape as unescape

TRUSTED = {}  # name -> description, reported in the evidence when used


def _use(it, name):
    it.c.eng.trusted = getattr(it.c.eng, "trusted", set())
    it.c.eng.trusted.add(name)


# ---------------------------------------------------------------- ctypes cells
CT = {}
for _c, _b, _s in (
    (ctypes.c_byte, 8, True), (ctypes.c_short, 16, True), (ctypes.c_int, 32, True), (ctypes.c_longlong, 64, True),
    (ctypes.c_ubyte, 8, False), (ctypes.c_ushort, 16, False), (ctypes.c_uint, 32, False), (ctypes.c_ulonglong, 64, False),
):
    CT[_c] = (_b, _s)


def ctypes_coerce(it, ctype, v):
    """What reading `.value` returns after `.value = v`."""
    _use(it, "ctypes scalar assignment (wraps modulo 2**bits; c_float rounds; c_bool normalises)")
    if it.is_conc(v) and not isinstance(v, (list, dict)):
        def go():
            c = ctype()
            c.value = v
            return c.value

        return it.native(go)
    k = it.kind(v)
    if ctype in CT or ctype in (ctypes.c_long, ctypes.c_ulong):
        bits, signed = CT[ctype]
        if k == "bv":
            low = z3.Extract(bits - 1, 0, v.t)
            return Sym("bv", z3.SignExt(BVW - bits, low) if signed else z3.ZeroExt(BVW - bits, low))
        if k not in ("int", "bool"):
            it.throw(TypeError, "int expected")
        t = it.term(v, "int")
        m = 1 << bits
        lo = -(m >> 1) if signed else 0
        hi = lo + m - 1
        if it.c.branch(z3.And(t >= lo, t <= hi)):
            return Sym("int", t)
        return Sym("int", (t - lo) % m + lo)
    if ctype in (ctypes.c_float, ctypes.c_double):
        if k not in ("int", "bool", "real"):
            it.throw(TypeError, "must be real number")
        t = it.term(v, "real")
        if ctype is ctypes.c_double:
            return Sym("real", t)
        f = z3.Function("round_f32", z3.RealSort(), z3.RealSort())
        it.c.assume(f(f(t)) == f(t))
        return Sym("real", f(t))
    if ctype is ctypes.c_bool:
        t = it.truth(v)
        return t if isinstance(t, bool) else Sym("bool", t)
    raise Unsupported(f"ctypes {ctype}")


# ---------------------------------------------------------------- struct
SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8, "?": 1}
RANGES = {"b": (-128, 127), "B": (0, 255), "h": (-(2**15), 2**15 - 1), "H": (0, 2**16 - 1), "i": (-(2**31), 2**31 - 1),
          "I": (0, 2**32 - 1), "q": (-(2**63), 2**63 - 1), "Q": (0, 2**64 - 1)}
END = {"@": "le", "<": "le", ">": "be", "!": "be", "=": "le"}


def codec(code, order):
    """Uninterpreted codec of one struct format character in one byte order."""
    end = END[order] if SIZES[code] > 1 else "le"
    s = z3.RealSort() if code in "efd" else z3.BoolSort() if code == "?" else z3.IntSort()
    enc = z3.Function(f"enc_{code}_{end}", s, z3.StringSort())
    dec = z3.Function(f"dec_{code}_{end}", z3.StringSort(), s)
    return enc, dec, s


def enc_axioms(it, code, order, v):
    enc, dec, _ = codec(code, order)
    b = enc(v)
    it.c.assume(z3.Length(b) == SIZES[code])
    if code in RANGES:
        lo, hi = RANGES[code]
        it.c.assume(z3.Implies(z3.And(v >= lo, v <= hi), dec(b) == v))
    elif code in "d?":
        it.c.assume(dec(b) == v)
    else:
        it.c.assume(enc(dec(b)) == b)
        r = z3.Function("round_f32" if code == "f" else "round_f16", z3.RealSort(), z3.RealSort())
        it.c.assume(dec(b) == r(v))
        it.c.assume(r(r(v)) == r(v))
        it.c.assume(enc(r(v)) == b)
    return b


def dec_axioms(it, code, order, b):
    enc, dec, _ = codec(code, order)
    v = dec(b)
    ok = z3.Length(b) == SIZES[code]
    if code in RANGES:
        lo, hi = RANGES[code]
        it.c.assume(z3.Implies(ok, z3.And(v >= lo, v <= hi, enc(v) == b)))
    elif code in "ef":
        r = z3.Function("round_f32" if code == "f" else "round_f16", z3.RealSort(), z3.RealSort())
        it.c.assume(r(v) == v)
    return v


def m_pack(it, args, kw):
    fmt, vals = args[0], args[1:]
    if it.is_conc(fmt) and all(map(it.is_conc, vals)):
        return it.native(struct.pack, fmt, *vals)
    _use(it, "struct.pack/unpack (per-format codec: fixed size, injective on range, byte-order resolved)")
    order, codes = fmt_parts(it, fmt)
    if len(codes) != len(vals):
        it.throw(struct.error, "pack expected")
    out = []
    off = 0
    for code, v in zip(codes, vals):
        if order == "@":  # native alignment
            gap = -off % SIZES[code]
            if gap:
                out.append(z3.StringVal("\\u{0}" * gap))
            off += gap + SIZES[code]
        k = it.kind(v)
        if code in RANGES:
            if k not in ("int", "bool"):
                it.throw(struct.error, "required argument is not an integer")
            lo, hi = RANGES[code]
            t = it.term(v, "int")
            if not it.c.branch(z3.And(t >= lo, t <= hi)):
                it.throw(struct.error, "out of range")
        elif code == "?":
            t = it.truth(v)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
        else:
            if k not in ("int", "bool", "real"):
                it.throw(struct.error, "required argument is not a float")
            t = it.term(v, "real")
        out.append(enc_axioms(it, code, order, t))
    return Sym("bytes", out[0] if len(out) == 1 else z3.Concat(*out) if out else z3.StringVal(""))


def fmt_parts(it, fmt):
    if not isinstance(fmt, str):
        raise Unsupported("symbolic struct format")
    order = "@"
    if fmt and fmt[0] in "@<>!=":
        order, fmt = fmt[0], fmt[1:]
    codes = []
    n = ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
            continue
        if ch not in SIZES:
            raise Unsupported(f"struct code {ch}")
        codes += [ch] * (int(n) if n else 1)
        n = ""
    return order, codes


def m_unpack(it, args, kw):
    fmt, data = args
    if it.is_conc(fmt) and it.is_conc(data):
        return it.native(struct.unpack, fmt, data)
    _use(it, "struct.pack/unpack (per-format codec: fixed size, injective on range, byte-order resolved)")
    order, codes = fmt_parts(it, fmt)
    offs, total = [], 0
    for c in codes:
        total += -total % SIZES[c] if order == "@" else 0
        offs.append(total)
        total += SIZES[c]
    d = it.term(data, "bytes")
    if not it.c.branch(z3.Length(d) == total):
        it.throw(struct.error, "unpack requires a buffer")
    out = []
    for c, off in zip(codes, offs):
        b = d if len(codes) == 1 else cut(d, off, SIZES[c])
        b = z3.simplify(b)
        if z3.is_string_value(b):
            out.append(it.native(struct.unpack, (order if order != "@" else "=") + c, unescape(b.as_string()).encode("latin-1"))[0])
            continue
        v = dec_axioms(it, c, order, b)
        k = "real" if c in "efd" else "bool" if c == "?" else "int"
        out.append(Sym(k, v))
    return tuple(out)


# ---------------------------------------------------------------- built-ins
def m_len(it, a, kw):
    return it.length(a[0])


KINDS = {"int": (int,), "bool": (bool, int), "real": (float,), "str": (str,), "bytes": (bytes,), "bv": (int,)}


def isinst(it, v, t):
    if isinstance(t, tuple):
        return it.any_([isinst(it, v, x) for x in t])
    if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
        return it.any_([isinst(it, v, x) for x in typing.get_args(t)])
    if isinstance(t, types.GenericAlias):
        t = t.__origin__
    if isinstance(v, Sym):
        if v.k == "any":
            ty = getattr(it.cfg, "any_isinstance", None)
            if ty is not None:
                return ty(it, v, t)
            raise Unsupported("isinstance of an opaque value")
        return any(issubclass(k, t) for k in KINDS[v.k])
    if isinstance(v, SObj):
        return issubclass(v.cls, t)
    if isinstance(v, Ref):
        return issubclass(v.spec.cls, t)
    if isinstance(v, NT):
        return issubclass(v.cls, t)
    if isinstance(v, MList):
        return issubclass(v.cls, t)
    if isinstance(v, MDict):
        return issubclass(v.cls, t)
    if isinstance(v, MSet):
        return issubclass(set, t)
    if isinstance(v, MBytes):
        return issubclass(v.cls, t)
    if isinstance(v, Stream):
        return issubclass(io.BytesIO if v.k == "bytes" else io.StringIO, t)
    if isinstance(v, Cell):
        return issubclass(v.ctype, t)
    if isinstance(v, ExcVal):
        return issubclass(v.cls, t)
    if isinstance(v, (FuncVal, Bound, Prim)):
        return issubclass(types.FunctionType, t)
    if isinstance(v, Noop):
        raise Unsupported("isinstance of a no-op object")
    return isinstance(v, t)


def m_isinstance(it, a, kw):
    t = isinst(it, a[0], a[1])
    return t if isinstance(t, bool) else Sym("bool", t)


def m_range(it, a, kw):
    if all(isinstance(x, int) for x in a):
        return range(*a) if False else RangeVal(*( (0, a[0]) if len(a) == 1 else a))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi):
        if it.kind(x) not in ("int", "bool", "bv"):
            it.throw(TypeError, "integer expected")
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    return RangeVal(lo, hi, st)


def m_int(it, a, kw):
    if not a:
        return 0
    v = a[0]
    if it.is_conc(v) and all(map(it.is_conc, a[1:])):
        return it.native(int, *a, **kw)
    if isinstance(v, Sym) and v.k == "bv":
        return v
    k = it.kind(v)
    if k == "int":
        return v
    if k == "bool":
        return Sym("int", it.term(v, "int"))
    if k == "real":
        t = it.term(v, "real")
        return Sym("int", z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if k in ("str", "bytes"):
        _use(it, "int(text): a partial function of the text")
        t = it.term(v, k)
        base = a[1] if len(a) > 1 else kw.get("base", 10)
        ok = z3.Function(f"int_ok_{k}_{base}", z3.StringSort(), z3.BoolSort())
        f = z3.Function(f"int_of_{k}_{base}", z3.StringSort(), z3.IntSort())
        if not it.c.branch(ok(t)):
            it.throw(ValueError, "invalid literal for int()")
        return Sym("int", f(t))
    if isinstance(v, SObj):
        f = it.class_attr(v.cls, "__int__")
        if f is not None:
            return it.call(it.bind(f, v, v.cls), [])
    if v is None or isinstance(v, (MList, MDict, MSet, tuple)):
        it.throw(TypeError, "int() argument")
    raise Unsupported(f"int({v!r})")


def m_float(it, a, kw):
    if not a:
        return 0.0
    v = a[0]
    if it.is_conc(v):
        return it.native(float, v)
    k = it.kind(v)
    if k in ("int", "bool", "real"):
        return Sym("real", it.term(v, "real"))
    if k == "str":
        _use(it, "float(text): a partial function of the text")
        ok = z3.Function("float_ok", z3.StringSort(), z3.BoolSort())
        f = z3.Function("float_of", z3.StringSort(), z3.RealSort())
        if not it.c.branch(ok(v.t)):
            it.throw(ValueError, "could not convert")
        return Sym("real", f(v.t))
    raise Unsupported(f"float({v!r})")


def m_bool(it, a, kw):
    if not a:
        return False
    t = it.truth(a[0])
    return t if isinstance(t, bool) else Sym("bool", t)


def m_str(it, a, kw):
    if not a:
        return ""
    if len(a) > 1 or kw:
        return method(it, a[0], "decode").fn(it, list(a[1:]), kw)
    return it.to_str(a[0])


def m_bytes(it, a, kw):
    if not a:
        return b""
    v = a[0]
    if it.is_conc(v):
        return it.native(bytes, *a, **kw)
    if isinstance(v, Sym) and v.k == "bytes":
        return v
    if isinstance(v, MBytes):
        return Sym("bytes", v.t)
    if isinstance(v, (SObj, Ref)):
        cls = v.cls if isinstance(v, SObj) else v.spec.cls
        f = it.class_attr(cls, "__bytes__")
        if f is not None:
            return it.call(it.bind(f, v, cls), [])
    if isinstance(v, Sym) and v.k in ("int", "bv"):
        n = it.term(v, "int")
        if it.c.branch(n < 0):
            it.throw(ValueError, "negative count")
        z = z3.Function("zero_bytes", z3.IntSort(), z3.StringSort())(n)
        it.c.assume(z3.Length(z) == n)
        return Sym("bytes", z)
    items = it.to_items(v)
    if items is not None:
        parts = []
        for x in items:
            if isinstance(x, int):
                parts.append(it.native(bytes, [x]))
            else:
                t = it.term(x, "int")
                if not it.c.branch(z3.And(t >= 0, t <= 255)):
                    it.throw(ValueError, "bytes must be in range(0, 256)")
                parts.append(Sym("bytes", z3.StrFromCode(t)))
                it.c.assume(z3.Length(parts[-1].t) == 1)
                it.c.assume(z3.StrToCode(parts[-1].t) == t)
        ts = [it.term(p, "bytes") for p in parts]
        return Sym("bytes", z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal(""))
    raise Unsupported(f"bytes({v!r})")


def m_bytearray(it, a, kw):
    if not a:
        return MBytes(z3.StringVal(""))
    if isinstance(a[0], int):
        return MBytes(z3.StringVal("\0" * a[0]))
    return MBytes(it.term(m_bytes(it, a, kw), "bytes"))


def minmax(it, a, kw, lt):
    items = list(a)
    if len(a) == 1:
        items = it.to_items(a[0])
        if items is None:
            raise Unsupported("min/max of a symbolic iterable")
        if not items:
            if "default" in kw:
                return kw["default"]
            it.throw(ValueError, "empty sequence")
    if "key" in kw and kw["key"] is not None:
        raise Unsupported("min/max key")
    best = items[0]
    for x in items[1:]:
        # Python keeps the first of equals
        if it.is_conc(x) and it.is_conc(best):
            if it.native(lambda: x < best if lt else x > best):
                best = x
            continue
        ka, kb = it.kind(x), it.kind(best)
        if ka in ("int", "real") and kb == ka:
            tx, tb = it.term(x, ka), it.term(best, ka)
            best = Sym(ka, z3.If((tx < tb) if lt else (tx > tb), tx, tb))
        elif it.c.branch(it.compare(ast.Lt() if lt else ast.Gt(), x, best)):
            best = x
    return best


def m_abs(it, a, kw):
    v = a[0]
    if it.is_conc(v):
        return it.native(abs, v)
    k = it.kind(v)
    t = it.term(v, k)
    return Sym(k, z3.If(t >= 0, t, -t))


def m_round(it, a, kw):
    v = a[0]
    if len(a) > 1 or kw:
        raise Unsupported("round digits")
    if it.is_conc(v):
        return it.native(round, v)
    k = it.kind(v)
    if k in ("int", "bool"):
        return Sym("int", it.term(v, "int"))
    # nearest integer, ties to even
    t = it.term(v, "real")
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.Q(1, 2)
    return Sym("int", z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def m_list(it, a, kw):
    if not a:
        return MList(items=[])
    v = it.unlive(a[0])
    if isinstance(v, MList) and not v.conc:
        return MList(seq=v.seq, ty=v.ty)
    if isinstance(v, View) and v.kind == "keys":
        v = it.unlive(v.src[0])
    if isinstance(v, MDict) and not v.conc and v.order is not None:
        return AList(v.order.arr, v.order.n, v.dom, v.kty)
    if isinstance(v, AList):
        return AList(v.arr, v.n, v.mem, v.ty)
    items = it.to_items(v)
    if items is None:
        raise Unsupported(f"list({v!r})")
    return MList(items=items)


def m_tuple(it, a, kw):
    r = m_list(it, a, kw)
    if r.conc:
        return tuple(r.items)
    r.cls = tuple
    return r


def m_set(it, a, kw):
    if not a:
        return MSet(items=[])
    v = it.unlive(a[0])
    if isinstance(v, MSet) and not v.conc:
        return MSet(mem=v.mem, ty=v.ty)
    if isinstance(v, RangeVal) and v.step == 1 and it.symbolic_iter(v):
        x = z3.Const("set_x", z3.IntSort())
        return MSet(mem=z3.Lambda([x], z3.And(it.term(v.lo, "int") <= x, x < it.term(v.hi, "int"))), ty=INT)
    if isinstance(v, View) and v.kind == "keys" and not v.src[0].conc:
        return MSet(mem=v.src[0].dom, ty=v.src[0].kty)
    if isinstance(v, MSet) and v.conc:
        return MSet(items=list(v.items))
    items = it.to_items(v)
    if items is None:
        raise Unsupported(f"set({v!r})")
    return it._dedup(MSet(items=items))


def m_dict(it, a, kw):
    d = MDict(pairs=[])
    if a:
        v = it.unlive(a[0])
        if isinstance(v, MDict) and not v.conc:
            return MDict(dom=v.dom, val=v.val, kty=v.kty, vty=v.vty, order=v.order, size=v.size)
        if isinstance(v, MDict):
            it.dict_update(d, v)
        else:
            items = it.to_items(v)
            if items is None:
                raise Unsupported("dict()")
            for k, x in items:
                it.dict_set(d, k, x)
    for k, x in kw.items():
        it.dict_set(d, k, x)
    return d


def m_sum(it, a, kw):
    items = it.to_items(a[0])
    if items is None:
        raise Unsupported("sum of a symbolic iterable")
    r = a[1] if len(a) > 1 else 0
    for x in items:
        r = it.binop(ast.Add, r, x)
    return r


def m_next(it, a, kw):
    """The first element of a generator that is used for nothing else."""
    src = a[0]
    if not isinstance(src, GenVal) or getattr(src, "consumed", False):
        raise Unsupported(f"next of {src!r}")
    src.consumed = True
    found = []

    def h(x):
        found.append(x)
        b = BodyExit(None)
        b.token = h
        raise b

    try:
        src.run(h)
    except BodyExit as b:
        if getattr(b, "token", None) is not h:
            raise
        return found[0]
    if len(a) > 1:
        return a[1]
    it.throw(StopIteration)


def anyall(it, a, want):
    src = a[0]
    if isinstance(src, GenVal):
        class Found(BaseException):
            pass

        def h(x):
            if it.test(x) == want:
                b = BodyExit(None)
                b.token = h
                raise b

        try:
            src.run(h)
        except BodyExit as b:
            if getattr(b, "token", None) is not h:
                raise
            return want
        return not want
    items = it.to_items(src)
    if items is None:
        raise Unsupported("any/all of a symbolic iterable")
    for x in items:
        if it.test(x) == want:
            return want
    return not want


def m_enumerate(it, a, kw):
    return View("enumerate", it.unlive(a[0]), a[1] if len(a) > 1 else kw.get("start", 0))


def m_zip(it, a, kw):
    return View("zip", *[_mat(it, x) for x in a])


def _mat(it, x):
    x = it.unlive(x)
    return MList(items=it.to_items(x)) if isinstance(x, GenVal) else x


def m_reversed(it, a, kw):
    return View("reversed", it.unlive(a[0]))


def m_sorted(it, a, kw):
    items = it.to_items(a[0])
    if items is None or not all(map(it.is_conc, items)) or "key" in kw:
        raise Unsupported("sorted of symbolic values")
    return MList(items=it.native(sorted, items, **kw))


def m_map(it, a, kw):
    items = it.to_items(a[1])
    if items is None:
        raise Unsupported("map over a symbolic iterable")
    return MList(items=[it.call(a[0], [x]) for x in items])


def m_getattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) > 2:
        try:
            return it.getattr(a[0], a[1])
        except PyExc as e:
            if e.exc.cls is AttributeError:
                return a[2]
            raise
    return it.getattr(a[0], a[1])


def m_hasattr(it, a, kw):
    for m, t in ((MDict, dict), (MList, list), (MSet, set)):
        if isinstance(a[0], m) and getattr(a[0], "cls", t) is t:
            return hasattr(t, a[1])
    try:
        it.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.exc.cls is AttributeError:
            return False
        raise


def m_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


def m_type(it, a, kw):
    v = a[0]
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, Ref):
        return v.spec.cls
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, NT):
        return v.cls
    if isinstance(v, Sym):
        return KINDS[v.k][0]
    if isinstance(v, MList):
        return v.cls
    if isinstance(v, MDict):
        return dict
    if isinstance(v, INTERP_TYPES):
        raise Unsupported("type()")
    return type(v)


INTERP_TYPES = (Sym, Mut, Ref, FuncVal, Bound, Prim, GenVal, CoroVal, RangeVal, View, SuperVal, ExcVal, Noop)


def m_hash(it, a, kw):
    v = a[0]
    if it.is_conc(v):
        return it.native(hash, v)
    if isinstance(v, SObj):
        f = it.class_attr(v.cls, "__hash__")
        if isinstance(f, types.FunctionType):
            return it.call(Bound(f, v), [])
        return Sym("int", z3.Int(f"hash_{v.serial}"))
    if isinstance(v, Sym) and v.k == "int":
        _use(it, "hash of an integer: the integer (exact below 2^61)")
        return v
    return Sym("int", z3.Function("hash_any", U, z3.IntSort())(it.term(v, "any")))


def m_print(it, a, kw):
    return None


def m_cast(it, a, kw):
    return a[1]


def m_isnan(it, a, kw):
    v = a[0]
    if it.is_conc(v):
        return it.native(math.isnan, v)
    k = it.kind(v)
    if k in ("int", "bool"):
        return False
    hook = getattr(it.cfg, "isnan", None)
    if hook:
        return Sym("bool", hook(it, v))
    return False  # reals: no NaN (assumption: finite floats)


def m_isclose(it, a, kw):
    if all(map(it.is_conc, a)) and all(map(it.is_conc, kw.values())):
        return it.native(math.isclose, *a, **kw)
    if kw:
        raise Unsupported("isclose tolerances")
    x, y = it.term(a[0], "real"), it.term(a[1], "real")
    d = z3.If(x >= y, x - y, y - x)
    ax = z3.If(x >= 0, x, -x)
    ay = z3.If(y >= 0, y, -y)
    m = z3.If(ax > ay, ax, ay)
    return Sym("bool", d <= m * z3.Q(1, 10**9))


def m_floor(it, a, kw):
    if it.is_conc(a[0]):
        return it.native(math.floor, a[0])
    return Sym("int", z3.ToInt(it.term(a[0], "real")))


def m_ceil(it, a, kw):
    if it.is_conc(a[0]):
        return it.native(math.ceil, a[0])
    return Sym("int", -z3.ToInt(-it.term(a[0], "real")))


def m_copy(it, a, kw):
    v = a[0]
    if isinstance(v, (SObj, Ref)):
        cls = v.cls if isinstance(v, SObj) else v.spec.cls
        f = it.class_attr(cls, "__copy__")
        if f is not None:
            return it.call(it.bind(f, v, cls), [])
        if isinstance(v, SObj):
            return SObj(v.cls, v.attrs)
    v = it.unlive(v)
    if isinstance(v, MList):
        return MList(items=list(v.items) if v.conc else None, seq=v.seq, ty=v.ty, cls=v.cls)
    if isinstance(v, MDict):
        return MDict(pairs=[list(p) for p in v.pairs] if v.conc else None, dom=v.dom, val=v.val, kty=v.kty, vty=v.vty, order=v.order, size=v.size)
    if isinstance(v, MSet):
        return MSet(items=list(v.items) if v.conc else None, mem=v.mem, ty=v.ty)
    if isinstance(v, (Sym, tuple)) or it.is_conc(v):
        return v
    raise Unsupported(f"copy of {v!r}")


def m_bytesio(it, a, kw):
    return Stream(it.term(a[0], "bytes") if a else z3.StringVal(""))


def m_stringio(it, a, kw):
    if a and a[0]:
        raise Unsupported("StringIO with initial text")
    return Stream(z3.StringVal(""), k="str")


def m_suppress(it, a, kw):
    p = Prim(lambda *x: None, "suppress")
    p.suppress = tuple(a)
    return p


def m_nullcontext(it, a, kw):
    p = Prim(lambda *x: None, "nullcontext")
    p.with_ = lambda it_, inner: inner(a[0] if a else None)
    return p


class Suspended:
    """A context manager entered and not left yet: its code runs in a thread of
    its own, strictly alternating with the caller."""

    def __init__(self, it, cm):
        self.state = "new"
        self.value = self.err = self.out = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)

        def h(value):
            if self.state != "running":
                raise Unsupported("context manager yields twice")
            self.value, self.state = value, "entered"
            self.back.release()
            self.go.acquire()
            if self.err is not None:
                raise self.err
            return None

        def run():
            self.state = "running"
            try:
                it.run_with(cm, h)
            except BaseException as e:
                self.out = e
            self.ended = self.state
            self.state = "done"
            self.back.release()

        old = threading.stack_size(256 << 20)
        try:
            self.t = threading.Thread(target=run, daemon=True)
            self.t.start()
        finally:
            threading.stack_size(old)
        self.back.acquire()
        if self.state == "done":
            self.t.join()
            raise self.out or Unsupported("context manager does not yield")

    def leave(self, err):
        """Whether the exception was suppressed."""
        self.err = err
        self.go.release()
        self.back.acquire()
        self.t.join()
        if self.out is not None and self.out is not err:
            raise self.out
        return err is not None and self.out is None


def m_exitstack(it, a, kw):
    o = SObj(contextlib.ExitStack)
    o.frames = []
    return o


def m_asyncexitstack(it, a, kw):
    o = SObj(contextlib.AsyncExitStack)
    o.frames = []
    return o


def m_enter_context(it, a, kw):
    s = Suspended(it, a[1])
    a[0].frames.append(s)
    return s.value


def m_enter_async(it, a, kw):
    return CoroVal(lambda: m_enter_context(it, a, kw), "enter_async_context")


def m_stack_callback(it, a, kw):
    class C:
        def leave(self, err):
            it.await_(it.call(a[1], list(a[2:]), kw))
            return False

    a[0].frames.append(C())
    return a[1]


def run_exitstack(it, st, inner):
    err = None
    try:
        inner(st)
    except BaseException as e:
        err = e
    while st.frames:
        f = st.frames.pop()
        if isinstance(err, (ReturnEx, BreakEx, ContinueEx, BodyExit)):
            try:
                f.leave(None)
            except BaseException as e:
                err = e
            continue
        try:
            if f.leave(err):
                err = None
        except BaseException as e:
            err = e
    if err is not None:
        raise err


def m_noop(it, a, kw):
    return None


def m_time(it, a, kw):
    return Sym("int", it.c.fresh(z3.IntSort(), "now"))


def m_time_f(it, a, kw):
    return Sym("real", it.c.fresh(z3.RealSort(), "now"))


def m_sleep(it, a, kw):
    def run():
        if it.cfg.on_await:
            it.cfg.on_await(it, "sleep", a)
        return None

    return CoroVal(run, "asyncio.sleep")


def m_defaultdict(it, a, kw):
    d = MDict(pairs=[], cls=collections.defaultdict)
    d.factory = a[0]
    return d


def m_deque(it, a, kw):
    r = m_list(it, a[:1], {})
    r.cls = collections.deque
    return r


def m_divmod(it, a, kw):
    return (it.binop(ast.FloorDiv, *a), it.binop(ast.Mod, *a))


def m_pow(it, a, kw):
    return it.binop(ast.Pow, *a)


def m_ord(it, a, kw):
    if it.is_conc(a[0]):
        return it.native(ord, a[0])
    return Sym("int", z3.StrToCode(it.term(a[0])))


def m_chr(it, a, kw):
    if it.is_conc(a[0]):
        return it.native(chr, a[0])
    return Sym("str", z3.StrFromCode(it.term(a[0], "int")))


def m_repr(it, a, kw):
    return it.native(repr, a[0]) if it.is_conc(a[0]) else it.opaque_str("repr", a)


def m_issubclass(it, a, kw):
    return it.native(issubclass, *a)


def m_callable(it, a, kw):
    return isinstance(a[0], (FuncVal, Bound, Prim)) or (isinstance(a[0], Sym) and a[0].k == "any") or (it.is_conc(a[0]) and callable(a[0]))


def m_calcsize(it, a, kw):
    return it.native(struct.calcsize, *a)


def m_id(it, a, kw):
    v = a[0]
    return Sym("int", z3.Int(f"id_{v.serial}")) if isinstance(v, Mut) else id(v)


def m_intfrombytes(it, a, kw):
    if all(map(it.is_conc, a)) and all(map(it.is_conc, kw.values())):
        return it.native(int.from_bytes, *a, **kw)
    raise Unsupported("int.from_bytes")


def op_model(opcls):
    def f(it, a, kw):
        t = it.compare(opcls(), a[0], a[1])
        return t if isinstance(t, bool) else Sym("bool", t)

    return f


import operator  # noqa: E402

_T = {
    len: m_len, isinstance: m_isinstance, range: m_range, int: m_int, float: m_float, bool: m_bool, str: m_str, bytes: m_bytes,
    bytearray: m_bytearray, min: lambda it, a, k: minmax(it, a, k, True), max: lambda it, a, k: minmax(it, a, k, False),
    abs: m_abs, round: m_round, list: m_list, tuple: m_tuple, set: m_set, frozenset: m_set, dict: m_dict, sum: m_sum,
    any: lambda it, a, k: anyall(it, a, True), all: lambda it, a, k: anyall(it, a, False), enumerate: m_enumerate,
    zip: m_zip, reversed: m_reversed, sorted: m_sorted, map: m_map, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    type: m_type, hash: m_hash, print: m_print, typing.cast: m_cast, math.isnan: m_isnan, math.isclose: m_isclose,
    math.floor: m_floor, math.ceil: m_ceil, struct.pack: m_pack, struct.unpack: m_unpack, struct.calcsize: m_calcsize,
    io.BytesIO: m_bytesio, io.StringIO: m_stringio, contextlib.suppress: m_suppress, contextlib.ExitStack: m_exitstack, contextlib.AsyncExitStack: m_asyncexitstack,
    contextlib.ExitStack.enter_context: m_enter_context, contextlib.AsyncExitStack.enter_async_context: m_enter_async,
    contextlib.ExitStack.callback: m_stack_callback, contextlib.nullcontext: m_nullcontext,
    time.time_ns: m_time, time.monotonic_ns: m_time, time.perf_counter_ns: m_time, time.time: m_time_f, time.perf_counter: m_time_f, time.monotonic: m_time_f,
    asyncio.sleep: m_sleep, collections.defaultdict: m_defaultdict, collections.deque: m_deque, divmod: m_divmod, pow: m_pow,
    ord: m_ord, chr: m_chr, next: m_next, repr: m_repr, issubclass: m_issubclass, callable: m_callable, id: m_id,
    operator.lt: op_model(ast.Lt), operator.le: op_model(ast.LtE), operator.eq: op_model(ast.Eq), operator.ne: op_model(ast.NotEq),
    operator.gt: op_model(ast.Gt), operator.ge: op_model(ast.GtE),
}
import copy as _copymod  # noqa: E402

_T[_copymod.copy] = m_copy
TABLE = {}
_KEEP = []
for _k, _v in _T.items():
    _KEEP.append(_k)
    TABLE[id(_k)] = _v
try:
    from vcorelib.math import default_time_ns as _dtn

    _KEEP.append(_dtn)
    TABLE[id(_dtn)] = m_time
except ImportError:
    pass


def lookup(fn):
    return TABLE.get(id(fn))


# ---------------------------------------------------------------- methods
def P(f, name):
    return Prim(f, name)


def method(it, obj, name, force=False):
    """Bound method of a built-in-like value, or None."""
    if isinstance(obj, (str, bytes)) and not force:
        # native unless an argument is symbolic
        native = getattr(obj, name, None)
        k = "str" if isinstance(obj, str) else "bytes"
        sm = STRM.get(name)
        if native is None or not callable(native):
            return None

        def f(it_, a, kw):
            aa = [list(x.items) if isinstance(x, MList) and x.conc else x for x in a]
            if name == "join":
                return STRM["join"](it_, obj, k, a, kw)
            if all(map(it_.is_conc, aa)) and all(map(it_.is_conc, kw.values())):
                r = it_.native(native, *aa, **kw)
                return MList(items=r) if isinstance(r, list) else r
            if sm is None:
                raise Unsupported(f"{k}.{name} with symbolic arguments")
            return sm(it_, obj, k, a, kw)

        return P(f, name)
    k = None
    if isinstance(obj, Sym) and obj.k in ("str", "bytes"):
        k = obj.k
    elif isinstance(obj, MBytes):
        if name in BAM:
            return P(lambda it_, a, kw: BAM[name](it_, obj, a, kw), name)
        k = "bytes"
        obj = Sym("bytes", obj.t)
    if k:
        sm = STRM.get(name)
        if sm is None:
            return None
        return P(lambda it_, a, kw: sm(it_, obj, k, a, kw), name)
    if isinstance(obj, (list, dict, set)):
        if name in MUTATORS:
            raise Unsupported(f"{name} on a live container")
        obj = it.unlive(obj)
    tab = None
    if isinstance(obj, AList):
        tab = ALISTM
    if isinstance(obj, MList):
        tab = LISTM
    elif isinstance(obj, MDict):
        tab = DICTM
    elif isinstance(obj, MSet):
        tab = SETM
    elif isinstance(obj, Stream):
        tab = STREAMM
    elif isinstance(obj, tuple) and not isinstance(obj, NT) and name in ("index", "count"):
        tab = LISTM
        obj = MList(items=list(obj))
    elif isinstance(obj, Sym) and obj.k in ("int", "real", "bool"):
        tab = NUMM
    if tab is not None and name in tab:
        f = tab[name]
        return P(lambda it_, a, kw: f(it_, obj, a, kw), name)
    return None


def _utf8(it):
    e = z3.Function("utf8_enc", z3.StringSort(), z3.StringSort())
    d = z3.Function("utf8_dec", z3.StringSort(), z3.StringSort())
    ok = z3.Function("utf8_ok", z3.StringSort(), z3.BoolSort())
    return e, d, ok


def s_encode(it, o, k, a, kw):
    _use(it, "str.encode / bytes.decode (UTF-8): inverse on valid data, encoding never shortens, empty iff empty")
    if it.is_conc(o):
        return it.native(o.encode, *a, **kw)
    e, d, ok = _utf8(it)
    t = it.term(o, "str")
    r = e(t)
    it.c.assume(z3.And(d(r) == t, ok(r), z3.Length(r) >= z3.Length(t), z3.Length(r) <= 4 * z3.Length(t)))
    return Sym("bytes", r)


def s_decode(it, o, k, a, kw):
    _use(it, "str.encode / bytes.decode (UTF-8): inverse on valid data, encoding never shortens, empty iff empty")
    codec, errors = a[0] if a else kw.get("encoding", "utf-8"), a[1] if len(a) > 1 else kw.get("errors", "strict")
    if not (isinstance(codec, str) and codec.lower() in ("utf-8", "utf8") and errors in ("strict", "replace", "ignore")):
        raise Unsupported("decode with another codec")
    e, d, ok = _utf8(it)
    t = it.term(o, "bytes")
    if not it.c.branch(ok(t)):
        if errors != "strict":
            return Sym("str", z3.Function("utf8_dec_" + errors, z3.StringSort(), z3.StringSort())(t))
        raise PyExc(ExcVal(UnicodeDecodeError, ("utf-8",)))
    r = d(t)
    it.c.assume(z3.And(e(r) == t, z3.Length(r) <= z3.Length(t), z3.Length(t) <= 4 * z3.Length(r)))
    return Sym("str", r)


def s_uf(name, kinds=("str",)):
    def f(it, o, k, a, kw):
        t = it.term(o, k)
        _use(it, f"{k}.{name}: an (uninterpreted) function of its text")
        g = z3.Function(f"{k}_{name}_" + "_".join(repr(x) for x in a), z3.StringSort(), z3.StringSort())
        if not a and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_INT_TO_STR:
            return Sym(k, t)  # digits
        r = g(t)
        if name in ("lower", "upper"):
            it.c.assume(g(r) == r)
            colon = z3.StringVal(":")
            it.c.assume(z3.Contains(r, colon) == z3.Contains(t, colon))
        if name in ("strip", "lstrip", "rstrip"):
            it.c.assume(z3.And(z3.Length(r) <= z3.Length(t), z3.Contains(t, r), g(r) == r))
            if not a and name != "rstrip":
                it.c.assume(z3.Implies(z3.PrefixOf(z3.StringVal(" "), t), r == g(z3.SubString(t, 1, z3.Length(t) - 1))))
        return Sym(k, r)

    return f


def s_startswith(it, o, k, a, kw):
    if isinstance(a[0], tuple):
        return Sym("bool", z3.Or(*[z3.PrefixOf(it.term(x, k), it.term(o, k)) for x in a[0]]))
    return Sym("bool", z3.PrefixOf(it.term(a[0], k), it.term(o, k)))


def s_endswith(it, o, k, a, kw):
    return Sym("bool", z3.SuffixOf(it.term(a[0], k), it.term(o, k)))


def s_find(it, o, k, a, kw):
    t = it.term(o, k)
    x = a[0]
    if k == "bytes" and it.kind(x) == "int":
        x = m_bytes(it, [MList(items=[x])], {})
    start = it.term(a[1], "int") if len(a) > 1 else z3.IntVal(0)
    if len(a) > 2:
        raise Unsupported("find end")
    return Sym("int", z3.IndexOf(t, it.term(x, k), start))


def s_index(it, o, k, a, kw):
    r = s_find(it, o, k, a, kw)
    if it.c.branch(r.t < 0):
        it.throw(ValueError, "substring not found")
    return r


def s_join(it, o, k, a, kw):
    items = it.to_items(a[0])
    if items is None:
        raise Unsupported("join of a symbolic sequence")
    if all(map(it.is_conc, items)) and it.is_conc(o):
        return it.native(o.join, items)
    ts = []
    for i, x in enumerate(items):
        if i:
            ts.append(it.term(o, k))
        ts.append(it.term(x, k))
    if not ts:
        return "" if k == "str" else b""
    return Sym(k, z3.Concat(*ts) if len(ts) > 1 else ts[0])


def s_replace(it, o, k, a, kw):
    if len(a) > 2:
        raise Unsupported("replace count")
    t, x, y = it.term(o, k), it.term(a[0], k), it.term(a[1], k)
    f = z3.Function(f"replace_all_{k}", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    r = f(t, x, y)
    it.c.assume(z3.Implies(z3.Not(z3.Contains(t, x)), r == t))
    return Sym(k, r)


def conc_text(it, t, k):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        v = unescape(t.as_string())
        return v if k == "str" else v.encode("latin-1")
    return Sym(k, t)


def walk_split(it, t, sep):
    """The text before and after the first `sep` (one character), where the
    pieces of the text show it: (before, after), after None without one."""
    if sep is None or len(sep) != 1:
        return None
    ps = pieces(z3.simplify(t))
    head = []
    for i, p in enumerate(ps):
        if z3.is_string_value(p):
            v = unescape(p.as_string())
            j = v.find(sep)
            if j < 0:
                head.append(p)
                continue
            cat = lambda l: z3.simplify(z3.Concat(*l)) if len(l) > 1 else l[0] if l else z3.StringVal("")
            return cat(head + [z3.StringVal(v[:j])]), cat([z3.StringVal(v[j + 1:])] + ps[i + 1:])
        if it.c._sat(z3.Contains(p, z3.StringVal(sep))):
            return None
        head.append(p)
    return t, None


def s_split(it, o, k, a, kw):
    """split: handled when a maxsplit makes the result finite."""
    sep = a[0] if a else kw.get("sep")
    mx = a[1] if len(a) > 1 else kw.get("maxsplit")
    if sep is None or not (mx is None or isinstance(mx, int)):
        raise Unsupported("split on white space")
    full = mx is None
    mx = 6 if full else mx
    t, s = it.term(o, k), it.term(sep, k)
    out = []
    one = unescape(z3.simplify(s).as_string()) if z3.is_string_value(z3.simplify(s)) else None
    for _ in range(mx):
        w = walk_split(it, t, one) if one is not None and len(one) == 1 else None
        if w is not None:
            if w[1] is None:
                break
            out.append(conc_text(it, w[0], k))
            t = w[1]
            continue
        if not it.c.branch(z3.Contains(t, s)):
            break
        i = z3.IndexOf(t, s, 0)
        out.append(Sym(k, z3.SubString(t, 0, i)))
        t = z3.SubString(t, i + z3.Length(s), z3.Length(t))
    else:
        if full and (walk_split(it, t, one) or (0, 0))[1] is not None and it.c.branch(z3.Contains(t, s)):
            raise Unsupported("split into more than 7 parts")
    out.append(conc_text(it, t, k))
    return MList(items=out)


def s_partition(it, o, k, a, kw):
    t, s = it.term(o, k), it.term(a[0], k)
    e = "" if k == "str" else b""
    one = unescape(z3.simplify(s).as_string()) if z3.is_string_value(z3.simplify(s)) else None
    w = walk_split(it, t, one)
    if w is not None:
        return (o, e, e) if w[1] is None else (conc_text(it, w[0], k), a[0], conc_text(it, w[1], k))
    if not it.c.branch(z3.Contains(t, s)):
        return (o, e, e)
    i = z3.IndexOf(t, s, 0)
    return (Sym(k, z3.SubString(t, 0, i)), a[0], Sym(k, z3.SubString(t, i + z3.Length(s), z3.Length(t))))


def s_pred(name):
    def f(it, o, k, a, kw):
        g = z3.Function(f"{k}_{name}", z3.StringSort(), z3.BoolSort())
        return Sym("bool", g(it.term(o, k)))

    return f


def s_format(it, o, k, a, kw):
    return it.opaque_str("format", list(a) + list(kw.values()))


def s_removeprefix(it, o, k, a, kw):
    t, x = it.term(o, k), it.term(a[0], k)
    if it.c.branch(z3.PrefixOf(x, t)):
        return Sym(k, z3.SubString(t, z3.Length(x), z3.Length(t) - z3.Length(x)))
    return o


def s_removesuffix(it, o, k, a, kw):
    t, x = it.term(o, k), it.term(a[0], k)
    if it.c.branch(z3.SuffixOf(x, t)):
        return Sym(k, z3.SubString(t, 0, z3.Length(t) - z3.Length(x)))
    return o


def s_splitlines(it, o, k, a, kw):
    raise Unsupported("splitlines")


STRM = {
    "encode": s_encode, "decode": s_decode, "lower": s_uf("lower"), "upper": s_uf("upper"), "strip": s_uf("strip"), "lstrip": s_uf("lstrip"),
    "rstrip": s_uf("rstrip"), "title": s_uf("title"), "hex": s_uf("hex"), "startswith": s_startswith, "endswith": s_endswith, "find": s_find, "index": s_index, "join": s_join,
    "replace": s_replace, "split": s_split, "partition": s_partition, "isdigit": s_pred("isdigit"), "isnumeric": s_pred("isnumeric"),
    "isalpha": s_pred("isalpha"), "isidentifier": s_pred("isidentifier"), "format": s_format, "removeprefix": s_removeprefix,
    "removesuffix": s_removesuffix, "splitlines": s_splitlines,
}


# bytearray
def ba_extend(it, o, a, kw):
    it.touch(o)
    o.t = z3.Concat(o.t, it.term(m_bytes(it, [a[0]], {}), "bytes"))


def ba_append(it, o, a, kw):
    it.touch(o)
    o.t = z3.Concat(o.t, it.term(m_bytes(it, [MList(items=[a[0]])], {}), "bytes"))


def ba_clear(it, o, a, kw):
    it.touch(o)
    o.t = z3.StringVal("")


BAM = {"extend": ba_extend, "append": ba_append, "clear": ba_clear}


# lists
def l_append(it, o, a, kw):
    it.touch(o)
    if o.conc:
        o.items.append(a[0])
    else:
        o.seq = z3.Concat(o.seq, z3.Unit(o.ty.enc(it, a[0])))


def l_extend(it, o, a, kw):
    it.list_extend(o, a[0])


def l_pop(it, o, a, kw):
    it.touch(o)
    if o.conc:
        i = a[0] if a else -1
        if not o.items:
            it.throw(IndexError, "pop from empty list")
        if isinstance(i, int):
            if not -len(o.items) <= i < len(o.items):
                it.throw(IndexError, "pop index out of range")
            return o.items.pop(i)
        raise Unsupported("pop index")
    n = z3.Length(o.seq)
    if not it.c.branch(n > 0):
        it.throw(IndexError, "pop from empty list")
    i = a[0] if a else -1
    if i == 0:
        v = o.ty.dec(it, o.seq[z3.IntVal(0)])
        o.seq = z3.Extract(o.seq, z3.IntVal(1), n - 1)
        return v
    if i == -1:
        v = o.ty.dec(it, o.seq[n - 1])
        o.seq = z3.Extract(o.seq, z3.IntVal(0), n - 1)
        return v
    raise Unsupported("pop index")


def l_popleft(it, o, a, kw):
    return l_pop(it, o, [0], kw)


def l_clear(it, o, a, kw):
    it.touch(o)
    if o.conc:
        o.items.clear()
    else:
        o.seq = z3.Empty(o.seq.sort())


def l_insert(it, o, a, kw):
    it.touch(o)
    if o.conc and isinstance(a[0], int):
        o.items.insert(a[0], a[1])
    elif not o.conc and a[0] == 0:
        o.seq = z3.Concat(z3.Unit(o.ty.enc(it, a[1])), o.seq)
    else:
        raise Unsupported("insert")


def l_copy(it, o, a, kw):
    return MList(items=list(o.items) if o.conc else None, seq=o.seq, ty=o.ty)


def l_index(it, o, a, kw):
    if o.conc:
        for i, x in enumerate(o.items):
            if it.c.branch(it.eq(x, a[0])):
                return i
        it.throw(ValueError, "not in list")
    e = z3.Unit(o.ty.enc(it, a[0]))
    if not it.c.branch(z3.Contains(o.seq, e)):
        it.throw(ValueError, "not in list")
    return Sym("int", z3.IndexOf(o.seq, e, 0))


def l_remove(it, o, a, kw):
    it.touch(o)
    if o.conc:
        for i, x in enumerate(o.items):
            if it.c.branch(it.eq(x, a[0])):
                del o.items[i]
                return
        it.throw(ValueError, "not in list")
    raise Unsupported("remove")


def l_count(it, o, a, kw):
    if o.conc:
        return sum(1 for x in o.items if it.c.branch(it.eq(x, a[0])))
    raise Unsupported("count")


def l_reverse(it, o, a, kw):
    it.touch(o)
    if not o.conc:
        raise Unsupported("reverse")
    o.items.reverse()


LISTM = {"append": l_append, "extend": l_extend, "pop": l_pop, "popleft": l_popleft, "clear": l_clear, "insert": l_insert, "copy": l_copy,
         "index": l_index, "remove": l_remove, "count": l_count, "reverse": l_reverse}


# dicts
def d_get(it, o, a, kw):
    f, v = it.dict_lookup(o, a[0])
    if f:
        return v
    return a[1] if len(a) > 1 else kw.get("default")


def d_pop(it, o, a, kw):
    f, v = it.dict_lookup(o, a[0])
    if f:
        it.dict_del(o, a[0])
        return v
    if len(a) > 1:
        return a[1]
    it.throw(KeyError, a[0])


def d_popitem(it, o, a, kw):
    if not o.conc:
        raise Unsupported("popitem of a symbolic dict")
    if not o.pairs:
        it.throw(KeyError, "popitem(): dictionary is empty")
    k, v = o.pairs[-1][0], o.pairs[-1][1]
    it.dict_del(o, k)
    return tuple((k, v))


def d_setdefault(it, o, a, kw):
    f, v = it.dict_lookup(o, a[0])
    if f:
        return v
    v = a[1] if len(a) > 1 else None
    it.dict_set(o, a[0], v)
    return v


def d_update(it, o, a, kw):
    if a:
        it.dict_update(o, a[0])
    for k, v in kw.items():
        it.dict_set(o, k, v)


def d_clear(it, o, a, kw):
    it.touch(o)
    if o.conc:
        o.pairs = []
    else:
        o.dom = z3.K(o.kty.sort, False)
        if o.order is not None:
            o.order = Order(o.order.arr, z3.IntVal(0), o.order.pos)
        if o.size is not None:
            o.size = z3.IntVal(0)


DICTM = {
    "get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "clear": d_clear, "popitem": d_popitem,
    "items": lambda it, o, a, kw: View("items", o), "keys": lambda it, o, a, kw: View("keys", o),
    "values": lambda it, o, a, kw: View("values", o), "copy": lambda it, o, a, kw: m_copy(it, [o], {}),
}


# array lists
def al_append(it, o, a, kw):
    it.touch(o)
    x = o.ty.enc(it, a[0])
    o.arr = z3.Store(o.arr, o.n, x)
    o.n = z3.simplify(o.n + 1)
    if o.mem is not None:
        o.mem = z3.Store(o.mem, x, True)


def al_extend(it, o, a, kw):
    items = it.to_items(it.unlive(a[0]))
    if items is None:
        raise Unsupported("extend by a symbolic sequence")
    for x in items:
        al_append(it, o, [x], {})


def al_clear(it, o, a, kw):
    it.touch(o)
    o.n = z3.IntVal(0)
    o.mem = z3.K(o.ty.sort, False)


def al_pop(it, o, a, kw):
    it.touch(o)
    if a and not (isinstance(a[0], int) and a[0] == -1):
        raise Unsupported("pop at an index of an array list")
    if it.c.branch(o.n <= 0):
        it.throw(IndexError, "pop from empty list")
    o.n = z3.simplify(o.n - 1)
    o.mem = None
    return o.ty.dec(it, o.arr[o.n])


ALISTM = {"append": al_append, "extend": al_extend, "clear": al_clear, "pop": al_pop, "copy": lambda it, o, a, kw: AList(o.arr, o.n, o.mem, o.ty)}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
            "difference_update", "intersection_update", "popleft", "appendleft"}


# sets
def st_add(it, o, a, kw):
    it.touch(o)
    if o.conc:
        if not it.c.branch(it.any_([it.eq(x, a[0]) for x in o.items])):
            o.items.append(a[0])
    else:
        o.mem = z3.Store(o.mem, o.ty.enc(it, a[0]), True)


def st_remove(it, o, a, kw, strict=True):
    it.touch(o)
    if o.conc:
        for i, x in enumerate(o.items):
            if it.c.branch(it.eq(x, a[0])):
                del o.items[i]
                return
        if strict:
            it.throw(KeyError, a[0])
    else:
        t = o.ty.enc(it, a[0])
        if strict and not it.c.branch(o.mem[t]):
            it.throw(KeyError, a[0])
        o.mem = z3.Store(o.mem, t, False)


def st_clear(it, o, a, kw):
    it.touch(o)
    if o.conc:
        o.items = []
    else:
        o.mem = z3.K(o.ty.sort, False)


def st_update(it, o, a, kw):
    for x in a:
        items = it.to_items(x)
        if items is None:
            raise Unsupported("set update")
        for y in items:
            st_add(it, o, [y], {})


SETM = {
    "add": st_add, "remove": st_remove, "discard": lambda it, o, a, kw: st_remove(it, o, a, kw, False), "clear": st_clear, "update": st_update,
    "copy": lambda it, o, a, kw: m_copy(it, [o], {}),
    "union": lambda it, o, a, kw: it.set_op(ast.BitOr, o, it.unlive(a[0]), False),
    "intersection": lambda it, o, a, kw: it.set_op(ast.BitAnd, o, it.unlive(a[0]), False),
    "difference": lambda it, o, a, kw: it.set_op(ast.Sub, o, it.unlive(a[0]), False),
}


ENC_SIZE = {f"enc_{c}_{e}": n for c, n in SIZES.items() for e in ("le", "be")}


def known_len(t):
    """Length of a text term, a constant where it is known by construction."""
    if z3.is_string_value(t):
        return z3.IntVal(len(t.as_string()) if "\\u{" not in t.as_string() else len(_unesc(t.as_string())))
    if z3.is_app(t) and t.decl().name() in ENC_SIZE:
        return z3.IntVal(ENC_SIZE[t.decl().name()])
    return z3.Length(t)


def _unesc(s):
    import re

    return re.sub(r"\\u\{[0-9a-fA-F]+\}", "x", s)


def pieces(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += pieces(c)
        return out
    return [t]


def cut(t, off, ln):
    """SubString(t, off, ln), resolved when it lines up with the pieces of t."""
    ps = pieces(t)
    off, ln = z3.simplify(off) if z3.is_expr(off) else z3.IntVal(off), z3.simplify(ln) if z3.is_expr(ln) else z3.IntVal(ln)
    zero = lambda e: z3.is_int_value(e) and e.as_long() == 0
    if len(ps) > 1 or True:
        cum = z3.IntVal(0)
        i = 0
        while i <= len(ps):
            if zero(z3.simplify(off - cum)):
                got, tot = [], z3.IntVal(0)
                j = i
                while True:
                    if zero(z3.simplify(tot - ln)):
                        return z3.StringVal("") if not got else got[0] if len(got) == 1 else z3.Concat(*got)
                    if j == len(ps):
                        break
                    got.append(ps[j])
                    tot = tot + known_len(ps[j])
                    j += 1
                # drop the leading pieces that are not part of it
                if 0 < i < len(ps):
                    rest = ps[i:]
                    return z3.SubString(rest[0] if len(rest) == 1 else z3.Concat(*rest), 0, ln)
                break
            if i == len(ps):
                break
            cum = cum + known_len(ps[i])
            i += 1
    return z3.SubString(t, off, ln)


def total_len(t):
    n = z3.IntVal(0)
    for p in pieces(t):
        n = n + known_len(p)
    return z3.simplify(n)


# streams (io.BytesIO): write appends at the end, read consumes from pos
def io_write(it, o, a, kw):
    _use(it, "io.BytesIO/StringIO: write at the end appends, read(n) returns at most n next bytes")
    it.touch(o)
    t = it.term(a[0], o.k)
    end = total_len(o.data)
    if not z3.is_true(z3.simplify(o.pos == end)) and it.c._sat(o.pos != z3.Length(o.data)):
        raise Unsupported("stream write that is not at the end")
    o.data = z3.simplify(z3.Concat(o.data, t))
    o.pos = z3.simplify(end + total_len(t))
    return Sym("int", total_len(t))


def io_read(it, o, a, kw):
    _use(it, "io.BytesIO/StringIO: write at the end appends, read(n) returns at most n next bytes")
    it.touch(o)
    rest = z3.simplify(total_len(o.data) - o.pos)
    n = a[0] if a else None
    if n is None or (isinstance(n, int) and n < 0):
        ln = rest
    else:
        tn = it.term(n, "int")
        if it.c.branch(tn < 0):
            ln = rest
        else:
            ln = rest if it.c.branch(tn > rest) else tn
    r = cut(o.data, o.pos, ln)
    o.pos = z3.simplify(o.pos + ln)
    it.c.assume(z3.Length(r) == ln)
    return Sym(o.k, r)


def io_getvalue(it, o, a, kw):
    return Sym(o.k, o.data)


def io_tell(it, o, a, kw):
    return Sym("int", o.pos)


def io_seek(it, o, a, kw):
    it.touch(o)
    whence = a[1] if len(a) > 1 else 0
    if whence == 0:
        o.pos = it.term(a[0], "int")
    elif whence == 2:
        o.pos = z3.Length(o.data) + it.term(a[0], "int")
    else:
        o.pos = o.pos + it.term(a[0], "int")
    return Sym("int", o.pos)


STREAMM = {"write": io_write, "read": io_read, "getvalue": io_getvalue, "tell": io_tell, "seek": io_seek, "close": lambda it, o, a, kw: None, "fileno": lambda it, o, a, kw: 3,
           "flush": lambda it, o, a, kw: None}
NUMM = {"is_integer": lambda it, o, a, kw: Sym("bool", z3.IsInt(o.t)) if o.k == "real" else True,
        "bit_length": lambda it, o, a, kw: (_ for _ in ()).throw(Unsupported("bit_length"))}
