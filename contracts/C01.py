"""C01: the primitive wire codec."""
import struct
from contracts.common import *
from pyvc.models import codec, enc_axioms, dec_axioms, SIZES, RANGES
from runtimepy import primitives as RP
from runtimepy.primitives.types import PrimitiveTypes
from runtimepy.primitives.types import base as TB
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.string import StringPrimitive

# independent table: kind name -> (struct code, bytes)
TABLE = {"int8": ("b", 1), "int16": ("h", 2), "int32": ("i", 4), "int64": ("q", 8), "uint8": ("B", 1), "uint16": ("H", 2),
         "uint32": ("I", 4), "uint64": ("Q", 8), "half": ("e", 2), "float": ("f", 4), "double": ("d", 8), "bool": ("?", 1)}
ORDERS = [("NATIVE", "<"), ("LITTLE_ENDIAN", "<"), ("BIG_ENDIAN", ">"), ("NETWORK", ">")]
CLS = {c().kind.name: c for c in (RP.Int8, RP.Int16, RP.Int32, RP.Int64, RP.Uint8, RP.Uint16, RP.Uint32, RP.Uint64, RP.Half, RP.Float, RP.Double, RP.Bool)}


def value_of(it, name):
    """An arbitrary representable value: (Sym, term)."""
    code = TABLE[name][0]
    if code == "?":
        v = it.c.sym("bool", "v")
    elif code in "efd":
        v = it.c.sym("real", "v")
        if code in "ef":
            r = z3.Function("round_f32" if code == "f" else "round_f16", z3.RealSort(), z3.RealSort())
            it.c.assume(r(v.t) == v.t)
            if code == "e":  # half values are exactly representable as float32
                r = z3.Function("round_f32", z3.RealSort(), z3.RealSort())
                it.c.assume(r(v.t) == v.t)
    else:
        v = it.c.sym("int", "v")
        lo, hi = RANGES[code]
        it.c.assume(z3.And(v.t >= lo, v.t <= hi))
    return v


def wire(it, name, v, end):
    return enc_axioms(it, TABLE[name][0], end, v.t)


def each(it):
    name = list(TABLE)[it.c.choose(len(TABLE))]
    oname, end = ORDERS[it.c.choose(len(ORDERS))]
    return name, ByteOrder[oname], end


def v_kind(it):
    """PrimitiveType.encode/decode/read/write, per kind and byte order."""
    name, bo, end = each(it)
    kind = PrimitiveTypes[name]
    code, size = TABLE[name]
    it.c.check("the size of a kind is its width", kind.size == size and kind.bits == 8 * size)
    v = value_of(it, name)
    o = call(it, it.getattr(kind, "encode"), v, bo)
    it.c.check("a representable value encodes", o.ok)
    it.c.check("wire bytes are the standard layout", tm(it, o.value) == wire(it, name, v, end))
    it.c.check("wire size is the kind's size", z3.Length(tm(it, o.value)) == size)
    d = call(it, it.getattr(kind, "decode"), o.value, bo)
    it.c.check("decoding returns the value", d.ok and eqv(it, d.value, v))
    s = Stream(it.c.sym("bytes", "before").t)
    s.pos = z3.Length(s.data)
    start = s.data
    w = call(it, it.getattr(kind, "write"), v, s, bo)
    it.c.check("a stream write appends exactly the wire bytes", s.data == z3.Concat(start, wire(it, name, v, end)))
    it.c.check("a stream write reports the width", eqv(it, w.value, size))
    cover(it, "return")


def v_decode(it):
    name, bo, end = each(it)
    kind = PrimitiveTypes[name]
    code, size = TABLE[name]
    b = it.c.sym("bytes", "data")
    o = call(it, it.getattr(kind, "decode"), b, bo)
    it.c.check("exactly the width decodes, anything else is refused", eqv(it, Sym("bool", z3.Length(b.t) == size), o.ok) if o.ok or o.raised(struct.error) else False)
    if o.ok:
        want = dec_axioms(it, code, end, b.t)
        it.c.check("decoded value is the standard reading", tm(it, o.value) == want)
        e = call(it, it.getattr(kind, "encode"), o.value, bo)
        if code in RANGES:
            it.c.check("re-encoding gives the same bytes", tm(it, e.value) == b.t)
        cover(it, "return")
    else:
        cover(it, "refused")


def v_range(it):
    name, bo, end = each(it)
    code, size = TABLE[name]
    if code not in RANGES:
        it.c.check("not an integer kind", True)
        return
    kind = PrimitiveTypes[name]
    v = it.c.sym("int", "v")
    lo, hi = RANGES[code]
    it.c.assume(z3.Or(v.t < lo, v.t > hi))
    s = Stream(it.c.sym("bytes", "before").t)
    start = s.data
    o = call(it, it.getattr(kind, "encode"), v, bo)
    it.c.check("an unrepresentable integer is refused, not truncated", o.raised(struct.error))
    w = call(it, it.getattr(kind, "write"), v, s, bo)
    it.c.check("a refused write leaves the stream alone", z3.And(s.data == start, not w.ok))
    cover(it, "refused")


def v_primitive(it):
    """Primitive instances: bytes, update, streams; class-level codecs."""
    name, bo, end = each(it)
    cls = CLS[name]
    code, size = TABLE[name]
    v = value_of(it, name)
    how = it.c.choose(3)
    default = how == 1
    own = how == 2  # an instance with a byte order of its own
    if default:
        bo, end = None, ">"
    ckw = {} if default else {"byte_order": bo}
    kw = ckw if not own else {}

    def made(**kwargs):
        p = call(it, cls, **kwargs).value
        if own:
            it.setattr(p, "byte_order", bo)
        return p

    p = made(value=v)
    it.c.check("a new primitive holds its initial value", eqv(it, it.getattr(p, "value"), v))
    it.c.check("a primitive's size is its width", eqv(it, it.getattr(p, "size"), size))
    b = call(it, method(p, "binary"), **kw)
    it.c.check("instance bytes are the standard layout (big-endian by default)", tm(it, b.value) == wire(it, name, v, end))
    if default or own:
        bb = call(it, bytes, p)
        it.c.check("bytes() is the default layout", eqv(it, bb.value, b.value))
    s = Stream(z3.StringVal(""))
    w = call(it, method(p, "to_stream"), s, **kw)
    it.c.check("instance stream write appends the wire bytes", z3.And(s.data == tm(it, b.value), eqv(it, w.value, size)))
    c = call(it, it.getattr(cls, "encode"), v, **ckw)
    it.c.check("class-level encoding agrees", eqv(it, c.value, b.value))
    d = call(it, it.getattr(cls, "decode"), b.value, **ckw)
    it.c.check("class-level decoding agrees", eqv(it, d.value, v))
    q = made()
    u = call(it, method(q, "update"), b.value, **kw)
    it.c.check("update stores and returns the decoded value", z3.And(eqv(it, u.value, v), eqv(it, it.getattr(q, "value"), v)))
    rest = it.c.sym("bytes", "rest")
    s2 = Stream(z3.Concat(tm(it, b.value), rest.t))
    q2 = made()
    r = call(it, method(q2, "from_stream"), s2, **kw)
    it.c.check("a stream read returns and stores the value", z3.And(eqv(it, r.value, v), eqv(it, it.getattr(q2, "value"), v)))
    it.c.check("a stream read consumes exactly the width", s2.pos == size)
    s3 = Stream(z3.Concat(tm(it, b.value), rest.t))
    r = call(it, it.getattr(cls, "read"), s3, **ckw)
    it.c.check("class-level stream read agrees", z3.And(eqv(it, r.value, v), s3.pos == size))
    s4 = Stream(z3.StringVal(""))
    r = call(it, it.getattr(cls, "write"), v, s4, **ckw)
    it.c.check("class-level stream write agrees", z3.And(s4.data == tm(it, b.value), eqv(it, r.value, size)))
    cover(it, "return")


def v_bad_update(it):
    """A failed update leaves the value alone."""
    name = list(TABLE)[it.c.choose(len(TABLE))]
    cls = CLS[name]
    v = value_of(it, name)
    p = call(it, cls, value=v).value
    b = it.c.sym("bytes", "data")
    it.c.assume(z3.Length(b.t) != TABLE[name][1])
    o = call(it, method(p, "update"), b)
    it.c.check("data of another length is refused", o.raised(struct.error))
    it.c.check("a refused update keeps the value", eqv(it, it.getattr(p, "value"), v))
    cover(it, "refused")


SIZE = {"B": RP.Uint8, "H": RP.Uint16, "I": RP.Uint32, "Q": RP.Uint64}


def v_string(it):
    """String primitives: the length in bytes, then the text."""
    code = list(SIZE)[it.c.choose(4)]
    kind = SIZE[code]
    oname, end = ORDERS[it.c.choose(4)]
    bo = ByteOrder[oname]
    how = it.c.choose(3)
    text = it.c.sym("str", "text")
    raw = tm(it, call(it, it.getattr(text, "encode")).value)
    size = TABLE[kind.kind.name][1]
    kw = {"kind": kind, "byte_order": bo}
    fits = z3.Length(raw) <= RANGES[code][1]
    if code in "IQ":  # (texts this long don't exist in practice, and the solver would build one)
        it.c.assume(z3.Length(raw) < 2**31)
    elif not it.c.branch(fits):
        o = call(it, StringPrimitive, text, **kw)
        it.c.check("a text that is too long is refused", not o.ok)
        p = call(it, StringPrimitive, "abc", **kw).value
        o = call(it, method(p, "set"), text)
        it.c.check("a refused text changes nothing", z3.And(not o.ok, eqv(it, it.getattr(p, "value"), "abc"), eqv(it, it.getattr(p, "size"), 3 + TABLE[kind.kind.name][1])))
        cover(it, "refused")
        return
    if how == 0:
        p = call(it, StringPrimitive, text, **kw).value
    else:  # set later, over another text
        old = it.c.sym("str", "old")
        it.c.assume(z3.Length(tm(it, call(it, it.getattr(old, "encode")).value)) <= min(RANGES[code][1], 2**31))
        p = call(it, StringPrimitive, old, **kw).value
        o = call(it, method(p, "set"), text)
        it.c.check("a text that fits is taken", o.ok)
    it.c.check("a string primitive holds its text", z3.And(eqv(it, it.getattr(p, "value"), text), eqv(it, call(it, str, p).value, text)))
    it.c.check("the size is what a write appends", eqv(it, it.getattr(p, "size"), Sym("int", z3.Length(raw) + size)))
    s = Stream(it.c.sym("bytes", "before").t)
    s.pos = z3.Length(s.data)
    start = s.data
    w = call(it, method(p, "write"), s)
    wire = z3.Concat(enc_axioms(it, code, end, z3.Length(raw)), raw)
    it.c.check("a write appends the length in bytes and the text", s.data == z3.Concat(start, wire))
    it.c.check("a write reports the bytes it appended", eqv(it, w.value, Sym("int", z3.Length(raw) + size)))
    rest = it.c.sym("bytes", "rest")
    s2 = Stream(z3.Concat(wire, rest.t))
    if how == 2:
        q = call(it, StringPrimitive, **kw).value
        r = call(it, method(q, "read"), s2)
        it.c.check("a read returns the text", z3.And(r.ok, eqv(it, r.value, text)) if r.ok else False)
    else:
        r = call(it, StringPrimitive.from_stream, s2, **kw)
        it.c.check("a text is read back from a stream", r.ok)
        q = r.value
    it.c.check("what is read is what was written", z3.And(eqv(it, it.getattr(q, "value"), text), eqv(it, it.getattr(q, "size"), it.getattr(p, "size"))))
    it.c.check("a read consumes exactly what was written", s2.pos == z3.Length(wire))
    cover(it, "return")


T = "runtimepy.primitives.types.base:PrimitiveType"
CONTRACTS = [
    Unit("StringPrimitive", "runtimepy.primitives.string:StringPrimitive", v_string, base_cfg, covers=("return", "refused"), branch_ms=150),
    Unit("PrimitiveType.encode/decode/write", T, v_kind),
    Unit("PrimitiveType.decode", T + ".decode", v_decode, covers=("return", "refused")),
    Unit("PrimitiveType.encode out of range", T + ".encode", v_range, covers=("refused",)),
    Unit("Primitive codec", "runtimepy.primitives.base:Primitive", v_primitive, base_cfg),
    Unit("Primitive.update refused", "runtimepy.primitives.base:Primitive.update", v_bad_update, base_cfg, covers=("refused",)),
]
