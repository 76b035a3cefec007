import math
import struct
import sys
from io import BytesIO
from harness.lib import *
from runtimepy.primitives.string import StringPrimitive
from runtimepy.primitives import Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, Half, Float, Double, Bool, create
from runtimepy.primitives.byte_order import ByteOrder

h = H()
INTS = [Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64]
FLOATS = [(Half, "e", 2), (Float, "f", 4), (Double, "d", 8)]
ORD = [(ByteOrder.NATIVE, sys.byteorder), (ByteOrder.LITTLE_ENDIAN, "little"), (ByteOrder.BIG_ENDIAN, "big"), (ByteOrder.NETWORK, "big"), (None, "big")]


def width(cls):
    n = cls.kind.name
    return int(n.replace("uint", "").replace("int", "")) // 8, n.startswith("i")


def ivals(h, cls):
    size, signed = width(cls)
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    out = [lo, hi, 0, 1, lo + 1, hi - 1, 0x0102030405060708 & hi, hi >> 1]
    out += [h.rng.randint(lo, hi) for _ in range(h.n(12))] + [x for x in h.ints() if lo <= x <= hi]
    if signed:
        out.append(-1)
    return lo, hi, out


def values(h):
    for cls in INTS:
        size, signed = width(cls)
        for v in ivals(h, cls)[2]:
            yield cls, v, size, lambda e, v=v, s=size, g=signed: v.to_bytes(s, e, signed=g)
    for cls, code, size in FLOATS:
        vals = [0.0, -0.0, 1.0, -2.5, 0.5, 1000.0, float("inf"), float("-inf")]
        for _ in range(h.n(10)):
            vals.append(struct.unpack(code, struct.pack(code, h.rng.uniform(-6e4, 6e4)))[0])
        for v in vals:
            yield cls, v, size, lambda e, v=v, c=code: struct.pack(("<" if e == "little" else ">") + c, v)
    for v in (True, False):
        yield Bool, v, 1, lambda e, v=v: b"\x01" if v else b"\x00"


@h.case
def codec(h):
    for cls, v, size, ref in values(h):
        for bo, end in ORD:
            kw = {} if bo is None else {"byte_order": bo}
            want = ref(end)
            d = dict(kind=cls.kind.name, value=v, order=str(bo))
            h.ev((cls.kind.name, v, str(bo)))
            p = cls(value=v)
            h.check(cls.kind.size == size and p.size == size, "the size of a kind is its width in bytes", **d)
            h.check(p.value == v, "a primitive holds the value it was given", got=p.value, **d)
            got = p.binary(**kw)
            h.check(got == want, "wire bytes are the value's standard layout in the byte order", got=got, want=want, **d)
            h.check(cls.encode(v, **kw) == want and cls.kind.encode(v, **kw) == want, "class and kind encodings agree", **d)
            if bo is None:
                h.check(bytes(p) == want, "bytes() is the network-order layout", got=bytes(p), want=want, **d)
            h.check(cls.decode(want, **kw) == v and cls.kind.decode(want, **kw) == v, "decoding returns the encoded value", **d)
            q = cls()
            r = q.update(want, **kw)
            h.check(r == v and q.value == v, "updating from bytes stores and returns the value", got=(r, q.value), **d)
            for bad in (want[:-1], want + b"\x00", b""):
                q = cls(value=v)
                h.check(raises(lambda: q.update(bad, **kw), struct.error) and q.value == v, "data of another length is refused and keeps the value", data=bad, **d)
                h.check(raises(lambda: cls.decode(bad, **kw), struct.error), "decoding data of another length is refused", data=bad, **d)


@h.case
def own_order(h):
    """Instances and classes with a byte order of their own."""
    for cls, v, size, ref in values(h):
        for bo, end in ORD[:-1]:
            d = dict(kind=cls.kind.name, value=v, order=str(bo))
            h.ev((cls.kind.name, v, str(bo)))
            want = ref(end)

            class Own(cls):
                byte_order = bo
            one = cls()
            one.byte_order = bo
            for p in (one, Own()):
                p.value = v
                h.check(p.binary() == want and bytes(p) == want, "an instance's byte order is its default", got=p.binary(), want=want, **d)
                s = BytesIO()
                p.to_stream(s)
                h.check(s.getvalue() == want, "streams are written in it", got=s.getvalue(), want=want, **d)
                s.seek(0)
                p.value = cls().value
                h.check(p.from_stream(s) == v and p.value == v, "streams are read in it", got=p.value, **d)
                p.value = cls().value
                h.check(p.update(want) == v, "data is decoded in it", got=p.value, **d)
            h.check(Own.encode(v) == want and Own.decode(want) == v, "a class' byte order is its default", **d)
            s = BytesIO()
            Own.write(v, s)
            s.seek(0)
            h.check(s.getvalue() == want and Own.read(s) == v, "a class' streams are in its byte order", **d)


@h.case
def streams(h):
    allv = list(values(h))
    for _ in range(h.n(60)):
        seq = [h.rng.choice(allv) for _ in range(h.rng.randint(1, 8))]
        bo, end = h.rng.choice(ORD)
        kw = {} if bo is None else {"byte_order": bo}
        s = BytesIO()
        total = 0
        want = b""
        for cls, v, size, ref in seq:
            n = cls(value=v).to_stream(s, **kw) if h.rng.random() < 0.5 else cls.write(v, s, **kw)
            h.check(n == size, "a stream write reports the width", kind=cls.kind.name, got=n)
            want += ref(end)
            total += size
        h.check(s.getvalue() == want, "stream writes append the wire bytes in order", got=s.getvalue(), want=want)
        s.seek(0)
        for cls, v, size, ref in seq:
            before = s.tell()
            m = h.rng.random()
            if m < 0.4:
                got = cls.read(s, **kw)
            else:
                q = cls()
                got = q.from_stream(s, **kw)
                h.check(q.value == got, "a stream read stores what it returns", kind=cls.kind.name)
            h.check(got == v and s.tell() == before + size, "stream reads return the values in order and consume exactly their width", kind=cls.kind.name, value=v, got=got, pos=s.tell() - before)
        h.ev([(c.kind.name, v) for c, v, _, _ in seq])


@h.case
def unrepresentable(h):
    for cls in INTS:
        lo, hi, _ = ivals(h, cls)
        for v in [lo - 1, hi + 1, lo * 2 - 7, hi * 3 + 1, h.rng.randint(hi + 1, hi * 5)]:
            for bo, _ in ORD:
                kw = {} if bo is None else {"byte_order": bo}
                s = BytesIO(b"")
                s.write(b"keep")
                h.check(raises(lambda: cls.encode(v, **kw), struct.error), "an integer out of range is refused, not truncated", kind=cls.kind.name, value=v)
                h.check(raises(lambda: cls.write(v, s, **kw), struct.error) and s.getvalue() == b"keep", "a refused write leaves the stream alone", kind=cls.kind.name, value=v)
                h.ev((cls.kind.name, v, str(bo)))


@h.case
def short(h):
    """Data that ends too early isn't a value."""
    for cls in INTS:
        size, _ = width(cls)
        for n in range(size):
            data = bytes(h.rng.randrange(256) for _ in range(n))
            for bo, _ in ORD:
                kw = {} if bo is None else {"byte_order": bo}
                h.check(raises(lambda: cls.decode(data, **kw), struct.error), "too little data is refused", kind=cls.kind.name, data=data)
                h.check(raises(lambda: cls.read(BytesIO(data), **kw), struct.error), "a stream with too little data is refused", kind=cls.kind.name, data=data)
                p = cls(value=1)
                h.check(raises(lambda: p.from_stream(BytesIO(data), **kw), struct.error) and p.value == 1, "a refused read leaves the value alone", kind=cls.kind.name, data=data)
            h.ev((cls.kind.name, data))


@h.case
def reencode(h):
    for cls in INTS:
        size, _ = width(cls)
        for _ in range(h.n(20)):
            data = bytes(h.rng.randrange(256) for _ in range(size))
            for bo, _ in ORD:
                kw = {} if bo is None else {"byte_order": bo}
                h.check(cls.encode(cls.decode(data, **kw), **kw) == data, "decoding then encoding gives the same bytes", kind=cls.kind.name, data=data)
            h.ev((cls.kind.name, data))


def text(h):
    return "".join(h.rng.choice("ab z\0\né€漢😀") for _ in range(h.rng.choice([0, 1, 2, 5, 20, 80])))


@h.case
def strings(h):
    for kind in (Uint8, Uint16, Uint32, Uint64):
        for _ in range(h.n(25)):
            texts = [t for t in (text(h) for _ in range(h.rng.randrange(1, 4))) if len(t.encode()) < 256]
            for bo, order in ORD:
                if bo is None:
                    continue
                s, want, sizes = BytesIO(), b"", []
                for i, t in enumerate(texts):
                    p = StringPrimitive(t, kind=kind, byte_order=bo) if i % 2 else StringPrimitive("ü" * i, kind=kind, byte_order=bo)
                    p.set(t)
                    n = p.write(s)
                    raw = t.encode()
                    want += len(raw).to_bytes(kind().kind.size, order) + raw
                    h.check(p.value == t and str(p) == t and p == t and n == p.size == len(raw) + kind().kind.size, "a string primitive's size is what it writes", text=t, n=n)
                h.check(s.getvalue() == want, "strings are written as their length in bytes and their text", texts=texts, got=s.getvalue())
                s = BytesIO(want + b"after")
                back = [StringPrimitive.from_stream(s, kind=kind, byte_order=bo) for _ in texts]
                h.check([x.value for x in back] == texts and s.read() == b"after", "strings are read back as they were written", texts=texts, got=[x.value for x in back])
                h.ev((kind.__name__, tuple(texts), order))
    for n in (256, 300, 512):
        t = "é" * (n // 2)
        p = StringPrimitive("abc", kind=Uint8)
        h.check(raises(lambda: p.set(t)) and p.value == "abc" and p.size == 4 and raises(lambda: StringPrimitive(t, kind=Uint8)), "a text longer than its length can state is refused", length=n, value=p.value, size=p.size)


h.done()
