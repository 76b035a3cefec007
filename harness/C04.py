import struct
from io import BytesIO
from harness.lib import *
from runtimepy.primitives import (Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, Half, Float, Double, Bool)
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable.fixed import FixedChunk
from runtimepy.primitives.serializable.prefixed import PrefixedChunk
from runtimepy.primitives.serializable.framer import SerializableFramer

h = H()
CH = {Int8: "b", Int16: "h", Int32: "i", Int64: "q", Uint8: "B", Uint16: "H", Uint32: "I", Uint64: "Q", Half: "e", Float: "f", Double: "d", Bool: "?"}
END = {ByteOrder.NATIVE: "<" if sys.byteorder == "little" else ">", ByteOrder.LITTLE_ENDIAN: "<", ByteOrder.BIG_ENDIAN: ">", ByteOrder.NETWORK: ">"}


def rv(h, cls):
    c = CH[cls]
    if c == "?":
        return h.rng.random() < 0.5
    if c in "efd":
        return h.rng.choice([0.0, 1.0, -2.5, 1024.0, h.rng.randint(-2000, 2000) / 8])
    w = 8 * struct.calcsize("<" + c)
    lo, hi = (0, 2**w - 1) if c.isupper() else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return h.rng.choice([lo, hi, 0, 1, h.rng.randint(lo, hi)])


def build(h, lo=0, hi=9):
    order = h.rng.choice(list(ByteOrder))
    a = PrimitiveArray(byte_order=order)
    kinds, bounds = [], {0: 0}
    n = size = 0
    for _ in range(h.rng.randint(lo, hi)):
        cls = h.rng.choice(list(CH))
        rep = h.rng.choice([None, None, 1, 2, 5])
        got = a.add_primitive(cls.kind.name, array_length=rep) if h.rng.random() < 0.5 else a.add(cls(), array_length=rep)
        kinds += [cls] * (rep or 1)
        n += rep or 1
        size += struct.calcsize("<" + CH[cls]) * (rep or 1)
        bounds[n] = size
        h.check(got == size and a.size == size, "adding returns the new size", kinds=[k.__name__ for k in kinds], got=got, want=size)
    return a, kinds, bounds, order


def expect(kinds, vals, order):
    return b"".join(struct.pack(END[order] + CH[k], v) for k, v in zip(kinds, vals))


@h.case
def arrays(h):
    for t in range(h.n(300)):
        a, kinds, bounds, order = build(h)
        vals = [rv(h, k) for k in kinds]
        for i, v in enumerate(vals):
            a[i].value = v
        data = expect(kinds, vals, order)
        names = [k.__name__ for k in kinds]
        h.check(bytes(a) == data, "an array's bytes are its elements' encodings in order", kinds=names, values=vals, order=order, got=bytes(a), want=data)
        h.check(a.size == len(data) == a.length(), "size is the length of the encoding", kinds=names)
        for i, b in bounds.items():
            h.check(a.byte_at_index(i) == b and a.index_at_byte(b) == i, "element and byte positions agree with the layout", kinds=names, index=i, byte=b)
        # decode into a copy
        ids = sorted(bounds)
        frags = []
        if len(ids) > 1:
            for _ in range(h.rng.randint(0, 3)):
                s = h.rng.randrange(len(ids) - 1)
                e = h.rng.randrange(s + 1, len(ids))
                i, j = ids[s], ids[e]
                args = (i, j) if h.rng.random() < 0.5 else (bounds[i], bounds[j])
                f = (a.fragment_from_indices if args == (i, j) and h.rng.random() < 0.7 or args[0] == i and args[1] == j else a.fragment_from_byte_indices)
                if j == ids[-1] and h.rng.random() < 0.5:
                    args = args[:1]
                k = f(*args)
                h.check(k == len(frags) and a.num_fragments == k + 1, "fragments are numbered in order")
                frags.append((i, j))
                h.check(a.fragment_bytes(k) == data[bounds[i]:bounds[j]], "a fragment's bytes are its slice", kinds=names, span=(i, j), got=a.fragment_bytes(k))
        c = a.copy()
        h.check(bytes(c) == data and c.size == a.size and c.byte_order is a.byte_order and c.num_fragments == len(frags), "a copy equals the original", kinds=names, got=bytes(c))
        h.check([type(x) for x in map(c.__getitem__, range(len(kinds)))] == kinds, "a copy keeps the kinds", kinds=names)
        new = [rv(h, k) for k in kinds]
        nd = expect(kinds, new, order)
        tail = b"tail"
        ts = h.rng.randint(1, 10**12)
        if h.rng.random() < 0.5:
            s = BytesIO(nd + tail)
            r = c.from_stream(s, timestamp_ns=ts)
            h.check(s.read() == tail, "reading consumes exactly the array's bytes", kinds=names)
        else:
            r = c.update(nd, timestamp_ns=ts)
        h.check(r == len(nd), "update returns the size", kinds=names, got=r)
        h.check([c[i].value for i in range(len(kinds))] == new, "every element takes its value from the bytes", kinds=names, order=order, want=new)
        h.check(all(c[i].last_updated_ns == ts for i in range(len(kinds))), "every element takes the timestamp", kinds=names)
        h.check(bytes(a) == data, "changing a copy leaves the original", kinds=names)
        for k, (i, j) in enumerate(frags):
            h.check(c.fragment_bytes(k) == nd[bounds[i]:bounds[j]], "a copy's fragments view the copy", kinds=names, span=(i, j))
            v2 = [rv(h, x) for x in kinds[i:j]]
            a.update_fragment(k, expect(kinds[i:j], v2, order), timestamp_ns=ts + 1)
            vals[i:j] = v2
            h.check([a[x].value for x in range(len(kinds))] == vals, "updating a fragment changes exactly its slice", kinds=names, span=(i, j))
            h.check(all((a[x].last_updated_ns == ts + 1) for x in range(i, j)), "a fragment passes the timestamp on", kinds=names)
        data = expect(kinds, vals, order)
        h.check(bytes(a) == data, "the array reflects its fragments", kinds=names)
        if kinds:
            bad = nd[:-1] if h.rng.random() < 0.5 else nd + b"x"
            h.check(raises(lambda: a.update(bad)) and bytes(a) == data, "bytes of the wrong length are refused and change nothing", kinds=names, length=len(bad))
        if h.rng.random() < 0.2:
            a.reset()
            h.check(a.size == 0 and bytes(a) == b"" and a.num_fragments == 0, "reset empties the array")
            stale = [i for i in range(1, len(kinds) + 1) if not raises(lambda: a.byte_at_index(i), KeyError)]
            stale += [b for b in range(1, 8 * len(kinds) + 1) if not raises(lambda: a.index_at_byte(b), KeyError)]
            h.check(not stale, "no position of an element is left after reset", kinds=names, stale=stale)
            a.add(Uint8(3))
            h.check(bytes(a) == b"\x03" and a.byte_at_index(1) == 1 and a.byte_order is order, "an array can be used after reset")
        h.ev((tuple(names), order, tuple(vals), tuple(frags)))


def elem(h):
    r = h.rng.random()
    b = bytes(h.rng.randrange(256) for _ in range(h.rng.choice([0, 1, 3, 17, 255])))
    if r < 0.3:
        return FixedChunk(b)
    if r < 0.6:
        cls = h.rng.choice([Uint8, Uint16, Uint32, Uint64])
        p = PrefixedChunk(cls(), byte_order=h.rng.choice(list(ByteOrder)))
        h.check(p.update(b) == len(b) + cls.kind.size, "a prefixed chunk's size is prefix and contents")
        h.check(bytes(p) == struct.pack(END[p.byte_order] + CH[cls], len(b)) + b, "a prefixed chunk is its length and contents", kind=cls.__name__, order=p.byte_order, data=b, got=bytes(p))
        return p
    a, kinds, _, _ = build(h, 0, 4)
    for i, k in enumerate(kinds):
        a[i].value = rv(h, k)
    return a


@h.case
def oversize(h):
    """Contents that a prefix can't express are refused."""
    for cls, hi in ((Uint8, 255), (Uint16, 65535)):
        for order in END:
            p = PrefixedChunk(cls(), byte_order=order)
            keep = bytes(h.rng.randrange(256) for _ in range(h.rng.choice([0, 3, hi])))
            p.update(keep)
            was = bytes(p)
            for n in (hi + 1, hi + 2 + h.rng.randrange(hi), 2 * hi + 2):
                h.check(raises(lambda: p.update(bytes(n))) and bytes(p) == was and p.size == len(was) == p.length(), "contents a prefix can't express are refused and change nothing", kind=cls.__name__, length=n, got=bytes(p)[:20])
            h.check(p.update(bytes(hi)) == hi + cls.kind.size and bytes(p)[-hi:] == bytes(hi), "contents that just fit are taken", kind=cls.__name__)
            h.ev((cls.__name__, order, keep))


def links(x):
    out = []
    while x is not None:
        out.append(x)
        x = x.chain
    return out


@h.case
def chains(h):
    for t in range(h.n(250)):
        head = elem(h)
        parts = [bytes(head)]
        for _ in range(h.rng.randint(0, 5)):
            e = elem(h)
            rep = h.rng.choice([None, None, 1, 3])
            head.add_to_end(e, array_length=rep)
            parts += [bytes(e)] * (rep or 1)
        if h.rng.random() < 0.5:
            # adding a primitive to the chain's end keeps the chain's encoding
            last = head.end
            if isinstance(head, PrimitiveArray):
                was = isinstance(last, PrimitiveArray)
                head.add(Uint16(513))
                enc = struct.pack(END[(head.end if was else head).byte_order] + "H", 513)
                if was:
                    parts[-1] += enc
                else:
                    parts.append(enc)
        ls = links(head)
        h.check([bytes(x) for x in ls] == parts and len({id(x) for x in ls}) == len(ls), "the chain holds its elements in order", parts=parts)
        want = b"".join(parts)
        s = BytesIO()
        s.write(b"^")
        n = head.to_stream(s)
        h.check(s.getvalue() == b"^" + want and n == len(want) == head.length(), "a chain is written in order and its length is the sum", parts=parts, got=s.getvalue())
        h.check(head.end is ls[-1], "the end of a chain is its last element")
        c = head.copy()
        lc = links(c)
        h.check([bytes(x) for x in lc] == parts and [type(x) for x in lc] == [type(x) for x in ls] and not ({id(x) for x in lc} & {id(x) for x in ls}), "a copied chain equals the original and shares no element", parts=parts, got=[bytes(x) for x in lc])
        h.check([x.byte_order for x in lc] == [x.byte_order for x in ls], "a copied chain keeps byte orders")
        # decode the bytes into the copy after changing it
        for x in lc:
            if isinstance(x, PrefixedChunk):
                x.update(b"other")
            elif isinstance(x, PrimitiveArray):
                x.update(bytes(x.size))
            else:
                x.update(bytes(x.size))
        h.check([bytes(x) for x in ls] == parts, "changing a copied chain leaves the original", parts=parts)
        s = BytesIO(want + b"after")
        n = c.from_stream(s)
        h.check(n == len(want) and s.read() == b"after" and [bytes(x) for x in links(c)] == parts, "a chain read back equals the one written", parts=parts, got=[bytes(x) for x in links(c)])
        h.check(c.length() == len(want), "lengths follow the contents")
        if len(ls) > 1:
            h.check(raises(lambda: head.assign(FixedChunk(b""))) and links(head) == ls, "a chain link is never replaced")
        h.ev((tuple(parts), tuple(type(x).__name__ for x in ls)))


@h.case
def framer(h):
    for t in range(h.n(200)):
        a, kinds, _, order = build(h, 1, 4)
        chained = h.rng.random() < 0.3
        if chained:
            a.add_to_end(FixedChunk(b"xyz"))
        L = a.length()
        ov = h.rng.choice([0, 0, 8, 28])
        mtu = L * h.rng.randint(1, 6) + h.rng.randint(0, L - 1) + ov
        f = SerializableFramer(a, 10**6)
        for _ in range(h.rng.randint(0, 2)):
            f.capture()
        n = f.set_mtu(mtu, protocol_overhead=ov)
        h.check(n == (mtu - ov) // L, "a frame holds as many whole elements as fit", mtu=mtu, overhead=ov, element=L, got=n)
        pend = []
        for _ in range(h.rng.randint(1, 25)):
            for i, k in enumerate(kinds):
                a[i].value = rv(h, k)
            s = BytesIO()
            a.to_stream(s)
            sample, flush = h.rng.random() < 0.8, h.rng.random() < 0.2
            if sample:
                pend.append(s.getvalue())
            r = f.capture(sample=sample, flush=flush)
            if len(pend) == n or flush and pend:
                h.check(r == b"".join(pend), "a frame holds exactly the elements captured since the last one", pending=pend, got=r, chained=chained)
                h.check(r is not None and len(r) <= mtu - ov, "a frame fits the MTU", mtu=mtu)
                pend = []
            else:
                h.check(r is None, "nothing is sent before a frame is full or flushed", pending=len(pend), got=r)
        h.check(raises(lambda: f.set_mtu(L - 1 + ov, protocol_overhead=ov)), "an MTU without room for one element is refused")
        h.ev((mtu, L, n, chained))


h.done()
