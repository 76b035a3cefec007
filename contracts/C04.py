"""C04: primitive arrays and serializable chains."""
from contracts.common import *
from pyvc.models import enc_axioms, RANGES, SIZES
from runtimepy import primitives as RP
from runtimepy.primitives.array import PrimitiveArray, ArrayFragmentSpec
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable import Serializable
from runtimepy.primitives.serializable.fixed import FixedChunk
from runtimepy.primitives.serializable.prefixed import PrefixedChunk
from runtimepy.primitives.serializable.framer import SerializableFramer

ORDERS = {"NATIVE": "<", "NETWORK": ">"}
KINDS = [(RP.Uint8, "B", "int"), (RP.Int32, "i", "int"), (RP.Uint64, "Q", "int"), (RP.Bool, "?", "bool"), (RP.Double, "d", "real")]
MAXN = 3


class GhostList:
    """A list of which only the length is known."""

    def __init__(self, n):
        self.n = n
        self.last = None

    def append(self, x):
        self.n = self.n + 1
        self.last = x

    def __len__(self):
        return self.n


def element(it, i, name):
    cls, code, k = KINDS[i]
    p = call(it, cls).value
    v = it.c.sym(k, name)
    if code in RANGES:
        it.c.assume(z3.And(v.t >= RANGES[code][0], v.t <= RANGES[code][1]))
    it.getattr(p, "raw").value = v
    return p, code, v


def enc_of(it, code, end, v):
    return enc_axioms(it, code, end, tm(it, v))


def array(it, lo=0, hi=MAXN, kinds=tuple(range(5))):
    n = lo + it.c.choose(hi - lo + 1)
    oname = list(ORDERS)[it.c.choose(2)]
    end = ORDERS[oname]
    els = [element(it, kinds[it.c.choose(len(kinds))], f"v{i}") for i in range(n)]
    a = call(it, PrimitiveArray, *[e[0] for e in els], byte_order=ByteOrder[oname]).value
    return a, els, oname, end


def cat(ts):
    ts = list(ts)
    return z3.StringVal("") if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def val(it, p):
    return it.getattr(p, "value")


def b_of(it, o):
    return it.term(call(it, bytes, o).value, "bytes")


def v_layout(it):
    a, els, oname, end = array(it)
    sizes = [SIZES[e[1]] for e in els]
    want = cat(enc_of(it, c, end, v) for _, c, v in els)
    it.c.check("an array's bytes are its elements' encodings in order", b_of(it, a) == want)
    it.c.check("size is the total of the elements' sizes", it.getattr(a, "size") == sum(sizes))
    for i in range(len(els) + 1):
        off = sum(sizes[:i])
        it.c.check("the byte position of an element is the size before it", eqv(it, call(it, method(a, "byte_at_index"), i).value, off))
        it.c.check("a byte position leads back to its element", eqv(it, call(it, method(a, "index_at_byte"), off).value, i))
    for i, e in enumerate(els):
        it.c.check("elements are held by reference, in order", it.getitem(a, i) is e[0])
    cover(it, "return")


def v_reset(it):
    """An array that is reset is an empty one: its layout is that of what is added next."""
    a, els, oname, end = array(it, 1)
    n, total = len(els), sum(SIZES[e[1]] for e in els)
    if it.c.choose(2):
        call(it, method(a, "fragment_from_indices"), 0)
    o = call(it, method(a, "reset"))
    it.c.check("reset empties the array", o.ok and And(eqv(it, it.getattr(a, "size"), 0), eqv(it, it.getattr(a, "num_fragments"), 0), b_of(it, a) == z3.StringVal("")))
    for i in range(1, n + 1):
        it.c.check("no position of an element is left after reset", call(it, method(a, "byte_at_index"), i).raised(KeyError))
        it.c.check("no byte position is left after reset", call(it, method(a, "index_at_byte"), sum(SIZES[e[1]] for e in els[:i])).raised(KeyError))
    p, code, v = element(it, 0, "next")
    call(it, method(a, "add"), p)
    it.c.check("what is added after reset comes first", And(b_of(it, a) == enc_of(it, code, end, v), eqv(it, it.getattr(a, "size"), SIZES[code]), eqv(it, call(it, method(a, "byte_at_index"), 1).value, SIZES[code])))
    it.c.check("reset keeps the byte order", it.getattr(a, "byte_order") is ByteOrder[oname])
    cover(it, "return")


def v_update(it):
    a, els, oname, end = array(it)
    new = []
    for i, (p, code, v) in enumerate(els):
        w = it.c.sym({"?": "bool", "d": "real"}.get(code, "int"), f"w{i}")
        if code in RANGES:
            it.c.assume(z3.And(w.t >= RANGES[code][0], w.t <= RANGES[code][1]))
        new.append(w)
    data = cat(enc_of(it, e[1], end, w) for e, w in zip(els, new))
    ts = it.c.sym("int", "timestamp")
    how = it.c.choose(2)
    if how == 0:
        o = call(it, method(a, "update"), Sym("bytes", data), timestamp_ns=ts)
    else:
        rest = it.c.sym("bytes", "rest")
        s = Stream(z3.Concat(data, rest.t))
        o = call(it, method(a, "from_stream"), s, timestamp_ns=ts)
        it.c.check("reading consumes exactly the array's bytes", s.pos == z3.Length(data))
    it.c.check("update returns the size consumed", o.ok and eqv(it, o.value, sum(SIZES[e[1]] for e in els)))
    for e, w in zip(els, new):
        it.c.check("every element takes its value from the bytes", eqv(it, val(it, e[0]), w))
        it.c.check("every element takes the timestamp given", eqv(it, it.getattr(e[0], "last_updated_ns"), ts))
    it.c.check("re-encoding gives the same bytes", b_of(it, a) == data)
    cover(it, "return")


def v_fragment(it):
    a, els, oname, end = array(it, 1, kinds=(0, 2, 3))
    n = len(els)
    sizes = [SIZES[e[1]] for e in els]
    i = it.c.choose(n)
    j = i + 1 + it.c.choose(n - i)
    last = j == n and it.c.choose(2) == 1
    byb = it.c.choose(2) == 1
    lo, hi = (sum(sizes[:i]), sum(sizes[:j])) if byb else (i, j)
    o = call(it, method(a, "fragment_from_byte_indices" if byb else "fragment_from_indices"), lo, *([] if last else [hi]))
    it.c.check("fragments are numbered from zero", o.ok and eqv(it, o.value, 0))
    it.c.check("the number of fragments is counted", eqv(it, it.getattr(a, "num_fragments"), 1))
    want = cat(enc_of(it, c, end, v) for _, c, v in els[i:j])
    it.c.check("a fragment's bytes are its slice of the array", it.term(call(it, method(a, "fragment_bytes"), 0).value, "bytes") == want)
    new = []
    for k, (p, code, v) in enumerate(els[i:j]):
        w = it.c.sym({"?": "bool", "d": "real"}.get(code, "int"), f"w{k}")
        if code in RANGES:
            it.c.assume(z3.And(w.t >= RANGES[code][0], w.t <= RANGES[code][1]))
        new.append(w)
    ts = it.c.sym("int", "ts")
    call(it, method(a, "update_fragment"), 0, Sym("bytes", cat(enc_of(it, e[1], end, w) for e, w in zip(els[i:j], new))), timestamp_ns=ts)
    for k, e in enumerate(els):
        it.c.check("updating a fragment changes exactly its slice", eqv(it, val(it, e[0]), new[k - i] if i <= k < j else e[2]))
    cover(it, "return")


def v_copy(it):
    a, els, oname, end = array(it, 0, 2)
    frag = bool(els) and it.c.choose(2) == 1
    if frag:
        call(it, method(a, "fragment_from_indices"), len(els) - 1)
    chained = it.c.choose(2) == 1
    data = it.c.sym("bytes", "chunk")
    if chained:
        ch = call(it, FixedChunk, data).value
        call(it, method(a, "assign"), ch)
    before = b_of(it, a)
    c = call(it, method(a, "copy")).value
    it.c.check("a copy is another array with the same bytes", c is not a and b_of(it, c) == before)
    it.c.check("a copy keeps byte order and size", it.getattr(c, "byte_order") is ByteOrder[oname] and it.getattr(c, "size") == it.getattr(a, "size"))
    it.c.check("a copy has the same number of fragments", eqv(it, it.getattr(c, "num_fragments"), int(frag)))
    if frag:
        it.c.check("a copy's fragment encodes the same slice", it.term(call(it, method(c, "fragment_bytes"), 0).value, "bytes") == enc_of(it, els[-1][1], end, els[-1][2]))
    cc = it.getattr(c, "chain")
    if chained:
        it.c.check("a copy has its own copy of the chain", cc is not None and cc is not ch and b_of(it, cc) == data.t)
    else:
        it.c.check("a copy of an unchained array is unchained", cc is None)
    for k, (p, code, v) in enumerate(els):
        q = it.getitem(c, k)
        w = it.c.sym({"?": "bool", "d": "real"}.get(code, "int"), f"w{k}")
        if code in RANGES:
            it.c.assume(z3.And(w.t >= RANGES[code][0], w.t <= RANGES[code][1]))
        it.setattr(q, "value", w)
        it.c.check("elements of a copy are independent", q is not p and eqv(it, val(it, p), v))
        if frag and k == len(els) - 1:
            it.c.check("a copy's fragment views the copy", it.term(call(it, method(c, "fragment_bytes"), 0).value, "bytes") == enc_of(it, code, end, w))
    it.c.check("changing a copy leaves the original's bytes", b_of(it, a) == before)
    cover(it, "return")


# -- add, for arrays of any size and any repeat count
def cfg_add(cfg):
    base_cfg(cfg)

    def inv(it, env, i, n):
        g = it.c.ghost
        a, R = g["a"], g["R"]
        it.c.assume(R(i + 1) == z3.Concat(R(i), z3.StringVal(g["code"])))
        return [
            ("one more element per repetition", tm(it, it.getattr(it.getattr(a, "_primitives"), "n")) == g["n0"] + 1 + i),
            ("size grows by the element's size", tm(it, it.getattr(a, "size")) == g["s0"] + g["w"] * (1 + i)),
            ("the format grows by the element's code", it.term(it.getattr(a, "_format"), "str") == z3.Concat(g["f0"], R(1 + i))),
        ]

    def havoc(it, env):
        a = it.c.ghost["a"]
        l = it.getattr(a, "_primitives")
        l.attrs["n"] = Sym("int", it.c.fresh(z3.IntSort(), "n"))
        a.attrs["size"] = Sym("int", it.c.fresh(z3.IntSort(), "size"))
        a.attrs["_format"] = Sym("str", it.c.fresh(z3.StringSort(), "fmt"))
        for o in ((a, "size"), (a, "_format"), (l, "n"), (l, "last")):
            it.allow(*o)

    cfg.loop(PrimitiveArray.add, 0, LoopSpec(inv, havoc))


def v_add(it):
    cls, code, k = KINDS[it.c.choose(len(KINDS))]
    n0, s0, f0 = it.c.sym("int", "count"), it.c.sym("int", "size"), it.c.sym("str", "format")
    i2b, b2i = it.sym_dict(INT, INT, "index_to_bytes"), it.sym_dict(INT, INT, "bytes_to_index")
    # type invariant of the lookup tables
    x = z3.Int("x")
    it.c.assume(And(n0.t >= 0, s0.t >= 0))
    it.c.assume(z3.ForAll([x], z3.Implies(i2b.dom[x], z3.And(x >= 0, x <= n0.t, i2b.val[x] >= 0, i2b.val[x] <= s0.t, b2i.dom[i2b.val[x]], b2i.val[i2b.val[x]] == x))))
    it.c.assume(z3.ForAll([x], z3.Implies(b2i.dom[x], z3.And(x >= 0, x <= s0.t, i2b.dom[b2i.val[x]], i2b.val[b2i.val[x]] == x))))
    it.c.assume(And(i2b.dom[n0.t], i2b.val[n0.t] == s0.t))
    l = new(it, GhostList, n=n0, last=None)
    a = new(it, PrimitiveArray, _primitives=l, byte_order=ByteOrder.NETWORK, _format=f0, size=s0, chain=None,
            _bytes_to_index=b2i, _index_to_bytes=i2b, _fragments=MList([]), _fragment_specs=MList([]))
    p = call(it, cls).value
    R = z3.Function("rep_" + code, z3.IntSort(), z3.StringSort())
    it.c.assume(And(R(z3.IntVal(0)) == z3.StringVal(""), R(z3.IntVal(1)) == z3.StringVal(code)))
    w = cls.kind.size
    it.c.ghost.update(a=a, R=R, code=code if code != "Q" else "Q", n0=n0.t, s0=s0.t, f0=f0.t, w=w)
    it.c.ghost["code"] = cls.kind.format
    it.c.assume(R(z3.IntVal(1)) == z3.StringVal(cls.kind.format))
    rep = it.c.choose(2) == 1
    m = it.c.sym("int", "array_length")
    it.c.assume(m.t >= 1)
    d0, v0, e0, w0 = i2b.dom, i2b.val, b2i.dom, b2i.val
    o = call(it, method(a, "add"), p, **({"array_length": m} if rep else {}))
    cnt = m.t if rep else z3.IntVal(1)
    n1, s1 = tm(it, it.getattr(l, "n")), tm(it, it.getattr(a, "size"))
    it.c.check("adding appends that many elements", o.ok and n1 == n0.t + cnt)
    it.c.check("size grows by the elements' sizes", s1 == s0.t + w * cnt)
    it.c.check("the result is the new size", eqv(it, o.value, Sym("int", s1)))
    it.c.check("the format describes the elements in order", it.term(it.getattr(a, "_format"), "str") == z3.Concat(f0.t, R(cnt)))
    it.c.check("element positions: the new end is indexed, the others stay", And(i2b.dom == z3.Store(d0, n1, True), i2b.val == z3.Store(v0, n1, s1)))
    it.c.check("byte positions: the new end is indexed, the others stay", And(b2i.dom == z3.Store(e0, s1, True), b2i.val == z3.Store(w0, s1, n1)))
    cover(it, "return")


# -- chains, by induction over the rest of the chain
class Rest(Serializable):
    """The rest of a chain, known by its contract only."""

    def _copy_impl(self):
        raise NotImplementedError

    def __bytes__(self):
        return self.own

    def update(self, data, timestamp_ns=None):
        raise NotImplementedError


def head(it, which):
    """A serializable with arbitrary own bytes."""
    data = it.c.sym("bytes", "data")
    if which == 0:
        return call(it, FixedChunk, data).value, data.t, z3.Length(data.t)
    p = call(it, PrefixedChunk, call(it, RP.Uint16).value).value
    it.c.assume(z3.Length(data.t) < 65536)
    o = call(it, method(p, "update"), data)
    it.c.check("update returns the new size", o.ok and eqv(it, o.value, Sym("int", z3.Length(data.t) + 2)))
    return p, z3.Concat(enc_axioms(it, "H", ">", z3.Length(data.t)), data.t), z3.Length(data.t) + 2


PREFIXES = [(RP.Uint8, "B"), (RP.Uint16, "H"), (RP.Uint32, "I"), (RP.Uint64, "Q")]


def v_prefixed(it):
    """Length-prefixed chunks of every prefix kind and byte order."""
    kind, code = PREFIXES[it.c.choose(4)]
    bo, end = [(ByteOrder.NATIVE, "<"), (ByteOrder.LITTLE_ENDIAN, "<"), (ByteOrder.BIG_ENDIAN, ">"), (ByteOrder.NETWORK, ">")][it.c.choose(4)]
    w, hi = kind.kind.size, RANGES[code][1]
    p = call(it, PrefixedChunk, call(it, kind).value, byte_order=bo).value
    data = it.c.sym("bytes", "data")
    old = it.c.sym("bytes", "old")
    it.c.assume(z3.Length(old.t) <= hi)
    call(it, method(p, "update"), old)
    before = z3.Concat(enc_axioms(it, code, end, z3.Length(old.t)), old.t)
    o = call(it, method(p, "update"), data)
    own = z3.Concat(enc_axioms(it, code, end, z3.Length(data.t)), data.t)
    it.c.check("contents are taken exactly if the prefix can express their length", eqv(it, Sym("bool", z3.Length(data.t) <= hi), o.ok))
    if o.ok:
        it.c.check("a prefixed chunk is its length and contents", And(b_of(it, p) == own, eqv(it, it.getattr(p, "size"), Sym("int", z3.Length(data.t) + w)), eqv(it, o.value, Sym("int", z3.Length(data.t) + w))))
        cover(it, "return")
    else:
        it.c.check("refused contents change nothing", And(b_of(it, p) == before, eqv(it, it.getattr(p, "size"), Sym("int", z3.Length(old.t) + w))))
        cover(it, "refused")


def v_chain(it):
    h, own, size = head(it, it.c.choose(2))
    it.c.check("size is the length of the encoding", And(eqv(it, it.getattr(h, "size"), Sym("int", size)), z3.Length(own) == size, b_of(it, h) == own))
    n = it.c.sym("int", "rest_length")
    rb = it.c.sym("bytes", "rest_bytes")
    it.c.assume(n.t == z3.Length(rb.t))
    rest = new(it, Rest, chain=None, size=n, own=rb, byte_order=ByteOrder.NETWORK)
    rest.attrs["length"] = Prim(lambda it, a, kw: n, "length")
    tail = new(it, Rest, chain=None)

    def to_stream(it, a, kw):
        call(it, it.getattr(a[0], "write"), rb)
        return n

    rest.attrs["to_stream"] = Prim(to_stream, "to_stream")
    empty = it.c.choose(2) == 1
    if not empty:
        h.attrs["chain"] = rest
    tot = size if empty else size + n.t
    out = own if empty else z3.Concat(own, rb.t)
    it.c.check("a chain's length is the sum of its parts", eqv(it, call(it, method(h, "length")).value, Sym("int", tot)))
    s = Stream(it.c.sym("bytes", "before").t)
    s.pos = z3.Length(s.data)
    start = s.data
    o = call(it, method(h, "to_stream"), s)
    it.c.check("a chain is written in order", s.data == z3.Concat(start, out))
    it.c.check("writing returns the number of bytes", o.ok and eqv(it, o.value, Sym("int", tot)))
    cover(it, "return")


def v_chain_read(it):
    which = it.c.choose(2)
    old, _, _ = head(it, which)
    data = it.c.sym("bytes", "new_data")
    after = it.c.sym("bytes", "after")
    if which == 0:
        it.c.assume(eqv(it, it.getattr(old, "size"), Sym("int", z3.Length(data.t))))
        own = data.t
    else:
        it.c.assume(z3.Length(data.t) < 65536)
        own = z3.Concat(enc_axioms(it, "H", ">", z3.Length(data.t)), data.t)
    seen = []

    def from_stream(it, a, kw):
        seen.append((a[0].pos, kw.get("timestamp_ns")))
        return 7

    rest = new(it, Rest, chain=None)
    rest.attrs["from_stream"] = Prim(from_stream, "from_stream")
    chained = it.c.choose(2) == 1
    if chained:
        old.attrs["chain"] = rest
    s = Stream(z3.Concat(own, after.t))
    ts = it.c.sym("int", "ts")
    o = call(it, method(old, "from_stream"), s, timestamp_ns=ts)
    it.c.check("reading returns the bytes consumed by the whole chain", o.ok and eqv(it, o.value, Sym("int", z3.Length(own) + (7 if chained else 0))))
    it.c.check("the element holds what was read", b_of(it, old) == own)
    it.c.check("size follows the contents", eqv(it, it.getattr(old, "size"), Sym("int", z3.Length(own))))
    if chained:
        it.c.check("the rest of the chain is read next, with the same timestamp", len(seen) == 1 and And(seen[0][0] == z3.Length(own), eqv(it, seen[0][1], ts)))
    cover(it, "return")


def v_chain_edit(it):
    h, own, size = head(it, it.c.choose(2))
    c2, c3 = (call(it, FixedChunk, it.c.sym("bytes", n)).value for n in ("c2", "c3"))
    call(it, method(h, "add_to_end"), c2)
    k = 1 + it.c.choose(3)
    rep = it.c.choose(2) == 1
    call(it, method(h, "add_to_end"), c3, **({"array_length": k} if rep else {}))
    parts, o = [], h
    while o is not None:
        parts.append(o)
        o = it.getattr(o, "chain")
    k = k if rep else 1
    it.c.check("elements are added at the end of the chain, repeated as copies", len(parts) == 2 + k and parts[0] is h and parts[1] is c2 and parts[2] is c3 and len({id(x) for x in parts}) == len(parts))
    for x in parts[3:]:
        it.c.check("repeated elements are equal copies", b_of(it, x) == b_of(it, c3))
    o = call(it, method(h, "assign"), call(it, FixedChunk, b"x").value)
    it.c.check("a chain link is never replaced", o.raised(AssertionError) and it.getattr(h, "chain") is c2)
    o = call(it, method(h, "copy"))
    it.c.check("a chain can be copied", o.ok)
    x, n = o.value, 0
    while x is not None:
        it.c.check("a copied chain equals the original, element by element", n < len(parts) and x is not parts[n] and b_of(it, x) == b_of(it, parts[n]) and it.getattr(x, "byte_order") is it.getattr(parts[n], "byte_order"))
        x = it.getattr(x, "chain")
        n += 1
    it.c.check("a copied chain has the same length", n == len(parts))
    cover(it, "return")


# -- framer
def v_set_mtu(it):
    n = it.c.sym("int", "length")
    inst = new(it, Rest, chain=None)
    inst.attrs["length"] = Prim(lambda it, a, kw: n, "length")
    f = new(it, SerializableFramer, instance=inst)
    mtu, ov = it.c.sym("int", "mtu"), it.c.sym("int", "overhead")
    it.c.assume(And(n.t > 0, mtu.t > 0, ov.t >= 0))
    o = call(it, method(f, "set_mtu"), mtu, protocol_overhead=ov)
    if o.ok:
        L = tm(it, it.getattr(f, "length"))
        it.c.check("a frame holds as many whole elements as fit", And(L > 0, L * n.t <= mtu.t - ov.t, (L + 1) * n.t > mtu.t - ov.t))
        it.c.check("the number of elements is returned", eqv(it, o.value, Sym("int", L)))
        it.c.check("changing the MTU starts an empty frame", And(eqv(it, it.getattr(f, "elements"), 0), it.term(it.getattr(f, "raw"), "bytes") == z3.StringVal("")))
        cover(it, "return")
    else:
        it.c.check("only an MTU without room for one element is refused", o.raised(AssertionError) and mtu.t - ov.t < n.t)
        cover(it, "refused")


def v_capture(it):
    one, raw = it.c.sym("bytes", "encoding"), it.c.sym("bytes", "pending")
    n, L = it.c.sym("int", "elements"), it.c.sym("int", "length")
    inst = new(it, Rest, chain=None)

    def to_stream(it, a, kw):
        call(it, it.getattr(a[0], "write"), one)
        return Sym("int", z3.Length(one.t))

    inst.attrs["to_stream"] = Prim(to_stream, "to_stream")
    f = new(it, SerializableFramer, instance=inst, elements=n, length=L, raw=raw)
    it.c.assume(And(n.t >= 0, n.t < L.t, z3.Length(one.t) > 0, (z3.Length(raw.t) == 0) == (n.t == 0)))
    sample, flush = it.c.choose(2) == 1, it.c.choose(2) == 1
    o = call(it, method(f, "capture"), sample=sample, flush=flush)
    k = n.t + 1 if sample else n.t
    allb = z3.Concat(raw.t, one.t) if sample else raw.t
    out = And(k > 0, flush) if flush else And(k == L.t, k > 0)
    left, cnt = it.term(it.getattr(f, "raw"), "bytes"), tm(it, it.getattr(f, "elements"))
    if o.value is None:
        it.c.check("nothing is sent before the frame is full or flushed", z3.Not(out))
        it.c.check("captured elements are kept in order until sent", And(left == allb, cnt == k, k < L.t))
        cover(it, "kept")
    else:
        it.c.check("a frame is sent when full, or flushed with something in it", out)
        it.c.check("a frame holds exactly the elements captured since the last one", it.term(o.value, "bytes") == allb)
        it.c.check("the next frame starts empty", And(left == z3.StringVal(""), cnt == 0))
        cover(it, "sent")


A = "runtimepy.primitives.array:PrimitiveArray"
S = "runtimepy.primitives.serializable.base:Serializable"
FR = "runtimepy.primitives.serializable.framer:SerializableFramer"
CONTRACTS = [
    Unit("PrefixedChunk.update", "runtimepy.primitives.serializable.prefixed:PrefixedChunk.update", v_prefixed, base_cfg, covers=("return", "refused"), branch_ms=150),
    Unit("add", A + ".add", v_add, cfg_add),
    Unit(f"layout (arrays of up to {MAXN} elements)", A + ".__bytes__", v_layout, base_cfg),
    Unit(f"reset (arrays of up to {MAXN} elements)", A + ".reset", v_reset, base_cfg, branch_ms=300),
    Unit(f"update (arrays of up to {MAXN} elements)", A + ".update", v_update, base_cfg, branch_ms=300),
    Unit("fragments (arrays of up to 3 elements)", A + ".update_fragment", v_fragment, base_cfg, branch_ms=300),
    Unit("copy (arrays of up to 2 elements)", A + "._copy_impl", v_copy, base_cfg, branch_ms=300),
    Unit("chain length and writing", S + ".to_stream", v_chain, base_cfg, branch_ms=300),
    Unit("chain reading", S + ".from_stream", v_chain_read, base_cfg, branch_ms=300),
    Unit("chain editing and copy", S + ".add_to_end", v_chain_edit, base_cfg, branch_ms=300),
    Unit("set_mtu", FR + ".set_mtu", v_set_mtu, base_cfg, covers=("return", "refused")),
    Unit("capture", FR + ".capture", v_capture, base_cfg, covers=("kept", "sent")),
]
