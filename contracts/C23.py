"""C23: protocols and custom types."""
from contracts.common import *
import logging
from contracts.C15 import Log, zb
from vcorelib.dict.codec import DictCodec
from runtimepy import primitives as RP
from runtimepy.codec.protocol import Protocol, ProtocolFactory
from runtimepy.codec.protocol import base as PB
from runtimepy.codec.protocol.base import FieldSpec, ProtocolBase
from runtimepy.codec.protocol.json import JsonProtocol
from runtimepy.codec import system as SYS
from runtimepy.codec.system import TypeSystem
from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable.fixed import FixedChunk



def codec_init(it, a, kw):
    """DictCodec.__init__, schemas assumed to accept and keep the data."""
    self, data = a[0], a[1] if len(a) > 1 else kw.get("data")
    it.setattr(self, "data", MDict([]) if data is None else data)
    it.call(it.getattr(self, "init"), [self.attrs["data"]])


def cfg_reg(cfg):
    base_cfg(cfg)
    cfg.model(DictCodec.__init__, codec_init, "vcorelib.dict.codec:DictCodec.__init__ (schemas assumed to accept)")
    cfg.model(logging.getLogger, lambda it, a, kw: new(it, Log), "logging.getLogger")


def registry(it):
    return call(it, EnumRegistry, MDict([("e", MDict([("id", 1), ("type", "int"), ("primitive", "uint16"), ("items", MDict([("on", 1), ("off", 7)]))]))])).value


def flat(it, a):
    """What a chain consists of, in the order of its bytes."""
    out = []
    while a is not None:
        if isinstance(a, SObj) and a.cls is PrimitiveArray:
            out += [(p, it.getattr(p, "kind")) for p in it.to_items(a.attrs["_primitives"])]
        else:
            out.append((a, it.getattr(a, "size")))
        a = it.getattr(a, "chain")
    return out


def kinds(it, a):
    return [k if isinstance(k, int) else it.getattr(k, "name") for _, k in flat(it, a)]


STEPS = ("u8", "i16x3", "enum", "bits", "chunk", "chunkx2", "nested", "nestedx2")
WANT = {"u8": ["uint8"], "i16x3": ["int16"] * 3, "enum": ["uint16"], "bits": ["uint8"], "chunk": [3], "chunkx2": [3, 3],
        "nested": ["uint32", "uint8"], "nestedx2": ["uint32", "uint8"] * 2}


def inner(it):
    """An array with a chain of its own."""
    a = call(it, PrimitiveArray, call(it, RP.Uint32).value).value
    b = call(it, PrimitiveArray, call(it, RP.Uint8).value).value
    call(it, method(a, "assign"), b)
    return a


def add(it, p, step, i):
    n = f"{step}_{i}"
    if step == "u8":
        return call(it, method(p, "add_field"), n, "uint8"), [n]
    if step == "i16x3":
        return call(it, method(p, "add_field"), n, "int16", array_length=3), [n]
    if step == "enum":
        return call(it, method(p, "add_field"), n, enum="e"), [n]
    if step == "bits":
        def body(fields):
            call(it, method(fields, "flag"), n + "f")
            call(it, method(fields, "field"), n + "w", 3)
        return Run(it.run_with(it.call(method(p, "add_bit_fields"), []), body)), [n + "f", n + "w"]
    k = dict(array_length=2) if step.endswith("x2") else {}
    s = call(it, FixedChunk, b"abc").value if step.startswith("chunk") else inner(it)
    return call(it, method(p, "add_field"), n, serializable=s, **k), []


class Run:
    ok = True

    def __init__(self, v):
        self.value = v


def build(it, most, order=None, only=range(len(STEPS))):
    reg = registry(it)
    o = call(it, Protocol, reg, identifier=7, byte_order=order or ByteOrder.LITTLE_ENDIAN)
    it.c.check("a protocol can be created", o.ok)
    p = o.value
    want, names, steps = [], [], []
    for i in range(it.c.choose(most) + 1):
        s = STEPS[only[it.c.choose(len(only))]]
        o, ns = add(it, p, s, i)
        it.c.check("fields can be added", o.ok)
        want += WANT[s]
        names += ns
        steps.append(s)
    return p, want, names, steps


def size(want):
    return sum(k if isinstance(k, int) else {"uint8": 1, "int16": 2, "uint16": 2, "uint32": 4}[k] for k in want)


def layout(it, p, want, what):
    it.c.check(f"{what} consists of the fields added, in order", kinds(it, p.attrs["array"]) == want)
    it.c.check(f"{what} has the sum of their sizes", zb(it.truth(it.eq(it.getattr(p, "size"), size(want)))) if not isinstance(it.getattr(p, "size"), int) else it.getattr(p, "size") == size(want))


def getv(it, p, n):
    return call(it, method(p, "value"), n, resolve_enum=False)


def setv(it, p, n, v):
    return call(it, method(p, "__setitem__"), n, v)


def regular(names):
    """Bit-fields' values are C07's: only where they are kept matters here."""
    return [n for n in names if not n.startswith("bits")]


def fresh(it, n, k):
    v = it.c.sym("int", k)
    it.c.assume(z3.And(v.t >= 0, v.t < 200))
    return v


def eqt(it, a, b):
    return tm(it, a, "int") == tm(it, b, "int")


def apart(it, p, c, names):
    """Two instances have nothing in common."""
    a, b = [x for x, _ in flat(it, p.attrs["array"])], [x for x, _ in flat(it, c.attrs["array"])]
    it.c.check("instances share no field", not any(x is y for x in a for y in b))
    for x in (p, c):
        mine = a if x is p else b
        for n in names:
            f = dict(x.attrs["_regular_fields"].pairs).get(n)
            if f is None:
                f = it.getattr(call(it, method(x.attrs["_fields"], "__getitem__"), n).value, "raw")
            it.c.check("every field is one of its own instance's", any(f is y for y in mine))
            pos = [i for i, y in enumerate(mine) if f is y]
            if x is p:
                where = it.c.ghost.setdefault("where", {})
                where[n] = pos
            else:
                it.c.check("at the same place", it.c.ghost["where"][n] == pos)
    for n, s in x.attrs["serializables"].pairs:
        it.c.check("so is every named part", any(s is y or isinstance(s, SObj) and s.cls is PrimitiveArray for y in b))


def v_build(it):
    order = [ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN][it.c.choose(2)]
    p, want, names, steps = build(it, 3, order)
    layout(it, p, want, "a protocol")
    it.c.check("it has the byte order given", p.attrs["array"].attrs["byte_order"] is order)
    seen, names = {}, regular(names)
    for i, n in enumerate(names):
        seen[n] = fresh(it, n, f"v{i}")
        o = setv(it, p, n, seen[n])
        it.c.check("every field can be set", o.ok)
    for n in names:
        o = getv(it, p, n)
        it.c.check("and has the value it was set to, whatever others were", And(o.ok, eqt(it, o.value, seen[n])))
    cover(it, "return")


def v_copy(it):
    p, want, names, steps = build(it, 2)
    before = {n: fresh(it, n, f"v{i}") for i, n in enumerate(regular(names))}
    for n, v in before.items():
        setv(it, p, n, v)
    o = call(it, method(p, "__copy__"))
    it.c.check("a protocol can be copied", o.ok)
    c = o.value
    if it.c.choose(2):
        o = call(it, method(c, "__copy__"))
        it.c.check("and so can its copy", o.ok)
        c = o.value
    layout(it, c, want, "a copy")
    layout(it, p, want, "the original")
    it.c.check("its identifier and byte order are the original's", And(it.eq(c.attrs["id"], 7), c.attrs["array"].attrs["byte_order"] is p.attrs["array"].attrs["byte_order"]))
    it.c.check("it is built as the original", len(it.to_items(c.attrs["_build"])) == len(steps))
    it.c.check("bit-fields are the original's", len(it.to_items(c.attrs["_fields"].attrs["fields"])) == steps.count("bits"))
    apart(it, p, c, names)
    for i, n in enumerate(before):
        v = fresh(it, n, f"w{i}")
        o = setv(it, c, n, v)
        g = getv(it, c, n)
        it.c.check("the copy's fields can be set", And(o.ok, g.ok, eqt(it, g.value, v)))
    for n, v in before.items():
        g = getv(it, p, n)
        it.c.check("which doesn't change the original's", And(g.ok, eqt(it, g.value, v)))
    cover(it, "return")


def v_wire(it):
    """The bytes of one instance are the other's values."""
    order = [ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN][it.c.choose(2)]
    p, want, names, steps = build(it, 2, order)
    c = call(it, method(p, "__copy__")).value
    new = {n: fresh(it, n, f"v{i}") for i, n in enumerate(regular(names))}
    for n, v in new.items():
        setv(it, p, n, v)
    w = Stream(z3.StringVal(""))
    o = call(it, method(p.attrs["array"], "to_stream"), w)
    it.c.check("an instance can be written, and has its size", And(o.ok, eqv(it, o.value, size(want)), z3.Length(w.data) == size(want)))
    o = call(it, method(c.attrs["array"], "from_stream"), Stream(w.data))
    it.c.check("and read by another", And(o.ok, eqv(it, o.value, size(want))))
    for n, v in new.items():
        g = getv(it, c, n)
        it.c.check("which then has its values", And(g.ok, eqt(it, g.value, v)))
    cover(it, "return")


JSTEPS = [i for i, s in enumerate(STEPS) if s in ("u8", "i16x3", "enum", "bits")]


def plain(it, v):
    """A copy of exported data, as through text."""
    if isinstance(v, MDict):
        return MDict([[k, plain(it, x)] for k, x in v.pairs])
    if isinstance(v, (MList, list, tuple)):
        return MList(items=[plain(it, x) for x in it.to_items(v)])
    return v


def v_json(it):
    order = [ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN][it.c.choose(2)]
    p, want, names, steps = build(it, 2, order, JSTEPS)
    new = {n: fresh(it, n, f"v{i}") for i, n in enumerate(regular(names))}
    resolve = it.c.choose(2) == 1
    for n, v in new.items():
        if resolve and n.startswith("enum"):
            it.c.assume(z3.Or(v.t == 1, v.t == 7))
        setv(it, p, n, v)
    o = call(it, method(p, "export_json"), resolve_enum=resolve)
    it.c.check("a protocol can be exported", o.ok)
    o = call(it, Protocol.import_json, plain(it, o.value))
    it.c.check("and imported", o.ok)
    c = o.value
    layout(it, c, want, "what was imported")
    it.c.check("its identifier and byte order are the original's", And(it.eq(c.attrs["id"], 7), c.attrs["array"].attrs["byte_order"] is order))
    apart(it, p, c, names)
    for n, v in new.items():
        g = getv(it, c, n)
        it.c.check("and so are its values", And(g.ok, eqt(it, g.value, v)))
    for n in names:
        a, b = [call(it, method(x.attrs["names"], "identifier"), n) for x in (p, c)]
        it.c.check("and the identifiers of its names", And(a.ok, b.ok, it.eq(a.value, b.value)))
    cover(it, "return")


def system(it, *ns):
    o = call(it, TypeSystem, *ns)
    it.c.check("a type system can be created", o.ok)
    s = o.value
    for n in "ABC":
        o = call(it, method(s, "register"), n)
        it.c.check("types can be registered", o.ok)
    o = call(it, method(s, "enum"), "E", MDict([("a", 1), ("b", 2)]), primitive="uint16")
    it.c.check("and enumerations", o.ok)
    return s


PARTS = [("A", "uint8", None), ("A", "float", 3), ("A", "E", 2), ("B", "A", None), ("B", "A", 2), ("B", "int16", None), ("C", "B", 3), ("C", "A", None)]


def v_types(it):
    s = system(it, "ns")
    sizes = dict(A=0, B=0, C=0, uint8=1, int16=2, float=4, E=2)
    for i in range(it.c.choose(3) + 1):
        t, k, n = PARTS[it.c.choose(len(PARTS))]
        o = call(it, method(s, "add"), t, f"f{i}", k, array_length=n)
        if not sizes[k]:
            return                                          # an empty type as a field says nothing
        it.c.check("fields can be added", o.ok)
        sizes[t] += sizes[k] * (n or 1)
        for x, want in sizes.items():
            g = call(it, method(s, "size"), x)
            it.c.check("every type has the sum of its fields' sizes, as they were when they were added", And(g.ok, it.eq(g.value, want)))
            if x in "ABC":
                q = call(it, method(s, "get_protocol"), x)
                it.c.check("and so has its protocol", And(q.ok, it.eq(it.getattr(q.value, "size"), want)))
                c = call(it, method(q.value, "__copy__"))
                it.c.check("and an instance of it", And(c.ok, it.eq(it.getattr(c.value, "size"), want)))
    cover(it, "return")


def v_names(it):
    s = system(it, "ns", "inner")
    call(it, method(s, "register"), "D", "deep")
    before = lambda: ([k for k, _ in s.attrs["custom"].pairs], [k for k, _ in s.attrs["primitives"].pairs])
    b = before()
    it.c.check("types are kept by their full names", b[0] == ["ns::inner::" + x for x in ("A", "B", "C", "deep::D")])
    k = it.c.choose(9)
    m, a, kw = [("register", ["A"], {}), ("register", ["E"], {}), ("enum", ["A", MDict([("x", 1)])], {}), ("enum", ["E", MDict([("x", 1)])], {}),
                ("register", ["D", "deep"], {}), ("add", ["X", "f", "uint8"], {}), ("add", ["A", "f", "X"], {}), ("size", ["D"], {}), ("get_enum", ["A2"], {})][k]
    o = call(it, method(s, m), *a, **kw)
    it.c.check("names in use and unknown names are refused", not o.ok)
    it.c.check("and change nothing", And(before() == b, it.eq(call(it, method(s, "size"), "A").value, 0)))
    g = call(it, method(s, "size"), "D", "deep")
    it.c.check("names of namespaces are found in them", And(g.ok, it.eq(g.value, 0)))
    o = call(it, method(s, "register"), "uint8")
    it.c.check("a type can have a primitive's name in a namespace", o.ok)
    g = call(it, method(s, "size"), "uint8")
    it.c.check("which the primitive keeps", And(g.ok, it.eq(g.value, 1)))
    e = call(it, method(s, "get_enum"), "E")
    it.c.check("enumerations are found by name", And(e.ok, it.eq(call(it, method(e.value, "get_int"), "b").value, 2)))
    cover(it, "return")


def v_shortest(it):
    """Which of several names (of any length) with the part looked for is meant."""
    names = [it.c.sym("str", f"n{i}") for i in range(it.c.choose(3) + 1)]
    n = [z3.Length(x.t) for x in names]
    for i, x in enumerate(names):
        it.c.assume(n[i] < 100)
        for y in names[:i]:
            it.c.assume(x.t != y.t)
    first = [z3.And(*[n[i] < n[j] for j in range(len(n)) if j != i]) for i in range(len(n))]
    o = call(it, SYS.resolve_name, MList(list(names)))
    if o.ok:
        got = tm(it, o.value, "str")
        it.c.check("the shortest name is found", z3.Or(*[z3.And(f, got == x.t) for f, x in zip(first, names)]))
    else:
        it.c.check("several shortest names are refused, one isn't", z3.Not(z3.Or(*first)))
    cover(it, "return")


K = dict(covers=["return"], max_paths=20000, budget_s=400)
CONTRACTS = [
    Unit("building", ProtocolBase.add_field, v_build, cfg_reg, **K),
    Unit("copies", ProtocolBase.__copy__, v_copy, cfg_reg, **K),
    Unit("between instances", ProtocolBase.__copy__, v_wire, cfg_reg, branch_ms=300, **K),
    Unit("JSON", JsonProtocol.import_json, v_json, cfg_reg, **K),
    Unit("types", TypeSystem.add, v_types, cfg_reg, **K),
    Unit("names of types", TypeSystem._find_name, v_names, cfg_reg, **K),
    Unit("parts of names", SYS.resolve_name, v_shortest, cfg_reg, branch_ms=300, **K),
]
