from harness.lib import *
import io, json
from copy import copy
from struct import pack
from runtimepy.codec.protocol import Protocol, ProtocolFactory
from runtimepy.codec.system import TypeSystem
from runtimepy.enum.registry import EnumRegistry
from runtimepy.primitives import create
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.serializable.fixed import FixedChunk

h = H()
KINDS = {"uint8": "B", "int8": "b", "uint16": "H", "int16": "h", "uint32": "I", "int32": "i", "uint64": "Q", "int64": "q", "float": "f", "double": "d", "bool": "?"}
SIZE = {"B": 1, "b": 1, "?": 1, "H": 2, "h": 2, "I": 4, "i": 4, "f": 4, "Q": 8, "q": 8, "d": 8}


def rnd(h, code):
    if code == "?":
        return h.rng.random() < 0.5
    if code in "fd":
        return float(h.rng.randint(-1000, 1000))
    bits = SIZE[code] * 8
    return h.rng.randrange(-(1 << (bits - 1)), 1 << (bits - 1)) if code.islower() else h.rng.randrange(1 << bits)


def enums():
    return EnumRegistry.create({"mode": {"id": 3, "type": "int", "primitive": "uint16", "items": {"off": 0, "on": 1, "auto": 300}},
                                "tiny": {"id": 4, "type": "int", "items": {"a": 0, "b": 1}}})


class Model:
    """What a protocol should be: its parts in order."""

    def __init__(self):
        self.parts = []             # (kind, name | None, code | chunk length, count, fields)
        self.vals = {}

    def bytes(self, order):
        e = ">" if order is ByteOrder.BIG_ENDIAN else "<"
        out = b""
        for kind, name, code, count, extra in self.parts:
            if kind == "chunk":
                for i in range(count):
                    out += self.vals.get(name, extra) if i == 0 else extra
            elif kind == "bits":
                raw = 0
                for n, at, w in extra:
                    raw |= self.vals.get(n, 0) << at
                out += pack(e + code, raw)
            elif kind == "nested":
                for _ in range(count):
                    out += b"".join(bytes(SIZE[c]) for c in extra)
            else:
                for i in range(count):
                    out += pack(e + code, self.vals.get(name, 0) if i == 0 else 0)
        return out


def build(h, serial=True, order=None):
    order = order or h.rng.choice([ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN])
    p, m = Protocol(enums(), identifier=h.rng.randint(1, 99), byte_order=order), Model()
    for i in range(h.rng.randint(1, 8)):
        grow(h, p, m, f"n{i}", serial)
    return p, m, order


def grow(h, p, m, n, serial=True):
    k = h.rng.choice(["prim", "prim", "array", "enum", "bits"] + (["chunk", "nested"] if serial else []))
    ln = h.rng.choice([None, None, 1, 2, 5])
    if k in ("prim", "array"):
        kind = h.rng.choice(list(KINDS))
        p.add_field(n, kind, array_length=ln)
        m.parts.append(("prim", n, KINDS[kind], ln or 1, None))
    elif k == "enum":
        p.add_field(n, enum="mode", array_length=ln)
        m.parts.append(("enum", n, "H", ln or 1, None))
    elif k == "bits":
        kind = h.rng.choice(["uint8", "uint16", "uint32"])
        fs, at = [], 0
        with p.add_bit_fields(kind) as b:
            for j in range(h.rng.randint(1, 4)):
                w = h.rng.choice([1, 2])
                b.field(f"{n}_{j}", w) if w > 1 else b.flag(f"{n}_{j}")
                fs.append((f"{n}_{j}", at, w))
                at += w
        m.parts.append(("bits", n, KINDS[kind], 1, fs))
    elif k == "chunk":
        data = bytes(h.rng.randrange(97, 123) for _ in range(h.rng.randint(1, 5)))
        p.add_serializable(n, FixedChunk(data), array_length=ln)
        m.parts.append(("chunk", n, len(data), ln or 1, data))
    else:
        ks = [h.rng.choice(["uint8", "uint16", "int32"]) for _ in range(h.rng.randint(1, 3))]
        a = PrimitiveArray(*[create(x) for x in ks], byte_order=p.array.byte_order)
        if h.rng.random() < 0.5:
            a.assign(PrimitiveArray(create("uint32"), byte_order=p.array.byte_order))
            ks.append("uint32")
        p.add_serializable(n, a, array_length=ln)
        m.parts.append(("nested", n, None, ln or 1, [KINDS[x] for x in ks]))


def fill(h, p, m):
    for kind, n, code, count, extra in m.parts:
        if kind == "prim":
            m.vals[n] = rnd(h, code)
            p[n] = m.vals[n]
        elif kind == "enum":
            m.vals[n] = h.rng.choice([0, 1, 300])
            p[n] = m.vals[n] if h.rng.random() < 0.5 else {0: "off", 1: "on", 300: "auto"}[m.vals[n]]
        elif kind == "bits":
            for f, at, w in extra:
                m.vals[f] = h.rng.randrange(1 << w)
                p[f] = m.vals[f]
        elif kind == "chunk":
            m.vals[n] = bytes(h.rng.randrange(97, 123) for _ in extra)
            p[n] = m.vals[n].decode()


def wire(p):
    s = io.BytesIO()
    n = p.array.to_stream(s)
    return n, s.getvalue()


def agree(h, p, m, order, what):
    n, b = wire(p)
    want = m.bytes(order)
    h.check(b == want, f"{what}: its bytes are its fields in the order they were added", got=b.hex(), want=want.hex(), parts=[x[:4] for x in m.parts])
    h.check(p.size == len(want) == n, f"{what}: its size is the sum of its fields' sizes", size=p.size, want=len(want))
    for kind, name, code, count, extra in m.parts:
        if kind in ("prim", "enum"):
            h.check(p.value(name, resolve_enum=False) == m.vals.get(name, 0), f"{what}: every field has the value set", name=name)
        elif kind == "bits":
            for f, at, w in extra:
                h.check(int(p.value(f, resolve_enum=False)) == m.vals.get(f, 0), f"{what}: every bit-field has the value set", name=f)
        elif kind == "chunk":
            h.check(p[name] == m.vals.get(name, extra).decode(), f"{what}: every chunk has the value set", name=name)


@h.case
def instances(h):
    for _ in range(h.n(250)):
        p, m, order = build(h)
        agree(h, p, m, order, "a new protocol")
        fill(h, p, m)
        agree(h, p, m, order, "a protocol")
        h.ev("protocols")
        c = copy(p)
        if h.rng.random() < 0.5:
            c = copy(c)
        h.check(c.id == p.id and c.array.byte_order is order, "a copy has the identifier and byte order")
        h.check(c.size == p.size, "a copy has the size", got=c.size, want=p.size, parts=[x[:4] for x in m.parts])
        h.check(list(c.serializables) == list(p.serializables), "a copy has the named parts")
        r = io.BytesIO(wire(p)[1] + b"rest")
        c.array.from_stream(r)
        h.check(r.read() == b"rest", "reading takes as many bytes as the size")
        agree(h, c, m, order, "a copy that read the original's bytes")
        mc = Model()
        mc.parts = list(m.parts)
        mc.vals = dict(m.vals)
        fill(h, c, mc)
        agree(h, c, mc, order, "a copy that was changed")
        agree(h, p, m, order, "the original of a copy that was changed")
        mg = Model()
        mg.parts, mg.vals = mc.parts, mc.vals
        if h.rng.random() < 0.5:
            for i in range(3):
                grow(h, c, mc, f"more{i}")
            agree(h, c, mc, order, "a copy with more fields")
            agree(h, p, m, order, "the original of a copy with more fields")
            h.ev("copies grown")


@h.case
def exchange(h):
    for _ in range(h.n(150)):
        p, m, order = build(h, serial=False)
        fill(h, p, m)
        q = Protocol.import_json(json.loads(json.dumps(p.export_json(resolve_enum=h.rng.random() < 0.5))))
        for k, n, *_ in m.parts:
            if k != "bits":
                h.check(q.names.identifier(n) == p.names.identifier(n), "names keep their identifiers")
        h.check(q.id == p.id, "the identifier is kept")
        agree(h, q, m, order, "an imported protocol")
        h.check(json.loads(q.meta_str()) == json.loads(p.meta_str()), "which exports the same")
        h.ev("exchanged")
    p = Protocol(EnumRegistry.create({"far": {"id": 3, "type": "int", "items": {"on": 7}}}))
    p.add_field("x", enum="far")
    h.check(p.export_json(resolve_enum=False)["values"] == {"x": 0}, "values without a name can be exported")


@h.case
def factories(h):
    calls = []

    class One(ProtocolFactory):
        @classmethod
        def initialize(cls, protocol):
            calls.append(cls)
            protocol.add_field("a", "uint16")

    class Two(ProtocolFactory):
        @classmethod
        def initialize(cls, protocol):
            calls.append(cls)
            protocol.add_field("b", "uint32", array_length=3)

    class Own(ProtocolFactory):
        protocol = Protocol(EnumRegistry(), byte_order=ByteOrder.LITTLE_ENDIAN)

        @classmethod
        def initialize(cls, protocol):
            calls.append(cls)
            protocol.add_field("c", "uint8")

    for _ in range(3):
        for f, size in [(One, 2), (Two, 12), (Own, 1)]:
            a, b = f.instance(), f.instance()
            h.check(a.size == b.size == size, "every factory makes its own protocol", size=a.size, want=size)
            n = a.names.registered_order[0]
            a[n] = 5
            h.check(b[n] == 0, "instances are apart")
            s = f.singleton()
            h.check(s is f.singleton() and s is not a and s.size == size, "a factory has one singleton")
    h.check(sorted(x.__name__ for x in calls) == ["One", "Own", "Two"], "prototypes are built once", calls=[x.__name__ for x in calls])
    h.check(Own.instance().array.byte_order is ByteOrder.LITTLE_ENDIAN, "own prototypes are used")
    h.ev("factories")


@h.case
def types(h):
    for _ in range(h.n(120)):
        s = TypeSystem(*h.rng.choice([(), ("a",), ("a", "b")]))
        s.enum("E", {"x": 1, "y": 2}, primitive="uint16")
        sizes = {k: SIZE[v] for k, v in KINDS.items()}
        sizes["E"] = 2
        own = []
        for i in range(4):
            s.register(f"T{i}Type")
            own.append(f"T{i}Type")
            sizes[own[-1]] = 0
        for i in range(h.rng.randint(1, 12)):
            j = h.rng.randrange(4)
            t, ln = own[j], h.rng.choice([None, None, 2, 3])
            k = h.rng.choice(list(KINDS) + ["E"] + [x for x in own[:j] if sizes[x]] * 4)
            s.add(t, f"f{i}", k, array_length=ln)
            sizes[t] += sizes[k] * (ln or 1)
            for x in own + ["E"]:
                h.check(s.size(x) == sizes[x], "a type has the sum of its fields' sizes when they were added", type=x, got=s.size(x), want=sizes[x])
            for x in own:
                h.check(s.get_protocol(x).size == copy(s.get_protocol(x)).size == sizes[x], "so has an instance", type=x)
        h.ev("type systems")


@h.case
def naming(h):
    for _ in range(h.n(60)):
        s = TypeSystem("root")
        known = {}
        for i in range(h.rng.randint(1, 25)):
            ns = tuple(h.rng.choice(["x", "y"]) for _ in range(h.rng.randint(0, 2)))
            n = h.rng.choice(["Alpha", "Beta", "Gamma", "Delta"])
            kind = h.rng.choice(["register", "enum"])
            r = outcome(lambda: s.register(n, *ns) if kind == "register" else s.enum(n, {"v": i}, *ns))
            full = (ns, n)
            if full in known:
                h.check(r[0] == "exc", "a name in use is refused", name=n, ns=ns)
                h.ev("duplicates")
            else:
                h.check(r[0] == "ok", "a free name is accepted", name=n, ns=ns, got=str(r))
                known[full] = (kind, i)
            for (ns2, n2), (k2, i2) in known.items():
                if k2 == "enum":
                    g = outcome(lambda: s.get_enum(n2, *ns2).get_int("v"))
                    h.check(g[1] == i2, "an enumeration is found by its name", name=n2, ns=ns2, got=str(g))
                else:
                    g = outcome(lambda: s.size(n2, *ns2))
                    h.check(g[1] == 0, "a type is found by its name", name=n2, ns=ns2, got=str(g))
            for bad in [("z",), ("x", "x", "x")]:
                h.check(raises(lambda: s.size("Alpha", *bad), AssertionError), "a name isn't found elsewhere")
        h.ev("namings")


@h.case
def partly(h):
    """Names found by a part of them: the shortest, if there is only one."""
    for _ in range(h.n(60)):
        s = TypeSystem("root")
        types, full = {}, lambda ns, n: "::".join(["root", *ns, n])
        for i in range(h.rng.randint(1, 8)):
            ns = tuple(h.rng.choice(["x", "y"]) for _ in range(h.rng.randint(0, 2)))
            n = h.rng.choice(["Al", "Alpha", "Alphas", "Beta", "Betas", "NoAlpha"])
            if full(ns, n) not in types:
                s.register(n, *ns)
                types[full(ns, n)] = None
        for i, f in enumerate(types):
            _, *ns, n = f.split("::")
            p = s.get_protocol(n, *ns)
            p.add_field("f", "uint8", array_length=i + 1)
            types[f] = i + 1
        for ns in [(), ("x",), ("y",), ("x", "y")]:
            for n in ["Al", "Alpha", "Alphas", "lphas", "Beta", "Be", "as", "x"]:
                under = full(ns, "")
                want = full(ns, n)
                if want not in types:
                    found = sorted((f for f in types if f.startswith(under) and n in f[len(under):]), key=len)
                    if n in "ByteOrder":
                        found.append("runtimepy::ByteOrder")
                    want = found[0] if found and (len(found) == 1 or len(found[0]) < len(found[1])) else None
                g = outcome(lambda: s.size(n, *ns, exact=False))
                h.check(g == ("ok", types[want]) if want else g[0] == "exc", "a part of a name finds the shortest name with it, if there is only one", ns=ns, part=n, types=types, want=want, got=str(g))
                h.ev("parts of names")
                e = outcome(lambda: s.size(n, *ns))
                h.check(e == ("ok", types[full(ns, n)]) if full(ns, n) in types else e[0] == "exc", "which isn't how whole names are found", ns=ns, part=n, got=str(e))


h.done()
