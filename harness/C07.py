from harness.lib import *
from copy import copy
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives.field.manager import BitFieldsManager
from runtimepy.enum.registry import EnumRegistry
from runtimepy.registry.name import NameRegistry

h = H()
KINDS = [("uint8", 8), ("uint16", 16), ("uint32", 32), ("uint64", 64)]
ENUMS = {
    "small": {"id": 1, "type": "int", "items": {"off": 0, "on": 1, "auto": 2, "man": 3, "neg": -1}},
    "flagged": {"id": 5, "type": "bool", "items": {"low": False, "high": True}},
}


def build(h, pre="f", nprim=None):
    """A manager of random fields with its reference: name -> (prim, lo, width, enum)."""
    reg = NameRegistry()
    m = BitFieldsManager(reg, EnumRegistry.create({k: dict(v, items=dict(v["items"])) for k, v in ENUMS.items()}))
    ref, n = {}, 0
    for p in range(nprim or h.rng.randint(1, 3)):
        kind, bits = h.rng.choice(KINDS)
        b = BitFields.new(kind)
        ix = 0
        while ix < bits and h.rng.random() < 0.85:
            w = h.rng.choice([1, 1, 2, 3, 7, h.rng.randint(1, bits)])
            gap = h.rng.choice([0, 0, 0, 2])
            if ix + gap + w > bits:
                break
            ix += gap
            kw = {} if h.rng.random() < 0.5 else {"index": ix}
            if gap:
                kw = {"index": ix}
            roll = h.rng.random()
            if roll < 0.15:
                b.pad(w, **kw)
            else:
                name = f"{pre}.{n}"
                e = h.rng.choice([None, None, "small", "flagged"] if w <= 3 else [None])
                d = h.rng.choice([None, f"about {n}"])
                c = h.rng.random() < 0.3
                if w == 1:
                    b.flag(name, enum=e, description=d, commandable=c, **kw)
                else:
                    b.field(name, w, enum=e, description=d, commandable=c, **kw)
                ref[name] = (b, ix, w, e, d, c)
                n += 1
            ix += w
        m.add(b)
    return m, ref





def set_expect(e, w, v):
    """The integer stored by set(v), or the name of the error."""
    if isinstance(v, str):
        if e:
            it = ENUMS[e]["items"]
            x = {k: int(q) for k, q in it.items()}.get(v)
            if x is None and ENUMS[e]["type"] == "bool" and v.lower() in ("true", "false"):
                x = int(v.lower() == "true")
            if x is None and ENUMS[e]["type"] == "int":
                r = outcome(lambda: int(v))
                x = r[1] if r[0] == "ok" and r[1] in it.values() else None
            if x is None:
                return "KeyError"
            return x % (1 << w)
        if v.lower() in ("true", "false"):
            return int(v.lower() == "true") % (1 << w)
        try:
            return int(v) % (1 << w)
        except ValueError:
            return "ValueError"
    return int(v) % (1 << w)


def get_expect(e, w, raw, resolve=True):
    if e and resolve:
        inv = {int(q): k for k, q in ENUMS[e]["items"].items()}
        return inv.get(raw, KeyError)
    return bool(raw) if w == 1 else raw


def compare(h, m, vals, ref, hist, what):
    for n, (b, ix, w, e, d, c) in ref.items():
        raw = vals[n]
        f = m[n]
        h.check(f() == raw, what, name=n, got=f(), want=raw, history=hist)
        for res in (True, False):
            want = get_expect(e, w, raw, res)
            for key in (n, m.registry.identifier(n)):
                r = outcome(lambda: m.get(key, resolve_enum=res))
                ok = r == ("exc", "KeyError") if want is KeyError else r == ("ok", want) and type(r[1]) is type(want)
                h.check(ok, "a field reads as its value, flag or enumeration name", name=n, raw=raw, got=r, want=want, history=hist)


def show(vals, ref):
    return all(get_expect(ref[n][3], ref[n][2], v) is not KeyError for n, v in vals.items())


@h.case
def histories(h):
    """Random writes by name and identifier against the reference."""
    for t in range(h.n(150)):
        m, ref = build(h)
        vals, hist = {n: 0 for n in ref}, []
        for step in range(8 if ref else 0):
            n = h.rng.choice(list(ref))
            b, ix, w, e, d, c = ref[n]
            v = h.rng.choice([0, 1, (1 << w) - 1, 1 << w, -1, True, False, h.rng.randrange(1 << w), "true", "False", "7", "on", "auto", "high", "LOW", "nope", " 3", ""])
            key = h.rng.choice([n, m.registry.identifier(n)])
            hist.append((key, v))
            want = set_expect(e, w, v)
            r = outcome(lambda: m.set(key, v))
            if isinstance(want, str):
                h.check(r == ("exc", want), "text that spells no value is refused", name=n, value=v, got=r, want=want, history=hist)
            else:
                h.check(r == ("ok", None), "a value is accepted", name=n, value=v, got=r, history=hist)
                vals[n] = want
            compare(h, m, vals, ref, hist, "a write changes exactly its own field")
        for n, (b, ix, w, e, d, c) in ref.items():
            h.check((b.raw.value >> ix) & ((1 << w) - 1) == vals[n], "the value lies in the field's own bits", name=n, history=hist)
            if w == 1:
                h.check(m.get_flag(n) is m[n] and isinstance(m[n], BitFlag), "flags are found as flags", name=n)
            else:
                h.check(raises(lambda: m.get_flag(n), KeyError), "a wider field is not a flag", name=n)
        for n in ("nope", "", 9999, -1):
            h.check(not m.has_field(n) and m.get_field(n) is None and raises(lambda: m[n], KeyError) and raises(lambda: m.set(n, 1), KeyError) and raises(lambda: m.get(n), KeyError) and raises(lambda: m.get_flag(n), KeyError), "an unknown field is a key error", name=n)
        if show(vals, ref):
            h.check(m.values() == {n: get_expect(ref[n][3], ref[n][2], v) for n, v in vals.items()}, "the listing gives every field once", got=m.values(), history=hist)
        h.check(m.values(resolve_enum=False) == {n: get_expect(None, ref[n][2], v) for n, v in vals.items()} and list(m.values(resolve_enum=False)) == list(ref), "the raw listing gives every field once, in order", history=hist)
        h.ev(tuple(map(str, hist)) + tuple(ref))


def randomize(h, m, ref):
    vals = {}
    for n, (b, ix, w, e, d, c) in ref.items():
        v = h.rng.randrange(1 << w)
        if e:
            v = h.rng.choice([q for q in (0, 1, 2, 3) if q < 1 << w and q in [int(z) for z in ENUMS[e]["items"].values()]])
        vals[n] = v
        m.set(n, v)
    return vals


@h.case
def round_trips(h):
    """Export, import, compare; copies are independent."""
    for t in range(h.n(150)):
        m, ref = build(h)
        vals = randomize(h, m, ref)
        for res in (True, False):
            d = json.loads(json.dumps(m.export_json(resolve_enum=res)))
            r = outcome(lambda: BitFieldsManager.import_json(d))
            if not h.check(r[0] == "ok", "an export can be imported", got=r, data=d):
                continue
            q = r[1]
            compare(h, q, vals, ref, d, "an import holds the exported values")
            for n, (b, ix, w, e, de, c) in ref.items():
                f, g = q[n], m[n]
                h.check((f.index, f.width, f.commandable, f.description, f.is_enum) == (ix, w, c, de, e is not None) and (not e or f.enum == e), "an import keeps each field's place, width, enumeration, description and commandability", name=n, got=(f.index, f.width, f.commandable, f.description), want=ref[n][1:])
                h.check(q.registry.identifier(n) == m.registry.identifier(n), "an import keeps the identifiers", name=n)
            h.check(q.asdict() == m.asdict() and json.loads(json.dumps(q.export_json(resolve_enum=res))) == d, "exporting the import gives the same data", got=q.asdict(), want=m.asdict())
        c = copy(m)
        for n in ref:
            h.check(c[n]() == vals[n] and c[n] is not m[n] and c[n].raw is not m[n].raw, "a copy holds the same values in its own storage", name=n)
        for n in ref:
            old = {k: m[k]() for k in ref}
            c[n](vals[n] ^ 1)
            h.check({k: m[k]() for k in ref} == old, "writing a copy leaves the original", name=n)
        for i, b in enumerate(m.fields):
            e = outcome(lambda: BitFields.create(json.loads(json.dumps(b.asdict()))))
            h.check(e[0] == "ok" and e[1].asdict() == b.asdict() and e[1].raw.value == b.raw.value, "a single collection round-trips with its storage", got=e)
            if e[0] == "ok":
                h.check(raises(lambda: e[1].pad(1), AssertionError), "an imported finalized collection stays finalized")
        h.ev((tuple(ref), tuple(vals.values())))


@h.case
def open_collections(h):
    """A collection that is not finalized keeps allocating like the original after import."""
    for t in range(h.n(200)):
        kind, bits = h.rng.choice(KINDS)
        b = BitFields.new(kind)
        hist = []
        for s in range(h.rng.randint(0, 4)):
            w, ix = h.rng.randint(1, 4), h.rng.choice([None, h.rng.randrange(bits)])
            hist.append((w, ix))
            outcome(lambda: b.pad(w, index=ix) if h.rng.random() < 0.3 else (b.flag(f"n{s}", index=ix) if w == 1 else b.field(f"n{s}", w, index=ix)))
        c = BitFields.create(json.loads(json.dumps(b.asdict())))
        h.check(c.bits_available == b.bits_available, "an import has the same free bits", history=hist, got=sorted(c.bits_available))
        for s in range(4):
            w, ix = h.rng.randint(1, 5), h.rng.choice([None, h.rng.randrange(bits)])
            r = [outcome(lambda q=q: q.pad(w, index=ix)) for q in (b, c)]
            h.check(r[0] == r[1], "an import allocates like the original", history=hist, width=w, index=ix, got=r)
        h.ev((kind, tuple(hist)))


h.done()
