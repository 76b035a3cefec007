from harness.lib import *
import math
import tempfile
from pathlib import Path
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives import create
from runtimepy.registry.item import RegistryItem

h = H()
INTK = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
ITEMS = {"off": 0, "on": 1, "five": 5, "Neg": 100, "a/b:c": 7}


def bounds(k):
    w = int(k.lstrip("uint"))
    return (0, (1 << w) - 1) if k[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def build(h):
    env = ChannelEnvironment()
    env.enum("e", "int", items=dict(ITEMS), primitive=h.rng.choice(["uint8", "int16"]))
    env.enum("Ns.b", "bool", items={"low": False, "high": True})
    names = []
    for i in range(h.rng.randint(0, 6)):
        kind = h.rng.choice(INTK + ["float", "double", "bool"] * 2)
        sc = en = None
        if kind != "bool" and h.rng.random() < 0.4:
            sc = [h.rng.choice([0, 1, -3.5, 100]), h.rng.choice([1, 2, 0.5, -4, 0.25])]
        elif kind not in ("float", "double") and h.rng.random() < 0.5:
            en = env.enums["Ns.b"] if kind == "bool" else h.rng.choice(["e", env.enums["e"], env.enums["e"].id])
        name = h.rng.choice(["c{}", "NS.c{}", "x.y-{}", "_{}"]).format(i)
        kw = {}
        if h.rng.random() < 0.4:
            kw["description"] = f"about {name}"
        if h.rng.random() < 0.4 and kind != "bool":
            kw["default"] = (float if kind in ("float", "double") else int)(h.rng.choice([0, 1, 7]) if not en else 5)
        if h.rng.random() < 0.3 and kind != "bool":
            kw["controls"] = h.rng.choice([{"slider": {"min": 0, "max": 10, "step": 1}}, "steps_1_1000"]) if kind not in ("float", "double") else {"slider": {"min": 0.5, "max": 10, "step": 1}}
        env.channel(name, kind, commandable=h.rng.random() < 0.5, enum=en, scaling=sc, **kw)
        names.append(name)
        c, e = env[name]
        if e is not None:
            env.set(name, h.rng.choice(list(ITEMS)) if e is env.enums["e"] else h.rng.choice(["low", "high"]))
        elif kind == "bool":
            env.set(name, h.rng.random() < 0.5)
        elif kind in ("float", "double"):
            c.raw.value = h.rng.choice([0.0, -1.5, 1e10, float("nan"), 0.1])
        else:
            c.raw.value = h.rng.choice([0, 1, *bounds(kind), h.rng.randint(*(max(min(b, 1 << 40), -(1 << 40)) for b in bounds(kind)))])
    k = 0
    for j in range(h.rng.randint(0, 2)):
        b = BitFields.new(h.rng.choice(["uint8", "uint16", "uint32"]))
        late = h.rng.random() < 0.5
        for w in h.rng.choice([[1, 3, 1], [2, 1], [1], [4, 3]]):
            if h.rng.random() < 0.3:
                try:
                    b.pad(1)
                except AssertionError:
                    pass
            n = f"f{k}" if h.rng.random() < 0.7 else f"F.{k}"
            k += 1
            try:
                f = b.flag(n) if w == 1 else b.field(n, w, enum="e" if w == 3 and h.rng.random() < 0.3 else None)
            except AssertionError:
                continue
            f(h.rng.randrange(1 << w) if not f.is_enum else 5)
            names.append(n)
        env.fields.add(b)
    late = []
    for j in range(h.rng.randint(0, 2)):
        # fields added one by one, collected when the environment is finalized
        p = create("uint8")
        for i, w in enumerate([1, 3]):
            n = f"late{j}{i}"
            f = BitFlag(n, p, 0) if w == 1 else BitField(n, p, 1, 3)
            env.add_field(f)
            f(h.rng.randrange(1 << w))
            names.append(n)
            late.append(n)
    return env, names, late


def nan(v):
    return isinstance(v, float) and math.isnan(v)


def attrs(c):
    return (c.id, str(c.type), c.commandable, c.description, c.default, c.controls, c.raw.scaling or None, c.is_enum and c.enum)


def compare(h, a, b, names, how):
    h.check(a == b and b == a, "a loaded environment equals the original", how=how)
    h.check(sorted(b.names) == sorted(a.names) and set(b.names) == set(names), "it has the same names", how=how, got=sorted(b.names))
    for n in names:
        h.check(a.channels.names.identifier(n) == b.channels.names.identifier(n), "every name keeps its identifier", name=n, how=how)
        if a.fields.has_field(n):
            f, g = a.fields[n], b.fields.get_field(n)
            if h.check(g is not None, "every field is loaded", name=n, how=how):
                h.check(f.asdict() == g.asdict(), "every field is kept", name=n, got=g.asdict(), want=f.asdict(), how=how)
                h.check(isinstance(f, BitFlag) == isinstance(g, BitFlag), "flags stay flags", name=n)
            continue
        (c, e), (d, g) = a[n], b[n]
        h.check(attrs(c) == attrs(d), "every channel keeps its attributes", name=n, got=attrs(d), want=attrs(c), how=how)
        want = c.raw.value
        if nan(want):
            want = 0 if c.default is None else c.default
        h.check(d.raw.value == want or (d.raw.kind.is_float and math.isclose(d.raw.value, want, rel_tol=1e-6)), "every channel keeps its value", name=n, got=d.raw.value, want=want, scaling=c.raw.scaling, how=how)
        h.check((e is None) == (g is None) and (e is None or e.asdict() == g.asdict()), "every channel keeps its enumeration", name=n, how=how)
        h.check([d in s for s in (b.ints, b.bools, b.floats)] == [c.type.is_integer, c.type.is_boolean, c.type.is_float], "loaded channels are sorted by type", name=n)
        h.check(c == d and c == {"id": d.id}, "items with one identifier are equal")


def clean(x):
    return json.loads(json.dumps(x, sort_keys=True))


@h.case
def round_trips(h):
    with tempfile.TemporaryDirectory() as tmp:
        for t in range(h.n(60)):
            env, names, late = build(h)
            for i in range(h.rng.randint(0, 2)):
                env.enums.names.register_name(f"reserved{i}")
            path = Path(tmp, str(t))
            res = h.rng.random() < 0.5
            hist = names
            order = h.rng.choice(["json", "dir"])
            if order == "json":
                d = clean(env.export_json(resolve_enum=res))
                env.export_directory(path, resolve_enum=res)
            else:
                env.export_directory(path, resolve_enum=res)
                d = clean(env.export_json(resolve_enum=res))
            h.check(env.finalized and raises(lambda: env.channel("late.one", "uint8"), AssertionError), "an exported environment is final")
            h.check(clean(env.export_json(resolve_enum=res)) == d, "exporting twice gives the same")
            parts = {x.stem: json.loads(x.read_text()) for x in path.iterdir()}
            h.check(clean(parts) == d or "NaN" in json.dumps(d), "the files of a directory are the parts of the JSON", got=parts, want=d, resolved=res)
            fin = h.rng.random() < 0.5
            for how, fn in (("json", lambda: ChannelEnvironment.load_json(d, finalize=fin)), ("dir", lambda: ChannelEnvironment.load_directory(path, finalize=fin))):
                r = outcome(fn)
                if not h.check(r[0] == "ok", "an exported environment can be loaded", how=how, got=r, names=names):
                    continue
                e = r[1]
                h.check(e.finalized is fin, "a loaded environment is final unless asked otherwise", how=how)
                compare(h, env, e, names, how)
                h.check(e.enums.names.asdict() == env.enums.names.asdict() and e.channels.names.asdict() == env.channels.names.asdict(), "every name known keeps its identifier", how=how)
                if not any(nan(env.value(n, resolve_enum=False)) for n in names):
                    h.check(clean(e.export_json(resolve_enum=res)) == clean(d), "a loaded environment exports the same", how=how)
                if not fin:
                    e2 = ChannelEnvironment.load_json(d, finalize=False)
                    e2.channel("late.one", "uint8")
                    h.check("late.one" in list(e2.names) and e2.value("late.one") == 0, "an unfinished environment takes new channels")
            h.ev(tuple(names) + (res, order))


@h.case
def scalings(h):
    """Any scaling is kept, also one that can't be reversed: only the value can't be."""
    for sc in ([3], [-2.5], [0], [1, 2, 3], [0, 0], [0, 1], [5, 0], [0.5, -1, 0, 2]):
        for kind in ("uint8", "int32", "float", "double"):
            env = ChannelEnvironment()
            env.channel("a", kind, scaling=list(sc))
            d = clean(env.export_json())
            d["values"] = {}
            e = ChannelEnvironment.load_json(d)
            h.check(e["a"][0].raw.scaling == sc, "a scaling is kept", want=sc, got=e["a"][0].raw.scaling, kind=kind)
            e["a"][0].raw.value = 7
            env["a"][0].raw.value = 7
            h.check(e.value("a") == env.value("a"), "a channel loaded reads the same", want=env.value("a"), got=e.value("a"), scaling=sc)
            h.ev((tuple(sc), kind))


@h.case
def finalizing(h):
    for t in range(h.n(100)):
        env, names, late = build(h)
        for n in late:
            h.check(not env.exists(n), "a field added alone is found after finalizing", name=n)
        k = len(env.fields.fields)
        env.finalize()
        h.check(len(env.fields.fields) == k + len(late) // 2 and all(env.exists(n) for n in names), "finalizing collects the fields added, by primitive")
        for i in range(3):
            env.finalize(strict=False)
        h.check(raises(lambda: env.finalize(), AssertionError), "finalizing twice is refused unless allowed")
        h.check(len(env.fields.fields) == k + len(late) // 2, "finalizing again changes nothing", got=len(env.fields.fields))
        h.ev((k, tuple(names)))


h.done()
