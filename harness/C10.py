from harness.lib import *
import math
import struct
from fractions import Fraction
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives.field import BitField
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives import create

h = H()
INTK = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
ITEMS = {"off": 0, "on": 1, "five": 5, "Neg": 100}


def bounds(k):
    w = int(k.lstrip("uint"))
    return (0, (1 << w) - 1) if k[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def clamp(k, v):
    lo, hi = bounds(k)
    return max(lo, min(hi, v))


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


class Ref:
    """name -> kind, raw value, scaling, enum"""

    def __init__(self, h):
        self.h = h
        self.env = ChannelEnvironment()
        self.env.enum("e", "int", items=dict(ITEMS))
        self.env.enum("b", "bool", items={"low": False, "high": True})
        self.ch, self.raw = {}, {}
        n = 0
        for i in range(h.rng.randint(1, 6)):
            kind = h.rng.choice(INTK + ["float", "double", "bool"] * 2)
            sc = en = None
            if kind != "bool" and h.rng.random() < 0.4:
                sc = [h.rng.choice([0, 1, -3.5, 100]), h.rng.choice([1, 2, 0.5, -4, 0.25])]
            elif kind not in ("float", "double") and h.rng.random() < 0.5:
                en = "b" if kind == "bool" else "e"
            name = f"c{i}" if h.rng.random() < 0.7 else f"ns.c{i}"
            kw = {"scaling": sc, "enum": en, "commandable": h.rng.random() < 0.5}
            if en and h.rng.random() < 0.5:
                kw["enum"] = self.env.enums[en]
            if kind == "bool":
                kw.pop("scaling")
                self.env.bool_channel(name, enum=kw["enum"])
            elif kind in ("float", "double"):
                kw.pop("enum")
                self.env.float_channel(name, kind, **kw)
            else:
                self.env.int_channel(name, kind, **kw)
            self.ch[name] = (kind, sc, en)
            self.raw[name] = False if kind == "bool" else 0
        b = BitFields.new("uint16")
        ix = 0
        for j, w in enumerate([1, 3, 8, 1]):
            e = h.rng.choice([None, "e"]) if w == 3 else None
            (b.flag(f"f{j}") if w == 1 else b.field(f"f{j}", w, enum=e))
            self.ch[f"f{j}"] = (w, None, e)
            self.raw[f"f{j}"] = 0
        self.bits = b
        self.env.fields.add(b)
        self.env.finalize()

    def want(self, name, v, scaled=True):
        """New raw value or the exception's name."""
        kind, sc, en = self.ch[name]
        if isinstance(v, str):
            if en:
                items = ITEMS if en == "e" else {"low": 0, "high": 1}
                if v in items:
                    v = items[v]
                elif en == "b" and v.lower() in ("true", "false"):
                    v = v.lower() == "true"
                elif en == "e" and outcome(lambda: int(v))[0] == "ok" and int(v) in items.values():
                    v = int(v)
                else:
                    return "KeyError"
            elif kind == "bool":
                if v.lower() not in ("true", "false"):
                    return "ValueError"
                v = v.lower() == "true"
            elif isinstance(kind, int) and v.lower() in ("true", "false"):
                v = v.lower() == "true"
            else:
                r = outcome(lambda: int(v) if not sc and kind not in ("float", "double") else float(v))
                if r[0] != "ok":
                    return "ValueError"
                v = r[1]
        if isinstance(kind, int):
            return int(v) % (1 << kind)
        if kind == "bool":
            return bool(v)
        if kind == "double" or kind == "float":
            x = (v - sc[0]) / sc[1] if sc and scaled else v
            return float(x) if kind == "double" else f32(x)
        if sc and scaled:
            # nearest raw values to the exact inverse
            x = (float(v) - sc[0]) / sc[1]
            return clamp(kind, round(x))
        return clamp(kind, round(v)) if scaled else v

    def read(self, name, resolve=True, scaled=True):
        kind, sc, en = self.ch[name]
        v = self.raw[name]
        if en and resolve:
            items = ITEMS if en == "e" else {"low": 0, "high": 1}
            return {int(b): a for a, b in items.items()}.get(int(v), KeyError)
        if isinstance(kind, int):
            return bool(v) if kind == 1 else v
        if sc and scaled:
            return sc[0] + float(v) * sc[1]
        return v


def value(h, ref, name):
    kind, sc, en = ref.ch[name]
    pool = ["1", "0", "-7", "300", "true", "False", "TRUE", "on", "five", "Neg", "high", "nope", "", " 4 ", "1_0", "0x10", "2.5", "1e3", "99999999999999999999", "-1"]
    if h.rng.random() < 0.45:
        return h.rng.choice(pool)
    if isinstance(kind, int):
        return h.rng.choice([0, 1, True, (1 << kind) - 1, 1 << kind, -1, h.rng.randrange(1 << kind)])
    if kind == "bool":
        return h.rng.choice([True, False])
    if kind in ("float", "double"):
        return h.rng.choice([0, 1.5, -2, 1e10, h.rng.uniform(-100, 100)])
    lo, hi = bounds(kind)
    big = [lo, hi, lo - 1, hi + 1, 0, 1, -1, 10 * hi] + h.ints()
    small = [h.rng.uniform(-300, 300), 0.5, 1.5, 2.5, -0.5, h.rng.randint(-200, 200), h.rng.randint(lo, hi)]
    return h.rng.choice(big + small + small)


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, (int, float)) and math.isclose(a, b, rel_tol=1e-12))


def whole(h, ref, hist, what):
    env = ref.env
    for n in ref.ch:
        key = h.rng.choice([n, env.channels.names.identifier(n)])
        for res, sc in ((True, True), (False, True), (False, False), (True, False)):
            want = ref.read(n, res, sc)
            r = outcome(lambda: env.value(key, resolve_enum=res, scaled=sc))
            ok = r == ("exc", "KeyError") if want is KeyError else r[0] == "ok" and same(r[1], want)
            if not h.check(ok, what, name=n, channel=ref.ch[n], got=r, want=want, resolve=res, scaled=sc, history=hist[-4:]):
                return False
    return True


@h.case
def histories(h):
    for t in range(h.n(250)):
        ref = Ref(h)
        env, hist = ref.env, []
        for step in range(12):
            n = h.rng.choice(list(ref.ch))
            v = value(h, ref, n)
            key = h.rng.choice([n, env.channels.names.identifier(n)])
            kind = ref.ch[n][0]
            scaled = h.rng.random() < 0.8
            if not scaled and not isinstance(kind, int):
                if kind in INTK:
                    v = h.rng.randint(*bounds(kind))
                elif isinstance(v, str):
                    scaled = True
            hist.append((key, v, scaled))
            want = ref.want(n, v, scaled)
            def go():
                roll = h.rng.randrange(3)
                if not scaled:
                    env.set(key, v, scaled=False)
                elif roll == 0:
                    env[key] = v
                elif roll == 1:
                    env.apply({key: v})
                else:
                    env.set(key, v)
            r = outcome(go)
            if isinstance(want, str):
                h.check(r == ("exc", want), "a value that cannot be stored is refused", name=n, channel=ref.ch[n], value=v, got=r, want=want)
            else:
                h.check(r == ("ok", None), "a value is accepted", name=n, channel=ref.ch[n], value=v, got=r)
                ref.raw[n] = want
            if not whole(h, ref, hist, "exactly the channel set changes, to the value given"):
                break
        for n, (kind, sc, en) in ref.ch.items():
            for fn, typ in (("get_int", INTK), ("get_bool", ["bool"]), ("get_float", ["float", "double"])):
                r = outcome(lambda: getattr(env, fn)(n))
                if kind in typ:
                    c = r[1] if fn == "get_float" else r[1][0]
                    h.check(c is env[n][0], "a typed lookup gives the channel", name=n)
                    if fn != "get_float":
                        h.check(r[1][1] is (env.enums[en] if en else None), "and its enumeration", name=n)
                else:
                    h.check(r == ("exc", "KeyError"), "a channel of another type is a key error", name=n, kind=kind, asked=fn, got=r)
            if kind in INTK:
                lo, hi = bounds(kind)
                a = h.rng.randint(lo - ref.raw[n], hi - ref.raw[n])
                h.check(env.add_int(n, a) == ref.raw[n] + a == env[n][0].raw.value, "an integer channel is increased by the amount", name=n, amount=a)
                ref.raw[n] += a
            h.check(env.exists(n) and env.field_or_channel(n) is (env.fields[n] if isinstance(kind, int) else env[n][0]), "every name exists", name=n)
            i = env.channels.names.identifier(n)
            h.check(env.exists(i) and env.field_or_channel(i) is env.field_or_channel(n) and (env.get(i) is None) == isinstance(kind, int) and 0 <= env.age_ns(i) >= 0, "every identifier exists, as its name does", name=n, ident=i)
        for k in ("nope", "", 999, -1, "c0 "):
            h.check(not env.exists(k) and env.get(k) is None and env.field_or_channel(k) is None, "nothing else exists", key=k)
            for f in (lambda: env[k], lambda: env.set(k, 1), lambda: env.value(k), lambda: env.get_int(k), lambda: env.age_ns(k)):
                h.check(raises(f, KeyError), "unknown keys are key errors", key=k)
        vals = {n: ref.read(n) for n in ref.ch}
        if KeyError not in vals.values():
            got = env.values()
            h.check(set(got) == set(vals) and all(same(got[n], vals[n]) for n in vals), "the listing gives every value once", got=got, want=vals)
        got = env.values(resolve_enum=False)
        h.check(list(got) == list(env.names) and all(same(got[n], ref.read(n, False)) for n in got), "the raw listing gives every value once, in order", got=got)
        whole(h, ref, hist, "reading changes nothing")
        h.ev(tuple(map(str, hist)))


@h.case
def not_a_number(h):
    """NaN is not listed, everything else is."""
    for kind in ("float", "double"):
        env = ChannelEnvironment()
        env.float_channel("a", kind)
        env.float_channel("b", kind)
        env.set("a", float("nan"))
        h.check(env.values() == {"b": 0.0} and math.isnan(env.value("a")), "a value that is not a number is left out of the listing", got=env.values())
        h.ev(kind)


@h.case
def creation(h):
    """Channels appear under their namespaced name with what was asked for; duplicates are refused."""
    for t in range(h.n(200)):
        env = ChannelEnvironment()
        names, hist = {}, []
        for step in range(8):
            ns = h.rng.choice([(), ("a",), ("a", "b")])
            base = h.rng.choice(["x", "y", "Z-1"])
            full = ".".join((*ns, base))
            hist.append(full)
            kind = h.rng.choice(INTK + ["float", "double", "bool"])
            d = {} if kind == "bool" else {"default": (float if kind in ("float", "double") else int)(h.rng.randint(0, 9))} if h.rng.random() < 0.5 else {}
            desc, cmd = h.rng.choice([None, "words"]), h.rng.random() < 0.5
            prim = create(kind)
            if h.rng.random() < 0.5:
                prim.register_callback(lambda a, b: None)

            def go():
                with env.names_pushed(*ns):
                    return outcome(inner)

            def inner():
                if True:
                    how = h.rng.choice(["channel", "typed"])
                    src = h.rng.choice([kind, prim])
                    if how == "channel":
                        return src, env.channel(base, src, commandable=cmd, description=desc, **d)
                    f = env.bool_channel if kind == "bool" else env.float_channel if kind in ("float", "double") else env.int_channel
                    r = f(base, src, commandable=cmd, description=desc, **d)
                    return src, r if isinstance(r, tuple) else (r, None)
            before = {n: c for n, c in env.channels.items.items()}
            r = go()
            h.check((r[0] == "ok") == (full not in names), "a channel is created exactly when its full name is free", name=full, got=r, history=hist)
            if r[0] == "ok":
                src, (c, e) = r[1]
                names[full] = c
                h.check(env[full][0] is c and env[full][1] is None and env[c.id][0] is c and c.commandable is cmd and c.description == desc and str(c.type) == kind, "a channel has the attributes asked for", name=full)
                h.check(env.value(full) == d.get("default", 0) and c.default == d.get("default"), "a channel starts at its default", name=full, got=env.value(full), want=d)
                if src is prim:
                    h.check(c.raw is prim, "a given primitive is the channel's storage", name=full)
            else:
                h.check({n: c for n, c in env.channels.items.items()} == before, "a refused channel changes nothing", name=full)
        env.finalize()
        h.check(raises(lambda: env.channel("late", "uint8"), AssertionError) and raises(lambda: env.int_channel("late"), AssertionError) and not env.exists("late"), "a finalized environment takes no channels")
        h.ev(tuple(hist))


@h.case
def refused(h):
    """Creations that are refused, and maps with unknown keys, leave everything else as it was."""
    for fn, kind in (("int_channel", "float"), ("int_channel", "bool"), ("bool_channel", "uint8"), ("float_channel", "int16"), ("float_channel", "bool"), ("bool_channel", "double")):
        env = ChannelEnvironment()
        r = outcome(lambda: getattr(env, fn)("a", kind))
        h.check(r == ("exc", "AssertionError"), "a channel of another type than asked for is refused", fn=fn, kind=kind, got=r)
        g = "get_" + fn.split("_")[0]
        h.check(raises(lambda: getattr(env, g)("a"), KeyError), "a typed lookup doesn't give a channel of another type", fn=fn, kind=kind)
        h.ev((fn, kind))
    for default in (1.5, True, "x"):
        env = ChannelEnvironment()
        env.float_channel("b")
        r = outcome(lambda: env.int_channel("a", default=default))
        if r[0] == "exc":
            h.check(env.values() == {"b": 0.0} and not env.exists("a"), "a refused channel isn't listed", default=default, got=outcome(env.values))
    for fields in (False, True):
        for order in (["a", "b"], ["b", "a"], ["b"], [99, "a"]):
            env = ChannelEnvironment()
            env.int_channel("a", "int8")
            if fields:
                env.add_field(BitField("f", create("uint8"), 1, 2))
            env.finalize()
            r = outcome(lambda: env.apply({k: 5 for k in order}))
            h.check(r == ("exc", "KeyError"), "a map with an unknown key is a key error", keys=order, fields=fields, got=r)
            h.check(env.value("a") == (5 if order[0] == "a" else 0), "the keys before it were set, the ones after it not", keys=order, got=env.value("a"))


h.done()
