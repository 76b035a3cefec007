from enum import IntEnum
from harness.lib import *
from runtimepy.enum import RuntimeEnum
from runtimepy.enum.registry import EnumRegistry, RuntimeIntEnum
from runtimepy.enum.types import EnumType

h = H()
NAMES = ["a", "on", "off", "true", "False", "5", "x.y", "p/q", "A", "k:v", "_", "07", "+3"[1:]]
PROBE = NAMES + ["nope", "", "TRUE", "fAlse", " 5", "5 ", "1_0", "-2", "0x5", "5.0", "yes", "1"]


def num(s):
    try:
        return int(s)
    except ValueError:
        return None


def pbool(s):
    return {"true": True, "false": False}.get(s.lower())


def check_int(h, e, ref, hist):
    inv = {v: k for k, v in ref.items()}
    for v in list(inv) + [-7, 0, 1, 99]:
        h.check(e.as_str(v) == inv.get(v), "a value's name is the one registered for it", value=v, got=e.as_str(v), entries=ref, history=hist)
        r = outcome(lambda: e.get_str(v))
        h.check(r == (("ok", inv[v]) if v in inv else ("exc", "KeyError")), "an unknown value is a key error", value=v, got=r, entries=ref)
        r = outcome(lambda: e.get_int(v))
        h.check(r == (("ok", v) if v in inv else ("exc", "KeyError")), "a known value resolves to itself, an unknown one is a key error", value=v, got=r, entries=ref)
        if v in inv:
            h.check(e.get_int(e.get_str(v)) == v, "a value's name resolves back to the value", value=v, entries=ref)
    for n in PROBE:
        want = ref.get(n)
        if want is None and num(n) in inv:
            want = num(n)
        h.check(e.as_int(n) == want, "a name resolves to its value, otherwise a known number in text to itself", name=n, got=e.as_int(n), want=want, entries=ref)
        r = outcome(lambda: e.get_int(n))
        h.check(r == (("ok", want) if want is not None else ("exc", "KeyError")), "an unknown name is a key error", name=n, got=r, entries=ref)
        h.check(e.as_str(n) == (n if n in ref else None), "a known name is its own name", name=n, got=e.as_str(n))
    h.check(e.is_integer and not e.is_boolean and raises(lambda: e.bools), "an integer enumeration is not boolean")


def check_bool(h, e, ref, hist):
    inv = {v: k for k, v in ref.items()}
    for v in (True, False):
        h.check(e.as_str(v) == inv.get(v), "a boolean's name is the one registered for it", value=v, got=e.as_str(v), entries=ref)
        r = outcome(lambda: e.get_bool(v))
        h.check(r == (("ok", v) if v in inv else ("exc", "KeyError")), "a known boolean resolves to itself", value=v, got=r, entries=ref)
        if v in inv:
            h.check(e.get_bool(e.get_str(v)) is v, "a boolean's name resolves back", value=v, entries=ref)
    for n in PROBE:
        want = ref.get(n)
        if want is None:
            want = pbool(n)
        h.check(e.as_bool(n) is want, "a name resolves to its boolean, otherwise true and false to themselves", name=n, got=e.as_bool(n), want=want, entries=ref)
        r = outcome(lambda: e.get_bool(n))
        h.check(r == (("ok", want) if want is not None else ("exc", "KeyError")), "an unknown name is a key error", name=n, got=r)
        r = outcome(lambda: e.get_int(n))
        h.check(r == (("ok", int(want)) if want is not None else ("exc", "KeyError")), "a boolean's integer is 0 or 1", name=n, got=r)
    h.check(e.is_boolean and not e.is_integer and raises(lambda: e.ints), "a boolean enumeration is not integer")


@h.case
def ints(h):
    for t in range(h.n(300)):
        ref = dict(zip(h.rng.sample(NAMES, h.rng.randint(0, 6)), h.rng.sample(range(-5, 300), 6)))
        src = {}
        for n, v in ref.items():
            if h.rng.random() < 0.7 or t % 2:
                src[n] = v
        ref = dict(src)
        how = h.rng.choice(["create", "registry"])
        if how == "create":
            e = RuntimeEnum.create({"id": 1, "type": "int", "items": dict(src)})
        else:
            e = EnumRegistry.create({}).enum("e", h.rng.choice(["int", EnumType.INT.value]), items=dict(src))
        hist = []
        check_int(h, e, ref, hist)
        for _ in range(h.rng.randint(0, 4)):
            n = h.rng.choice(NAMES + ["bad name"])
            r = outcome(lambda: e.register_int(n))
            hist.append((n, r))
            if n in ref:
                h.check(r == ("ok", ref[n]), "a known entry keeps its value", name=n, got=r, history=hist)
            elif n == "bad name":
                h.check(r == ("ok", None), "an invalid entry is refused", got=r)
            else:
                h.check(r[0] == "ok" and r[1] not in ref.values() and r[1] is not None, "a new entry gets an unused value", got=r, entries=ref)
                if r[0] == "ok":
                    ref[n] = r[1]
        check_int(h, e, ref, hist)
        d = e.asdict()
        c = RuntimeEnum.create(json.loads(json.dumps(d)))
        check_int(h, c, ref, hist + ["rebuilt"])
        h.check(c.asdict() == d and c.id == e.id and c.primitive == e.primitive, "an enumeration is rebuilt from its dictionary form", got=c.asdict(), want=d)
        h.ev((tuple(ref.items()), tuple(hist)))


@h.case
def bools(h):
    for t in range(h.n(150)):
        ref = dict(zip(h.rng.sample(NAMES, 2), h.rng.sample([True, False], 2)))
        if h.rng.random() < 0.5:
            ref = dict(list(ref.items())[:h.rng.randint(0, 1)])
        e = RuntimeEnum.create({"id": 3, "type": "bool", "items": dict(ref)})
        check_bool(h, e, ref, [])
        for _ in range(3):
            n, v = h.rng.choice(NAMES), h.rng.random() < 0.5
            can = n not in ref and v not in ref.values()
            h.check(e.register_bool(n, v) is can, "a boolean entry is added only for a free name and value", name=n, value=v, entries=ref)
            if can:
                ref[n] = v
        check_bool(h, e, ref, [])
        c = RuntimeEnum.create(json.loads(json.dumps(e.asdict())))
        check_bool(h, c, ref, ["rebuilt"])
        h.ev(tuple(ref.items()))


@h.case
def classes(h):
    class E1(RuntimeIntEnum):
        ONE = 1
        Two = 2
        MINUS = -4
        BIG = 200

    class E2(RuntimeIntEnum):
        ZERO = 0
        ALSO_ZERO = 0
        NINE = 9

    reg = EnumRegistry.create({})
    for cls in (E1, E2):
        ref = {x.name.lower(): x.value for x in cls}
        check_int(h, cls.runtime_enum(7), ref, [cls.__name__])
        h.check(cls.runtime_enum(7).id == 7, "the identifier asked for is used")
        e = cls.register_enum(reg)
        check_int(h, e, ref, [cls.__name__, "registered"])
        h.check(reg[cls.__name__] is e and reg[e.id] is e, "a registered class is found by its name and identifier")
        for x in cls:
            h.check(cls.normalize(x) is x and cls.normalize(x.value) is x, "values and members normalize to the member", value=x)
            if x.name.isupper():
                h.check(cls.normalize(x.name) is x and cls.normalize(x.name.lower()) is x, "names normalize to the member in any case", value=x)
        for bad in ("nope", "", 77):
            h.check(raises(lambda: cls.normalize(bad), KeyError, ValueError), "an unknown member is an error", value=bad)
        h.ev(cls.__name__)
    for k in EnumType:
        h.check(EnumType.normalize(k) is k and EnumType.normalize(str(k)) is k and EnumType.normalize(str(k).upper()) is k, "enumeration kinds normalize")
    for kind, good, bad in ((EnumType.INT, (1, -1, 0), ("a", 1.5, None)), (EnumType.BOOL, (True, False), (1, 0, "true", None))):
        for v in good:
            h.check(kind.valid(v) and not raises(lambda: kind.validate(v)), "valid values validate", kind=str(kind), value=v)
        for v in bad:
            h.check(not kind.valid(v) and raises(lambda: kind.validate(v), ValueError), "invalid values are refused", kind=str(kind), value=v)


h.done()
