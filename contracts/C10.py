"""C10: setting and reading channels of an environment."""
from contracts.C07 import *
from builtins import enumerate
from pyvc.models import ctypes_coerce
from runtimepy.channel import Channel
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.registry import ChannelRegistry
from runtimepy import primitives as RP

PRIMS = dict(bool=RP.Bool, double=RP.Double, int8=RP.Int8, int16=RP.Int16, int32=RP.Int32, int64=RP.Int64, uint8=RP.Uint8, uint16=RP.Uint16, uint32=RP.Uint32, uint64=RP.Uint64)
KIND = lambda p: {"b": "bool", "d": "real"}.get(p[0], "int")


def bounds(p):
    w = int(p.lstrip("uint"))
    return (0, 2 ** w - 1) if p[0] == "u" else (-(2 ** (w - 1)), 2 ** (w - 1) - 1)


def prim(it, p, scaling=None, name="raw"):
    """A primitive holding any value."""
    o = call(it, PRIMS[p], scaling=scaling).value
    v = it.c.sym(KIND(p), name)
    if KIND(p) == "int":
        lo, hi = bounds(p)
        it.c.assume(z3.And(v.t >= lo, v.t <= hi))
    raw = it.getattr(o, "raw")
    raw.value = ctypes_coerce(it, raw.ctype, v)
    return o, v


def chan(it, ident, raw, enum=None, cmd=False, default=None):
    ev = new(it, object, primitive=raw)
    return new(it, Channel, id=ident, raw=raw, commandable=cmd, _enum=enum, default=default, description=None, controls=None, event=ev)


class E:
    """An environment: a target channel, another channel, bit fields."""

    def __init__(self, it, p, nsc=0, en=None, which="chan"):
        self.it = it
        self.m, self.fs, self.cells, self.s0, self.kinds, self.fenums = mgr(it, None)
        reg = self.m.attrs["registry"]
        for n in ("chan", "other"):
            it.c.assume(self.s0.rd[z3.StringVal(n)])
        c = [it.c.sym("real", f"c{j}") for j in range(nsc)]
        if nsc == 2:
            it.c.assume(c[1].t != 0)
        self.coef = c
        self.p = p
        self.raw, self.v0 = prim(it, p, MList(items=list(c)) if nsc else None)
        self.oraw, self.ov = prim(it, "int32", None, "other")
        self.enum = self.est = None
        if en:
            self.enum, _, self.est = enum(it, en)
        self.en = en
        self.chan = chan(it, Sym("int", self.s0.rv[z3.StringVal("chan")]), self.raw, "e" if en else None)
        self.other = chan(it, Sym("int", self.s0.rv[z3.StringVal("other")]), self.oraw)
        kind = KIND(p)
        ints = [self.other] + ([self.chan] if kind == "int" else [])
        self.creg = new(it, ChannelRegistry, names=reg, items=MDict([("chan", self.chan), ("other", self.other)]))
        self.env = new(it, ChannelEnvironment, channels=self.creg, fields=self.m, enums=it.c.sym("any", "enums", inp=False), to_add=MList([]),
                       channel_enums=MDict([(self.chan, self.enum)] if en else []), ints=MSet(items=ints), bools=MSet(items=[self.chan] if kind == "bool" else []), floats=MSet(items=[self.chan] if kind == "real" else []))
        self.old = dict(self.cells)

    def key(self, name="chan"):
        if self.it.c.choose(2):
            return name
        return Sym("int", self.s0.rv[z3.StringVal(name)])

    def now(self):
        return tm(self.it, self.it.getattr(self.raw, "value"), KIND(self.p))

    def others_kept(self, what="no other channel or field changes"):
        it = self.it
        it.c.check(what, And(eqv(it, it.getattr(self.oraw, "value"), self.ov), self.cells == self.old))

    def kept(self, what):
        self.it.c.check(what, self.now() == self.v0.t)

    def line(self, raw):
        c = self.coef
        return raw * (c[1].t if len(c) == 2 else 1) + (c[0].t if c else 0)

    def inv(self, v):
        c = self.coef
        return (v - (c[0].t if c else 0)) / (c[1].t if len(c) == 2 else 1)

    def check_stored(self, want, what):
        """want: the raw (real) value asked for; stored saturated to nearest."""
        it, now = self.it, self.now()
        if KIND(self.p) == "real":
            it.c.check(what, now == want)
            return
        lo, hi = bounds(self.p)
        d = z3.ToReal(now) - want
        h = z3.Q(1, 2)
        it.c.check(what, z3.And(now >= lo, now <= hi, z3.Or(z3.And(d <= h, d >= -h), z3.And(now == lo, want < lo), z3.And(now == hi, want > hi))))


def cfg_env(cfg):
    cfg_mgr(cfg)


def v_set_value(it, p, nsc, vk):
    """Numbers and booleans assigned to a plain channel."""
    e = E(it, p, nsc)
    v = it.c.sym(vk, "value")
    k = e.key()
    how = it.c.choose(2)
    o = call(it, method(e.env, "set"), k, v) if how else call(it, it.getattr(e.env, "__setitem__"), k, v)
    it.c.check("a value is accepted", o.ok)
    if KIND(p) == "bool":
        it.c.check("a boolean channel stores the truth of the value", e.now() == (v.t if vk == "bool" else v.t != 0))
    else:
        e.check_stored(e.inv(tm(it, v, "real")), "the nearest raw value is stored, saturated")
    e.others_kept()
    cover(it, "return")


def v_set_raw(it, p):
    """Unscaled assignment stores the value itself."""
    e = E(it, p, 2 if KIND(p) != "bool" else 0)
    v = it.c.sym(KIND(p), "value")
    if KIND(p) == "int":
        lo, hi = bounds(p)
        it.c.assume(z3.And(v.t >= lo, v.t <= hi))
    o = call(it, method(e.env, "set"), e.key(), v, scaled=False)
    it.c.check("an unscaled value is stored as it is", And(o.ok, e.now() == v.t))
    o = call(it, method(e.env, "value"), e.key(), scaled=False)
    it.c.check("and read back unscaled", And(o.ok, tm(it, o.value, KIND(p)) == v.t))
    e.others_kept()
    cover(it, "return")


def v_set_text(it, p, nsc):
    """Text assigned to a channel without an enumeration."""
    e = E(it, p, nsc)
    v = it.c.sym("str", "value")
    o = call(it, method(e.env, "set"), e.key(), v)
    kind = KIND(p)
    if kind == "bool":
        lo = lower(it, v)
        t, f = lo == z3.StringVal("true"), lo == z3.StringVal("false")
        valid, want = z3.Or(t, f), t
    elif kind == "int" and not nsc:
        valid, want = intok(v.t)
        want = z3.ToReal(want)
    else:
        valid = z3.Function("float_ok", S, B)(v.t)
        want = e.inv(z3.Function("float_of", S, z3.RealSort())(v.t))
    if o.ok:
        it.c.check("only text that spells a value is accepted", valid)
        if kind == "bool":
            it.c.check("the boolean the text spells is stored", e.now() == want)
        else:
            e.check_stored(want, "the value the text spells is stored, scaled and saturated")
        cover(it, "accepted")
    else:
        it.c.check("other text is a value error", And(o.raised(ValueError), z3.Not(valid)))
        e.kept("a refused value changes nothing")
        cover(it, "refused")
    e.others_kept()


def v_set_enum(it, p, en):
    """Text assigned to an enumerated channel."""
    e = E(it, p, 0, en)
    v = it.c.sym("str", "value")
    o = call(it, method(e.env, "set"), e.key(), v)
    now = e.now()
    w = call(it, method(e.enum, "get_bool" if KIND(p) == "bool" else "get_int"), v)
    it.c.check("a name is accepted exactly when the enumeration knows it", o.ok == w.ok)
    if o.ok:
        if KIND(p) == "bool":
            it.c.check("the named value is stored", now == tm(it, w.value, "bool"))
        else:
            e.check_stored(z3.ToReal(tm(it, w.value, "int")), "the named value is stored")
        cover(it, "accepted")
    else:
        it.c.check("an unknown name is a key error", o.raised(KeyError))
        e.kept("a refused value changes nothing")
        cover(it, "refused")
    e.others_kept()


def v_value(it, p, nsc, en):
    e = E(it, p, nsc, en)
    resolve = it.c.choose(2) == 1
    scaled = it.c.choose(2) == 1
    o = call(it, method(e.env, "value"), e.key(), resolve_enum=resolve, scaled=scaled)
    raw = e.v0
    if en and resolve:
        w = call(it, method(e.enum, "get_str"), raw)
        if w.ok:
            it.c.check("an enumerated channel reads as its value's name", And(o.ok, eqv(it, o.value, w.value)))
            cover(it, "named")
        else:
            it.c.check("a value without a name is a key error", o.raised(KeyError))
            cover(it, "unnamed")
    elif nsc and scaled:
        it.c.check("a scaled channel reads as the line through its raw value", And(o.ok, tm(it, o.value, "real") == e.line(tm(it, raw, "real"))))
    else:
        it.c.check("a channel reads as its value", And(o.ok, tm(it, o.value, KIND(p)) == raw.t))
    e.kept("reading changes nothing")
    e.others_kept("reading changes nothing else")
    cover(it, "return")


def v_field(it, which):
    """Keys of bit fields reach the fields."""
    e = E(it, "int32")
    f = e.fs[which]
    i = NAMES.index(which)
    text = it.c.choose(2) == 1
    v = it.c.sym("str" if text else "int", "value")
    k = e.key(which)
    cells0 = dict(e.cells)
    w = call(it, method(e.m, "set"), k, v)
    want = e.cells[id(f)]
    e.cells.clear()
    e.cells.update(cells0)
    o = call(it, method(e.env, "set"), k, v)
    it.c.check("a field is set like through its manager", And(o.ok == w.ok, (e.cells[id(f)] - want) % 2 ** WIDTHS[i] == 0))
    for n in NAMES:
        if n != which:
            it.c.check("no other field changes", e.cells[id(e.fs[n])] == cells0[id(e.fs[n])])
    it.c.check("no channel changes", And(e.now() == e.v0.t, eqv(it, it.getattr(e.oraw, "value"), e.ov)))
    r = call(it, method(e.env, "value"), k)
    it.c.check("a field is read like through its manager", And(r.ok, eqv(it, r.value, call(it, method(e.m, "get"), k).value)))
    cover(it, "return")


def v_missing(it):
    """Keys that name nothing."""
    e = E(it, "uint8")
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "int", "key")
    nm = key.t if by_name else e.s0.mv[key.t]
    known = e.s0.rd[nm] if by_name else e.s0.md[key.t]
    hit = lambda *ns: z3.And(known, z3.Or(*[nm == z3.StringVal(n) for n in ns]))
    fr = Frame(it, e.env)
    o = call(it, method(e.env, "exists"), key)
    it.c.check("exactly the channels and fields exist", And(o.ok, it.truth(o.value) == hit("chan", "other", *NAMES)))
    o = call(it, method(e.env, "field_or_channel"), key)
    it.c.check("the lookup always answers", o.ok)
    if o.value is None:
        it.c.check("only unknown keys find nothing", z3.Not(hit("chan", "other", *NAMES)))
    else:
        for n, x in (("chan", e.chan), ("other", e.other), *e.fs.items()):
            if o.value is x:
                it.c.check("the entity of that name is found", hit(n))
    o = call(it, it.getattr(e.env, "__getitem__"), key)
    if o.ok:
        it.c.check("a channel is found under its own name", hit("chan") if o.value[0] is e.chan else hit("other"))
        it.c.check("its enumeration is found with it", o.value[1] is None)
    else:
        it.c.check("a key that is no channel is a key error", And(o.raised(KeyError), z3.Not(hit("chan", "other"))))
    if not it.c.branch(hit("chan", "other", *NAMES)):
        for what, args in (("set", (it.c.sym("int", "v"),)), ("value", ()), ("age_ns", ())):
            o = call(it, method(e.env, what), key, *args)
            it.c.check("unknown keys are key errors", o.raised(KeyError))
        cover(it, "unknown")
    fr.check("lookup")
    cover(it, "return")


def v_typed(it, p):
    """get_int, get_bool and get_float give only channels of their type."""
    e = E(it, p)
    fr = Frame(it, e.env)
    for fn, kind in (("get_int", "int"), ("get_bool", "bool"), ("get_float", "real")):
        o = call(it, method(e.env, fn), e.key())
        if KIND(p) == kind:
            v = o.value if kind == "real" else o.value[0] if o.ok else None
            it.c.check("a channel of the type asked for is given", And(o.ok, v is e.chan))
        else:
            it.c.check("a channel of another type is a key error", o.raised(KeyError))
    o = call(it, method(e.env, "get_int"), "other")
    it.c.check("the other integer channel is given", And(o.ok, o.value[0] is e.other))
    fr.check("lookup")
    cover(it, "return")


def v_add(it, p):
    e = E(it, p)
    a = it.c.sym("int", "amount")
    lo, hi = bounds(p)
    it.c.assume(z3.And(e.v0.t + a.t >= lo, e.v0.t + a.t <= hi))
    o = call(it, method(e.env, "add_int"), e.key(), a)
    it.c.check("an integer channel is increased by the amount", And(o.ok, e.now() == e.v0.t + a.t, tm(it, o.value, "int") == e.now()))
    e.others_kept()
    cover(it, "return")


def v_values(it):
    """The listing reads every registered channel and field once."""
    e = E(it, "uint16", 2, None)
    reg = e.m.attrs["registry"]
    names = ["chan", *NAMES, "other"]
    reg.attrs.update(_mapping=MDict([(i + 1, n) for i, n in enumerate(names)]), _reverse=MDict([(n, i + 1) for i, n in enumerate(names)]), registered_order=MList(items=names))
    o = call(it, method(e.env, "values"))
    d = o.value
    it.c.check("the listing has every name, in registration order", [k for k, _ in d.pairs] == ["chan", *NAMES, "other"])
    for n, v in d.pairs:
        it.c.check("and every current value", eqv(it, v, call(it, method(e.env, "value"), n).value))
    e.kept("listing changes nothing")
    e.others_kept("listing changes nothing else")
    a, b = it.c.sym("int", "a"), it.c.sym("int", "b")
    o = call(it, method(e.env, "apply"), MDict([("other", a), ("eight", b)]))
    lo, hi = bounds("int32")
    x = tm(it, it.getattr(e.oraw, "value"), "int")
    it.c.check("applying a map sets each of its keys", And(o.ok, x == z3.If(a.t < lo, lo, z3.If(a.t > hi, hi, a.t)), (e.cells[id(e.fs["eight"])] - b.t) % 256 == 0))
    e.kept("and nothing else")
    for n in NAMES[:2]:
        it.c.check("and no other field", e.cells[id(e.fs[n])] == e.old[id(e.fs[n])])
    cover(it, "return")


def v_apply_unknown(it):
    """A map with an unknown key, whatever else the environment has."""
    e = E(it, "uint8")
    if it.c.choose(2):
        e.m.attrs.update(fields=MList(items=[]), lookup=MDict([]), enum_lookup=MDict([]))
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "int", "key")
    nm = key.t if by_name else e.s0.mv[key.t]
    it.c.assume(z3.Not(e.s0.rd[key.t]) if by_name else z3.Not(e.s0.md[key.t]))
    a, b = it.c.sym("int", "a"), it.c.sym("int", "b")
    first = it.c.choose(2) == 1
    pairs = [("other", a), (key, b)]
    o = call(it, method(e.env, "apply"), MDict(pairs if first else pairs[::-1]))
    it.c.check("a map with an unknown key is a key error", o.raised(KeyError))
    lo, hi = bounds("int32")
    x = tm(it, it.getattr(e.oraw, "value"), "int")
    it.c.check("the keys before it were set, the ones after it not", x == (z3.If(a.t < lo, lo, z3.If(a.t > hi, hi, a.t)) if first else e.ov.t))
    e.kept("and nothing else changes")
    it.c.check("and no field", e.cells == e.old)
    cover(it, "return")


ENV = "runtimepy.channel.environment.base:BaseChannelEnvironment"
INTP = [p for p in PRIMS if KIND(p) == "int"]
K = dict(branch_ms=300)
CONTRACTS = [
    Unit(f"set a value[{p}, {n} terms, {vk}]", ENV + ".set", lambda it, p=p, n=n, vk=vk: v_set_value(it, p, n, vk), cfg_env, **K)
    for p, n, vk in [(p, 0, "int") for p in INTP] + [(p, 2, "real") for p in INTP] + [("double", 0, "real"), ("double", 2, "real"), ("double", 2, "int"), ("bool", 0, "bool"), ("bool", 0, "int")]
] + [
    Unit(f"set an unscaled value[{p}]", ENV + ".set", lambda it, p=p: v_set_raw(it, p), cfg_env, **K) for p in ("int8", "uint16", "uint64", "double", "bool")
] + [
    Unit(f"set text[{p}, {n} terms]", ENV + ".set", lambda it, p=p, n=n: v_set_text(it, p, n), cfg_env, covers=("accepted", "refused"), **K)
    for p, n in (("int8", 0), ("uint32", 0), ("int64", 0), ("uint8", 2), ("int32", 2), ("double", 0), ("double", 2), ("bool", 0))
] + [
    Unit(f"set an enumeration name[{p}]", ENV + ".set", lambda it, p=p, en=en: v_set_enum(it, p, en), cfg_env, covers=("accepted", "refused"), **K)
    for p, en in (("int8", INT), ("uint32", INT), ("bool", BOOL), ("uint8", BOOL))
] + [
    Unit(f"read a value[{p}, {n} terms{', enumerated' if en else ''}]", ENV + ".value", lambda it, p=p, n=n, en=en: v_value(it, p, n, en), cfg_env, covers=("return", "named", "unnamed") if en else ("return",), **K)
    for p, n, en in (("int8", 0, None), ("uint64", 2, None), ("int32", 2, None), ("double", 2, None), ("bool", 0, None), ("uint8", 0, INT), ("int16", 0, INT), ("bool", 0, BOOL))
] + [
    Unit(f"bit fields through the environment[{n}]", ENV + ".set", lambda it, n=n: v_field(it, n), cfg_env, **K) for n in ("flag", "eight")
] + [
    Unit("lookups and unknown keys", ENV + ".exists", v_missing, cfg_env, covers=("return", "unknown"), **K),
    Unit("apply an unknown key", ENV + ".apply", v_apply_unknown, cfg_env, **K),
    Unit("values and apply", ENV + ".values", v_values, cfg_env, **K),
] + [Unit(f"typed lookup[{p}]", ENV + ".get_int", lambda it, p=p: v_typed(it, p), cfg_env, **K) for p in ("uint8", "double", "bool")] + [
    Unit(f"add to an integer[{p}]", ENV + ".add_int", lambda it, p=p: v_add(it, p), cfg_env, **K) for p in INTP]
