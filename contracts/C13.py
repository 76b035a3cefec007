"""C13: channel event telemetry."""
from contracts.C10 import *
import copy
import logging
from pyvc.models import enc_axioms, dec_axioms, codec, RANGES, SIZES
from runtimepy.channel.environment.telemetry import TelemetryChannelEnvironment
from runtimepy.channel.event import PrimitiveEvent
from runtimepy.channel.event.header import PrimitiveEventHeader
from runtimepy.channel.registry import ParsedEvent
from runtimepy.codec.protocol import Protocol, ProtocolFactory
from runtimepy.enum.registry import EnumRegistry
from vcorelib.io.fifo import ByteFifo

CODE = dict(bool="?", double="d", int8="b", int16="h", int32="i", int64="q", uint8="B", uint16="H", uint32="I", uint64="Q")
HDR = 10
TS_MAX = 2 ** 64 - 1


class Fifo(ByteFifo):
    """The real fifo, remembering what was taken last."""

    def pop(self, size):
        self.last = super().pop(size)
        return self.last


class Metrics:
    def __init__(self):
        self.calls = []

    def increment(self, count):
        self.calls.append(count)


def header(it, a=None, kw=None):
    """One instance of the real event header protocol, on a pristine factory."""
    nm = call(it, NameRegistry).value
    call(it, method(nm, "register_name"), "ByteOrder")
    er = new(it, EnumRegistry, items=MDict([["ByteOrder", new(it, object)]]), names=nm)
    p = call(it, Protocol, er).value
    call(it, PrimitiveEventHeader.initialize, p)
    return call(it, copy.copy, p).value


def cfg_ev(cfg):
    base_cfg(cfg)
    cfg.model(logging.getLogger, lambda it, a, kw: new(it, Log), "logging.getLogger")
    cfg.model(ProtocolFactory.__dict__["instance"].__func__, header, "PrimitiveEventHeader.instance (first use of the factory)")


def enc(it, code, v):
    return enc_axioms(it, code, ">", v)


def event_bytes(it, ident, ts, p, v):
    return z3.Concat(enc(it, "H", ident), enc(it, "Q", ts), enc(it, CODE[p], v))


def ts_sym(it, name):
    t = it.c.sym("int", name)
    it.c.assume(z3.And(t.t >= 0, t.t <= TS_MAX))
    return t


def pv(it, raw, p):
    return tm(it, it.getattr(raw, "value"), KIND(p))


def sym_of(it, p, name):
    v = it.c.sym(KIND(p), name)
    if KIND(p) == "int":
        lo, hi = bounds(p)
        it.c.assume(z3.And(v.t >= lo, v.t <= hi))
    return v


def stream(it):
    s = Stream(it.c.sym("bytes", "before").t)
    s.pos = z3.Length(s.data)
    return s


def event(it, p):
    raw, v = prim(it, p)
    ident = it.c.sym("int", "ident")
    it.c.assume(z3.And(ident.t >= 1, ident.t < 65536))
    o = call(it, PrimitiveEvent, raw, ident)
    it.c.check("an event can be made for every identifier that fits", o.ok)
    e = o.value
    raw.attrs["last_updated_ns"] = t = ts_sym(it, "updated")
    return e, raw, v, ident, t


def v_poll(it, p):
    e, raw, v, ident, t = event(it, p)
    e.attrs["prev_ns"] = prev = ts_sym(it, "prev")
    e.attrs["min_period_ns"] = mp = ts_sym(it, "period")
    s = stream(it)
    before = s.data
    force = it.c.choose(2) == 1
    m = it.call(Metrics, []) if it.c.choose(2) else None
    o = call(it, method(e, "_poll"), s, flush=it.c.choose(2) == 1, channel=m, force=force)
    due = z3.Or(z3.BoolVal(force), t.t - prev.t >= mp.t)
    n = tm(it, o.value)
    it.c.check("polling never fails", o.ok)
    it.c.check("an event is written exactly when forced or the period has passed", s.data == z3.If(due, z3.Concat(before, event_bytes(it, ident.t, t.t, p, v.t)), before))
    it.c.check("the result counts the bytes written", n == z3.Length(s.data) - z3.Length(before))
    it.c.check("the period restarts with each event", tm(it, e.attrs["prev_ns"]) == z3.If(due, t.t, prev.t))
    it.c.check("polling changes no value", pv(it, raw, p) == v.t)
    if m is not None:
        calls = it.getattr(m, "calls").items
        it.c.check("metrics count the bytes", And(len(calls) == 1, eqv(it, calls[0], o.value)))
    cover(it, "return")


def v_ident(it):
    raw, v = prim(it, "uint8")
    ident = it.c.sym("int", "ident")
    o = call(it, PrimitiveEvent, raw, ident)
    fits = z3.And(ident.t >= 0, ident.t < 65536)
    it.c.check("events are made exactly for identifiers that fit", fits if o.ok else z3.Not(fits))
    cover(it, "return" if o.ok else "refused")


class Boom(Exception):
    pass


def v_registered(it, p):
    """One event stream, from registration until the context ends."""
    e, raw, v, ident, t = event(it, p)
    e.attrs["prev_ns"] = ts_sym(it, "prev")
    e.attrs["min_period_ns"] = mp = ts_sym(it, "period")
    s = stream(it)
    ref = s.data
    force = it.c.choose(2) == 1
    fail = it.c.choose(2) == 1
    nv, nt = sym_of(it, p, "new"), ts_sym(it, "later")
    it.c.assume(nt.t >= t.t)
    seen = {}

    def body(_):
        first = t.t >= mp.t
        want = z3.If(first, z3.Concat(ref, event_bytes(it, ident.t, t.t, p, v.t)), ref)
        it.c.check("registering writes the current value", s.data == want)
        o = call(it, method(raw, "set_value"), nv, timestamp_ns=nt)
        it.c.check("setting never fails", o.ok)
        due = z3.And(nv.t != v.t, z3.Or(z3.BoolVal(force), nt.t - z3.If(first, t.t, 0) >= mp.t))
        seen["want"] = z3.If(due, z3.Concat(want, event_bytes(it, ident.t, nt.t, p, nv.t)), want)
        it.c.check("each change is written, unless the period has not passed", s.data == seen["want"])
        if fail:
            it.throw(Boom)
        return None

    o = run_cm(it, it.call(it.getattr(e, "registered"), [s], {"force": force}), body)
    it.c.check("an exception goes through", o.ok != fail)
    it.c.check("afterwards nothing is registered", And(it.getattr(raw, "callbacks").pairs == [], it.truth(e.attrs["streaming"]) == False))
    o = call(it, method(raw, "set_value"), sym_of(it, p, "last"), timestamp_ns=ts_sym(it, "last_t"))
    it.c.check("and later changes are not written", And(o.ok, s.data == seen["want"]))
    cover(it, "failed" if fail else "return")


def run_cm(it, cm, body):
    """Outcome of running body under a context manager."""
    return call(it, Prim(lambda it, a, kw: it.run_with(cm, body), "with"))


def v_busy(it):
    e, raw, v, ident, t = event(it, "uint8")
    e.attrs["streaming"] = True
    s = stream(it)
    ref = s.data
    o = run_cm(it, it.call(it.getattr(e, "registered"), [s]), lambda _: None)
    it.c.check("a stream already registered is refused without effect", And(o.raised(AssertionError), s.data == ref, it.getattr(raw, "callbacks").pairs == [], e.attrs["streaming"] is True))
    cover(it, "refused")


# -- environments
class Env:
    """Two bit fields of one primitive, and two channels."""

    NAMES = ("flag", "three", "chan", "other")

    def __init__(self, it, p, nsc=0, tag=""):
        self.it, self.p = it, p
        reg = call(it, NameRegistry).value
        for n in self.NAMES:
            call(it, method(reg, "register_name"), n)
        self.ids = {n: i + 1 for i, n in enumerate(self.NAMES)}
        self.fraw, self.fv = prim(it, "uint8", name="fraw" + tag)
        fs = MDict([(n, fld(it, BitFlag if w == 1 else BitField, n, 0 if w == 1 else 1, w, self.fraw)) for n, w in (("flag", 1), ("three", 3))])
        g = new(it, BitFields, raw=self.fraw, fields=fs, by_index=MDict([]), _finalized=True)
        m = new(it, BitFieldsManager, registry=reg, enums=new(it, object), fields=MList([g]), by_primitive=MDict([]), lookup=MDict([("flag", 0), ("three", 0)]), enum_lookup=MDict([]))
        c = self.coef = [it.c.sym("real", f"c{j}{tag}") for j in range(nsc)]
        if nsc == 2:
            it.c.assume(c[1].t != 0)
        self.raw, self.v = prim(it, p, MList(items=list(c)) if nsc else None, "raw" + tag)
        self.oraw, self.ov = prim(it, "int32", None, "other" + tag)
        self.chan = chan(it, 3, self.raw)
        self.other = chan(it, 4, self.oraw)
        for ch, raw, i in ((self.chan, self.raw, 3), (self.other, self.oraw, 4)):
            ch.attrs["event"] = call(it, PrimitiveEvent, raw, i).value
        self.fifo = call(it, Fifo).value
        self.fifo.attrs["last"] = None
        self.creg = new(it, ChannelRegistry, names=reg, items=MDict([["chan", self.chan], ["other", self.other]]), event_header=header(it), event_fifo=self.fifo, header_ready=False)
        self.env = new(it, ChannelEnvironment, channels=self.creg, fields=m, channel_enums=MDict([]), ints=MSet(items=[]), bools=MSet(items=[]), floats=MSet(items=[]))
        self.prims = {"flag": (self.fraw, "uint8"), "three": (self.fraw, "uint8"), "chan": (self.raw, p), "other": (self.oraw, "int32")}

    def values(self):
        it = self.it
        return [tm(it, it.getattr(r, "value"), k) for r, k in ((self.fraw, "int"), (self.raw, KIND(self.p)), (self.oraw, "int"))]

    def leaks(self):
        it = self.it
        return And(*[it.getattr(r, "callbacks").pairs == [] for r in (self.fraw, self.raw, self.oraw)], *[not it.truth(it.getattr(c.attrs["event"], "streaming")) for c in (self.chan, self.other)])


PATTERNS = [(".*", ("flag", "three", "chan", "other")), ("a", ("flag", "chan")), ("three", ("three",)), ("none", ()), ("a", None), ("other", None)]


def v_env_registered(it, p):
    x = Env(it, p)
    for r in (x.fraw, x.raw, x.oraw):
        r.attrs["last_updated_ns"] = ts_sym(it, "t")
    pattern, names = PATTERNS[it.c.choose(len(PATTERNS))]
    exact = names is None
    if exact:
        names = tuple(n for n in Env.NAMES if n == pattern)
    s = stream(it)
    ref = [s.data]
    fail = it.c.choose(2) == 1
    busy = "chan" in names and it.c.choose(2) == 1
    if busy:
        x.chan.attrs["event"].attrs["streaming"] = True
    which = ["fraw", "raw"][it.c.choose(2)]

    def body(got):
        it.c.check("a busy stream cannot be registered", not busy)
        it.c.check("the registered names are those that match, fields first", [str(n) for n in got.items] == list(names))
        want = ref[0]
        for n in names:
            r, k = x.prims[n]
            want = z3.Concat(want, event_bytes(it, x.ids[n], it.getattr(r, "last_updated_ns").t, k, pv(it, r, k)))
        it.c.check("the current value of each is written", s.data == want)
        r = getattr(x, which)
        k = "uint8" if which == "fraw" else p
        old = pv(it, r, k)
        nv, nt = sym_of(it, k, "new"), ts_sym(it, "later")
        it.c.assume(nt.t >= it.getattr(r, "last_updated_ns").t)
        call(it, method(r, "set_value"), nv, timestamp_ns=nt)
        add = z3.StringVal("")
        for n in names:
            if x.prims[n][0] is r:
                add = z3.Concat(add, event_bytes(it, x.ids[n], nt.t, k, nv.t))
        want = z3.If(nv.t != old, z3.Concat(want, add), want)
        it.c.check("each change is written for each name it belongs to", s.data == want)
        ref[0] = want
        if fail:
            it.throw(Boom)
        return None

    o = run_cm(it, it.call(it.getattr(x.env, "registered"), [s], {"pattern": pattern} | ({"exact": True} if exact else {})), body)
    if busy:
        it.c.check("a busy stream is refused", o.raised(AssertionError))
        x.chan.attrs["event"].attrs["streaming"] = False
        it.c.check("and nothing stays registered", x.leaks())
        cover(it, "refused")
        return
    it.c.check("an exception goes through", o.ok != fail)
    it.c.check("afterwards nothing is registered", x.leaks())
    call(it, method(getattr(x, which), "set_value"), sym_of(it, "uint8" if which == "fraw" else p, "last"), timestamp_ns=ts_sym(it, "last_t"))
    it.c.check("and later changes are not written", s.data == ref[0])
    cover(it, "return")


# -- parsing
def hdr_vals(it, x):
    h = x.creg.attrs["event_header"]
    return [tm(it, it.call(it.getattr(h, "__getitem__"), [n])) for n in ("identifier", "timestamp")]


def pstate(it, x):
    f = x.fifo
    return it.term(it.getattr(f, "data"), "bytes"), it.term(it.getattr(f, "size"), "int"), bzz(it.truth(x.creg.attrs["header_ready"])), *hdr_vals(it, x)


def bzz(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def known(i):
    return z3.And(i >= 1, i <= 4)


def vsize(it, x, i):
    return z3.If(i <= 2, 1, z3.If(i == 3, SIZES[CODE[x.p]], 4))


def ppending(it, x):
    data, size, ready, i, t = pstate(it, x)
    return z3.If(ready, z3.Concat(enc(it, "H", i), enc(it, "Q", t), data), data)


def pwf(it, x):
    data, size, ready, i, t = pstate(it, x)
    return z3.And(size == z3.Length(data), i >= 0, i < 65536, t >= 0, t <= TS_MAX, z3.Implies(ready, known(i)))


def pdone(it, x):
    data, size, ready, i, t = pstate(it, x)
    return z3.If(ready, z3.Length(data) < vsize(it, x, i), z3.Length(data) < HDR)


def phavoc(it, x):
    x.fifo.attrs["data"] = MBytes(it.c.fresh(z3.StringSort(), "buffer"))
    x.fifo.attrs["size"] = Sym("int", it.c.fresh(z3.IntSort(), "size"))
    x.creg.attrs["header_ready"] = Sym("bool", it.c.fresh(z3.BoolSort(), "ready"))
    rf = it.getattr(x.creg.attrs["event_header"], "_regular_fields")
    out = [(x.fifo, "data"), (x.fifo, "size"), (x.fifo, "last"), (x.creg, "header_ready"), (x.fifo.attrs["data"],)]
    for n in ("identifier", "timestamp"):
        p = it.dict_get(rf, n) if hasattr(it, "dict_get") else dict(rf.pairs)[n]
        it.getattr(p, "raw").value = Sym("int", it.c.fresh(z3.IntSort(), n))
        p.attrs["last_updated_ns"] = Sym("int", it.c.fresh(z3.IntSort(), "t"))
        out += [(it.getattr(p, "raw"),), (p, "last_updated_ns"), (p,)]
    return out


def cfg_parse(cfg):
    cfg_ev(cfg)

    def inv(it, env):
        g = it.c.ghost
        x = g["x"]
        kg = bzz(it.truth(env.vars["keep_going"]))
        data, size, ready, i, t = pstate(it, x)
        name = env.vars["name"]
        nm = it.term(name, "str") if not isinstance(name, str) else z3.StringVal(name)
        same = z3.And(*[z3.Implies(i == x.ids[n], nm == z3.StringVal(n)) for n in x.NAMES])
        return [
            ("well-formed parser state", pwf(it, x)),
            ("input so far = events given, then the bytes pending", g["total"] == z3.Concat(g["enc"], ppending(it, x))),
            ("the pending event's name is that of its identifier", z3.Implies(ready, same)),
            ("stops only without a complete event", z3.Implies(z3.Not(kg), pdone(it, x))),
        ]

    def havoc(it, env):
        g = it.c.ghost
        for al in phavoc(it, g["x"]):
            it.allow(*al)
        g["enc"] = it.c.fresh(z3.StringSort(), "enc")
        # one of the names, or none yet
        k = it.c.choose(5)
        env.vars["name"] = (*g["x"].NAMES, "")[k]
        env.vars["ident"] = Sym("int", it.c.fresh(z3.IntSort(), "ident"))

    def variant(it, env):
        data, size, ready, i, t = pstate(it, it.c.ghost["x"])
        kg = bzz(it.truth(env.vars["keep_going"]))
        return 2 * z3.Length(data) + z3.If(ready, z3.IntVal(2), z3.IntVal(0)) + z3.If(kg, z3.IntVal(1), z3.IntVal(0))

    cfg.loop(TelemetryChannelEnvironment.parse_event_stream, 0, LoopSpec(inv, havoc, decreases=variant))


def v_parse(it, p):
    g = it.c.ghost
    g["x"] = x = Env(it, p)
    phavoc(it, x)
    it.c.assume(pwf(it, x))
    data = it.c.sym("bytes", "data")
    g["total"] = z3.Concat(ppending(it, x), data.t)
    g["enc"] = z3.StringVal("")
    vals = x.values()
    abandon = it.c.choose(2) == 1
    s = Stream(data.t)

    def on(ev):
        name = it.getattr(ev, "name")
        assert isinstance(name, str), name
        k = x.prims[name][1]
        body = it.term(x.fifo.attrs["last"], "bytes")
        dec_axioms(it, CODE[k], ">", body)
        _, dec, _ = codec(CODE[k], ">")
        it.c.check("an event has the value whose bytes were taken", z3.And(z3.Length(body) == SIZES[CODE[k]], tm(it, it.getattr(ev, "value"), KIND(k)) == dec(body)))
        ts = tm(it, it.getattr(ev, "timestamp"))
        g["enc"] = z3.Concat(g["enc"], enc(it, "H", z3.IntVal(x.ids[name])), enc(it, "Q", ts), body)
        if abandon:
            it.c.check("stopping after an event loses and repeats nothing", z3.And(pwf(it, x), g["total"] == z3.Concat(g["enc"], ppending(it, x))))
            cover(it, "abandoned")
            it.throw(GeneratorExit)
        return None

    o = drain(it, call(it, method(x.env, "parse_event_stream"), s).value, on)
    if o.raised(AssertionError):
        data, size, ready, i, t = pstate(it, x)
        it.c.check("only an unknown identifier is an error", z3.Not(known(i)))
        cover(it, "unknown")
        return
    it.c.check("parsing does not fail otherwise", o.ok or o.raised(GeneratorExit))
    if o.ok:
        it.c.check("state is well-formed", pwf(it, x))
        it.c.check("input = events given, then the bytes pending", g["total"] == z3.Concat(g["enc"], ppending(it, x)))
        it.c.check("every complete event was given", pdone(it, x))
        it.c.check("parsing changes no value", z3.And(*[a == b for a, b in zip(vals, x.values())]))
        cover(it, "return")


def v_ingest(it, p, nsc):
    x = Env(it, p, nsc)
    n = x.NAMES[it.c.choose(4)]
    r, k = x.prims[n]
    v = sym_of(it, k, "value")
    i = {"flag": 0, "three": 0, "chan": 1, "other": 2}[n]
    old = x.values()
    o = call(it, method(x.env, "ingest"), it.call(ParsedEvent, [n, ts_sym(it, "ts"), v]))
    now = x.values()
    it.c.check("an event's value is taken as it is", And(o.ok, now[i] == v.t))
    it.c.check("and nothing else changes", z3.And(*[now[j] == old[j] for j in range(3) if j != i]))
    cover(it, "return")


def v_mirror(it, p, nsc):
    """What one environment writes brings another to the same values."""
    a = Env(it, p, nsc, "_a")
    b = Env(it, p, nsc, "_b")
    for r in (a.fraw, a.raw, a.oraw):
        r.attrs["last_updated_ns"] = ts_sym(it, "t")
    s = Stream(z3.StringVal(""))
    o = run_cm(it, it.call(it.getattr(a.env, "registered"), [s], {"pattern": "^chan$|flag"}), lambda _: None)
    it.c.check("registering succeeds", o.ok)
    s.pos = z3.IntVal(0)
    names = []

    def on(ev):
        names.append(it.getattr(ev, "name"))
        w = call(it, method(b.env, "ingest"), ev)
        it.c.check("every event can be ingested", w.ok)
        return None

    o = drain(it, call(it, method(b.env, "parse_event_stream"), s).value, on)
    it.c.check("the whole stream parses", And(o.ok, names == ["flag", "chan"]))
    it.c.check("the mirror has the same values", z3.And(*[u == w for u, w in zip(a.values()[:2], b.values()[:2])]))
    cover(it, "return")


T = "runtimepy.channel.environment.telemetry:TelemetryChannelEnvironment"
EV = "runtimepy.channel.event:PrimitiveEvent"
CONTRACTS = [
    *[Unit(f"poll[{p}]", EV + "._poll", lambda it, p=p: v_poll(it, p), cfg_ev, **K) for p in PRIMS],
    Unit("identifier", EV + ".__init__", v_ident, cfg_ev, covers=("return", "refused"), **K),
    *[Unit(f"registered[{p}]", EV + ".registered", lambda it, p=p: v_registered(it, p), cfg_ev, covers=("return", "failed"), **K) for p in PRIMS],
    Unit("registered twice", EV + ".registered", v_busy, cfg_ev, covers=("refused",), **K),
    *[Unit(f"environment registered[{p}]", T + ".registered", lambda it, p=p: v_env_registered(it, p), cfg_ev, covers=("return", "refused"), **K) for p in ("uint8", "bool", "double")],
    *[Unit(f"parse[{p}]", T + ".parse_event_stream", lambda it, p=p: v_parse(it, p), cfg_parse, covers=("return", "abandoned", "unknown"), **K) for p in PRIMS],
    *[Unit(f"ingest[{p}{', scaled' if n else ''}]", T + ".ingest", lambda it, p=p, n=n: v_ingest(it, p, n), cfg_ev, **K) for p in PRIMS for n in ((0, 2) if p != "bool" else (0,))],
    *[Unit(f"mirror[{p}{', scaled' if n else ''}]", T + ".registered", lambda it, p=p, n=n: v_mirror(it, p, n), cfg_ev, **K) for p, n in (("uint8", 0), ("int16", 2), ("bool", 0), ("double", 2), ("uint64", 0))],
]
