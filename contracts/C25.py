"""C25: waiting for and sampling values."""
from contracts.common import *
import asyncio
import contextlib
import math
from contracts.C15 import zb
from contracts.C18 import prim, put, raw
from runtimepy.channel.environment.base import BaseChannelEnvironment
from runtimepy.channel.environment import base as CEB
from runtimepy.primitives import Bool, Double, Int32
from runtimepy.primitives import evaluation as EV
from runtimepy.primitives import float as PFL
from runtimepy.primitives import int as PI
from runtimepy.primitives.evaluation import EvalResult, Operator

KIND = {Int32: "int", Double: "real", Bool: "bool"}
SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
MAX = 3  # changes within one wait


# -- the event loop
class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self):
        return self.waited(self)


class Queue:
    def __init__(self):
        self.items = []

    def put_nowait(self, x):
        self.items.append(x)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def get_nowait(self):
        return self.items.pop(0)

    def get(self):
        return self.taken(self)


class Timeout:
    async def __aenter__(self):
        self.enter()
        return self

    async def __aexit__(self, a, b, c):
        self.leave()
        return False


class Loop:
    def time(self):
        return self.now()

    def call_later(self, delay, fn, *args):
        return self.later(delay, fn, *args)


class Timer:
    def cancel(self):
        self.active = False


def expire(it):
    """The time limit passes."""
    g = it.c.ghost
    g["ended"] = "timeout"
    t, fn, args = g["timers"].pop(0)
    t.attrs["active"] = False
    it.call(fn, list(args))


def timers(it):
    g = it.c.ghost
    g["timers"] = [x for x in g["timers"] if x[0].attrs["active"] is True]
    return g["timers"]


def step(it):
    """One thing happens while the code waits."""
    g = it.c.ghost
    what = it.c.choose(3 if g["changes"] < g["max"] else 2)
    if what == 0:
        if timers(it):
            expire(it)
            return
        g["ended"] = "timeout"
        it.c.check("a wait has a time limit", len(g["limits"]) > 0)
        it.throw(asyncio.TimeoutError)
    if what == 1:
        g["ended"] = "cancelled"
        it.throw(asyncio.CancelledError)
    change(it)


def change(it):
    """The value is written: any value, perhaps the same."""
    g = it.c.ghost
    g["changes"] += 1
    p, k = g["p"], g["k"]
    old = raw(it, p)
    v = it.c.sym(k, f"value{g['changes']}")
    if k == "int":
        it.c.assume(z3.And(v.t >= -(2**31), v.t < 2**31))
    stamp = g["stamp"] = it.c.sym("int", f"time{g['changes']}")
    differs = z3.Not(zb(it.eq(old, v)))
    if g["ended"] is None and it.c.branch(differs):
        g["seen"].append((old, v, stamp))
    it.call(method(p, "set_value"), [v])


def cfg_wait(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.isnan = lambda it, v: z3.BoolVal(False)
    cfg.model(asyncio.Event, lambda it, a, kw: event(it), "asyncio.Event")
    cfg.model(asyncio.Queue, lambda it, a, kw: queue(it), "asyncio.Queue")

    def event(it):
        e = it.call(Event, [])
        e.attrs["waited"] = Prim(waited, "wait")
        it.c.ghost["events"].append(e)
        return e

    def waited(it, a, kw):
        def run():
            g = it.c.ghost
            while not it.c.branch(zb(it.truth(a[0].attrs["flag"]))):
                step(it)
            # others may write before the waiter runs again
            while g["changes"] < g["max"] and it.c.choose(2):
                change(it)
            g["ended"] = "event"
            return True
        return CoroVal(run, "wait")

    def queue(it):
        q = it.call(Queue, [])
        q.attrs["taken"] = Prim(taken, "get")
        return q

    def taken(it, a, kw):
        def run():
            while it.c.branch(zb(it.truth(it.call(method(a[0], "empty"), [])))):
                step(it)
            return it.call(method(a[0], "get_nowait"), [])
        return CoroVal(run, "get")

    def bound(it, t):
        """A time limit from now on."""
        g = it.c.ghost
        it.c.check("the time limit is what remains of the timeout", it.term(t, "real") + g["now"] == g["start"] + it.term(g["timeout"], "real"))

    def wait_for(it, a, kw):
        t = a[1] if len(a) > 1 else kw["timeout"]

        def run():
            g = it.c.ghost
            bound(it, t)
            if it.c.branch(it.term(t, "real") <= 0):
                g["ended"] = "timeout"
                it.throw(asyncio.TimeoutError)
            g["limits"].append(1)
            try:
                r = it.await_(a[0])
            finally:
                g["limits"].pop()
            pass_time(it)
            return r
        return CoroVal(run, "asyncio.wait_for")

    def later(it, a, kw):
        bound(it, a[0])
        t = new(it, Timer, active=True)
        it.c.ghost["timers"].append((t, a[1], list(a[2:])))
        return t

    def pass_time(it):
        g = it.c.ghost
        n = it.c.fresh(z3.RealSort(), "now")
        it.c.assume(n >= g["now"])
        g["now"] = n

    def timeout(it, a, kw):
        bound(it, a[0])
        g = it.c.ghost
        return new(it, Timeout, enter=Prim(lambda it, a, kw: g["limits"].append(1), "enter"), leave=Prim(lambda it, a, kw: g["limits"].pop() and None, "leave"))

    cfg.model(asyncio.wait_for, wait_for, "asyncio.wait_for")
    cfg.model(asyncio.timeout, timeout, "asyncio.timeout")
    cfg.model(asyncio.get_running_loop, lambda it, a, kw: new(it, Loop, now=Prim(lambda it, a, kw: Sym("real", it.c.ghost["now"]), "time"), later=Prim(later, "call_later")), "asyncio.get_running_loop")
    ISC = z3.Function("isclose", *([z3.RealSort()] * 4), z3.BoolSort())
    cfg.ISC = ISC

    def isclose(it, a, kw):
        r, t = kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)
        return Sym("bool", ISC(*[it.term(x, "real") for x in (a[0], a[1], r, t)]))

    cfg.model(math.isclose, isclose, "math.isclose")


def setup(it, ty):
    g = it.c.ghost
    k = KIND[ty]
    p = prim(it, ty)
    v0 = it.c.sym(k, "value0")
    if k == "int":
        it.c.assume(z3.And(v0.t >= -(2**31), v0.t < 2**31))
    put(it, p, v0)
    g.update(p=p, k=k, changes=0, seen=[], limits=[], timers=[], ended=None, events=[], max=MAX, timeout=it.c.sym("real", "timeout"))
    g["now"] = g["start"] = it.c.sym("real", "start", inp=False).t
    stamp = g["stamp"] = it.c.sym("int", "time0")
    it.allow(p, "last_updated_ns")
    p.attrs["last_updated_ns"] = stamp
    p.attrs["time_source"] = Prim(lambda it, a, kw: it.c.ghost["stamp"], "time_source")
    n = it.c.choose(2)
    other = Prim(lambda it, a, kw: None, "another callback")
    p.attrs["callbacks"] = MDict([[0, (other, False)]] if n else [])
    p.attrs["curr_callback"] = 1
    return p, v0, stamp


def leaves(it, p, n0):
    d = p.attrs["callbacks"]
    it.c.check("no callback stays behind, those of others do", len(d.pairs) == n0)


OPS = {Operator.LESS_THAN: lambda a, b: a < b, Operator.LESS_THAN_OR_EQUAL: lambda a, b: a <= b, Operator.EQUAL: lambda a, b: a == b, Operator.NOT_EQUAL: lambda a, b: a != b, Operator.GREATER_THAN_OR_EQUAL: lambda a, b: a >= b, Operator.GREATER_THAN: lambda a, b: a > b}


def finish(it, p, n0, o, ok0, oks):
    """The result of a wait, given what the changes satisfied."""
    g = it.c.ghost
    leaves(it, p, n0)
    met = z3.Or(ok0, *oks)
    if not o.ok:
        it.c.check("only being cancelled ends a wait otherwise", And(g["ended"] == "cancelled", o.exc.cls is asyncio.CancelledError))
        cover(it, "cancelled")
        return
    it.c.check("a wait succeeds if and only if the value was what is waited for, at the start or by a change", z3.BoolVal(o.value is EvalResult.SUCCESS) == met)
    it.c.check("other results tell whether there were changes", z3.Or(met, z3.BoolVal(o.value is (EvalResult.FAIL if oks else EvalResult.TIMEOUT))))
    it.c.check("a wait ends at once if there's nothing to wait for", z3.Implies(ok0, z3.BoolVal(g["changes"] == 0 and g["ended"] is None)))
    it.c.check("otherwise it ends with success or at its time limit", z3.Or(met, z3.BoolVal(g["ended"] == "timeout")))
    if g["ended"] == "timeout":
        cover(it, "timeout")
    if o.value is EvalResult.SUCCESS:
        cover(it, "success")


def v_evaluate(it):
    """Any condition, of the previous and the new value."""
    g = it.c.ghost
    p, v0, _ = setup(it, Int32)
    n0 = len(p.attrs["callbacks"].pairs)
    P = z3.Function("holds", z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def evaluator(it, a, kw):
        return EvalResult.SUCCESS if it.c.branch(P(it.term(a[0], "int"), it.term(a[1], "int"))) else EvalResult.FAIL

    o = acall(it, EV.evaluate, p, Prim(evaluator, "evaluator"), g["timeout"])
    finish(it, p, n0, o, P(v0.t, v0.t), [P(it.term(a, "int"), it.term(b, "int")) for a, b, _ in g["seen"]])


def scaling(it, p, n):
    """No scaling, or any linear one."""
    if not n:
        return None
    it.allow(p, "scaling")
    p.attrs["scaling"] = MList(items=[it.c.sym("real", "offset"), it.c.sym("real", "slope")])
    return p.attrs["scaling"]


def v_value(it, ty):
    """Waiting for a number compares it with the value as it's stored."""
    g = it.c.ghost
    g["max2"] = True
    p, v0, _ = setup(it, ty)
    g["max"] = 1
    k = KIND[ty]
    n0 = len(p.attrs["callbacks"].pairs)
    op = list(OPS)[it.c.choose(len(OPS))]
    sc = scaling(it, p, it.c.choose(2))
    value = it.c.sym("int" if k == "int" else "real", "target")
    stored = it.c.fresh(SORT[k], "stored")
    asked = []

    def inv(it, a, kw):
        s = kw.get("scaling", a[1] if len(a) > 1 else None)
        asked.append((a[0], s, bool(kw.get("should_round", a[2] if len(a) > 2 else False))))
        return Sym(k, stored) if s is not None else a[0]

    it.cfg.model((PI if k == "int" else PFL).invert, inv, "runtimepy.channel.scaling... invert")
    dflt = op is Operator.EQUAL and it.c.choose(2)
    o = acall(it, method(p, "wait_for_value"), value, g["timeout"], **({} if dflt else {"operation": op}))
    it.c.check("a value is stored as its scaling says, rounded for integers", And(len(asked) <= 1, len(asked) == 1 or sc is None, *[And(zb(it.eq(a, value)), s is sc, r is (k == "int")) for a, s, r in asked]))
    lhs = it.term(value, k) if sc is None else stored
    finish(it, p, n0, o, OPS[op](lhs, it.term(v0, k)), [OPS[op](lhs, it.term(b, k)) for _, b, _ in g["seen"]])


def v_close(it, ty):
    g = it.c.ghost
    p, v0, _ = setup(it, ty)
    g["max"] = 2
    k = KIND[ty]
    n0 = len(p.attrs["callbacks"].pairs)
    S = z3.Function("scaled", z3.RealSort(), z3.RealSort())
    p.attrs["scale"] = Prim(lambda it, a, kw: Sym("real", S(it.term(a[0], "real"))), "scale")
    value = it.c.sym("real", "target")
    r, t = it.c.sym("real", "rel_tol"), it.c.sym("real", "abs_tol")
    o = acall(it, method(p, "wait_for_isclose"), value, g["timeout"], rel_tol=r, abs_tol=t)
    C = it.cfg.ISC

    def ok(x):
        return C(value.t, S(it.term(x, "real")), r.t, t.t)

    finish(it, p, n0, o, ok(v0), [ok(b) for _, b, _ in g["seen"]])


def v_state(it):
    g = it.c.ghost
    p, v0, _ = setup(it, Bool)
    n0 = len(p.attrs["callbacks"].pairs)
    want = it.c.sym("bool", "state")
    o = acall(it, method(p, "wait_for_state"), want, g["timeout"])
    finish(it, p, n0, o, v0.t == want.t, [zb(it.truth(b)) == want.t for _, b, _ in g["seen"]])


# -- sampling
def v_sample(it):
    """Every change is a sample, in order, until the time or number is reached."""
    g = it.c.ghost
    p, v0, t0 = setup(it, Int32)
    n0 = len(p.attrs["callbacks"].pairs)
    count = [-1, 1, 2, 3][it.c.choose(4)]
    current = [True, False][it.c.choose(2)]
    if count == 3 or not current:
        g["max"] = 2
    got = []
    leave = it.c.choose(2) and 1 + it.c.choose(2)  # the consumer leaves at this sample

    def consume(x):
        it.c.check("the consumer isn't subject to the time limit", len(g["limits"]) == 0)
        a, b = it.to_items(x)
        got.append((a, b))
        if leave and len(got) == leave:
            g["ended"] = "left"
            it.throw(GeneratorExit)
        if timers(it) and it.c.choose(2):
            expire(it)  # while the consumer is busy
        if g["changes"] < g["max"] and it.c.choose(2):
            change(it)
        return None

    gen = it.call(EV.sample_for, [p, g["timeout"]], {"count": count, "current": current})
    o = drain(it, gen, consume)
    leaves(it, p, n0)
    it.c.check("no timer stays behind", not timers(it))
    want = ([(v0, t0)] if current else []) + [(b, s) for _, b, s in g["seen"]]
    if count > 0:
        want = want[:count]
    it.c.check("samples are what happened, in order, each once", And(len(got) <= len(want), *[And(zb(it.eq(a, c)), zb(it.eq(b, d))) for (a, b), (c, d) in zip(got, want)]))
    if g["ended"] in ("cancelled", "left"):
        it.c.check("sampling ends as its consumer does", And(not o.ok, o.ok or o.exc.cls in (asyncio.CancelledError, GeneratorExit)))
        cover(it, g["ended"])
        return
    it.c.check("nothing that happened in time is lost", And(o.ok, len(got) == len(want)))
    it.c.check("sampling ends when the number is reached or at its time limit", g["ended"] == "timeout" or len(got) == count)
    cover(it, "timeout" if g["ended"] == "timeout" else "count")


# -- of an environment
class Chan:
    """A channel."""


class Wait:
    """A primitive whose waits have contracts."""


class Enum:
    """An enumeration."""

    def as_bool(self, v):
        return self.b(v)

    def as_int(self, v):
        return self.i(v)

    def get_str(self, v):
        return self.s(v)


def cfg_env(cfg):
    base_cfg(cfg)
    cfg.method_override = True


class Env(BaseChannelEnvironment):
    """Lookups have contracts."""


def v_env(it):
    """Waits of an environment are those of the channel of that name."""
    log = []
    result = [EvalResult.SUCCESS, EvalResult.FAIL, EvalResult.TIMEOUT][it.c.choose(3)]

    def wait(name):
        return Prim(lambda it, a, kw: CoroVal(lambda: log.append((name, list(a), dict(kw))) or result, name), name)

    r = new(it, Wait, wait_for_value=wait("value"), wait_for_isclose=wait("close"), wait_for_state=wait("state"))
    asked = []
    boolean = bool(it.c.choose(2))
    tb, ti = it.c.sym("bool", "as_bool"), it.c.sym("int", "as_int")
    e = new(it, Enum, is_boolean=boolean, b=Prim(lambda it, a, kw: asked.append(a[0]) or tb, "as_bool"), i=Prim(lambda it, a, kw: asked.append(a[0]) or ti, "as_int"))
    chan = new(it, Chan, raw=r)
    en = it.c.choose(2)
    pair = (chan, e if en else None)
    keys = []

    def look(it, a, kw):
        keys.append(a[-1])
        return pair

    it.cfg.model(BaseChannelEnvironment.__getitem__, look, "BaseChannelEnvironment.__getitem__")
    it.cfg.model(BaseChannelEnvironment.get_bool, look, "BaseChannelEnvironment.get_bool")
    it.cfg.model(BaseChannelEnvironment.get, look, "BaseChannelEnvironment.get")
    env = new(it, BaseChannelEnvironment)
    t, v = it.c.sym("real", "timeout"), it.c.sym("real", "value")
    which = ["numeric", "numeric_isclose", "bool", "enum"][it.c.choose(4)]
    if which == "numeric":
        op = list(OPS)[it.c.choose(len(OPS))]
        o = acall(it, method(env, "wait_for_numeric"), "k", v, t, operation=op)
        it.c.check("a wait is that of the channel", len(log) == 1 and log[0][0] == "value" and log[0][1][0] is v and (log[0][1][1] if len(log[0][1]) > 1 else log[0][2].get("timeout")) is t and (log[0][2].get("operation") is op or op in log[0][1]))
    elif which == "numeric_isclose":
        o = acall(it, method(env, "wait_for_numeric_isclose"), "k", v, t, rel_tol=0.5, abs_tol=0.25)
        it.c.check("a wait is that of the channel", len(log) == 1 and log[0] == ("close", [v, t], {"rel_tol": 0.5, "abs_tol": 0.25}))
    elif which == "bool":
        o = acall(it, method(env, "wait_for_bool"), "k", tb, t)
        it.c.check("a wait is that of the channel", len(log) == 1 and log[0] == ("state", [tb, t], {}))
    else:
        o = acall(it, method(env, "wait_for_enum"), "k", "name", t)
        if not en:
            it.c.check("a channel that has no enumeration isn't waited for", And(not o.ok, not log))
            cover(it, "refused")
            return
        it.c.check("a wait for a name is that for its value", And(asked == ["name"], len(log) == 1 and log[0][0] == ("state" if boolean else "value") and log[0][1][0] is (tb if boolean else ti) and (log[0][1][1] if len(log[0][1]) > 1 else log[0][2].get("timeout")) is t))
        it.c.check("it's a wait for equality", boolean or (len(log) == 1 and log[0][2].get("operation", Operator.EQUAL) is Operator.EQUAL and len(log[0][1]) == 2))
    it.c.check("its result is the result", And(o.ok, o.value is result, all(k == "k" for k in keys), len(keys) >= 1))
    cover(it, "return")


def v_env_sample(it):
    """Samples of an environment are those of the channel, scaled or named."""
    which = ["int", "float", "bool", "enum"][it.c.choose(4)]
    sc = MList(items=[1, 2, 3][: it.c.choose(4)])
    k = {"int": "int", "float": "real", "bool": "bool", "enum": "int"}[which]
    S = z3.Function("scaled", z3.RealSort(), z3.RealSort())
    N = z3.Function("name", z3.IntSort(), z3.StringSort())
    r = new(it, Wait, scaling=sc if len(sc.items) or it.c.choose(2) else None, scale=Prim(lambda it, a, kw: Sym("real", S(it.term(a[0], "real"))), "scale"))
    e = new(it, Enum, s=Prim(lambda it, a, kw: Sym("str", N(it.term(a[0], "int"))), "get_str"))
    chan = new(it, Chan, raw=r)
    for f, pair in (("__getitem__", True), ("get_int", True), ("get_bool", True), ("get_float", False)):
        it.cfg.model(getattr(BaseChannelEnvironment, f), lambda it, a, kw, pair=pair: (chan, e) if pair else chan, f)
    samples = [(it.c.sym(k, f"value{i}"), it.c.sym("int", f"time{i}")) for i in range(it.c.choose(3))]
    asked = []

    def gen(it, a, kw):
        asked.append((list(a), dict(kw)))

        def run(handler):
            for s in samples:
                handler(s)
        return GenVal(run, "sample_for")

    it.cfg.model(CEB.sample_for, gen, "sample_for")
    env = new(it, BaseChannelEnvironment)
    t, n, cur = it.c.sym("real", "timeout"), it.c.sym("int", "count"), bool(it.c.choose(2))
    kw = {}
    scale = True
    if which in ("int", "float"):
        scale = [True, False, None][it.c.choose(3)]
        kw = {} if scale is None else {"scale": scale}
        scale = scale is not False
    got = []
    g = it.call(method(env, f"sample_{which}_for"), ["k", t], {"count": n, "current": cur, **kw})
    o = drain(it, g, lambda x: got.append(tuple(it.to_items(x))) or None)
    it.c.check("the channel is sampled, as asked", And(o.ok, len(asked) == 1, asked[0][0][0] is r, (asked[0][0] + [asked[0][1].get("timeout")])[1] is t, asked[0][1].get("count") is n, asked[0][1].get("current") is cur))

    def want(v):
        if which == "enum":
            return Sym("str", N(v.t))
        if which in ("int", "float") and scale and len(sc.items):
            return Sym("real", S(it.term(v, "real")))
        return v

    it.c.check("every sample is passed on, scaled or by its name, with its time", And(len(got) == len(samples), *[And(zb(it.eq(a, want(v))), zb(it.eq(b, s))) for (a, b), (v, s) in zip(got, samples)]))
    cover(it, "return")


K = dict(branch_ms=400)
P = "runtimepy.primitives."
B = "runtimepy.channel.environment.base:BaseChannelEnvironment."
W = ("cancelled", "timeout", "success")
CONTRACTS = [
    Unit("evaluate", P + "evaluation:evaluate", v_evaluate, cfg_wait, covers=W, **K),
    Unit("wait for a value[int]", P + "int:BaseIntPrimitive.wait_for_value", lambda it: v_value(it, Int32), cfg_wait, covers=W, **K),
    Unit("wait for a value[float]", P + "float:BaseFloatPrimitive.wait_for_value", lambda it: v_value(it, Double), cfg_wait, covers=W, **K),
    Unit("wait for a close value[int]", P + "evaluation:PrimitiveIsCloseMixin.wait_for_isclose", lambda it: v_close(it, Int32), cfg_wait, covers=W, **K),
    Unit("wait for a close value[float]", P + "evaluation:PrimitiveIsCloseMixin.wait_for_isclose", lambda it: v_close(it, Double), cfg_wait, covers=W, **K),
    Unit("wait for a state", P + "bool:BooleanPrimitive.wait_for_state", v_state, cfg_wait, covers=W, **K),
    Unit("sample", P + "evaluation:sample_for", v_sample, cfg_wait, covers=("timeout", "count", "left", "cancelled"), **K),
    Unit("waits of an environment", B + "wait_for_numeric", v_env, cfg_env, covers=("return", "refused"), **K),
    Unit("samples of an environment", B + "sample_int_for", v_env_sample, cfg_env, **K),
]
