"""C18: periodic and asynchronous tasks."""
from contracts.common import *
import asyncio
from contracts.C15 import Log, zb
from runtimepy.metrics import task as MT
from runtimepy.metrics.task import PeriodicTaskMetrics
from runtimepy.primitives import Bool, Double, Float, Int32, Uint16, Uint32
from runtimepy.task import asynchronous as AT
from runtimepy.task.asynchronous import AsyncTask
from runtimepy.task.basic import periodic as BP
from runtimepy.task.basic.manager import PeriodicTaskManager
from runtimepy.task.basic.periodic import PeriodicTask


F32 = z3.Function("round_f32", z3.RealSort(), z3.RealSort())  # what a 32-bit float stores


def differs(a, b):
    """Not equal within the tolerance of comparing floating-point primitives."""
    m = z3.If(abs_(a) > abs_(b), abs_(a), abs_(b))
    return abs_(a - b) > z3.RealVal("1/1000000000") * m


def abs_(x):
    return z3.If(x < 0, -x, x)


def zi(it, v):
    return it.term(v, "int")


def zr(it, v):
    return it.term(v, "real")


def fr(it, kind, name):
    return Sym(kind, it.c.fresh({"bool": z3.BoolSort(), "int": z3.IntSort(), "real": z3.RealSort()}[kind], name))


def prim(it, ty, v=None):
    p = call(it, ty).value
    if v is not None:
        it.getattr(p, "raw").value = v
    return p


def raw(it, p):
    return it.getattr(it.getattr(p, "raw"), "value")


def put(it, p, v):
    r = it.getattr(p, "raw")
    it.allow(r)
    it.allow(p, "last_updated_ns")
    r.value = v


class Tracker:
    """A rate tracker or moving average: any numbers."""

    def __call__(self, x):
        return self.call(x)

    def reset(self):
        pass


def tracker(it):
    t = new(it, Tracker, max=it.c.sym("real", "max"), min=it.c.sym("real", "min"))
    t.attrs["call"] = Prim(lambda it, a, kw: it.c.sym("real", "rate"), "rate")
    return t


class Sig:
    def is_set(self):
        return self.flag


def cfg_task(cfg):
    base_cfg(cfg)
    cfg.model(BP._rate_str, lambda it, a, kw: it.c.sym("str", "rate", inp=False), "rate_str")
    cfg.model(asyncio.shield, lambda it, a, kw: CoroVal(lambda: it.await_(a[0]), "shield"), "asyncio.shield")
    cfg.method_override = True


def others(it):
    """What the rest of the program does while a task waits: it may disable
    it, pause it, change its period and set the stop signal."""
    g = it.c.ghost
    en = zb(it.truth(g["enabled"]))
    now = it.c.fresh(z3.BoolSort(), "disabled")
    put(it, g["enabled"], Sym("bool", z3.And(en, z3.Not(now))))
    g["over"] = z3.Or(g["over"], now)
    for p, k in g["free"]:
        put(it, p, fr(it, k, "set"))
    if g["sig"] is not None:
        g["sig"].attrs["flag"] = Sym("bool", z3.Or(zb(it.truth(g["sig"].attrs["flag"])), it.c.fresh(z3.BoolSort(), "stop")))


def dispatch(it, t):
    g = it.c.ghost

    def run(it, a, kw):
        def body():
            it.c.check("no iteration starts after the task was disabled, failed or was told to stop", z3.Not(g["over"]))
            it.c.check("no iteration starts while the task is not enabled", it.truth(g["enabled"]))
            if "paused" in g:
                it.c.check("no iteration starts while the task is paused", z3.Not(zb(it.truth(g["paused"]))))
            it.c.check("the wait before an iteration is over", z3.Or(g["n"] == 0, g["slept"]))
            it.c.check("an iteration gets the task's arguments", And(len(a) == len(g["args"]), all(x is y for x, y in zip(a, g["args"])), len(kw) == 0))
            g["n"] = g["n"] + 1
            g["slept"] = z3.BoolVal(False)
            others(it)
            end = it.c.choose(3)
            if end == 2:
                g["raised"] = True
                it.throw(KeyError, "dispatch")
            g["over"] = z3.Or(g["over"], z3.BoolVal(end == 0))
            return end == 1
        return CoroVal(body, "dispatch")

    return Prim(run, "dispatch")


def on_sleep(it, what, a):
    """A wait between iterations: others run, or the task is cancelled."""
    g = it.c.ghost
    it.c.check("a wait lasts what remains of the period", zr(it, a[0]) == z3.If(g["left"](it) > 0, g["left"](it), 0))
    sig = g["sig"]
    if "limit" in g:
        it.c.check("a task that made its iterations ends", z3.Not(g["limit"](it)))
    it.c.check("a stop signal that is set ends the task", sig is None or z3.Not(zb(it.truth(sig.attrs["flag"]))))
    g["slept"] = z3.BoolVal(True)
    others(it)
    if it.c.choose(2):
        g["over"] = z3.BoolVal(True)
        it.throw(asyncio.CancelledError)


# -- periodic tasks
def periodic(it):
    g = it.c.ghost
    t = new(it, PeriodicTask, name="task", logger=new(it, Log), _task=None, env=new(it, Log), _enabled=prim(it, Bool), paused=prim(it, Bool, it.c.sym("bool", "paused")), period_s=prim(it, Float, it.c.sym("real", "period")), _dispatch_rate=tracker(it), _dispatch_time=tracker(it))
    t.attrs["metrics"] = call(it, PeriodicTaskMetrics.create).value
    t.attrs["env"] = new(it, Env, defaults=MList(items=[]))
    g.update(enabled=t.attrs["_enabled"], over=z3.BoolVal(False), free=[(t.attrs["paused"], "bool"), (t.attrs["period_s"], "real")], n=z3.IntVal(0), slept=z3.BoolVal(False), raised=False, args=[], task=t, paused=t.attrs["paused"])
    g["sig"] = None
    g["last"] = z3.RealVal(0)
    g["left"] = lambda it: zr(it, raw(it, t.attrs["period_s"])) - g["last"]
    t.attrs["dispatch"] = dispatch(it, t)
    return t


class Env:
    def set_default(self, name, value):
        self.defaults.append([name, value])


class Measure:
    def __enter__(self):
        pass

    def __exit__(self, *exc):
        self.done(exc[0])
        return False


def cfg_run(cfg):
    cfg_task(cfg)

    def measure(it, a, kw):
        """Contract of measure (unit 'measure')."""
        g = it.c.ghost
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"PeriodicTaskMetrics.measure"}
        it.c.check("iterations are measured with the task's own trackers", And(a[0] is g["task"].attrs["metrics"], a[1] is g["task"].attrs["_dispatch_rate"], a[2] is g["task"].attrs["_dispatch_time"]))
        it.c.check("overruns are found with the task's period", zr(it, a[4]) == zr(it, raw(it, g["task"].attrs["period_s"])))
        before = g["n"]

        def done(it, b, kw):
            if b[0] is None:
                t = g["last"] = it.c.fresh(z3.RealSort(), "iter_time")
                it.c.assume(t >= 0)
                put(it, a[3], Sym("real", t))
                g["measured"] = g["measured"] + 1
        return new(it, Measure, done=Prim(done, "done"))

    cfg.model(MT.PeriodicTaskMetrics.measure, measure, "measure")
    cfg.on_await = on_sleep

    def inv(it, env):
        g = it.c.ghost
        en = zb(it.truth(g["enabled"]))
        return [
            ("every iteration was measured", And(g["measured"] == g["n"], g["n"] >= 0)),
            ("a task that was disabled, failed or told to stop isn't enabled", z3.Implies(g["over"], z3.Not(en))),
            ("a task that ends was disabled, failed or told to stop", z3.Or(en, g["over"])),
            ("iterations are apart", z3.Implies(en, z3.Or(g["n"] == 0, g["slept"]))),
            ("the last duration is known", zr(it, raw(it, env.vars["iter_time"])) == g["last"]),
        ]

    def havoc(it, env):
        g = it.c.ghost
        g["n"] = it.c.fresh(z3.IntSort(), "n")
        g["measured"] = it.c.fresh(z3.IntSort(), "measured")
        g["over"], g["slept"] = it.c.fresh(z3.BoolSort(), "over"), it.c.fresh(z3.BoolSort(), "slept")
        g["last"] = it.c.fresh(z3.RealSort(), "last")
        put(it, g["enabled"], fr(it, "bool", "enabled"))
        for p, k in g["free"]:
            put(it, p, fr(it, k, "free"))
        put(it, env.vars["iter_time"], Sym("real", g["last"]))
        if g["sig"] is not None:
            it.allow(g["sig"])
            g["sig"].attrs["flag"] = fr(it, "bool", "stop")

    cfg.loop(PeriodicTask.run, 0, LoopSpec(inv, havoc))


def setover(it):
    """A signal that is set when a task checks it ends the task."""


def v_run(it):
    g = it.c.ghost
    t = periodic(it)
    g["measured"] = z3.IntVal(0)
    if it.c.choose(2):
        g["sig"] = new(it, Sig, flag=it.c.sym("bool", "stop"))

        def is_set(it, a, kw):
            f = g["sig"].attrs["flag"]
            g["over"] = z3.Or(g["over"], zb(it.truth(f)))
            return f
        g["sig"].attrs["is_set"] = Prim(is_set, "is_set")
    en = it.c.sym("bool", "enabled")
    put(it, g["enabled"], en)
    p = [None, it.c.sym("real", "period_s")][it.c.choose(2)]
    p0 = raw(it, t.attrs["period_s"])
    o = acall(it, method(t, "run"), period_s=p, stop_sig=g["sig"])
    if not o.ok and o.exc.cls is AssertionError:
        it.c.check("only a task that is running already can't be started", en.t)
        it.c.check("and it isn't iterated twice", g["n"] == 0)
        cover(it, "running")
        return
    it.c.check("a task runs if it isn't running already", z3.Not(en.t))
    if not o.ok:
        it.c.check("only an iteration's exception is raised", And(o.exc.cls is KeyError, g["raised"]))
        cover(it, "raised")
        return
    it.c.check("exceptions are not hidden", not g["raised"])
    it.c.check("a task that ends isn't enabled", z3.Not(zb(it.truth(g["enabled"]))))
    it.c.check("it ends because it was disabled, failed or told to stop", g["over"])
    it.c.check("every iteration was measured", g["measured"] == g["n"])
    cover(it, "ended")


def v_period(it):
    t = periodic(it)
    old = it.c.sym("real", "period").t
    it.c.assume(F32(old) == old)
    put(it, t.attrs["period_s"], Sym("real", old))
    p = [None, it.c.sym("real", "period_s")][it.c.choose(2)]
    upd = it.c.choose(2)
    o = call(it, method(t, "set_period"), period_s=p, update_default=bool(upd))
    change = z3.BoolVal(False) if p is None else differs(old, p.t)
    it.c.check("setting a period tells if it changed", And(o.ok, zb(it.truth(o.value)) == change))
    it.c.check("the period is the one requested", zr(it, raw(it, t.attrs["period_s"])) == z3.If(change, F32(p.t) if p is not None else old, old))
    d = t.attrs["env"].attrs["defaults"]
    it.c.check("it becomes the default too", z3.If(z3.And(change, z3.BoolVal(bool(upd))), z3.BoolVal(len(d.items) == 1), z3.BoolVal(len(d.items) == 0)))
    cover(it, "return")


def v_disable(it):
    t = periodic(it)
    en = it.c.sym("bool", "enabled")
    put(it, t.attrs["_enabled"], en)
    o = call(it, method(t, "disable"))
    it.c.check("disabling tells if it did anything", And(o.ok, zb(it.truth(o.value)) == en.t))
    it.c.check("and disables", z3.Not(zb(it.truth(t.attrs["_enabled"]))))
    cover(it, "return")


# -- one running task
class Task:
    def done(self):
        return self.over

    def cancel(self):
        self.cancels()


def cfg_stop(cfg):
    cfg_task(cfg)

    def create_task(it, a, kw):
        g = it.c.ghost
        it.c.check("a task is started only once the previous one ended", z3.BoolVal(g["live"] == 0))
        g["live"] += 1
        g["created"].append(a[0])
        return new(it, Task, over=False)

    cfg.model(asyncio.create_task, create_task, "asyncio.create_task")


def cancels(it, t):
    """A task that gets cancelled ends when it's waited for."""
    g = it.c.ghost

    def cancel(it, a, kw):
        g["cancelled"] += 1

    def wait(it, a, kw):
        def gen():
            it.c.check("a task is cancelled before it's waited for", g["cancelled"] > 0)
            t.attrs["over"] = True
            g["live"] -= 1
            k = it.c.choose(2)
            if k:
                it.throw(asyncio.CancelledError)
        return CoroVal(gen, "task")
    t.attrs["cancels"] = Prim(cancel, "cancel")
    it.c.ghost["awaiting"] = wait
    t.attrs["__await__"] = Prim(wait, "await")


def v_stop(it, restart):
    g = it.c.ghost
    t = periodic(it)
    state = it.c.choose(3)
    g.update(live=int(state == 1), cancelled=0, created=[], extra=0)
    put(it, g["enabled"], it.c.sym("bool", "enabled"))
    if state:
        k = new(it, Task, over=state == 2)
        cancels(it, k)
        t.attrs["_task"] = k

    def extra(it, a, kw):
        def run():
            it.c.check("extra actions follow the end of the task", And(g["live"] == 0, z3.Not(zb(it.truth(g["enabled"])))))
            g["extra"] += 1
        return CoroVal(run, "extra")
    t.attrs["stop_extra"] = Prim(extra, "stop_extra")
    if restart:
        runs = []
        t.attrs["run"] = Prim(lambda it, a, kw: runs.append((a, dict(kw))) or "run", "run")
        sig, p = object(), it.c.sym("real", "p")
        o = acall(it, method(t, "task"), period_s=p, stop_sig=sig)
        it.c.check("starting a task succeeds", o.ok)
        it.c.check("exactly one task runs", And(g["live"] == 1, len(g["created"]) == 1, g["created"] == ["run"], o.value is it.getattr(t, "_task")))
        it.c.check("with the period and stop signal requested", And(len(runs) == 1, runs[0][1].get("stop_sig") is sig, runs[0][1].get("period_s") is p))
        it.c.check("a previous task can't keep it from running", z3.Or(z3.BoolVal(state == 0), z3.Not(zb(it.truth(g["enabled"])))))
        cover(it, "return")
        return
    o = acall(it, method(t, "stop"))
    it.c.check("stopping a task tells if there was one", And(o.ok, o.value is (state != 0)))
    it.c.check("no task runs any more", And(g["live"] == 0, it.getattr(t, "_task") is None))
    it.c.check("it isn't enabled any more", z3.Or(z3.BoolVal(state == 0), z3.Not(zb(it.truth(g["enabled"])))))
    it.c.check("extra actions are taken once, if there was a task", g["extra"] == int(state != 0))
    cover(it, "return")


# -- metrics
def cfg_measure(cfg):
    cfg_task(cfg)

    def now(it, a, kw):
        g = it.c.ghost
        t = it.c.fresh(z3.IntSort(), "now")
        it.c.assume(t >= g["now"])
        g["now"] = t
        return Sym("int", t)

    cfg.model(MT.metrics_time_ns, now, "metrics_time_ns")
    cfg.model(MT.from_nanos, lambda it, a, kw: Sym("real", z3.ToReal(zi(it, a[0])) / 1000000000), "from_nanos")


def v_measure(it):
    g = it.c.ghost
    g["now"] = it.c.sym("int", "time").t
    m = call(it, PeriodicTaskMetrics.create).value
    n0, o0 = it.c.sym("int", "dispatches"), it.c.sym("int", "overruns")
    it.c.assume(z3.And(n0.t >= 0, n0.t < 2**32, o0.t >= 0, o0.t < 2**16))
    put(it, it.getattr(m, "dispatches"), n0)
    put(it, it.getattr(m, "overruns"), o0)
    seen = []
    rate, avg = tracker(it), tracker(it)
    r, a = it.c.sym("real", "rate"), it.c.sym("real", "average")
    rate.attrs["call"] = Prim(lambda it, x, kw: r, "rate")
    avg.attrs["call"] = Prim(lambda it, x, kw: seen.append(x[0]) or a, "average")
    t = prim(it, Double)
    period = it.c.sym("real", "period")
    fail = it.c.choose(2)

    def body():
        g["start"] = g["now"]
        it.c.check("the rate is known when the iteration starts", zr(it, raw(it, it.getattr(m, "rate_hz"))) == F32(r.t))
        g["now"] = it.c.fresh(z3.IntSort(), "later")
        it.c.assume(g["now"] >= g["start"])
        g["end"] = g["now"]
        if fail:
            it.throw(KeyError, "x")

    cm = call(it, method(m, "measure"), rate, avg, t, period).value
    o = call(it, Prim(lambda it, a, kw: it.run_with(cm, lambda _: body()), "with"))
    if fail:
        it.c.check("exceptions propagate", And(not o.ok, o.exc.cls is KeyError))
        it.c.check("an iteration that raised isn't counted", zi(it, raw(it, it.getattr(m, "dispatches"))) == n0.t)
        cover(it, "raised")
        return
    d = zr(it, raw(it, t))
    it.c.check("measuring succeeds", o.ok)
    it.c.check("an iteration's duration is at least what it took", d >= z3.ToReal(g["end"] - g["start"]) / 1000000000)
    it.c.check("every iteration is counted", zi(it, raw(it, it.getattr(m, "dispatches"))) == (n0.t + 1) % 2**32)
    it.c.check("one that took longer than the period is an overrun", zi(it, raw(it, it.getattr(m, "overruns"))) == z3.If(d > period.t, (o0.t + 1) % 2**16, o0.t))
    it.c.check("the average has every duration", And(len(seen) == 1, zr(it, seen[0]) == d, zr(it, raw(it, it.getattr(m, "average_s"))) == F32(a.t)))
    it.c.check("minimum and maximum are those of the durations", And(zr(it, raw(it, it.getattr(m, "max_s"))) == F32(zr(it, avg.attrs["max"])), zr(it, raw(it, it.getattr(m, "min_s"))) == F32(zr(it, avg.attrs["min"]))))
    cover(it, "measured")


# -- managers
class Named:
    pass


def cfg_man(cfg):
    cfg_task(cfg)

    def gather(it, a, kw):
        def run():
            for x in a:
                it.await_(x)
        return CoroVal(run, "gather")

    cfg.model(asyncio.gather, gather, "asyncio.gather")


def manager(it, n):
    """A manager with tasks of different names."""
    g = it.c.ghost
    m = call(it, PeriodicTaskManager).value
    ts = []
    g["log"] = log = []
    for i in range(n):
        t = periodic(it)
        t.attrs["name"] = f"t{i}"
        for k in ("task", "stop"):
            t.attrs[k] = Prim(lambda it, a, kw, i=i, k=k: CoroVal(lambda: log.append((i, k, kw.get("stop_sig"))), k), k)
        it.c.check("tasks with new names are registered", call(it, method(m, "register"), t).value is True)
        ts.append(t)
    return m, ts


def v_register(it):
    n = it.c.choose(3)
    m, ts = manager(it, n)
    t = periodic(it)
    dup = it.c.choose(n + 1)
    t.attrs["name"] = f"t{dup}"
    p = [None, it.c.sym("real", "period_s")][it.c.choose(2)]
    p0 = zr(it, raw(it, t.attrs["period_s"]))
    it.c.assume(F32(p0) == p0)
    o = call(it, method(m, "register"), t, period_s=p)
    it.c.check("a task is registered if and only if its name is new", And(o.ok, o.value is (dup == n)))
    want = ts + ([t] if dup == n else [])
    got = []
    drain(it, it.getattr(m, "tasks"), lambda x: got.append(x))
    it.c.check("the tasks are those that were registered, in order", And(len(got) == len(want), all(x is y for x, y in zip(got, want))))
    for i, x in enumerate(want):
        it.c.check("a task is found by name", call(it, method(m, "__getitem__"), f"t{i}").value is x)
    it.c.check("a task that's registered gets its period", zr(it, raw(it, t.attrs["period_s"])) == (z3.If(differs(p0, p.t), F32(p.t), p0) if p is not None and dup == n else p0))
    cover(it, "return")


def v_running(it):
    g = it.c.ghost
    n = it.c.choose(3)
    m, ts = manager(it, n)
    sig = object()
    fail = it.c.choose(2)

    def body():
        it.c.check("all tasks are started, with the stop signal", g["log"] == [(i, "task", sig) for i in range(n)])
        g["log"].append("body")
        if fail:
            it.throw(KeyError, "x")

    cm = call(it, method(m, "running"), stop_sig=sig).value
    o = call(it, Prim(lambda it, a, kw: it.run_with(cm, lambda _: body()), "with"))
    it.c.check("exceptions propagate", And(o.ok == (not fail), fail == 0 or o.exc.cls is KeyError))
    it.c.check("all tasks are stopped in the end", g["log"][n:] == ["body"] + [(i, "stop", None) for i in range(n)])
    cover(it, "return")


# -- asynchronous tasks
def cfg_async(cfg):
    cfg_task(cfg)
    cfg.on_await = on_sleep

    def loop(it, a, kw):
        return new(it, Loop, time=Prim(lambda it, a, kw: clock(it), "time"))

    def clock(it):
        g = it.c.ghost
        t = it.c.fresh(z3.RealSort(), "time")
        it.c.assume(t >= g["now"])
        g["prev"], g["now"] = g["now"], t
        return Sym("real", t)

    cfg.model(asyncio.get_running_loop, loop, "asyncio.get_running_loop")
    cfg.model(AT.to_nanos, lambda it, a, kw: it.c.sym("int", "nanos"), "to_nanos")
    cfg.model(AT._rate_str, lambda it, a, kw: it.c.sym("str", "rate", inp=False), "rate_str")

    def inv(it, env):
        g = it.c.ghost
        t = g["task"]
        en = zb(it.truth(g["enabled"]))
        m = zi(it, raw(it, t.attrs["max_iterations"]))
        return [
            ("iterations are counted", And(zi(it, raw(it, t.attrs["dispatches"])) == g["n"] % 2**32, g["n"] >= 0)),
            ("a task that was disabled, failed or told to stop isn't enabled", z3.Implies(g["over"], z3.Not(en))),
            ("iterations are apart", z3.Implies(en, z3.Or(g["n"] == 0, g["slept"]))),
            ("a task that's enabled has iterations left", z3.Implies(z3.And(en, g["n"] > 0, m > 0, z3.BoolVal(not g["varies"])), g["n"] < m)),
            ("a task whose initialization failed isn't iterated", z3.Or(z3.BoolVal(g["init"] == 1), z3.And(g["n"] == 0, g["over"]))),
            ("no more iterations than permitted", z3.Or(m <= 0, g["n"] <= m, z3.BoolVal(g["varies"]))),
            ("a task that ends was disabled, failed, told to stop or is done", z3.Or(en, g["over"], g["limit"](it))),
        ]

    def havoc(it, env):
        g = it.c.ghost
        t = g["task"]
        g["n"] = it.c.fresh(z3.IntSort(), "n")
        g["now"] = it.c.fresh(z3.RealSort(), "now")
        g["over"], g["slept"] = it.c.fresh(z3.BoolSort(), "over"), it.c.fresh(z3.BoolSort(), "slept")
        put(it, g["enabled"], fr(it, "bool", "enabled"))
        for p, k in g["free"]:
            put(it, p, fr(it, k, "free"))
        put(it, t.attrs["dispatches"], fr(it, "int", "dispatches"))
        for k in ("rate_hz", "average_s", "max_s", "min_s"):
            put(it, t.attrs[k], fr(it, "real", k))
        if g["sig"] is not None:
            it.allow(g["sig"])
            g["sig"].attrs["flag"] = fr(it, "bool", "stop")

    cfg.loop(AsyncTask.run, 0, LoopSpec(inv, havoc))


class Loop:
    pass


def v_async(it):
    g = it.c.ghost
    m = it.c.sym("int", "max_iterations")
    it.c.assume(z3.And(m.t >= -2**31, m.t < 2**31))
    t = new(it, AsyncTask, name="task", logger=new(it, Log), enabled=prim(it, Bool, it.c.sym("bool", "enabled")), period_s=prim(it, Float, it.c.sym("real", "period")), max_iterations=prim(it, Int32, m), dispatches=prim(it, Uint32, it.c.sym("int", "dispatches")), dispatch_rate=tracker(it), dispatch_time=tracker(it), rate_str="")
    for k in ("rate_hz", "average_s", "max_s", "min_s"):
        t.attrs[k] = prim(it, Float, it.c.sym("real", k))
    x = object()
    g.update(task=t, enabled=t.attrs["enabled"], over=z3.BoolVal(False), free=[(t.attrs["period_s"], "real")], n=z3.IntVal(0), slept=z3.BoolVal(False), raised=False, args=[x], sig=None, now=z3.RealVal(0), prev=z3.RealVal(0))
    g["left"] = lambda it: zr(it, raw(it, t.attrs["period_s"])) - (g["now"] - g["prev"])
    limit = lambda it: zi(it, raw(it, t.attrs["max_iterations"]))
    g["limit"] = lambda it: z3.And(limit(it) > 0, g["n"] % 2**32 >= limit(it))
    g["varies"] = it.c.choose(2) == 1  # the limit can be commanded at any time
    if g["varies"]:
        g["free"].append((t.attrs["max_iterations"], "int"))
    t.attrs["dispatch"] = dispatch(it, t)
    init = g["init"] = it.c.choose(3)

    def do_init(it, a, kw):
        def run():
            it.c.check("initialization comes first, with the task's arguments", And(g["n"] == 0, len(a) == 1, a[0] is x))
            others(it)
            if init == 2:
                g["raised"] = True
                it.throw(KeyError, "init")
            g["over"] = z3.Or(g["over"], z3.BoolVal(init == 0))
            return init == 1
        return CoroVal(run, "init")
    t.attrs["init"] = Prim(do_init, "init")
    if it.c.choose(2):
        g["sig"] = new(it, Sig, flag=it.c.sym("bool", "stop"))

        def is_set(it, a, kw):
            f = g["sig"].attrs["flag"]
            g["over"] = z3.Or(g["over"], zb(it.truth(f)))
            return f
        g["sig"].attrs["is_set"] = Prim(is_set, "is_set")
    o = acall(it, method(t, "run"), x, stop_sig=g["sig"])
    n = g["n"]
    if not g["varies"]:
        it.c.check("no more iterations than permitted", z3.Or(m.t <= 0, n <= m.t))
    if not o.ok:
        it.c.check("only an exception of the task's own is raised", And(o.exc.cls is KeyError, g["raised"]))
        cover(it, "raised")
        return
    it.c.check("exceptions are not hidden", not g["raised"])
    it.c.check("a task that ends isn't enabled", z3.Not(zb(it.truth(g["enabled"]))))
    it.c.check("it ends because it was disabled, failed, told to stop, or is done", z3.Or(g["over"], g["limit"](it) if g["varies"] else z3.And(m.t > 0, n == m.t)))
    it.c.check("a task whose initialization failed isn't iterated", z3.Or(z3.BoolVal(init == 1), n == 0))
    it.c.check("iterations are counted", zi(it, raw(it, t.attrs["dispatches"])) == n % 2**32)
    cover(it, "ended")


K = dict(branch_ms=400)
P = "runtimepy.task"
CONTRACTS = [
    Unit("run", P + ".basic.periodic:PeriodicTask.run", v_run, cfg_run, covers=("ended", "raised", "running"), **K),
    Unit("period", P + ".basic.periodic:PeriodicTask.set_period", v_period, cfg_task, **K),
    Unit("disable", P + ".basic.periodic:PeriodicTask.disable", v_disable, cfg_task, **K),
    Unit("stop", P + ".basic.periodic:PeriodicTask.stop", lambda it: v_stop(it, False), cfg_stop, **K),
    Unit("start", P + ".basic.periodic:PeriodicTask.task", lambda it: v_stop(it, True), cfg_stop, **K),
    Unit("measure", "runtimepy.metrics.task:PeriodicTaskMetrics.measure", v_measure, cfg_measure, covers=("measured", "raised"), **K),
    Unit("register", P + ".basic.manager:PeriodicTaskManager.register", v_register, cfg_man, **K),
    Unit("running", P + ".basic.manager:PeriodicTaskManager.running", v_running, cfg_man, **K),
    Unit("async", P + ".asynchronous:AsyncTask.run", v_async, cfg_async, covers=("ended", "raised"), **K),
]
