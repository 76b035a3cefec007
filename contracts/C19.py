"""C19: an application's stages, results and the life of its resources."""
from contracts.common import *
import asyncio
import re
from contextlib import AsyncExitStack
from contracts.C15 import Log, zb
from pyvc.values import STR, AList
from runtimepy.net.arbiter import base as AB
from runtimepy.net.arbiter import info as AI
from runtimepy.net.arbiter import result as AR
from runtimepy.net.arbiter.base import BaseConnectionArbiter
from runtimepy.net.arbiter.info import AppInfo
from runtimepy.net.arbiter.result import AppResult, ResultState
from runtimepy.net.connection import Connection
from vcorelib.math import TIMER

I = z3.IntSort()
STATE = z3.Function("state_of_result", I, I)  # 0: pass, 1: fail, 2: not run, 3: exception
PASSED = z3.Function("results_passed_before", I, I, z3.BoolSort())  # of a stage, up to a position
STATES = [ResultState.PASS, ResultState.FAIL, ResultState.NOT_RUN, ResultState.EXCEPTION]


def zi(it, v):
    return it.term(v, "int")


class Ctx:
    def __enter__(self):
        return self.value

    def __exit__(self, *exc):
        return False

    async def __aenter__(self):
        return self.value

    async def __aexit__(self, *exc):
        return False


def ctx(it, v):
    return new(it, Ctx, value=v)


# -- results
class ResTy:
    sort = I

    def dec(self, it, t):
        return it.call(AppResult, ["app", Sym("int", t)])


class StateTy:
    """Results are integers here; their state is found by branching."""
    sort = I

    def dec(self, it, t):
        s = STATE(t)
        it.c.assume(z3.And(s >= 0, s <= 3))
        for k, st in enumerate(STATES[:3]):
            if it.c.branch(s == k):
                return it.call(AppResult, ["app", st])
        return it.call(AppResult, ["app", STATES[3]])


class StageTy:
    """Stages are identifiers here (log_stage has a contract)."""
    sort = I

    def dec(self, it, t):
        return Sym("int", t)


def alist(it, name, ty):
    n = it.c.sym("int", name + "_length").t
    it.c.assume(n >= 0)
    return AList(it.c.fresh(z3.ArraySort(I, I), name), n, None, ty)


def all_before(it, arr, s, i, ok):
    """Definition of PASSED(s, i)."""
    it.c.assume(PASSED(s, z3.IntVal(0)))
    it.c.assume(z3.Implies(i >= 0, PASSED(s, i + 1) == z3.And(PASSED(s, i), ok(arr[i]))))


def cfg_results(cfg):
    base_cfg(cfg)
    cfg.model(AppResult.log, lambda it, a, kw: None, "AppResult.log")

    def inv(ok, s):
        def f(it, env, i, n):
            g = it.c.ghost
            all_before(it, g["arr"], z3.IntVal(s), i, ok)
            return [("success so far is that of all results so far", zb(it.truth(env.vars["success"])) == PASSED(z3.IntVal(s), i)), ("success is a truth value", it.kind(env.vars["success"]) == "bool")]
        return f

    def havoc(it, env):
        env.vars["success"] = Sym("bool", it.c.fresh(z3.BoolSort(), "success"))

    cfg.loop(AR.log_stage, 0, LoopSpec(inv(lambda t: STATE(t) == 0, 0), havoc))
    cfg.loop(AR.results, 0, LoopSpec(inv(lambda t: PASSED(z3.IntVal(-1), t), 1), havoc))


def v_stage(it):
    g = it.c.ghost
    l = alist(it, "results", StateTy())
    g["arr"] = l.arr
    log = new(it, Log) if it.c.choose(2) else None
    o = call(it, AR.log_stage, it.c.sym("int", "idx"), l, logger=log)
    it.c.check("a stage is successful if and only if all of its results are", And(o.ok, zb(it.truth(o.value)) == PASSED(z3.IntVal(0), l.n)))
    cover(it, "return")


def v_results(it):
    g = it.c.ghost

    def stage(it, a, kw):
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"log_stage"}
        return Sym("bool", PASSED(z3.IntVal(-1), zi(it, a[1])))

    it.cfg.model(AR.log_stage, stage, "log_stage")
    l = alist(it, "stages", StageTy())
    g["arr"] = l.arr
    log = new(it, Log) if it.c.choose(2) else None
    o = call(it, AR.results, l, logger=log)
    it.c.check("an application is successful if and only if all of its stages are", And(o.ok, zb(it.truth(o.value)) == PASSED(z3.IntVal(1), l.n)))
    cover(it, "return")


def v_state(it):
    n = it.c.sym("int", "code")
    o = call(it, ResultState.from_int, n)
    it.c.check("zero passes, anything else fails", And(o.ok, zb(o.value is ResultState.PASS) == (n.t == 0), zb(o.value is ResultState.FAIL) == (n.t != 0)))
    for s in ResultState:
        it.c.check("only what passed is a success", it.truth(s) is (s is ResultState.PASS))
    cover(it, "return")


# -- stages
class Info:
    """What applications get."""

    def log_time(self, *a, **kw):
        return self.timer


class App:
    def __call__(self, info):
        return self.run(info)


def arbiter(it, **kw):
    it.cfg.method_override = True
    return new(it, BaseConnectionArbiter, logger=new(it, Log), **kw)


def cfg_stage(cfg):
    base_cfg(cfg)
    cfg.model(type(TIMER).measure_ns, lambda it, a, kw: ctx(it, it.c.sym("int", "token")), "TIMER.measure_ns")
    cfg.model(type(TIMER).result, lambda it, a, kw: it.c.sym("int", "duration"), "TIMER.result")

    def gather(it, a, kw):
        """All results in order, unless one of them raises."""
        def run():
            r = []
            for x in a:
                r.append(it.await_(x))
            return MList(items=r)
        return CoroVal(run, "gather")

    cfg.model(asyncio.gather, gather, "asyncio.gather")

    def inv(it, env, i, n):
        g = it.c.ghost
        r = zi(it, env.vars["result"])
        it.c.assume(z3.Implies(i >= 0, RUNS(g["arr"][i]) == RUNS(g["arr"][i])))
        return [
            ("stages run in order while all before succeeded", z3.And(g["ran"] <= i, g["ran"] >= 0, z3.Implies(r == 0, g["ran"] == i))),
            ("a failure is kept", z3.Implies(r != 0, z3.And(g["ran"] > 0, r == RUNS(g["arr"][g["ran"] - 1]), RUNS(g["arr"][g["ran"] - 1]) != 0))),
            ("every stage has its results", g["results"] == i),
        ]

    def havoc(it, env):
        g = it.c.ghost
        env.vars["result"] = Sym("int", it.c.fresh(I, "result"))
        g["ran"], g["results"] = it.c.fresh(I, "ran"), it.c.fresh(I, "stage_results")

    cfg.loop(BaseConnectionArbiter._run_apps_list, 0, LoopSpec(inv, havoc))


RUNS = z3.Function("result_of_stage", I, I)


class SomeApps:
    """A stage: a few applications, known by a number."""
    sort = I

    def dec(self, it, t):
        g = it.c.ghost
        g["current"] = t
        return MList(items=[new(it, App, __name__=f"app{k}") for k in range(it.c.choose(3))])


class Results:
    def append(self, x):
        self.add(x)


def v_stages(it):
    g = it.c.ghost
    l = alist(it, "stages", SomeApps())
    g.update(arr=l.arr, ran=z3.IntVal(0), results=z3.IntVal(0), now=None)
    a = arbiter(it)

    def run_apps(it, x, kw):
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"_run_apps"}

        def run():
            it.c.check("a stage runs only if all stages before it ran", g["ran"] == g["results"])
            it.c.check("every stage runs with the application's information", x[1] is info)
            g["ran"] = g["ran"] + 1
            g["results"] = g["results"] + 1
            return Sym("int", RUNS(g["current"]))
        return CoroVal(run, "_run_apps")

    def add(it, x, kw):
        g["results"] = g["results"] + 1
        items = list(it.to_items(x[0]))
        it.c.check("stages that didn't run say so", And(*[zb(it.getattr(y, "state") is ResultState.NOT_RUN) for y in items], z3.BoolVal(True)))

    a.attrs["_run_apps"] = Prim(run_apps, "_run_apps")
    info = new(it, Info, results=new(it, Results, add=Prim(add, "append")))
    o = acall(it, method(a, "_run_apps_list"), l, info)
    r = zi(it, o.value)
    it.c.check("running stages never fails by itself", o.ok)
    it.c.check("success means that all stages ran", z3.Implies(r == 0, g["ran"] == l.n))
    it.c.check("a failure is that of the last stage that ran", z3.Implies(r != 0, z3.And(g["ran"] > 0, g["ran"] <= l.n, r == RUNS(l.arr[g["ran"] - 1]))))
    it.c.check("every stage has its results", g["results"] == l.n)
    cover(it, "return")


def v_parallel(it):
    """One stage: its applications, in parallel."""
    g = it.c.ghost
    n = it.c.choose(4)
    a = arbiter(it)
    codes, calls, apps, raised = [], [], [], None
    fail = it.c.choose(n + 1)  # the one that raises, if any
    for k in range(n):
        c = it.c.sym("int", f"code{k}")
        codes.append(c)

        def run(it, x, kw, k=k, c=c):
            def body():
                calls.append((k, x[0]))
                if k == fail:
                    it.throw(KeyError, "x")
                return c
            return CoroVal(body, "app")
        apps.append(new(it, App, __name__=f"app{k}", run=Prim(run, "run")))
    res = MList(items=[])
    info = new(it, Info, results=res)
    infos = []

    def logger(it, x, kw):
        i = new(it, Info, name=x[0], logger=new(it, Log))
        infos.append(i)
        return i
    info.attrs["with_new_logger"] = Prim(logger, "with_new_logger")
    o = acall(it, method(a, "_run_apps"), MList(items=apps), info)
    it.c.check("an exception of an application doesn't escape", o.ok)
    it.c.check("every application runs once, with its own logger", And(len(calls) == min(n, fail + 1), len(infos) == n, all(i is infos[k] and i.attrs["name"] == f"app{k}" for k, i in calls)))
    it.c.check("a stage has one list of results", len(res.items) == 1)
    rs = list(it.to_items(res.items[0]))
    it.c.check("every application has a result, in order", And(len(rs) == n, all(it.getattr(r, "method") == f"app{k}" for k, r in enumerate(rs))))
    t = zi(it, o.value)
    if fail < n:
        it.c.check("an exception fails the stage", t != 0)
        for r in rs:
            e = it.getattr(r, "exception")
            it.c.check("an exception is in the results", And(it.getattr(r, "state") is ResultState.EXCEPTION, getattr(e, "cls", None) is KeyError))
        cover(it, "raised")
        return
    it.c.check("a stage succeeds if and only if all of its applications do", (t == 0) == And(z3.BoolVal(True), *[c.t == 0 for c in codes]))
    for c, r in zip(codes, rs):
        it.c.check("a result has the application's code", zi(it, it.getattr(r, "code")) == c.t)
        it.c.check("and says if it passed", zb(it.getattr(r, "state") is ResultState.PASS) == (c.t == 0))
        it.c.check("or failed", zb(it.getattr(r, "state") is ResultState.FAIL) == (c.t != 0))
    cover(it, "ended")


# -- the application's life
class Conn:
    def disable(self, reason):
        self.disabled = True


class Ev:
    def set(self):
        self.flag = True


def conns(it, n):
    out = []
    for k in range(n):
        out.append(new(it, Conn, disabled=it.c.sym("bool", f"disabled{k}"), command=object()))
    return out


def v_entry(it):
    """Whatever happens: connections end, the application is told to stop."""
    g = it.c.ghost
    cs = conns(it, it.c.choose(3))
    stop = new(it, Ev, flag=it.c.sym("bool", "stop"))
    a = arbiter(it, _connections=MDict([[f"c{k}", c] for k, c in enumerate(cs)]), stop_sig=stop)
    how = it.c.choose(3)
    r = it.c.sym("int", "result")
    closed = MList(items=[])
    log = []

    def summary(it, x, kw):
        it.c.check("results are summarized when everything was told to stop", it.truth(stop.attrs["flag"]))
        log.append("summary")
        return True
    info = new(it, Info, result=Prim(summary, "result")) if how == 1 else None

    def main(it, x, kw):
        def run():
            it.c.check("the arguments are passed on", And(kw["app"] is app, kw["check_connections"] is check, kw["config"] is config))
            x[0].attrs["stack"].items.append(closed)
            if how == 2:
                it.throw(KeyError, "x")
            return (r, info)
        return CoroVal(run, "_main")

    it.cfg.model(AsyncExitStack, lambda it, x, kw: new(it, Stack, stack=MList(items=[])), "AsyncExitStack")
    a.attrs["_main"] = Prim(main, "_main")
    app, check, config = object(), object(), object()
    o = acall(it, method(a, "_entry"), app=app, check_connections=check, config=config)
    it.c.check("connections are disabled in the end", And(z3.BoolVal(True), *[zb(it.truth(it.getattr(c, "disabled"))) for c in cs]))
    it.c.check("the stop signal is set in the end", it.truth(stop.attrs["flag"]))
    it.c.check("the application's resources are released", len(closed.items) == 1)
    if how == 2:
        it.c.check("an exception propagates", And(not o.ok, o.exc.cls is KeyError))
        cover(it, "raised")
        return
    it.c.check("the application's result is returned", And(o.ok, zi(it, o.value) == r.t, len(log) == int(how == 1)))
    cover(it, "ended")


class Stack:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        for x in self.stack:
            x.append("closed")
        return False

    async def enter_async_context(self, cm):
        return self.enter(cm)


class Sem:
    async def acquire(self):
        self.count.append("acquired")


class TaskMan:
    def running(self, stop_sig=None):
        return [self.name, stop_sig]


class T:
    async def init(self, info):
        self.log.append(self.name)


class TEnv:
    def finalize(self, strict=True):
        self.log.append("finalized")


def cfg_main(cfg):
    cfg_stage(cfg)
    cfg.model(AB.clear_env, lambda it, a, kw: it.c.ghost["log"].append("clear"), "clear_env")
    cfg.model(AB.register_env, lambda it, a, kw: it.c.ghost["envs"].append((a[0], a[1])), "register_env")
    cfg.model(AB.AppInfo, lambda it, a, kw: it.c.ghost["mkinfo"](it, a), "AppInfo")


def v_main(it):
    g = it.c.ghost
    log = g["log"] = []
    g["envs"] = []
    cs = conns(it, it.c.choose(3))
    sems = []
    nsrv = it.c.choose(3)
    tlog = MList(items=[])
    tasks = [new(it, T, name=f"t{k}", command=object(), log=tlog, env=new(it, TEnv, log=tlog)) for k in range(it.c.choose(3))]
    tm_ = new(it, TaskMan, name="running", tasks=MList(items=list(tasks)))
    stop = object()
    sem = MList(items=[])
    a = arbiter(it, _connections=MDict([[f"c{k}", c] for k, c in enumerate(cs)]), stop_sig=stop, task_manager=tm_, _servers=MList(items=[object()] * nsrv), _servers_started=new(it, Sem, count=sem), _inits="inits", _apps="apps", manager="m", _namespace="ns", _config="cfg", _ports="p", _structs=MDict([]), _runtime_peers="peers")
    a.attrs["log_time"] = Prim(lambda it, x, kw: ctx(it, None), "log_time")

    def info(it, x):
        g["info"] = x
        i = new(it, Info, timer=ctx(it, None))
        g["iobj"] = i
        return i
    g["mkinfo"] = info

    def step(name, fn=None, coro=True):
        def f(it, x, kw):
            def run():
                log.append(name)
                return fn(x, kw) if fn else None
            return CoroVal(run, name) if coro else run()
        a.attrs[name] = Prim(f, name)

    def late(x, kw):
        """Connections may be gone once they are initialized."""
        for c in cs:
            c.attrs["disabled"] = Sym("bool", it.c.fresh(z3.BoolSort(), "gone"))

    init_code, code = it.c.sym("int", "init"), it.c.sym("int", "code")

    def apps(x, kw):
        it.c.check("applications get the information", x[1] is g["iobj"])
        which = x[0]
        log.append(which if isinstance(which, str) else "given")
        if which == "inits":
            return init_code
        return code

    step("_start_processes")
    step("_init_connections", late)
    step("_register_envs", coro=False)
    step("_build_structs")
    step("_setup_server_json", coro=False)
    step("_run_apps_list", apps)
    it.cfg.model(AB.normalize_app, lambda it, x, kw: MList(items=[x[0]]), "normalize_app")
    st = new(it, Stack, stack=MList(items=[]))

    def enter(it, x, kw):
        log.append("tasks")
        it.c.check("tasks get the stop signal", list(it.to_items(x[0]))[1] is stop)
    st.attrs["enter"] = Prim(enter, "enter")
    check = bool(it.c.choose(2))
    app = [None, "other"][it.c.choose(2)]
    o = acall(it, method(a, "_main"), st, app=app, check_connections=check)
    it.c.check("starting an application never fails by itself", o.ok)
    it.c.check("every server was waited for", len(sem.items) == nsrv)
    gone = z3.Or(z3.BoolVal(False), *[zb(it.truth(it.getattr(c, "disabled"))) for c in cs])
    r, i = it.to_items(o.value)
    first = ["clear", "_start_processes", "_init_connections", "_register_envs"]
    it.c.check("processes and connections come first", log[:4] == first)
    it.c.check("environments of tasks can be commanded", And(len(g["envs"]) == len(tasks), all(n == t.attrs["name"] and e is t.attrs["command"] for (n, e), t in zip(g["envs"], tasks))))
    runs = i is not None
    it.c.check("the application runs unless a connection is gone and that matters", zb(runs) == z3.Or(z3.BoolVal(not check), z3.Not(gone)))
    if not runs:
        it.c.check("not running is a failure", zi(it, r) == -1)
        it.c.check("nothing else happens", And(log == first, len(tlog.items) == 0))
        cover(it, "gone")
        return
    ok = it.c.branch(init_code.t == 0)
    it.c.check("tasks are initialized before they run", list(tlog.items) == [t.attrs["name"] for t in tasks] + ["finalized"] * len(tasks))
    want = first + ["_build_structs", "_setup_server_json", "tasks", "_run_apps_list", "inits"]
    if ok:
        want += ["_run_apps_list", "given" if app else "apps"]
    it.c.check("applications run after what they need, initialization first", log == want)
    it.c.check("the result is that of initialization if it fails, else the application's", zi(it, r) == z3.If(init_code.t == 0, code.t, init_code.t))
    cover(it, "ran")


def v_normalize(it):
    f, l = object(), MList(items=["a", "b"])
    k = it.c.choose(3)
    o = call(it, AB.normalize_app, [None, "f", l][k])
    v = it.to_items(o.value)
    it.c.check("an application is a list of stages", And(o.ok, len(v) == 1))
    s = v[0]
    it.c.check("one function is a stage, a list of functions is run in parallel", (s is l) if k == 2 else list(it.to_items(s)) == [["f"], ["f"]][k - 1] if k else len(it.to_items(s)) == 1)
    cover(it, "return")


# -- registering connections
class Space:
    def namespace(self, name=None, delim=None):
        return self.current(delim)


def v_register(it):
    """Names are unique among connections, including those to come."""
    g = it.c.ghost
    ns = {0: "a", 1: "b", 2: "c"}
    a = arbiter(it)
    c = new(it, Connection, logger=new(it, Log))
    old = [(n, new(it, Connection, logger=new(it, Log))) for n in ["a"][:it.c.choose(2)]]
    later = [(n, CoroVal(lambda: None, "x")) for n in ["b"][:it.c.choose(2)]]
    put_ = []

    class_q = new(it, Queue, add=Prim(lambda it, x, kw: put_.append(x[0]), "put"))
    a.attrs.update(_connections=MDict([list(x) for x in old]), _deferred_connections=MDict([list(x) for x in later]), manager=new(it, Man, queue=class_q))
    name = ns[it.c.choose(3)]
    pushed = []
    a.attrs["names_pushed"] = Prim(lambda it, x, kw: pushed.append(list(x)) or ctx(it, None), "names_pushed")
    a.attrs["namespace"] = Prim(lambda it, x, kw: name, "namespace")
    deferred = it.c.choose(2)
    d = CoroVal(lambda: None, "deferred")
    it.cfg.model(AB._isawaitable, lambda it, x, kw: isinstance(x[0], CoroVal), "isawaitable")
    o = call(it, method(a, "register_connection"), d if deferred else c, name)
    taken = name in [n for n, _ in old + later]
    it.c.check("a connection is registered if and only if its name is new", And(o.ok, o.value is (not taken)))
    cd, dd = dict(map(tuple, a.attrs["_connections"].pairs)), dict(map(tuple, a.attrs["_deferred_connections"].pairs))
    it.c.check("registered connections stay", And(all(cd.get(n) is x for n, x in old), all(dd.get(n) is x for n, x in later)))
    it.c.check("it's found by name", taken or (dd.get(name) is d if deferred else cd.get(name) is c))
    it.c.check("nothing else changes", And(len(cd) == len(old) + int(not taken and not deferred), len(dd) == len(later) + int(not taken and deferred)))
    it.c.check("a connection is processed, once", len(put_) == int(not taken and not deferred) and (not put_ or put_[0] is c))
    cover(it, "return")


class Queue:
    def put_nowait(self, x):
        self.add(x)


class Man:
    def by_type(self, kind):
        return self.conns


def v_deferred(it):
    """Deferred connections are registered by name, all are initialized."""
    g = it.c.ghost
    n = it.c.choose(3)
    a = arbiter(it)
    waited, put_ = [], []

    def conn(k):
        c = new(it, Connection, logger=new(it, Log))
        c.attrs["initialized"] = new(it, Ini, w=Prim(lambda it, x, kw: CoroVal(lambda: waited.append(k), "wait"), "wait"))
        return c
    old = conn("old")
    cs = [conn(k) for k in range(n)]
    a.attrs.update(_connections=MDict([["old", old]]), _deferred_connections=MDict([[f"d{k}", CoroVal(lambda c=c: c, "conn")] for k, c in enumerate(cs)]), manager=new(it, Man, queue=new(it, Queue, add=Prim(lambda it, x, kw: put_.append(x[0]), "put"))))
    o = acall(it, method(a, "_init_connections"))
    d = dict(map(tuple, a.attrs["_connections"].pairs))
    it.c.check("deferred connections are registered by their names", And(o.ok, len(d) == n + 1, d.get("old") is old, all(d.get(f"d{k}") is c for k, c in enumerate(cs))))
    it.c.check("each of them is processed", And(len(put_) == n, all(x is y for x, y in zip(put_, cs))))
    it.c.check("all connections are waited for", sorted(map(str, waited)) == sorted(["old"] + [str(k) for k in range(n)]))
    cover(it, "return")


class Ini:
    def wait(self):
        return self.w()


# -- finding things
class KindA:
    pass


class KindB(KindA):
    pass


MATCH = z3.Function("name_matches", z3.StringSort(), z3.BoolSort())


ANCHORED = z3.Function("name_matches_at_the_start", z3.StringSort(), z3.BoolSort())


class Pat:
    def search(self, s):
        return self.f(s)

    def match(self, s):
        return self.g(s)

    def fullmatch(self, s):
        return self.g(s)


class Names:
    def search(self, *names, pattern=".*"):
        return self.found(names, pattern)


def cfg_find(cfg):
    base_cfg(cfg)

    def compile_(it, a, kw):
        it.c.check("the pattern requested is used", a[0] == "pattern")

        def search(it, x, kw):
            return object() if it.c.branch(MATCH(it.term(x[0], "str"))) else None

        def match(it, x, kw):
            t = it.term(x[0], "str")
            it.c.assume(z3.Implies(ANCHORED(t), MATCH(t)))
            return object() if it.c.branch(ANCHORED(t)) else None
        return new(it, Pat, f=Prim(search, "search"), g=Prim(match, "match"))
    cfg.model(AI._compile, compile_, "re.compile")
    cfg.method_override = True


def v_find(it, what):
    n = it.c.choose(4)
    names = [it.c.sym("str", f"name{k}") for k in range(n)]
    for i in range(n):
        for j in range(i):
            it.c.assume(names[i].t != names[j].t)
    xs = [new(it, [KindA, KindB][it.c.choose(2)]) for _ in range(n)]
    info = new(it, AppInfo, **{what: MDict([[a, b] for a, b in zip(names, xs)])})
    kind = [KindA, KindB][it.c.choose(2)]
    got = []
    o = drain(it, call(it, method(info, f"search_{what}"), kind, pattern="pattern").value, lambda x: got.append(x))
    it.c.check("searching never fails", o.ok)
    for k in range(n):
        hit = z3.And(MATCH(names[k].t), z3.BoolVal(issubclass(xs[k].cls, kind)))
        it.c.check("exactly what has the kind and matches the pattern is found, once", hit == zb(sum(x is xs[k] for x in got) == 1))
        it.c.check("nothing is found twice", sum(x is xs[k] for x in got) <= 1)
    it.c.check("nothing else is found", all(any(x is y for y in xs) for x in got))
    cover(it, "return")


def v_search(it):
    n = it.c.choose(3)
    xs = [new(it, [KindA, KindB][it.c.choose(2)]) for _ in range(n)]
    extra = new(it, [KindA, KindB][it.c.choose(2)])
    kind = [KindA, KindB][it.c.choose(2)]
    default = it.c.choose(2)
    pattern = AI.DEFAULT_PATTERN if default else "pattern"
    hits = [k for k in range(n) if it.c.choose(2)]

    def found(it, a, kw):
        it.c.check("names and pattern are used", And(list(it.to_items(a[0])) == ["x"], a[1] == pattern))
        return MList(items=[f"n{k}" for k in hits])
    managed = [x for x in xs + [extra] if issubclass(x.cls, kind)]
    info = new(it, AppInfo, names=new(it, Names, found=Prim(found, "found")), connections=MDict([[f"n{k}", x] for k, x in enumerate(xs)]), conn_manager=new(it, Man, conns=MList(items=managed)))
    single = it.c.choose(2)
    want = [xs[k] for k in hits if issubclass(xs[k].cls, kind)]
    want += [x for x in managed if default and not any(x is y for y in want)]
    if single:
        o = call(it, method(info, "single"), "x", pattern=pattern, kind=kind)
        it.c.check("a single result is returned if and only if there is exactly one", o.ok == (len(want) == 1))
        it.c.check("and it's the one found", not o.ok or o.value is want[0])
        it.c.check("otherwise an assertion fails", o.ok or o.exc.cls is AssertionError)
        cover(it, "single")
        return
    got = []
    o = drain(it, call(it, method(info, "search"), "x", pattern=pattern, kind=kind).value, lambda x: got.append(x))
    it.c.check("exactly what matches is found, each once: by name, then what the manager has", And(o.ok, len(got) == len(want), all(x is y for x, y in zip(got, want))))
    cover(it, "search")


K = dict(branch_ms=400)
P = "runtimepy.net.arbiter"
B = P + ".base:BaseConnectionArbiter."
CONTRACTS = [
    Unit("stage success", P + ".result:log_stage", v_stage, cfg_results, **K),
    Unit("overall success", P + ".result:results", v_results, cfg_results, **K),
    Unit("states", P + ".result:ResultState.from_int", v_state, base_cfg, **K),
    Unit("stages", B + "_run_apps_list", v_stages, cfg_stage, **K),
    Unit("one stage", B + "_run_apps", v_parallel, cfg_stage, covers=("raised", "ended"), **K),
    Unit("entry", B + "_entry", v_entry, cfg_stage, covers=("raised", "ended"), **K),
    Unit("main", B + "_main", v_main, cfg_main, covers=("gone", "ran"), **K),
    Unit("normalize", P + ".base:normalize_app", v_normalize, base_cfg, **K),
    Unit("register", B + "register_connection", v_register, cfg_stage, **K),
    Unit("deferred", B + "_init_connections", v_deferred, cfg_stage, **K),
    Unit("find tasks", P + ".info:AppInfo.search_tasks", lambda it: v_find(it, "tasks"), cfg_find, **K),
    Unit("find structs", P + ".info:AppInfo.search_structs", lambda it: v_find(it, "structs"), cfg_find, **K),
    Unit("find connections", P + ".info:AppInfo.search", v_search, cfg_find, covers=("search", "single"), **K),
]
