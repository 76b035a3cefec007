"""C20: the life of connections."""
from contracts.common import *
import asyncio
from contracts.C15 import Log, zb
from contracts.C17 import Event, raw, setraw
from runtimepy.net import connection as NC
from runtimepy.net import manager as NM
from runtimepy.net.connection import Connection, EchoConnection, NullConnection
from runtimepy.net.manager import ConnectionManager
from runtimepy import primitives as RP

I = z3.IntSort()


class Task:
    """An asyncio task."""

    def done(self):
        return self.over

    def cancel(self):
        self.cancelled = True
        return True

    def result(self):
        return self.value


class Env:
    def finalize(self, strict=True):
        self.log.append("finalized")


def task(it, over=False, **kw):
    return new(it, Task, over=over, cancelled=False, **kw)


def conn(it, cls=Connection, **kw):
    it.cfg.method_override = True
    g = it.c.ghost
    c = new(it, cls, logger=new(it, Log), initialized=it.call(Event, []), exited=it.call(Event, []), disabled_event=it.call(Event, []), _tasks=MList(items=[]), _conn_tasks=MList(items=[]), metrics=new(it, Log), uses_text_tx_queue=True, uses_binary_tx_queue=True)
    for k in ("_enabled", "_auto_restart"):
        c.attrs[k] = call(it, RP.Bool).value
        it.getattr(c.attrs[k], "raw").value = it.c.sym("bool", k.strip("_"))
    for k in ("_restarts", "_restart_attempts"):
        c.attrs[k] = call(it, RP.Uint8).value
        it.getattr(c.attrs[k], "raw").value = n = it.c.sym("int", k.strip("_"))
        it.c.assume(z3.And(n.t >= 0, n.t < 256))
    log = g["log"] = MList(items=[])
    c.attrs["env"] = new(it, Env, log=log)
    c.attrs["log_metrics"] = Prim(lambda it, a, kw: None, "log_metrics")
    c.attrs["disable_extra"] = Prim(lambda it, a, kw: log.items.append("extra"), "disable_extra")
    c.attrs.update(kw)
    for k, neg in (("disabled_event", True), ("initialized", None), ("exited", None)):
        e = raw(it, c, "_enabled").t
        c.attrs[k].attrs["flag"] = Sym("bool", z3.Not(e)) if neg else it.c.sym("bool", k)
    return c


def on(it, c):
    return zb(it.truth(raw(it, c, "_enabled")))


def flag(it, c, k):
    return zb(it.truth(c.attrs[k].attrs["flag"]))


def enable(it, c, v):
    """Somebody else (dis)ables the connection."""
    setraw(it, c, "_enabled", Sym("bool", v))
    it.allow(c.attrs["_enabled"], "last_updated_ns")


# -- state
def v_enabled(it):
    c = conn(it)
    s = it.c.choose(2)
    o = call(it, method(c, "_set_enabled"), bool(s))
    it.c.check("setting the state succeeds", o.ok)
    it.c.check("the state is what was set", on(it, c) == z3.BoolVal(bool(s)))
    it.c.check("the event follows the state", flag(it, c, "disabled_event") == z3.BoolVal(not s))
    it.c.check("it isn't initialized yet, or any more", z3.Not(flag(it, c, "initialized")))
    it.c.check("disabled is the opposite", zb(it.truth(it.getattr(c, "disabled"))) == z3.BoolVal(not s))
    cover(it, "return")


def v_disable(it):
    g = it.c.ghost
    c = conn(it)
    was = on(it, c)
    mk = lambda k: [task(it, over=bool(it.c.choose(2))) for _ in range(it.c.choose(3 if k == "_tasks" else 2))]
    own, extra = mk("_tasks"), mk("_conn_tasks")
    c.attrs["_tasks"], c.attrs["_conn_tasks"] = MList(items=list(own)), MList(items=list(extra))
    before = {k: flag(it, c, k) for k in ("initialized", "exited", "disabled_event")}
    o = call(it, method(c, "disable"), "reason")
    it.c.check("disabling never fails", o.ok)
    it.c.check("it's disabled", z3.Not(on(it, c)))
    it.c.check("and says so", flag(it, c, "disabled_event"))
    acted = it.c.branch(was)
    it.c.check("extra actions are taken once, when it was enabled", g["log"].items == (["extra"] if acted else []))
    it.c.check("then it isn't initialized any more", flag(it, c, "initialized") == (z3.BoolVal(False) if acted else before["initialized"]))
    for t in own + extra:
        it.c.check("all of its unfinished tasks are cancelled, no finished one is", t.attrs["cancelled"] is (acted and not t.attrs["over"]))
    cover(it, "return")


def v_tasks(it):
    c = conn(it)
    ts = [task(it, over=bool(it.c.choose(2))) for _ in range(it.c.choose(4))]
    c.attrs["_conn_tasks"] = MList(items=list(ts))
    got = []
    o = drain(it, it.getattr(c, "tasks"), lambda x: got.append(x))
    want = [t for t in ts if not t.attrs["over"]]
    it.c.check("the active tasks are found", And(o.ok, len(got) == len(want), all(x is y for x, y in zip(got, want))))
    left = it.to_items(c.attrs["_conn_tasks"])
    it.c.check("finished tasks are forgotten", And(len(left) == len(want), all(x is y for x, y in zip(left, want))))
    cover(it, "return")


def v_init(it):
    """Initialization always ends, for everyone that waits."""
    g = it.c.ghost
    c = conn(it)
    was = on(it, c)
    how = it.c.choose(4)

    def init(it, a, kw):
        def run():
            if how == 2:
                it.throw(KeyError, "init")
            if how == 3:
                it.throw(asyncio.CancelledError)
            return how == 1
        return CoroVal(run, "async_init")
    c.attrs["async_init"] = Prim(init, "async_init")
    o = acall(it, method(c, "_async_init"))
    it.c.check("waiting for initialization ends, however it went", flag(it, c, "initialized"))
    it.c.check("the connection's channels are finalized", "finalized" in g["log"].items)
    it.c.check("a connection stays enabled if and only if its initialization succeeded", on(it, c) == z3.And(was, z3.BoolVal(how == 1)))
    it.c.check("exceptions propagate", And(o.ok == (how < 2), o.ok or o.exc.cls is (KeyError if how == 2 else asyncio.CancelledError)))
    cover(it, "return")


def v_error(it):
    c = conn(it)
    was = on(it, c)
    how = it.c.choose(3)

    def run(it, a, kw):
        def body():
            if how:
                it.throw([KeyError, asyncio.CancelledError][how - 1])
        return CoroVal(body, "task")
    o = acall(it, method(c, "_disable_on_error"), Prim(run, "task"))
    it.c.check("exceptions propagate", And(o.ok == (how == 0), o.ok or o.exc.cls is [KeyError, asyncio.CancelledError][how - 1]))
    it.c.check("a task that raised an exception disables its connection, another doesn't", on(it, c) == z3.And(was, z3.BoolVal(how != 1)))
    cover(it, "return")


def v_sig(it):
    c = conn(it)
    sig = it.call(Event, [])
    sig.attrs["flag"] = False
    sig.attrs["wait"] = Prim(lambda it, a, kw: CoroVal(lambda: sig.attrs.__setitem__("flag", True), "wait"), "wait")
    o = acall(it, method(c, "_wait_sig"), sig)
    it.c.check("the stop signal disables the connection", And(o.ok, sig.attrs["flag"] is True, z3.Not(on(it, c))))
    cover(it, "return")


# -- messages
def others(it, c):
    """While a task waits, others may disable the connection."""
    enable(it, c, z3.And(on(it, c), it.c.fresh(z3.BoolSort(), "stays")))


def cfg_msgs(cfg):
    base_cfg(cfg)
    cfg.method_override = True

    def inv_read(it, env):
        g = it.c.ghost
        return [("every message received was processed, in order", g["seen"] == g["got"]), ("processing goes on only after a message that was processed", z3.Or(g["got"] == 0, g["good"], z3.Not(on(it, g["conn"]))))]

    def havoc_read(it, env):
        g = it.c.ghost
        c = g["conn"]
        enable(it, c, it.c.fresh(z3.BoolSort(), "enabled"))
        it.allow(c, "_conn_tasks")
        for k in ("disabled_event", "initialized"):
            it.allow(c.attrs[k])
            c.attrs[k].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), k))
        g["got"], g["seen"], g["good"] = it.c.fresh(I, "got"), it.c.fresh(I, "seen"), it.c.fresh(z3.BoolSort(), "good")

    cfg.loop(Connection._process_read, 0, LoopSpec(inv_read, havoc_read))

    def inv_write(it, env):
        g = it.c.ghost
        return [("every message taken was sent and finished, in order", z3.And(g["sent"] == g["taken"], g["finished"] == g["taken"]))]

    def havoc_write(it, env):
        g = it.c.ghost
        enable(it, g["conn"], it.c.fresh(z3.BoolSort(), "enabled"))
        for k in ("sent", "taken", "finished"):
            g[k] = it.c.fresh(I, k)

    cfg.loop(Connection._process_write_text, 0, LoopSpec(inv_write, havoc_write))
    cfg.loop(Connection._process_write_binary, 0, LoopSpec(inv_write, havoc_write))


def v_read(it):
    """Messages are processed one by one, in order, by their type."""
    g = it.c.ghost
    c = conn(it)
    was = on(it, c)
    g.update(conn=c, got=z3.IntVal(0), seen=z3.IntVal(0), good=z3.BoolVal(True), ended=False)

    def receive(it, a, kw):
        def run():
            it.c.check("a message is received only while the connection is enabled", on(it, c))
            it.c.check("a message is received only after the previous one was processed", g["seen"] == g["got"])
            others(it, c)
            k = it.c.choose(4)
            if k == 3:
                g["ended"] = True
                it.throw([KeyError, asyncio.CancelledError][it.c.choose(2)])
            if k == 0:
                g["good"] = z3.BoolVal(False)
                return None
            g["got"] = g["got"] + 1
            m = g["message"] = it.c.sym("str" if k == 1 else "bytes", "message")
            g["kind"] = k
            return m
        return CoroVal(run, "_await_message")

    def process(it, a, kw, k):
        def run():
            it.c.check("a message is processed by its type, unchanged", And(g["kind"] == k, a[0] is g["message"]))
            it.c.check("a message is processed once", g["seen"] + 1 == g["got"])
            g["seen"] = g["seen"] + 1
            others(it, c)
            r = it.c.choose(3)
            if r == 2:
                g["ended"] = True
                it.throw(KeyError)
            g["good"] = z3.BoolVal(bool(r))
            return bool(r)
        return CoroVal(run, "process")
    c.attrs["_await_message"] = Prim(receive, "_await_message")
    c.attrs["process_text"] = Prim(lambda it, a, kw: process(it, a, kw, 1), "process_text")
    c.attrs["process_binary"] = Prim(lambda it, a, kw: process(it, a, kw, 2), "process_binary")
    o = acall(it, method(c, "_process_read"))
    if not o.ok:
        it.c.check("only exceptions of receiving and processing are raised", g["ended"])
        cover(it, "raised")
        return
    it.c.check("exceptions aren't hidden", not g["ended"])
    it.c.check("reading ends only when the connection is disabled", z3.Not(on(it, c)))
    it.c.check("every message received was processed", g["seen"] == g["got"])
    cover(it, "ended")


class Queue:
    def get(self):
        return self.take()

    def task_done(self):
        self.finish()


def v_write(it, kind):
    g = it.c.ghost
    c = conn(it)
    g.update(conn=c, sent=z3.IntVal(0), taken=z3.IntVal(0), finished=z3.IntVal(0), raised=False)

    def take(it, a, kw):
        def run():
            it.c.check("a message is taken only while the connection is enabled", on(it, c))
            it.c.check("and only after the previous one was sent", z3.And(g["sent"] == g["taken"], g["finished"] == g["taken"]))
            others(it, c)
            g["message"] = it.c.sym("str" if kind == "text" else "bytes", "message")
            g["taken"] = g["taken"] + 1
            return g["message"]
        return CoroVal(run, "get")

    def send(it, a, kw):
        def run():
            it.c.check("a message is sent unchanged", a[0] is g["message"])
            it.c.check("a message is sent once", g["sent"] + 1 == g["taken"])
            g["sent"] = g["sent"] + 1
            others(it, c)
            if it.c.choose(2):
                g["raised"] = True
                it.throw([KeyError, asyncio.CancelledError][it.c.choose(2)])
        return CoroVal(run, "send")

    def finish(it, a, kw):
        it.c.check("a message is finished when it was sent", g["sent"] == g["finished"] + 1)
        g["finished"] = g["finished"] + 1
    c.attrs[f"_{kind}_messages"] = new(it, Queue, take=Prim(take, "get"), finish=Prim(finish, "task_done"))
    c.attrs["_send_text_message" if kind == "text" else "_send_binay_message"] = Prim(send, "send")
    o = acall(it, method(c, f"_process_write_{kind}"))
    if not o.ok:
        it.c.check("only exceptions of sending are raised", g["raised"])
        cover(it, "raised")
        return
    it.c.check("writing ends only when the connection is disabled", And(not g["raised"], z3.Not(on(it, c))))
    cover(it, "ended")


def v_enqueue(it):
    """What is sent is queued in order; echoing sends what was received."""
    c = conn(it, cls=EchoConnection)
    q = {"text": [], "binary": []}
    for k in q:
        c.attrs[f"_{k}_messages"] = new(it, Sink, add=Prim(lambda it, a, kw, k=k: q[k].append(a[0]), "put"))
    t, b = it.c.sym("str", "text"), it.c.sym("bytes", "binary")
    for _ in range(2):
        it.c.check("text can be sent", call(it, method(c, "send_text"), t).ok)
        it.c.check("binary data can be sent", call(it, method(c, "send_binary"), b).ok)
    it.c.check("messages are queued for their type, in order", And(len(q["text"]) == 2, len(q["binary"]) == 2, all(x is t for x in q["text"]), all(x is b for x in q["binary"])))
    o = acall(it, method(c, "process_text"), t)
    o2 = acall(it, method(c, "process_binary"), b)
    it.c.check("an echo is what was received", And(o.ok, o.value is True, o2.ok, o2.value is True, len(q["text"]) == 3, len(q["binary"]) == 3, q["text"][2] is t, q["binary"][2] is b))
    n = conn(it, cls=NullConnection)
    o = acall(it, method(n, "process_text"), t)
    o2 = acall(it, method(n, "process_binary"), b)
    it.c.check("a null connection accepts everything", And(o.ok, o.value is True, o2.ok, o2.value is True))
    cover(it, "return")


class Sink:
    def put_nowait(self, x):
        self.add(x)


# -- processing
def cfg_process(cfg):
    base_cfg(cfg)
    cfg.method_override = True

    def create(it, a, kw):
        g = it.c.ghost
        name = a[0].name if isinstance(a[0], CoroVal) else "?"
        t = task(it, name=name, co=a[0])
        g["created"].append(t)
        return t

    def wait(it, a, kw):
        def run():
            g = it.c.ghost
            ts = it.to_items(a[0])
            it.c.check("all tasks are waited for", kw.get("return_when") == asyncio.ALL_COMPLETED)
            g["waited"] = [t.attrs["name"] for t in ts]
            for t in ts:
                t.attrs["over"] = True
            g["done"](it)
            return None
        return CoroVal(run, "wait")

    cfg.model(asyncio.create_task, create, "asyncio.create_task")
    cfg.model(asyncio.wait, wait, "asyncio.wait")
    cfg.model(NC._log_exceptions, lambda it, a, kw: it.c.ghost.__setitem__("logged", it.to_items(a[0])), "log_exceptions")


def v_process(it):
    """Processing runs all tasks of an enabled connection, to their end."""
    g = it.c.ghost
    c = conn(it)
    order = []
    g.update(created=[], waited=None, logged=None)
    text, binary = bool(it.c.choose(2)), bool(it.c.choose(2))
    c.attrs.update(uses_text_tx_queue=text, uses_binary_tx_queue=binary)

    def named(k):
        c.attrs[k] = Prim(lambda it, a, kw: CoroVal(lambda: None, (k,) + tuple(a)), k)
    for k in ("_process_read", "_process_write_text", "_process_write_binary", "_async_init", "_wait_sig", "disable_in"):
        named(k)
    # a task is known by what it runs
    c.attrs["_disable_on_error"] = Prim(lambda it, a, kw: CoroVal(lambda: None, ("guarded", a[0].name)), "_disable_on_error")

    def restart(it, a, kw):
        def run():
            it.c.check("restarting gets the stop signal and backoff", And(kw.get("stop_sig") is sig, kw.get("backoff") is bo))
            enable(it, c, it.c.fresh(z3.BoolSort(), "restarted"))
            g["on"] = on(it, c)
        return CoroVal(run, "_handle_restart")
    c.attrs["_handle_restart"] = Prim(restart, "_handle_restart")
    c.attrs["close"] = Prim(lambda it, a, kw: CoroVal(lambda: order.append(("close", c.attrs["exited"].attrs["flag"])), "close"), "close")
    sig = [None, it.call(Event, [])][it.c.choose(2)]
    bo = object()
    limit = [None, it.c.sym("real", "time")][it.c.choose(2)]

    def done(it):
        order.append("done")
        it.c.check("processing hasn't exited while tasks run", c.attrs["exited"].attrs["flag"] is False)
        enable(it, c, z3.BoolVal(False))
        c.attrs["initialized"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "initialized"))
    g["done"] = done
    # awaiting the gathering task runs the wait
    real = it.await_
    o = acall(it, method(c, "process"), stop_sig=sig, disable_time=limit, backoff=bo)
    if not o.ok:
        it.c.check("processing never fails by itself", False)
        return
    if it.c.branch(z3.Not(g["on"])):
        it.c.check("a connection that stays disabled isn't processed", And(not g["created"], not order))
        it.c.check("nothing waits for its initialization", flag(it, c, "initialized"))
        cover(it, "disabled")
        return
    want = [("guarded", "_process_read"), ("_async_init",)] + ([("disable_in", limit)] if limit is not None else []) + ([("guarded", "_process_write_text")] if text else []) + ([("guarded", "_process_write_binary")] if binary else []) + ([("_wait_sig", sig)] if sig is not None else [])
    got = [t.attrs["name"] for t in g["created"] if t.attrs["name"] != "wait"]
    same = lambda a, b: len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    it.c.check("exactly the tasks the connection needs are run", And(len(got) == len(want), all(sum(same(x, y) for y in got) == 1 for x in want)))
    it.c.check("all of them are waited for", And(g["waited"] is not None and len(g["waited"]) == len(want)))
    it.c.check("disabling cancels all of them", sorted(id(t) for t in it.to_items(c.attrs["_tasks"])) == sorted(id(t) for t in g["created"] if t.attrs["name"] != "wait"))
    it.c.check("it's closed before it has exited", order == ["done", ("close", False)])
    it.c.check("it has exited", c.attrs["exited"].attrs["flag"] is True)
    it.c.check("nothing waits for initialization unless it restarts", z3.Or(zb(it.truth(raw(it, c, "_auto_restart"))), flag(it, c, "initialized")))
    cover(it, "processed")


def await_task(it, t):
    co = t.attrs["co"]
    r = it.await_(co)
    t.attrs["over"] = True
    return r


def cfg_process2(cfg):
    cfg_process(cfg)
    create0 = cfg.models[id(asyncio.create_task)].fn

    def create(it, a, kw):
        t = create0(it, a, kw)
        t.attrs["__await__"] = Prim(lambda it, x, k: CoroVal(lambda: await_task(it, t), "task"), "await")
        return t
    cfg.model(asyncio.create_task, create, "asyncio.create_task")


def v_context(it):
    """Processing as a context: starts before the body, ends after it."""
    g = it.c.ghost
    c = conn(it)
    log = []
    g.update(created=[], waited=None, logged=None)

    def process(it, a, kw):
        def run():
            it.c.check("arguments are passed on", kw.get("x") == 1)
            log.append(("process", it.truth(it.getattr(c, "disabled"))))
        return CoroVal(run, "process")
    c.attrs["process"] = Prim(process, "process")
    it.cfg.on_await = lambda it, what, a: log.append("yield")
    fail = it.c.choose(2)

    def body():
        it.c.check("processing may start before the body runs", log == ["yield"])
        log.append("body")
        if fail:
            it.throw(KeyError)
    cm = call(it, method(c, "process_then_disable"), x=1).value
    o = call(it, Prim(lambda it, a, kw: it.run_with(cm, lambda _: body()), "with"))
    it.c.check("exceptions propagate", And(o.ok == (not fail), o.ok or o.exc.cls is KeyError))
    it.c.check("the connection is disabled after the body", z3.Not(on(it, c)))
    it.c.check("and processing is waited for", And(len(log) == 3, log[:2] == ["yield", "body"], log[2][0] == "process"))
    cover(it, "return")


# -- the manager
class Conn:
    """A connection, as its manager sees it."""

    def process(self, stop_sig=None):
        return self.proc(stop_sig)


class Sig:
    def is_set(self):
        return self.flag

    def wait(self):
        return self.waits


def fresh_conn(it):
    g = it.c.ghost
    c = new(it, Conn, disabled=it.c.fresh_bool("disabled"), auto_restart=it.c.fresh_bool("auto_restart"))

    def proc(it, a, kw):
        it.c.check("a connection gets the stop signal", a[0] is g["sig"])
        co = CoroVal(lambda: None, "process")
        co.conn = c
        return co
    c.attrs["proc"] = Prim(proc, "process")
    g["conns"].append(c)
    g["live"][id(c)] = []
    return c


def cfg_manage(cfg):
    base_cfg(cfg)
    cfg.method_override = True

    def create(it, a, kw):
        g = it.c.ghost
        co = a[0]
        t = task(it, co=co)
        c = getattr(co, "conn", None)
        if c is not None:
            it.c.check("a connection is processed by one task at a time", not any(not x.attrs["over"] for x in g["live"][id(c)]))
            g["live"][id(c)].append(t)
            t.attrs["conn"] = c
        return t

    def wait(it, a, kw):
        """Anything may happen while the manager waits."""
        def run():
            g = it.c.ghost
            ts = it.to_items(a[0])
            it.c.check("the manager goes on when anything happens", kw.get("return_when") == asyncio.FIRST_COMPLETED)
            every = [t for l in g["live"].values() for t in l if not t.attrs["over"]]
            it.c.check("every task that runs is waited for", all(any(x is t for x in ts) for t in every))
            it.c.check("the stop signal and new connections are waited for", And(sum(t.attrs["co"] == "signal" for t in ts) == 1, sum(t.attrs["co"] == "queue" for t in ts) == 1))
            happen(it, ts)
        return CoroVal(run, "wait")

    def wait_for(it, a, kw):
        def run():
            it.c.ghost["final"] = True
            it.await_(a[0])
        return CoroVal(run, "wait_for")

    def gather(it, a, kw):
        def run():
            it.c.ghost["gathered"] = list(a)
        return CoroVal(run, "gather")

    cfg.model(asyncio.create_task, create, "asyncio.create_task")
    cfg.model(asyncio.wait, wait, "asyncio.wait")
    cfg.model(asyncio.wait_for, wait_for, "asyncio.wait_for")
    cfg.model(asyncio.gather, gather, "asyncio.gather")
    cfg.model(NM._log_exceptions, lambda it, a, kw: MList(items=[t for t in it.to_items(a[0]) if not t.attrs["over"]]), "log_exceptions: the tasks that aren't done")

    def happen(it, ts):
        g = it.c.ghost
        g["sig"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "stop"))
        for c in g["conns"]:
            live = any(not t.attrs["over"] for t in g["live"][id(c)])
            if c.attrs["disabled"] is True:
                k = 2 * it.c.choose(2) if live else 0
            else:
                k = it.c.choose(3)  # goes on, is disabled, ends
            if k:
                c.attrs["disabled"] = True
            if k == 2:
                for t in g["live"][id(c)]:
                    t.attrs["over"] = True
        for t in ts:
            if t.attrs["co"] == "queue" and it.c.choose(2):
                t.attrs.update(over=True, value=fresh_conn(it))
                g["arrived"] = t.attrs["value"]

    def inv(it, env):
        g = it.c.ghost
        m = g["man"]
        cs = it.to_items(m.attrs["_conns"])
        tasks = it.to_items(env.vars["tasks"])
        pr = {id(k): v for k, v in env.vars["processing"].pairs}
        live = lambda c: [t for t in g["live"][id(c)] if not t.attrs["over"]]
        n = env.vars["new_conn_task"]
        return [
            ("every connection managed is known to be processed", all(id(c) in pr for c in cs)),
            ("its latest task is known", all(not live(c) or (len(live(c)) == 1 and (id(c) not in pr or pr[id(c)] is live(c)[0])) for c in g["conns"])),
            ("every connection that's processed is kept track of", all(not live(c) or any(t is x for t in tasks for x in live(c)) for c in g["conns"])),
            ("no connection is managed twice", len({id(c) for c in cs}) == len(cs)),
            ("a new connection isn't lost", n is None or not n.attrs["over"]),
            ("managed connections are enabled or restart", all(zb(it.truth(c.attrs["disabled"])) is not None for c in cs)),
        ]

    def havoc(it, env):
        """Up to two connections, in any state."""
        g = it.c.ghost
        m = g["man"]
        it.allow(m)
        it.allow(m, "_conns")
        it.allow(g["sig"])
        g["conns"].clear()
        g["live"].clear()
        g["sig"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "stop"))
        cs, tasks, pairs = [], [], []
        for _ in range(it.c.choose(3)):
            c = fresh_conn(it)
            c.attrs["disabled"] = bool(it.c.choose(2))
            over = bool(c.attrs["disabled"] and it.c.choose(2))
            t = task(it, over=over, co="process", conn=c)
            g["live"][id(c)].append(t)
            managed = not c.attrs["disabled"] or it.c.choose(2)
            if not over or it.c.choose(2):
                tasks.append(t)
            if managed:
                cs.append(c)
                pairs.append([c, t])
        m.attrs["_conns"] = MList(items=cs)
        env.vars["tasks"] = MList(items=tasks)
        it.allow(env.vars["processing"])
        env.vars["processing"].pairs[:] = pairs
        env.vars["new_conn_task"] = [None, task(it, co="queue")][it.c.choose(2)]
        g["arrived"] = None
        g["state0"] = [(c, c.attrs["disabled"]) for c in cs]

    cfg.loop(ConnectionManager.manage, 0, LoopSpec(inv, havoc))


def v_manage(it):
    g = it.c.ghost
    g.update(conns=[], live={}, arrived=None, final=False, gathered=[])
    it.c.fresh_bool = lambda n: Sym("bool", it.c.fresh(z3.BoolSort(), n))
    sig = g["sig"] = new(it, Sig, flag=it.c.sym("bool", "stop"), waits="signal")
    m = g["man"] = new(it, ConnectionManager, logger=new(it, Log), queue=new(it, Q), _running=False, _conns=MList(items=[]))
    m.attrs["log_time"] = Prim(lambda it, a, kw: new(it, Ctx), "log_time")
    o = acall(it, method(m, "manage"), sig)
    it.c.check("managing never fails by itself", o.ok)
    it.c.check("it ends only when it's told to stop", it.truth(sig.attrs["flag"]))
    left = [t for l in g["live"].values() for t in l if not t.attrs["over"]]
    it.c.check("everything that's processed is waited for in the end", all(any(x is t for x in g["gathered"]) for t in left))
    it.c.check("it can be run again", it.getattr(m, "_running") is False)
    cover(it, "return")


class Q:
    def get(self):
        return "queue"


class Ctx:
    def __enter__(self):
        pass

    def __exit__(self, *exc):
        return False


K = dict(branch_ms=300)
P = "runtimepy.net.connection:Connection."
CONTRACTS = [
    Unit("enabled", P + "_set_enabled", v_enabled, base_cfg, **K),
    Unit("disable", P + "disable", v_disable, base_cfg, **K),
    Unit("tasks", P + "tasks", v_tasks, base_cfg, **K),
    Unit("initialization", P + "_async_init", v_init, base_cfg, **K),
    Unit("errors", P + "_disable_on_error", v_error, base_cfg, **K),
    Unit("stop signal", P + "_wait_sig", v_sig, base_cfg, **K),
    Unit("read", P + "_process_read", v_read, cfg_msgs, covers=("raised", "ended"), **K),
    *[Unit(f"write[{k}]", P + f"_process_write_{k}", lambda it, k=k: v_write(it, k), cfg_msgs, covers=("raised", "ended"), **K) for k in ("text", "binary")],
    Unit("queues", P + "send_text", v_enqueue, base_cfg, **K),
    Unit("process", P + "process", v_process, cfg_process2, covers=("disabled", "processed"), **K),
    Unit("context", P + "process_then_disable", v_context, cfg_process2, **K),
    Unit("manager", "runtimepy.net.manager:ConnectionManager.manage", v_manage, cfg_manage, **dict(K, max_paths=12000)),
]
