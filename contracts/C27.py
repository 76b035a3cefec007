"""C27: subprocesses and peers."""
from contracts.common import *
import asyncio
import logging
from contracts.C15 import Log, zb
from contracts.C17 import Event
from contracts.C18 import zi
from contracts.C20 import Task, task
from contracts.C21 import iface
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy import subprocess as SP
from runtimepy.subprocess import interface as SI
from runtimepy.subprocess import peer as PE
from runtimepy.subprocess import program as PR
from runtimepy.subprocess import protocol as PP
from runtimepy.subprocess.interface import RuntimepyPeerInterface
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram
from runtimepy.subprocess.protocol import RuntimepySubprocessProtocol
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.channel.environment.command.parser import ChannelCommand

I = z3.IntSort()


class Queue:
    """A queue of which everything put is known."""

    def __init__(self):
        self.items = []

    def put_nowait(self, x):
        self.items.append(x)


class Pending:
    """A queue with any number of elements."""

    def empty(self):
        return self.n == 0

    def get_nowait(self):
        return self.take()

    def task_done(self):
        self.finished()


class Transport:
    def get_extra_info(self, name):
        return self

    def get_pipe_transport(self, fd):
        return self.pipes[fd]

    def get_pid(self):
        return 1

    def get_returncode(self):
        return 0

    def close(self):
        self.closing()


class Thing:
    pass


def pending(it, name, kind="bytes"):
    q = new(it, Pending, n=it.c.sym("int", name))
    it.c.assume(q.attrs["n"].t >= 0)
    return q


def cfg_proto(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.model(asyncio.Event, lambda it, a, kw: it.call(Event, []), "asyncio.Event")
    cfg.model(PP.Event, lambda it, a, kw: it.call(Event, []), "asyncio.Event")

    def now(it, a, kw):
        g = it.c.ghost
        t = it.c.fresh(I, "now")
        it.c.assume(t >= g.get("now", z3.IntVal(0)))
        g["now"] = t
        return Sym("int", t)
    cfg.model(PP.metrics_time_ns, now, "metrics_time_ns")


def connected(it, out=True, err=True):
    """A connected protocol, with queues for some of the streams."""
    q = {1: it.call(Queue, []) if out else None, 2: it.call(Queue, []) if err else None}
    p = call(it, RuntimepySubprocessProtocol, q[1], q[2]).value
    t = new(it, Transport, pipes=MList(items=[new(it, Thing) for _ in range(3)]))
    o = call(it, method(p, "connection_made"), t)
    it.c.check("connecting succeeds", o.ok)
    return p, q, t


def v_pipes(it):
    """Data of each stream goes to its queue, whole and in order."""
    out, err = it.c.choose(2) == 1, it.c.choose(2) == 1
    p, q, t = connected(it, out, err)
    pipes = it.to_items(t.attrs["pipes"])
    it.c.check("input and output are those of the process", And(it.getattr(p, "stdin") is pipes[0], it.getattr(p, "stdout_transport") is pipes[1], it.getattr(p, "stderr_transport") is pipes[2]))
    it.c.check("connecting doesn't change the queues", And(it.getattr(p, "stdout_queue") is q[1], it.getattr(p, "stderr_queue") is q[2]))
    it.c.check("a process that was just started hasn't exited", zb(it.truth(it.getattr(it.getattr(p, "exited"), "flag"))) == z3.BoolVal(False))
    want = {1: [], 2: []}
    ended = set()
    for i in range(3):
        what = it.c.choose(4)
        fd = 1 + what % 2
        if what < 2:
            d = it.c.sym("bytes", f"data{i}")
            o = call(it, method(p, "pipe_data_received"), fd, d)
            want[fd].append(d)
        else:
            o = call(it, method(p, "pipe_connection_lost"), fd, None)
            want[fd].append(b"")
        it.c.check("output of any stream is accepted, and so is its end", o.ok)
    o = call(it, method(p, "process_exited"))
    it.c.check("the exit is known", And(o.ok, zb(it.truth(it.getattr(it.getattr(p, "exited"), "flag"))) == z3.BoolVal(True)))
    it.c.check("how long the process ran is known", zi(it, it.getattr(p, "elapsed_time")) >= 0)
    for fd in (1, 2):
        if q[fd] is not None:
            got = it.to_items(q[fd].attrs["items"])
            w = want[fd] + [b""]
            it.c.check("what a process writes is in the stream's queue, in order, whole, then its end", And(len(got) == len(w), *[(x is y) if isinstance(y, Sym) else eqv(it, x, y) for x, y in zip(got, w)]))
    for fd, name in ((1, "stdout"), (2, "stderr")):
        if q[fd] is not None:
            it.c.check("the queues are accessible", call(it, Prim(lambda it, a, kw: it.getattr(p, name), "get")).value is q[fd])
    cover(it, "return")


# -- the end of a process
def cfg_close(cfg):
    cfg_proto(cfg)

    def wait_for(it, a, kw):
        def run():
            g = it.c.ghost
            t = kw.get("timeout", a[1] if len(a) > 1 else None)
            it.c.check("waiting for the exit has a time limit", t is not None and t is g["rate"])
            g["waited"] = True
            k = it.c.choose(2)
            if k:
                g["exited"].attrs["flag"] = True
                return None
            # it may exit right afterwards
            g["exited"].attrs["flag"] = Sym("bool", z3.Or(zb(it.truth(g["exited"].attrs["flag"])), it.c.fresh(z3.BoolSort(), "exits")))
            it.throw(TimeoutError)
        return CoroVal(run, "asyncio.wait_for")
    cfg.model(SP.wait_for, wait_for, "asyncio.wait_for")

    def inv(it, env):
        g = it.c.ghost
        return [("the process was told that there's no more input, if possible", z3.BoolVal(g["eof"] == g["can"]))]

    def havoc(it, env):
        g = it.c.ghost
        it.allow(g["exited"])
        g["exited"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "exited"))
        g["waited"] = False
    cfg.loop(SP.shutdown_protocol, 0, LoopSpec(inv, havoc))

    for i in range(2):
        def hav(it, env, i=i):
            q = it.c.ghost["queues"][i]
            it.allow(q)
            q.attrs["n"] = it.c.sym("int", "left", inp=False)
            it.c.assume(q.attrs["n"].t >= 0)
        cfg.loop(SP.close_protocol, i, LoopSpec(lambda it, env: [], hav, decreases=lambda it, env, i=i: it.c.ghost["queues"][i].attrs["n"].t))


def ending(it):
    g = it.c.ghost
    can = it.c.choose(2) == 1
    g.update(eof=False, can=can, closed=0, rate=it.c.sym("real", "poll_rate"), waited=False)
    e = g["exited"] = it.call(Event, [])
    e.attrs["wait"] = Prim(lambda it, a, kw: CoroVal(lambda: None, "wait"), "wait")

    def eof(it, a, kw):
        it.c.check("the end of input is written once, only where it can be", can and not g["eof"])
        g["eof"] = True
    stdin = new(it, Thing)
    stdin.attrs["can_write_eof"] = Prim(lambda it, a, kw: can, "can_write_eof")
    stdin.attrs["write_eof"] = Prim(eof, "write_eof")

    def closing(it, a, kw):
        it.c.check("a process may exit by itself before its transport is closed", g["waited"])
        g["closed"] += 1
        g["waited"] = False
        e.attrs["flag"] = Sym("bool", z3.Or(zb(it.truth(e.attrs["flag"])), it.c.fresh(z3.BoolSort(), "exits")))
    t = new(it, Transport, closing=Prim(closing, "close"), pipes=MList(items=[stdin, new(it, Thing), new(it, Thing)]))
    p = call(it, RuntimepySubprocessProtocol).value
    for k, v in dict(transport=t, stdin=stdin, exited=e, elapsed_time=it.c.sym("int", "elapsed")).items():
        it.setattr(p, k, v)
    return p, e


def v_shutdown(it):
    g = it.c.ghost
    p, e = ending(it)
    e.attrs["flag"] = it.c.sym("bool", "exited")
    o = acall(it, SP.shutdown_protocol, p, poll_rate=g["rate"], logger=new(it, Log))
    it.c.check("shutting down succeeds", o.ok)
    it.c.check("the process has exited then", zb(it.truth(e.attrs["flag"])))
    it.c.check("it was told that there's no more input, if possible", g["eof"] == g["can"])
    cover(it, "return")


def v_close(it):
    g = it.c.ghost
    p, e = ending(it)
    over = it.c.choose(2) == 1
    e.attrs["flag"] = over
    g["queues"] = qs = [pending(it, "stdout") if it.c.choose(2) else None, pending(it, "stderr") if it.c.choose(2) else None]
    for q in qs:
        if q is not None:
            def take(it, a, kw, q=q):
                it.c.check("only what is there is taken", q.attrs["n"].t > 0)
                q.attrs["n"] = Sym("int", q.attrs["n"].t - 1)
                return it.c.sym("bytes", "message", inp=False)
            q.attrs["take"] = Prim(take, "take")
    o = acall(it, SP.close_protocol, p, poll_rate=g["rate"], stdout=qs[0], stderr=qs[1], logger=new(it, Log))
    it.c.check("closing succeeds", o.ok)
    it.c.check("the process has exited then", zb(it.truth(e.attrs["flag"])))
    it.c.check("a process that had exited isn't shut down", And(not over or (not g["eof"] and g["closed"] == 0)))
    for q in qs:
        if q is not None:
            it.c.check("nothing is left in its queues", q.attrs["n"].t == 0)
    cover(it, "return")


class Loop:
    pass


def cfg_spawn(cfg):
    cfg_proto(cfg)
    cfg.model(SP.get_running_loop, lambda it, a, kw: it.c.ghost["loop"], "get_running_loop")
    cfg.model(SP.reconcile_platform, lambda it, a, kw: (a[0], a[1]), "reconcile_platform")
    cfg.model(SP.log_process_info, lambda it, a, kw: ("p", "a"), "log_process_info")

    def close(it, a, kw):
        def run():
            it.c.ghost["log"].append(("close", a[0], kw.get("stdout", a[2] if len(a) > 2 else None), kw.get("stderr", a[3] if len(a) > 3 else None)))
        return CoroVal(run, "close_protocol")
    cfg.model(SP.close_protocol, close, "close_protocol")


def v_spawn(it):
    """Queues are known before any output can arrive; the process is closed however the body ends."""
    g = it.c.ghost
    shell = it.c.choose(2) == 1
    log = g["log"] = []
    q = {1: it.call(Queue, []) if it.c.choose(2) else None, 2: it.call(Queue, []) if it.c.choose(2) else None}
    lp = g["loop"] = new(it, Loop)
    data = {1: it.c.sym("bytes", "first_output"), 2: it.c.sym("bytes", "first_error")}
    started = {}

    def start(it, a, kw):
        def run():
            p = it.call(a[0], [])
            t = new(it, Transport, pipes=MList(items=[new(it, Thing) for _ in range(3)]))
            call(it, method(p, "connection_made"), t)
            # the process is fast
            for fd in (1, 2):
                it.c.check("output that arrives at once is accepted", call(it, method(p, "pipe_data_received"), fd, data[fd]).ok)
            started.update(args=list(a[1:]), kw=kw, p=p)
            return (t, p)
        return CoroVal(run, "subprocess")
    for k in ("subprocess_exec", "subprocess_shell"):
        lp.attrs[k] = Prim(start if (k == "subprocess_shell") == shell else None, k)
    fail = it.c.choose(2)
    args = ["cmd"] if shell else ["prog", "a", "b"][: 1 + it.c.choose(3)]

    def body(p):
        it.c.check("the process' protocol is given to the body", p is started["p"])
        it.c.check("it isn't closed while the body runs", len(log) == 0)
        if fail:
            it.throw(KeyError, "x")
    cm = call(it, SP.spawn_shell if shell else SP.spawn_exec, *args, stdout=q[1], stderr=q[2], logger=new(it, Log), cwd="d").value
    o = call(it, Prim(lambda it, a, kw: it.run_with(cm, body), "with"))
    it.c.check("exceptions of the body propagate", And(o.ok == (not fail), o.ok or o.exc.cls is KeyError))
    it.c.check("the program is started with its arguments", And(started["args"] == args, list(started["kw"].items()) == [("cwd", "d")] if isinstance(started["kw"], dict) else False))
    for fd in (1, 2):
        if q[fd] is not None:
            got = it.to_items(q[fd].attrs["items"])
            it.c.check("output is complete from the first byte, whenever it arrives", And(len(got) == 1, len(got) == 1 and got[0] is data[fd]))
    it.c.check("the process is closed once, with its queues", And(len(log) == 1, log[0][1] is started["p"], log[0][2] is q[1], log[0][3] is q[2]))
    cover(it, "return")


# -- peers
class Metrics:
    def increment(self, count, time_ns=None):
        self.log.append(count)


class Env:
    def parse_event_stream(self, stream):
        return self.parse(stream)

    def ingest(self, event):
        self.take(event)


class Remote:
    pass


class Limiter:
    pass


def peer(it, cls=RuntimepyPeer, **kw):
    c = iface(it, cls=cls)
    for k in ("stdin", "stdout", "stderr"):
        c.attrs[k + "_metrics"] = new(it, Metrics, log=MList(items=[]))
    c.attrs["peer"] = c.attrs["peer_config"] = None
    c.attrs["log_limiter"] = new(it, Limiter)
    c.attrs["peer_config_event"], c.attrs["_peer_env_event"] = it.call(Event, []), it.call(Event, [])
    c.attrs["governed_log"] = Prim(lambda it, a, kw: None, "governed_log")
    c.attrs["basename"] = "p"
    c.attrs.update(kw)
    return c


def counted(it, c, k):
    return it.to_items(c.attrs[k + "_metrics"].attrs["log"])


def cfg_peer(cfg):
    cfg_proto(cfg)
    cfg.model(SI.BytesIO, lambda it, a, kw: Stream(it.term(a[0], "bytes")), "io.BytesIO")


def v_stderr(it):
    """Telemetry updates the peer's environment by every event, in order."""
    has = it.c.choose(2) == 1
    n = it.c.choose(4)
    evs = [new(it, Thing) for _ in range(n)]
    log = []
    d = it.c.sym("bytes", "data")

    def parse(it, a, kw):
        it.c.check("all of the data is parsed", a[0].data == d.t)

        def run(h):
            for e in evs:
                log.append(("parsed", e))
                h(e)
        return GenVal(run, "parse_event_stream")
    env = new(it, Env, parse=Prim(parse, "parse"), take=Prim(lambda it, a, kw: log.append(("taken", a[0])), "take"))
    c = peer(it)
    if has:
        c.attrs["peer"] = new(it, Remote, env=env)
    o = call(it, method(c, "handle_stderr"), d)
    it.c.check("telemetry is accepted", o.ok)
    l = counted(it, c, "stderr")
    some = z3.Length(d.t) > 0
    if it.c.branch(some):
        it.c.check("telemetry is counted with its size", And(len(l) == 1, zi(it, l[0]) == z3.Length(d.t)))
        it.c.check("every event updates the peer's environment, once, in order", log == ([(k, e) for e in evs for k in ("parsed", "taken")] if has else []))
        cover(it, "data")
    else:
        it.c.check("the end of a stream is no data", And(len(l) == 0, len(log) == 0))
    it.c.check("nothing else is counted", And(not counted(it, c, "stdout"), not counted(it, c, "stdin")))


def v_stdout(it):
    """Messages are processed one after the other, each once, in order."""
    n = it.c.choose(4)
    ms = [MDict([["m", i]]) for i in range(n)]
    log = []
    d = it.c.sym("bytes", "data")

    def messages(it, a, kw):
        it.c.check("all of the data is parsed", a[0] is d)

        def run(h):
            for m in ms:
                log.append(("parsed", m))
                h(m)
        return GenVal(run, "messages")
    c = peer(it)
    c.attrs["processor"].attrs["messages"] = Prim(messages, "messages")
    c.attrs["process_json"] = Prim(lambda it, a, kw: CoroVal(lambda: log.append(("done", a[0])) or True, "process_json"), "process_json")
    o = acall(it, method(c, "handle_stdout"), d)
    it.c.check("messages are accepted", o.ok)
    l = counted(it, c, "stdout")
    if it.c.branch(z3.Length(d.t) > 0):
        it.c.check("output is counted with its size", And(len(l) == 1, zi(it, l[0]) == z3.Length(d.t)))
        it.c.check("every message is processed once, in order", len(log) == 2 * n and all(a == k and b is m for (a, b), (k, m) in zip(log, [(k, m) for m in ms for k in ("parsed", "done")])))
        cover(it, "data")
    else:
        it.c.check("the end of a stream is no data", And(len(l) == 0, len(log) == 0))


def v_write(it):
    """What is written to a peer is the message, once, and counted."""
    prog = it.c.choose(2) == 1
    d = it.c.sym("bytes", "message")
    log = []
    if prog:
        c = peer(it, PeerProgram, json_output=new(it, Thing))
        out = c.attrs["json_output"]
        out.attrs["flush"] = Prim(lambda it, a, kw: log.append("flush"), "flush")
        cls = PeerProgram
    else:
        out = new(it, Thing)
        c = peer(it, protocol=new(it, Thing, stdin=out))
        cls = RuntimepyPeer
    out.attrs["write"] = Prim(lambda it, a, kw: log.append(a[0]), "write")
    del c.attrs["write"]
    o = call(it, method(c, "write"), d)
    it.c.check("writing succeeds", o.ok)
    it.c.check("the data is written once, and not held back", And(len(log) == (2 if prog else 1), log[0] is d, log[-1] == "flush" if prog else True))
    l = counted(it, c, "stdout" if prog else "stdin")
    it.c.check("what is written is counted with its size", And(len(l) == 1, zi(it, l[0]) == z3.Length(d.t)))
    cover(it, "return")


# -- queues of a peer
def cfg_service(cfg):
    cfg_peer(cfg)
    for i, k in ((0, "stderr"), (1, "stdout")):
        def inv(it, env, k=k):
            g = it.c.ghost
            return [(f"everything taken from {k} was handled", g[k, "taken"] == g[k, "handled"])]

        def havoc(it, env, k=k):
            g = it.c.ghost
            for x in ("taken", "handled"):
                g[k, x] = it.c.fresh(I, x)
            q = g[k]
            it.allow(q)
            q.attrs["n"] = it.c.sym("int", "left", inp=False)
            it.c.assume(q.attrs["n"].t >= 0)
        cfg.loop(RuntimepyPeer.service_queues, i, LoopSpec(inv, havoc))


def v_service(it):
    g = it.c.ghost
    qs = {}
    for k in ("stderr", "stdout"):
        q = qs[k] = g[k] = pending(it, k) if it.c.choose(2) else None
        g[k, "taken"] = g[k, "handled"] = z3.IntVal(0)
        if q is None:
            continue

        def take(it, a, kw, q=q, k=k):
            it.c.check("only what is there is taken", q.attrs["n"].t > 0)
            it.c.check("the next data is taken after the previous was handled", g[k, "taken"] == g[k, "handled"])
            q.attrs["n"] = Sym("int", q.attrs["n"].t - 1)
            g[k, "taken"] = g[k, "taken"] + 1
            g[k, "data"] = it.c.sym("bytes", "data", inp=False)
            return g[k, "data"]
        q.attrs["take"] = Prim(take, "take")

    def handle(it, a, k):
        it.c.check("data is handled by its stream, unchanged, once", And(a[0] is g.get((k, "data")), g[k, "handled"] + 1 == g[k, "taken"]))
        g[k, "handled"] = g[k, "handled"] + 1
    p = call(it, RuntimepySubprocessProtocol, qs["stdout"], qs["stderr"]).value
    c = peer(it, protocol=p)
    c.attrs["handle_stderr"] = Prim(lambda it, a, kw: handle(it, a, "stderr"), "handle_stderr")
    c.attrs["handle_stdout"] = Prim(lambda it, a, kw: CoroVal(lambda: handle(it, a, "stdout"), "handle_stdout"), "handle_stdout")
    o = acall(it, method(c, "service_queues"))
    it.c.check("queues are serviced", o.ok)
    it.c.check("servicing goes on as long as there are queues", eqv(it, o.value, any(q is not None for q in qs.values())))
    for k, q in qs.items():
        if q is not None:
            it.c.check("everything that was there was handled", And(q.attrs["n"].t == 0, g[k, "taken"] == g[k, "handled"]))
    cover(it, "return")


# -- the life of a peer
def cfg_context(cfg):
    cfg_peer(cfg)

    def create(it, a, kw):
        g = it.c.ghost
        t = task(it, co=a[0])
        g["tasks"].append(t)

        def awaited():
            it.c.check("a task is waited for after it was cancelled", zb(it.truth(t.attrs["cancelled"])))
            g["log"].append("waited")
        t.attrs["__await__"] = Prim(lambda it, x, k: CoroVal(awaited, "task"), "await")
        return t
    cfg.model(asyncio.create_task, create, "asyncio.create_task")


def v_context(it):
    g = it.c.ghost
    log = g["log"] = []
    g["tasks"] = []
    how = it.c.choose(4)  # everything answers, loopback fails, an answer never comes, the body raises
    c = peer(it)
    c.attrs["_poll"] = Prim(lambda it, a, kw: CoroVal(lambda: None, "poll"), "_poll")

    def step(name, result=None):
        def f(it, a, kw):
            def run():
                it.c.check("a peer is polled before anything is asked", len(g["tasks"]) == 1)
                log.append((name, a[0] if a else None))
                if how == 2 and name != "loopback":
                    it.throw(AssertionError, "no answer")
                return (how != 1) if name == "loopback" else MDict([])
            return CoroVal(run, name)
        return Prim(f, name)
    for k in ("loopback", "wait_json", "share_environment"):
        c.attrs[k] = step(k)

    def body(p):
        log.append(("body", p))
        if how == 3:
            it.throw(KeyError, "x")
    cm = call(it, method(c, "_context")).value
    o = call(it, Prim(lambda it, a, kw: it.run_with(cm, body), "with"))
    it.c.check("exceptions of the body propagate", And(o.ok == (how != 3), o.ok or o.exc.cls is KeyError))
    names = [x if isinstance(x, str) else x[0] for x in log]
    want = ["loopback"] + ([] if how == 1 else ["wait_json"] if how == 2 else ["wait_json", "share_environment"]) + ["body", "waited"]
    it.c.check("environments are exchanged before the body if the peer answers; polling ends after it", names == want)
    it.c.check("the body gets the peer", [x[1] for x in log if x[0] == "body"][0] is c)
    if how != 1:
        m = [x[1] for x in log if x[0] == "wait_json"][0]
        f, v = it.dict_lookup(m, "meta")
        it.c.check("metadata is sent", And(bool(f), v is c.attrs["meta"]))
    it.c.check("there's one polling task", len(g["tasks"]) == 1)
    cover(it, "return")


def cfg_poll(cfg):
    cfg_peer(cfg)

    def create(it, a, kw):
        g = it.c.ghost
        t = task(it, over=it.c.sym("bool", "over", inp=False), co=a[0])
        it.c.check("commands are processed by one task at a time", True if g["task"] is None else zb(it.truth(g["task"].attrs["over"])))
        g["task"] = t
        return t
    cfg.model(asyncio.create_task, create, "asyncio.create_task")

    def sleep(it, a, kw):
        def run():
            g = it.c.ghost
            g["slept"] = True
            if g["task"] is not None:
                g["task"].attrs["over"] = Sym("bool", z3.Or(zb(it.truth(g["task"].attrs["over"])), it.c.fresh(z3.BoolSort(), "over")))
            if it.c.choose(2):
                g["cancelled"] = True
                it.throw(asyncio.CancelledError)
        return CoroVal(run, "sleep")
    cfg.model(asyncio.sleep, sleep, "asyncio.sleep")


ROUNDS = 3


def v_poll(it):
    """Polling: queues are serviced until there are none or it's cancelled."""
    g = it.c.ghost
    g.update(task=None, slept=True, cancelled=False, n=0, gone=False)
    c = peer(it)
    c.attrs["process_command_queue"] = Prim(lambda it, a, kw: CoroVal(lambda: None, "process_command_queue"), "process_command_queue")

    def service(it, a, kw):
        def run():
            it.c.check("other tasks run between two rounds", g["slept"])
            it.c.check("nothing is serviced after polling was cancelled", not g["cancelled"])
            g["slept"] = False
            g["n"] += 1
            k = it.c.choose(3)
            if k == 2:
                g["cancelled"] = True
                it.throw(asyncio.CancelledError)
            if k == 0 or g["n"] >= ROUNDS:
                g["gone"] = True
                return False
            return True
        return CoroVal(run, "service_queues")
    c.attrs["service_queues"] = Prim(service, "service_queues")
    o = acall(it, method(c, "_poll"))
    it.c.check("polling ends without an exception", o.ok)
    it.c.check("polling ends only when cancelled or if there are no queues", g["cancelled"] or g["gone"])
    it.c.check("commands are processed, too", g["task"] is not None)
    cover(it, "cancelled" if g["cancelled"] else "gone")


# -- exchanging environments and configurations
class Struct:
    def poll(self):
        self.log.append("poll")


class Processor:
    def __init__(self, env, logger, **kwargs):
        self.env = env
        self.logger = logger
        self.hooks = []


def cfg_exchange(cfg):
    cfg_peer(cfg)
    cfg.overrides[id(SI.RemoteCommandProcessor)] = Processor
    cfg.model(SI.getLogger, lambda it, a, kw: new(it, Log), "getLogger")

    def load(it, a, kw):
        e = new(it, Thing, data=a[1])
        it.c.ghost["loaded"].append(e)
        return e
    cfg.model(SI.ChannelEnvironment.load_json.__func__, load, "ChannelEnvironment.load_json")
    cfg.model(SI.register_env, lambda it, a, kw: it.c.ghost["registered"].append(tuple(a)), "register_env")
    cfg.model(SI.dumps, lambda it, a, kw: "json", "json.dumps")


def v_exchange(it):
    """Environments and configurations are exchanged once; later ones change nothing."""
    g = it.c.ghost
    g.update(loaded=[], registered=[])
    mine, cmd, conf = MDict([["chan", 1]]), new(it, Thing), MDict([["c", 1]])
    env = new(it, Thing)
    env.attrs["export_json"] = Prim(lambda it, a, kw: mine, "export_json")
    c = peer(it, struct=new(it, Struct, env=env, name="p.host", command=cmd, config=conf))
    hs = {}
    c.attrs["basic_handler"] = Prim(lambda it, a, kw: hs.update({a[0]: a[1]}), "basic_handler")
    c.attrs["typed_handler"] = Prim(lambda it, a, kw: None, "typed_handler")
    c.attrs["_poll_handler"] = "poll"
    c.attrs["command"] = cmd
    o = call(it, method(c, "_register_handlers"))
    it.c.check("a peer can share its environment and its configuration", And(o.ok, "env" in hs, "config" in hs))
    waits = []

    def wait_json(it, a, kw):
        def run():
            waits.append(a[0])
            return MDict([["env", theirs[0]]])
        return CoroVal(run, "wait_json")
    c.attrs["wait_json"] = Prim(wait_json, "wait_json")
    theirs = [MDict([["theirs", 1]]), MDict([["theirs", 2]])]
    first = None
    for i in range(2):
        how = it.c.choose(2)
        out = MDict([])
        if how == 0:
            o = acall(it, hs["env"], out, theirs[i])
            f = bool(out.pairs)
            it.c.check("the own environment is sent in return, the first time", And(f == (i == 0), not f or (it.dict_lookup(out, "chan")[1] == 1)))
        else:
            theirs[0] = theirs[i]
            o = acall(it, method(c, "share_environment"))
            f, v = it.dict_lookup(waits[-1], "env")
            it.c.check("the own environment is sent", And(bool(f), v is mine))
        it.c.check("environments can be exchanged", o.ok)
        if i == 0:
            first = it.getattr(c, "peer")
            it.c.check("the peer's environment is the one it sent", And(len(g["loaded"]) == 1, first is not None, it.getattr(first, "env") is g["loaded"][0], g["loaded"][0].attrs["data"] is (theirs[0])))
            it.c.check("both environments are registered for commands", And(len(g["registered"]) == 2, g["registered"][0] == ("p.host", cmd), g["registered"][1][0] == "p.peer", g["registered"][1][1] is first))
            it.c.check("whoever waits for the environment goes on", zb(it.truth(c.attrs["_peer_env_event"].attrs["flag"])))
            # commands for the peer are queued
            hk = it.to_items(it.getattr(first, "hooks"))
            queued = []
            c.attrs["_handle_command"] = Prim(lambda it, a, kw: queued.append(a), "_handle_command")
            ns, ch = new(it, Thing), new(it, Thing)
            it.c.check("a hook takes the peer's commands", len(hk) == 1)
            it.call(hk[0], [ns, ch])
            it.c.check("a command of the peer's environment is queued once", And(len(queued) == 1, queued[0][0] is ns, queued[0][1] is ch))
        else:
            it.c.check("a later exchange changes nothing", And(it.getattr(c, "peer") is first, len(g["loaded"]) == 1, len(g["registered"]) == 2))
    got, full = None, it.c.choose(2)
    for i in range(2):
        out, x = MDict([]), MDict([["their", i]] if full else [])
        o = acall(it, hs["config"], out, MDict([["config", x]]))
        got = x if got is None else got
        f, v = it.dict_lookup(out, "config")
        it.c.check("the first configuration is kept and the own one sent", And(o.ok, it.getattr(c, "peer_config") is got, bool(f) == (i == 0), not f or v is conf))
        it.c.check("whoever waits for the configuration goes on", zb(it.truth(c.attrs["peer_config_event"].attrs["flag"])))
    o = acall(it, method(c, "share_config"), conf)
    f, v = it.dict_lookup(waits[-1], "config")
    it.c.check("a configuration is sent as it is", And(o.ok, bool(f), v is conf))
    cover(it, "return")


class Args:
    pass


def v_command(it):
    """Commands for the peer are sent to it as they were given."""
    remote, force = it.c.choose(2) == 1, it.c.choose(2) == 1
    n = it.c.choose(3)
    args = new(it, Args, remote=remote, force=force, command=it.c.sym("str", "command"), channel=it.c.sym("str", "channel"), extra=MList(items=[it.c.sym("str", f"extra{i}") for i in range(n)]), env=it.c.sym("str", "env"))
    sent = []
    c = peer(it)
    c.attrs["channel_command"] = Prim(lambda it, a, kw: CoroVal(lambda: sent.append((a, kw)), "channel_command"), "channel_command")
    o = acall(it, method(c, "handle_command"), args, None)
    it.c.check("commands are handled", o.ok)
    if not remote:
        it.c.check("only commands for the peer are sent to it", len(sent) == 0)
        return
    t = [args.attrs["command"].t] + ([z3.StringVal("-f")] if force else []) + [args.attrs["channel"].t] + [x.t for x in it.to_items(args.attrs["extra"])]
    want = t[0]
    for x in t[1:]:
        want = z3.Concat(want, z3.StringVal(" "), x)
    it.c.check("a command for the peer is sent once, with its channel and all arguments", And(len(sent) == 1, it.term(sent[0][0][0], "str") == want))
    it.c.check("and for the environment it was given for", sent[0][1].get("environment", sent[0][0][1] if len(sent[0][0]) > 1 else None) is args.attrs["env"])
    cover(it, "remote")


def cfg_queue(cfg):
    cfg_peer(cfg)

    def inv(it, env):
        g = it.c.ghost
        return [("every command taken was handled and finished", z3.And(g["taken"] == g["handled"], g["taken"] == g["finished"]))]

    def havoc(it, env):
        g = it.c.ghost
        for k in ("taken", "handled", "finished"):
            g[k] = it.c.fresh(I, k)
        it.allow(g["q"])
        g["q"].attrs["n"] = it.c.sym("int", "left", inp=False)
        it.c.assume(g["q"].attrs["n"].t >= 0)
    cfg.loop(AsyncCommandProcessingMixin.process_command_queue, 0, LoopSpec(inv, havoc))


def v_queue(it):
    """Queued commands are handled one after the other, each once, by their kind."""
    g = it.c.ghost
    q = g["q"] = pending(it, "commands")
    Z = z3.IntVal(0)
    g.update(taken=Z, handled=Z, finished=Z)
    c = peer(it, outgoing_commands=q)

    def take(it, a, kw):
        it.c.check("only what is there is taken", q.attrs["n"].t > 0)
        it.c.check("commands are handled one after the other", z3.And(g["handled"] == g["taken"], g["finished"] == g["taken"]))
        q.attrs["n"] = Sym("int", q.attrs["n"].t - 1)
        g["taken"] = g["taken"] + 1
        g["custom"] = it.c.choose(2) == 1
        g["args"], g["chan"] = new(it, Args, command=ChannelCommand.CUSTOM if g["custom"] else ChannelCommand.SET), new(it, Thing)
        return (g["args"], g["chan"])

    def handle(it, a, custom):
        def run():
            it.c.check("a command is handled by its kind, with its arguments and channel, once", And(custom == g["custom"], a[0] is g["args"], a[1] is g["chan"], g["handled"] + 1 == g["taken"]))
            g["handled"] = g["handled"] + 1
            # others may queue commands meanwhile
            x = it.c.fresh(I, "more")
            it.c.assume(x >= 0)
            q.attrs["n"] = Sym("int", q.attrs["n"].t + x)
        return CoroVal(run, "handle")

    def fin(it, a, kw):
        it.c.check("a command is finished after it was handled", g["finished"] + 1 == g["handled"])
        g["finished"] = g["finished"] + 1
    q.attrs["take"], q.attrs["finished"] = Prim(take, "take"), Prim(fin, "task_done")
    c.attrs["handle_command"] = Prim(lambda it, a, kw: handle(it, a, False), "handle_command")
    c.attrs["command"] = new(it, Thing, handle_custom_command=Prim(lambda it, a, kw: handle(it, a, True), "handle_custom_command"))
    o = acall(it, method(c, "process_command_queue"))
    it.c.check("commands are processed", o.ok)
    it.c.check("no command is left", And(q.attrs["n"].t == 0, g["taken"] == g["handled"], g["taken"] == g["finished"]))
    cover(it, "return")


# -- programs
def cfg_io(cfg):
    cfg_peer(cfg)

    def inv(it, env):
        g = it.c.ghost
        return [("every byte was parsed, every message processed", z3.And(g["read"] == g["fed"], g["parsed"] == g["done"], zi(it, env.vars["accumulator"]) >= 0)),
                ("bytes of messages are counted once, the others not yet", g["counted"] + zi(it, env.vars["accumulator"]) == g["read"])]

    def havoc(it, env):
        g = it.c.ghost
        for k in ("read", "fed", "parsed", "done", "counted"):
            g[k] = it.c.fresh(I, k)
        it.allow(g["eof"])
    cfg.loop(PeerProgram.io_task, 0, LoopSpec(inv, havoc))
    cfg.overrides[id(PR.os)] = Sys()


class Sys:
    """The operating system."""


def v_io(it):
    """A program reads messages until its input ends."""
    g = it.c.ghost
    Z = z3.IntVal(0)
    g.update(read=Z, fed=Z, parsed=Z, done=Z, counted=Z, ended=None)
    c = peer(it, PeerProgram, got_eof=it.call(Event, []))
    g["eof"] = c.attrs["got_eof"]

    def read(it, a, kw):
        it.c.check("input is processed before more is read", And(g["read"] == g["fed"], g["parsed"] == g["done"]))
        it.c.check("the end of input isn't signalled before", z3.Not(zb(it.truth(g["eof"].attrs["flag"]))))
        k = it.c.choose(3)
        if k == 0:
            return None
        if k == 1:
            g["ended"] = "eof"
            return b""
        d = g["data"] = it.c.sym("bytes", "input", inp=False)
        n = it.c.fresh(I, "length")
        it.c.assume(z3.And(z3.Length(d.t) == 1))
        g["read"] = g["read"] + 1
        return d

    def messages(it, a, kw):
        it.c.check("what was read is parsed, once", And(a[0] is g["data"], g["fed"] + 1 == g["read"]))
        g["fed"] = g["fed"] + 1
        n = it.c.choose(3)
        ms = [MDict([["m", i]]) for i in range(n)]

        def run(h):
            for m in ms:
                g["parsed"] = g["parsed"] + 1
                g["message"] = m
                h(m)
        return GenVal(run, "messages")

    def process(it, a, kw):
        def run():
            it.c.check("a message is processed once, before the next", And(a[0] is g["message"], g["done"] + 1 == g["parsed"]))
            g["done"] = g["done"] + 1
            if it.c.choose(2):
                g["ended"] = "cancelled"
                it.throw(asyncio.CancelledError)
            return True
        return CoroVal(run, "process_json")

    def on_await(it, what, a):
        if it.c.choose(2):
            g["ended"] = "cancelled"
            it.throw(asyncio.CancelledError)

    def inc(it, a, kw):
        g["counted"] = g["counted"] + zi(it, a[0])
    it.cfg.on_await = on_await
    c.attrs["processor"].attrs["messages"] = Prim(messages, "messages")
    c.attrs["process_json"] = Prim(process, "process_json")
    c.attrs["stdin_metrics"].attrs["increment"] = Prim(inc, "increment")
    buf = new(it, Thing)
    buf.attrs["read"] = Prim(read, "read")
    o = acall(it, method(c, "io_task"), buf)
    it.c.check("reading ends without an exception, at the end of input or when cancelled", And(o.ok, g["ended"] is not None))
    it.c.check("the end of input is signalled", zb(it.truth(c.attrs["got_eof"].attrs["flag"])))
    if g["ended"] == "eof":
        it.c.check("everything read was parsed and processed", And(g["read"] == g["fed"], g["parsed"] == g["done"], g["counted"] <= g["read"]))
        cover(it, "eof")
    else:
        cover(it, "cancelled")


P = "runtimepy.subprocess"
K = dict(branch_ms=500)
CONTRACTS = [
    Unit("streams", P + ".protocol:RuntimepySubprocessProtocol.pipe_data_received", v_pipes, cfg_proto, **K),
    Unit("shutdown", P + ":shutdown_protocol", v_shutdown, cfg_close, **K),
    Unit("close", P + ":close_protocol", v_close, cfg_close, **K),
    Unit("spawn", P + ":spawn_exec", v_spawn, cfg_spawn, **K),
    Unit("telemetry", P + ".interface:RuntimepyPeerInterface.handle_stderr", v_stderr, cfg_peer, covers=("data",), **K),
    Unit("messages", P + ".interface:RuntimepyPeerInterface.handle_stdout", v_stdout, cfg_peer, covers=("data",), **K),
    Unit("write", P + ".peer:RuntimepyPeer.write", v_write, cfg_peer, **K),
    Unit("queues", P + ".peer:RuntimepyPeer.service_queues", v_service, cfg_service, **K),
    Unit("peer", P + ".peer:RuntimepyPeer._context", v_context, cfg_context, **K),
    Unit(f"polling (up to {ROUNDS} rounds)", P + ".peer:RuntimepyPeer._poll", v_poll, cfg_poll, covers=("cancelled", "gone"), **K),
    Unit("exchange", P + ".interface:RuntimepyPeerInterface._set_peer_env", v_exchange, cfg_exchange, **K),
    Unit("remote commands", P + ".interface:RuntimepyPeerInterface.handle_command", v_command, cfg_peer, covers=("remote",), **K),
    Unit("command queue", "runtimepy.mixins.async_command:AsyncCommandProcessingMixin.process_command_queue", v_queue, cfg_queue, **K),
    Unit("program input", P + ".program:PeerProgram.io_task", v_io, cfg_io, covers=("eof", "cancelled"), **K),
]
