"""C17: attempts to connect are paced by exponential backoff."""
from contracts.common import *
import asyncio
from contracts.C15 import Log, zb
from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.connection import Connection
from runtimepy.net.tcp import create as TC
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp import create as UC
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.util import try_log_connection_error
from runtimepy import primitives as RP

P2 = z3.Function("two_to_the", z3.IntSort(), z3.RealSort())


def zr(it, v):
    return it.term(v, "real")


def zi(it, v):
    return it.term(v, "int")


def law(it, n):
    it.c.assume(z3.And(P2(z3.IntVal(0)) == 1, z3.Implies(n >= 0, z3.And(P2(n + 1) == 2 * P2(n), P2(n) >= 1))))


def zmin(a, b):
    return z3.If(a < b, a, b)


def due(it, b, n):
    """What the wait before attempt n (from zero) has to be."""
    i, m = zr(it, b.attrs["interval"]), zr(it, b.attrs["max_sleep"])
    return z3.If(n == 0, z3.RealVal(0), zmin(P2(n - 1) * i, m))


def backoff(it, n):
    """A backoff after n attempts."""
    b = call(it, ExponentialBackoff, interval=it.c.sym("real", "interval"), max_sleep=it.c.sym("real", "max_sleep"), max_tries=it.c.sym("int", "max_tries")).value
    it.c.assume(z3.And(n >= 0, zr(it, b.attrs["interval"]) >= 0, zr(it, b.attrs["max_sleep"]) >= 0, zi(it, b.attrs["max_tries"]) >= 0))
    law(it, n)
    law(it, n - 1)
    it.setattr(b, "attempt", Sym("int", n))
    it.setattr(b, "wait", Sym("real", due(it, b, n)))
    return b


def cfg_sleep(cfg):
    base_cfg(cfg)

    def on_await(it, what, a):
        it.c.ghost["slept"].append(a[0])

    cfg.on_await = on_await


def v_new(it):
    g = it.c.ghost
    g["slept"] = []
    i, m, t = it.c.sym("real", "interval"), it.c.sym("real", "max_sleep"), it.c.sym("int", "max_tries")
    o = call(it, ExponentialBackoff, interval=i, max_sleep=m, max_tries=t)
    b = o.value
    it.c.check("a backoff starts without a wait and attempts", And(o.ok, zr(it, it.getattr(b, "wait")) == 0, zi(it, it.getattr(b, "attempt")) == 0))
    it.setattr(b, "attempt", it.c.sym("int", "attempt"))
    it.setattr(b, "wait", it.c.sym("real", "wait"))
    o = call(it, method(b, "reset"))
    it.c.check("reset starts over", And(o.ok, zr(it, it.getattr(b, "wait")) == 0, zi(it, it.getattr(b, "attempt")) == 0))
    it.c.check("it keeps its settings", And(zr(it, it.getattr(b, "interval")) == i.t, zr(it, it.getattr(b, "max_sleep")) == m.t, zi(it, it.getattr(b, "max_tries")) == t.t))
    cover(it, "return")


def v_sleep(it):
    g = it.c.ghost
    g["slept"] = []
    n = it.c.sym("int", "attempt").t
    b = backoff(it, n)
    up = it.truth(it.getattr(b, "give_up"))
    it.c.check("attempts end once there were as many as permitted", zb(up) == (n >= zi(it, b.attrs["max_tries"])))
    o = acall(it, method(b, "sleep"))
    it.c.check("waiting never fails", And(o.ok, len(g["slept"]) == 1))
    it.c.check("attempt n waits interval times two to the n, at most the limit", zr(it, g["slept"][0]) == due(it, b, n))
    it.c.check("one more attempt is counted", zi(it, it.getattr(b, "attempt")) == n + 1)
    it.c.check("and the next wait is due", zr(it, it.getattr(b, "wait")) == due(it, b, n + 1))
    cover(it, "return")


# -- creating connections
def cfg_create(cfg, kind):
    cfg_sleep(cfg)
    mod = TC if kind == "tcp" else UC

    def attempt(it, a, kw):
        g = it.c.ghost
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {f"try_{kind}_transport_protocol"}

        def run():
            it.c.check("an attempt follows its wait", And(len(g["slept"]) == 1, len(a) == 0, kw.get("host") == "h", len(kw) == 1))
            g["slept"].clear()
            it.c.check("there is no attempt after a success", g["made"] is None)
            g["tries"] = g["tries"] + 1
            if it.c.choose(2):
                g["made"] = (object(), object())
            return g["made"]
        return CoroVal(run, "try")

    cfg.model(getattr(mod, f"try_{kind}_transport_protocol"), attempt, "try")

    def inv(it, env):
        g = it.c.ghost
        b, r = env.vars["backoff"], env.vars["result"]
        n = zi(it, b.attrs["attempt"])
        return [
            ("attempts are counted", And(n == g["n0"] + g["tries"], g["tries"] >= 0)),
            ("each wait was used for one attempt", len(g["slept"]) == 0),
            ("waits stay due", zr(it, b.attrs["wait"]) == due(it, b, n)),
            ("attempts go on as long as they are permitted", z3.Or(g["tries"] == 0, n <= zi(it, b.attrs["max_tries"]))),
            ("the result is what was made", r is g["made"]),
        ]

    def havoc(it, env):
        g = it.c.ghost
        b = env.vars["backoff"]
        it.allow(b)
        n = it.c.fresh(z3.IntSort(), "attempt")
        law(it, n)
        law(it, n - 1)
        b.attrs["attempt"], b.attrs["wait"] = Sym("int", n), Sym("real", it.c.fresh(z3.RealSort(), "wait"))
        g["tries"] = it.c.fresh(z3.IntSort(), "tries")
        g["slept"].clear()
        g["made"] = (object(), object()) if it.c.choose(2) else None
        env.vars["result"] = g["made"]

    cfg.loop(getattr(mod, f"{kind}_transport_protocol_backoff"), 0, LoopSpec(inv, havoc, decreases=lambda it, env: z3.If(z3.BoolVal(it.c.ghost["made"] is not None), z3.IntVal(0), 1 + zi(it, env.vars["backoff"].attrs["max_tries"]) - zi(it, env.vars["backoff"].attrs["attempt"]))))


def v_create(it, kind):
    g = it.c.ghost
    g.update(slept=[], tries=z3.IntVal(0), made=None)
    n0 = g["n0"] = it.c.sym("int", "attempt").t
    b = backoff(it, n0)
    fn = getattr(TC if kind == "tcp" else UC, f"{kind}_transport_protocol_backoff")
    o = acall(it, fn, backoff=b, host="h")
    mx = zi(it, b.attrs["max_tries"])
    it.c.check("no more attempts than permitted", z3.Or(g["tries"] == 0, n0 + g["tries"] <= mx))
    if o.ok:
        it.c.check("the connection made is returned", And(g["made"] is not None, o.value is g["made"]))
        cover(it, "made")
        return
    it.c.check("it fails only after all attempts did", And(o.exc.cls is AssertionError, g["made"] is None, n0 + g["tries"] >= mx))
    cover(it, "failed")


def v_try(it, kind):
    """One attempt: its result, and a callback if and only if it succeeded."""
    g = it.c.ghost
    g.update(slept=[], called=[])
    mod = TC if kind == "tcp" else UC
    made = (object(), object())
    exc = [None, ConnectionRefusedError, ConnectionResetError, KeyError][it.c.choose(4)]

    def create(it, a, kw):
        def run():
            it.c.check("the arguments are passed on", kw.get("host") == "h")
            if exc:
                it.throw(exc, "refused")
            return made
        return CoroVal(run, "create")

    it.cfg.model(getattr(mod, f"{kind}_transport_protocol"), create, "create")
    cb = Prim(lambda it, a, kw: g["called"].append(a), "callback")
    use = it.c.choose(2)
    o = acall(it, getattr(mod, f"try_{kind}_transport_protocol"), **({"callback": cb} if use else {}), host="h")
    if exc is KeyError:
        it.c.check("other errors are not hidden", And(not o.ok, o.exc.cls is KeyError))
        cover(it, "error")
        return
    it.c.check("an attempt tells if it succeeded", And(o.ok, (o.value is made) == (exc is None), (o.value is None) == (exc is not None)))
    it.c.check("the callback gets what was made, once", g["called"] == ([[made]] if use and not exc else []) or [list(x) for x in g["called"]] == [[made]])
    it.c.check("no callback without success", not exc or not g["called"])
    cover(it, "made" if not exc else "refused")


# -- restarting
class Stop:
    def is_set(self):
        return self.flag


def cfg_restart(cfg):
    cfg_sleep(cfg)

    def inv(it, env):
        g = it.c.ghost
        b, c = env.vars["backoff"], g["conn"]
        n = zi(it, b.attrs["attempt"])
        dis = zb(it.truth(it.getattr(c, "disabled")))
        return [
            ("restarts are counted", zi(it, raw(it, c, "_restarts")) == (g["r0"] + z3.If(dis, 0, g["ok"])) % 256),
            ("attempts are counted", zi(it, raw(it, c, "_restart_attempts")) == (g["a0"] + g["tries"]) % 256),
            ("attempts follow the backoff", And(n == g["n0"] + g["tries"], g["tries"] >= 0, zr(it, b.attrs["wait"]) == due(it, b, n))),
            ("a restarted connection is enabled", z3.And(g["ok"] >= 0, g["ok"] <= 1, z3.Implies(g["ok"] == 1, z3.Not(dis)), z3.Implies(z3.And(g["dis0"], z3.Not(dis)), g["ok"] == 1), z3.Implies(z3.Not(g["dis0"]), z3.And(z3.Not(dis), g["tries"] == 0, g["ok"] == 0)))),
            ("each wait was used for one attempt", len(g["slept"]) == 0),
            ("no more attempts than permitted", z3.Or(g["tries"] == 0, n <= zi(it, b.attrs["max_tries"]))),
            ("the event follows the state", zb(it.truth(it.getattr(c.attrs["disabled_event"], "flag"))) == dis),
        ]

    def havoc(it, env):
        g = it.c.ghost
        b, c = env.vars["backoff"], g["conn"]
        it.allow(b)
        n = it.c.fresh(z3.IntSort(), "attempt")
        law(it, n)
        law(it, n - 1)
        b.attrs["attempt"], b.attrs["wait"] = Sym("int", n), Sym("real", it.c.fresh(z3.RealSort(), "wait"))
        g["tries"], g["ok"] = it.c.fresh(z3.IntSort(), "tries"), it.c.fresh(z3.IntSort(), "restarted")
        g["slept"].clear()
        for k in ("_restarts", "_restart_attempts"):
            setraw(it, c, k, Sym("int", it.c.fresh(z3.IntSort(), k)))
            it.allow(c.attrs[k], "last_updated_ns")
        setraw(it, c, "_enabled", Sym("bool", it.c.fresh(z3.BoolSort(), "enabled")))
        it.allow(c.attrs["_enabled"], "last_updated_ns")
        it.allow(c.attrs["disabled_event"])
        c.attrs["disabled_event"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "event"))
        it.allow(c.attrs["initialized"])
        c.attrs["initialized"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "initialized"))
        it.allow(c.attrs["stop"])
        c.attrs["stop"].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "stop"))

    cfg.loop(Connection._handle_restart, 0, LoopSpec(inv, havoc, decreases=lambda it, env: z3.If(zb(it.truth(it.getattr(it.c.ghost["conn"], "disabled"))), 1 + zi(it, env.vars["backoff"].attrs["max_tries"]) - zi(it, env.vars["backoff"].attrs["attempt"]), z3.IntVal(0))))


def raw(it, c, k):
    return it.getattr(it.getattr(c.attrs[k], "raw"), "value")


def setraw(it, c, k, v):
    r = it.getattr(c.attrs[k], "raw")
    it.allow(r)
    r.value = v


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag


def v_restart(it):
    g = it.c.ghost
    n0 = g["n0"] = it.c.sym("int", "attempt").t
    b = backoff(it, n0)
    c = new(it, Connection, logger=new(it, Log), stop=new(it, Stop, flag=it.c.sym("bool", "stop")), initialized=it.call(Event, []), disabled_event=it.call(Event, []))
    for k, ty in (("_enabled", RP.Bool), ("_restarts", RP.Uint8), ("_restart_attempts", RP.Uint8)):
        c.attrs[k] = call(it, ty).value
    g.update(slept=[], tries=z3.IntVal(0), ok=z3.IntVal(0), conn=c)
    r0, a0, en = it.c.sym("int", "restarts"), it.c.sym("int", "attempts"), it.c.sym("bool", "enabled")
    it.c.assume(z3.And(r0.t >= 0, r0.t < 256, a0.t >= 0, a0.t < 256))
    for k, v in (("_restarts", r0), ("_restart_attempts", a0), ("_enabled", en)):
        it.getattr(c.attrs[k], "raw").value = v
    g.update(r0=r0.t, a0=a0.t, dis0=z3.Not(en.t))
    c.attrs["disabled_event"].attrs["flag"] = Sym("bool", z3.Not(en.t))
    it.cfg.method_override = True

    def restart(it, a, kw):
        def run():
            it.c.check("an attempt follows its wait", len(g["slept"]) == 1)
            g["slept"].clear()
            it.c.check("only what is disabled is restarted", it.truth(it.getattr(c, "disabled")))
            g["tries"] = g["tries"] + 1
            it.getattr(c, "stop").attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), "stop"))
            if it.c.choose(2):
                g["ok"] = g["ok"] + 1
                return True
            return False
        return CoroVal(run, "restart")

    c.attrs["restart"] = Prim(restart, "restart")
    o = acall(it, method(c, "_handle_restart"), stop_sig=c.attrs["stop"], backoff=b)
    it.c.check("restarting never fails by itself", o.ok)
    dis = zb(it.truth(it.getattr(c, "disabled")))
    it.c.check("it is given up only when attempts are used up or the application stops", z3.Implies(dis, z3.Or(g["n0"] + g["tries"] >= zi(it, b.attrs["max_tries"]), zb(it.truth(c.attrs["stop"].attrs["flag"])))))
    it.c.check("no more attempts than permitted", z3.Or(g["tries"] == 0, g["n0"] + g["tries"] <= zi(it, b.attrs["max_tries"])))
    it.c.check("restarts are counted", zi(it, raw(it, c, "_restarts")) == (g["r0"] + g["ok"]) % 256)
    it.c.check("attempts are counted", zi(it, raw(it, c, "_restart_attempts")) == (g["a0"] + g["tries"]) % 256)
    it.c.check("an enabled connection is left alone", z3.Implies(z3.Not(g["dis0"]), g["tries"] == 0))
    cover(it, "return")


def v_swap(it, kind):
    """A restart replaces transport and protocol if and only if it succeeds."""
    g = it.c.ghost
    g["slept"] = []
    mod, cls = (TC, TcpConnection) if kind == "tcp" else (UC, UdpConnection)
    old, made = (object(), object()), (object(), object())
    ok = it.c.choose(2)
    c = new(it, cls, logger=new(it, Log), _conn_kwargs=MDict([["host", "h"]]), t=old[0], p=old[1])
    c.attrs["set_transport"] = Prim(lambda it, a, kw: c.attrs.__setitem__("t", a[0]), "set_transport")
    c.attrs["_set_protocol"] = Prim(lambda it, a, kw: c.attrs.__setitem__("p", a[0]), "_set_protocol")

    def attempt(it, a, kw):
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {f"try_{kind}_transport_protocol"}

        def run():
            it.c.check("it connects as at first", kw.get("host") == "h")
            if ok:
                if kw.get("callback") is not None:
                    it.call(kw["callback"], [made])
                return made
            return None
        return CoroVal(run, "try")

    it.cfg.method_override = True
    it.cfg.model(getattr(mod, f"try_{kind}_transport_protocol"), attempt, "try")
    o = acall(it, method(c, "restart"))
    it.c.check("a restart tells if it succeeded", And(o.ok, o.value is bool(ok)))
    want = made if ok else old
    it.c.check("transport and protocol are the new ones if and only if it did", And(c.attrs["t"] is want[0], c.attrs["p"] is want[1]))
    cover(it, "return")


K = dict(branch_ms=400)
P = "runtimepy.net"
CONTRACTS = [
    Unit("new and reset", P + ".backoff:ExponentialBackoff.reset", v_new, cfg_sleep, **K),
    Unit("wait", P + ".backoff:ExponentialBackoff.sleep", v_sleep, cfg_sleep, **K),
    *[Unit(f"create[{k}]", f"{P}.{k}.create:{k}_transport_protocol_backoff", lambda it, k=k: v_create(it, k), lambda cfg, k=k: cfg_create(cfg, k), covers=("made", "failed"), **K) for k in ("tcp", "udp")],
    *[Unit(f"attempt[{k}]", f"{P}.{k}.create:try_{k}_transport_protocol", lambda it, k=k: v_try(it, k), cfg_sleep, covers=("made", "refused", "error"), **K) for k in ("tcp", "udp")],
    Unit("restart", P + ".connection:Connection._handle_restart", v_restart, cfg_restart, **K),
    *[Unit(f"restart[{k}]", f"{P}.{k}.connection:{'Tcp' if k == 'tcp' else 'Udp'}Connection.restart", lambda it, k=k: v_swap(it, k), cfg_sleep, **K) for k in ("tcp", "udp")],
]
