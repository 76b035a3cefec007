"""C03: change callbacks and timestamps."""
from contracts.common import *
from pyvc.models import ctypes_coerce
from runtimepy import primitives as RP
from runtimepy.primitives import base as PB

KINDS = {"int": RP.Int32, "uint": RP.Uint8, "real": RP.Double, "f32": RP.Float, "bool": RP.Bool}
CB = Tup(ANY, BOOL)


def mk(it, which):
    """A primitive holding an arbitrary stored value, any callbacks."""
    cls = KINDS[which]
    p = call(it, cls).value
    k = "real" if which in ("real", "f32") else "bool" if which == "bool" else "int"
    v0 = it.c.sym(k, "old")
    raw = it.getattr(p, "raw")
    raw.value = ctypes_coerce(it, raw.ctype, v0)
    d = it.sym_dict(INT, CB, "callbacks")
    p.attrs["callbacks"] = d
    a = z3.Int("a")
    nxt = it.c.sym("int", "next_id")
    it.c.assume(z3.ForAll([a], z3.Implies(d.dom[a], a < nxt.t)))
    p.attrs["curr_callback"] = nxt
    g = it.c.ghost
    g["p"], g["d"], g["dom0"], g["val0"], g["order0"] = p, d, d.dom, d.val, d.order
    g["log"] = AList(it.c.fresh(z3.ArraySort(z3.IntSort(), U), "log"), z3.IntVal(0), None, ANY)
    return p, raw.value, k


def once(g, k):
    return CB.acc[1](g["val0"][k])


def fn(g, k):
    return CB.acc[0](g["val0"][k])


def cfg_cb(cfg):
    base_cfg(cfg)

    def call_any(it, f, args, kw):
        g = it.c.ghost
        if "armed" in g:
            old, new, k = g["armed"]
            it.c.check("a callback receives the previous and the new value", len(args) == 2 and And(eqv(it, args[0], old), eqv(it, args[1], new)))
            it.c.check("the value is already stored when callbacks run", eqv(it, it.getattr(g["p"], "value"), g["stored"]))
        l = g["log"]
        l.arr, l.n = z3.Store(l.arr, l.n, f.t), l.n + 1
        return None

    cfg.call_any = call_any
    F = PB.Primitive._check_callbacks

    def mem(env):
        l = env.vars["to_remove"]
        if isinstance(l, MList) and l.conc and not l.items:
            return z3.K(z3.IntSort(), False)
        return l.mem

    def called(g, i):
        a = z3.Int("a")
        l = g["log"]
        return z3.And(l.n == i, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < i), l.arr[a] == fn(g, g["order0"].arr[a])), patterns=[l.arr[a]]))

    def inv0(it, env, i, n):
        g = it.c.ghost
        k = z3.Int("k")
        m = mem(env)
        return [
            ("each callback called once so far, in registration order", called(g, i)),
            ("to be removed: the one-shot callbacks so far", z3.ForAll([k], m[k] == z3.And(g["dom0"][k], once(g, k), g["order0"].pos[k] < i))),
        ]

    def havoc0(it, env):
        l = it.c.ghost["log"]
        l.arr, l.n = it.c.fresh(l.arr.sort(), "log"), it.c.fresh(z3.IntSort(), "logn")
        env.vars["to_remove"] = m = it.sym_alist(INT, "to_remove")
        it.allow(m)

    def inv1(it, env, vis, m):
        g = it.c.ghost
        k = z3.Int("k")
        return [("the visited ones are removed", z3.ForAll([k], g["d"].dom[k] == z3.And(g["dom0"][k], z3.Not(vis[k]))))]

    def havoc1(it, env):
        g = it.c.ghost
        d = g["d"]
        it.allow(d)
        d.dom = it.c.fresh(d.dom.sort(), "dom")
        d.order = it.fresh_order(INT, d.dom)

    cfg.loop(F, 0, LoopSpec(inv0, havoc0))
    cfg.loop(F, 1, LoopSpec(inv1, havoc1, members=True))
    cfg.isnan = lambda it, v: z3.Function("isnan", z3.RealSort(), z3.BoolSort())(v.t)


def v_set(it, which):
    p, old, k = mk(it, which)
    g = it.c.ghost
    v = it.c.sym(k, "new")
    raw = it.getattr(p, "raw")
    stored = ctypes_coerce(it, raw.ctype, v)
    g["stored"] = stored
    g["armed"] = (old, v, k)
    given = it.c.choose(2) == 1
    ts = it.c.sym("int", "timestamp")
    now = it.c.sym("int", "now")
    calls = []

    def clock(it, a, kw):
        calls.append(1)
        return now

    p.attrs["time_source"] = Prim(clock, "time_source")
    fr = Frame(it, p)
    if given:
        o = call(it, method(p, "set_value"), v, timestamp_ns=ts)
    else:
        how = it.c.choose(3)
        if how == 0:
            o = call(it, method(p, "set_value"), v)
        elif how == 1:
            o = call(it, p, v)
            it.c.check("calling with a value returns the stored value", o.ok and eqv(it, o.value, stored))
        else:
            try:
                it.setattr(p, "value", v)
                o = Out()
            except PyExc as e:
                o = Out(exc=e.exc)
    it.c.check("setting a value succeeds", o.ok)
    it.c.check("the value is stored as the kind holds it", eqv(it, it.getattr(p, "value"), stored))
    it.c.check("the timestamp is the one given, else the clock's", eqv(it, it.getattr(p, "last_updated_ns"), ts if given else now))
    nan = it.cfg.isnan(it, v) if k == "real" else z3.BoolVal(False)
    changed = z3.And(z3.Not(eqv(it, old, v)), z3.Not(nan))
    n = g["order0"].n
    x = z3.Int("x")
    log, dom = g["log"], g["d"].dom
    it.c.check("no callback without a change", z3.Implies(z3.Not(changed), log.n == 0))
    it.c.check("registrations survive without a change", z3.Implies(z3.Not(changed), dom == g["dom0"]))
    it.c.check("every callback is called exactly once on a change", z3.Implies(changed, log.n == n))
    it.c.check("callbacks are called in registration order", z3.Implies(changed, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), log.arr[x] == fn(g, g["order0"].arr[x])))))
    it.c.check("one-shot callbacks are removed, the others stay", z3.Implies(changed, z3.ForAll([x], dom[x] == z3.And(g["dom0"][x], z3.Not(once(g, x))))))
    fr.check("set_value", allow=[g["d"], raw, (p, "last_updated_ns")])
    cover(it, "return")


def v_register(it):
    p, old, k = mk(it, "int")
    g = it.c.ghost
    cb = it.c.sym("any", "callback", inp=False)
    once_ = it.c.choose(2) == 1
    o = call(it, method(p, "register_callback"), cb, **({"once": True} if once_ else {}))
    d = it.getattr(p, "callbacks")
    i = tm(it, o.value, "int")
    it.c.check("a new identifier is unused", z3.Not(g["dom0"][i]))
    it.c.check("only the new registration is added", d.dom == z3.Store(g["dom0"], i, True))
    it.c.check("the callback and its mode are kept", d.val == z3.Store(g["val0"], i, CB.mk(cb.t, z3.BoolVal(once_))))
    it.c.check("it is last in order", z3.And(d.order.arr == z3.Store(g["order0"].arr, g["order0"].n, i), d.order.n == g["order0"].n + 1))
    o2 = call(it, method(p, "register_callback"), cb)
    it.c.check("identifiers are never reused", z3.And(tm(it, o2.value, "int") != i, z3.Not(g["dom0"][tm(it, o2.value, "int")])))
    cover(it, "return")


def v_remove(it):
    p, old, k = mk(it, "int")
    g = it.c.ghost
    i = it.c.sym("int", "ident")
    o = call(it, method(p, "remove_callback"), i)
    d = it.getattr(p, "callbacks")
    it.c.check("removal reports whether it was registered", eqv(it, o.value, Sym("bool", g["dom0"][i.t])))
    it.c.check("exactly that registration is removed", d.dom == z3.Store(g["dom0"], i.t, False))
    it.c.check("other registrations are unchanged", d.val == g["val0"])
    o = call(it, method(p, "remove_callback"), i)
    it.c.check("removing again reports absence", eqv(it, o.value, False))
    cover(it, "return")


def v_context(it):
    """The managed callback is there inside and gone after, however it ends."""
    p, old, k = mk(it, "int")
    g = it.c.ghost
    cb = it.c.sym("any", "callback", inp=False)
    fail = it.c.choose(2) == 1
    seen = []

    def inside(v):
        d = it.getattr(p, "callbacks")
        x = z3.Int("x")
        new = g["d"].dom
        seen.append(new)
        it.c.check("registered inside the context", z3.Exists([x], z3.And(new[x], z3.Not(g["dom0"][x]), CB.acc[0](d.val[x]) == cb.t)))
        if fail:
            it.throw(RuntimeError, "body")

    cm = call(it, method(p, "callback"), cb).value
    exc = None
    try:
        it.run_with(cm, inside)
    except PyExc as e:
        exc = e.exc
    it.c.check("the body's exception propagates", (exc is not None and exc.cls is RuntimeError) == fail)
    it.c.check("the body ran once", len(seen) == 1)
    it.c.check("the registration is gone afterwards", it.getattr(p, "callbacks").dom == g["dom0"])
    cover(it, "return")


def v_age(it):
    p, old, k = mk(it, "int")
    ts, now = it.c.sym("int", "ts"), it.c.sym("int", "now")
    call(it, method(p, "set_value"), it.c.sym("int", "v"), timestamp_ns=ts)
    o = call(it, method(p, "age_ns"), now=now)
    it.c.check("age is the time since the last update", eqv(it, o.value, Sym("int", now.t - ts.t)))
    p.attrs["time_source"] = Prim(lambda it, a, kw: now, "clock")
    o = call(it, method(p, "age_ns"))
    it.c.check("age is measured with the value's own clock", eqv(it, o.value, Sym("int", now.t - ts.t)))
    cover(it, "return")


def v_init(it):
    """A new primitive has no callbacks and the clock's time."""
    now = it.c.sym("int", "now")
    for cls in (RP.Int8, RP.Uint64, RP.Double, RP.Bool):
        p = call(it, cls, time_source=Prim(lambda it, a, kw: now, "clock")).value
        it.c.check("a new value is stamped with its clock", eqv(it, it.getattr(p, "last_updated_ns"), now))
        it.c.check("a new value has no callbacks", eqv(it, it.length(it.getattr(p, "callbacks")), 0))
    cover(it, "return")


def v_ops(it):
    """increment, toggle, set and clear go through the same path."""
    p, old, k = mk(it, "int")
    amt, ts = it.c.sym("int", "amount"), it.c.sym("int", "ts")
    new = Sym("int", old.t + amt.t)
    raw = it.getattr(p, "raw")
    it.c.ghost["stored"] = st = ctypes_coerce(it, raw.ctype, new)
    it.c.ghost["armed"] = (old, new, "int")
    o = call(it, method(p, "increment"), amt, timestamp_ns=ts)
    it.c.check("increment adds", z3.And(eqv(it, it.getattr(p, "value"), st), eqv(it, it.getattr(p, "last_updated_ns"), ts), eqv(it, o.value, new)))
    g = it.c.ghost
    it.c.check("increment services the callbacks", z3.Implies(amt.t != 0, g["log"].n == g["order0"].n))
    cover(it, "return")


def v_boolops(it):
    p, old, k = mk(it, "bool")
    g = it.c.ghost
    which = it.c.choose(3)
    name = ["toggle", "set", "clear"][which]
    new = [z3.Not(tm(it, old, "bool")), z3.BoolVal(True), z3.BoolVal(False)][which]
    g["stored"] = Sym("bool", new)
    g["armed"] = (old, Sym("bool", new), "bool")
    o = call(it, method(p, name))
    it.c.check(f"{name} stores its state", o.ok and tm(it, it.getattr(p, "value"), "bool") == new)
    ch = tm(it, old, "bool") != new
    it.c.check(f"{name} services the callbacks exactly on a change", g["log"].n == z3.If(ch, g["order0"].n, 0))
    cover(it, "return")


B = "runtimepy.primitives.base:Primitive"
CONTRACTS = [Unit(f"set_value[{w}]", B + ".set_value", lambda it, w=w: v_set(it, w), cfg_cb) for w in KINDS] + [
    Unit("register_callback", B + ".register_callback", v_register, cfg_cb),
    Unit("remove_callback", B + ".remove_callback", v_remove, cfg_cb),
    Unit("callback context", B + ".callback", v_context, cfg_cb),
    Unit("age_ns", B + ".age_ns", v_age, cfg_cb),
    Unit("__init__", B + ".__init__", v_init, cfg_cb),
    Unit("increment", "runtimepy.primitives.int:BaseIntPrimitive.increment", v_ops, cfg_cb),
    Unit("bool operations", "runtimepy.primitives.bool:BooleanPrimitive", v_boolops, cfg_cb),
]
