"""C28: what clients of the web interface are shown."""
from contracts.common import *
import collections
from contracts.C15 import Log, zb
from runtimepy.channel import Channel
from runtimepy.net.server import websocket as WS
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.app.env.tab import message as TM
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.net.server.websocket import state as TS
from runtimepy.net.server.websocket.state import TabState

R = z3.RealSort()
NAN = z3.Function("value_is_nan", R, z3.BoolSort())
ABSENT = object()


class Env:
    """A channel environment: contract (C10)."""


class Raw:
    """A primitive: contract (C03)."""


class Owner:
    """A channel or a bit field."""


class Command:
    """A command processor: contract (C12)."""


class Logs:
    """The log messages kept for a tab."""

    def __bool__(self):
        return self.some


class Logger:
    pass


def prim(it, name):
    p = new(it, Raw, last_updated_ns=it.c.sym("int", "time_" + name))
    g = it.c.ghost

    def register(it, a, kw):
        g["id"] += 1
        it.c.check("an observer is kept", not (len(a) > 1 or kw))
        g["reg"].append([p, g["id"], a[0]])
        return g["id"]

    def remove(it, a, kw):
        hit = [x for x in g["reg"] if x[0] is p and x[1] == a[0]]
        it.c.check("an observer is removed once, from where it was registered", len(hit) == 1)
        g["reg"] = [x for x in g["reg"] if x not in hit]
        return len(hit) == 1

    p.attrs["register_callback"] = Prim(register, "register_callback")
    p.attrs["remove_callback"] = Prim(remove, "remove_callback")
    return p


def is_nan(it, v):
    """NaN values have no representation in a browser."""
    if isinstance(v, Sym) and v.k == "real":
        return it.c.branch(NAN(v.t))
    return False


def values(it):
    g = it.c.ghost
    return MDict([[k, v] for k, v in g["cur"].items() if not is_nan(it, v)])


def value(it, k):
    return it.c.ghost["cur"][k]


def world(it, most=2):
    """An environment with any channels and bit fields."""
    g = it.c.ghost
    g["reg"], g["id"], g["sent"] = [], 100, []
    names = ["a", "b"][:it.c.choose(most + 1)]
    prims = {}
    for i, k in enumerate(names):
        prims[k] = prims["a"] if i and it.c.choose(2) else prim(it, k)
    g["prims"], g["names"] = prims, names
    g["cur"] = {k: it.c.sym(kind, "value_" + k) for k, kind in zip(names, [["real", "int"][it.c.choose(2)], "str"])}
    env = new(it, Env, names=MList(items=list(names)))
    env.attrs["values"] = Prim(lambda it, a, kw: values(it), "values")
    env.attrs["value"] = Prim(lambda it, a, kw: value(it, a[0]), "value")
    env.attrs["field_or_channel"] = Prim(lambda it, a, kw: new(it, [Owner, Channel][it.c.choose(2)], raw=prims[a[0]]), "field_or_channel")
    return env


def tab(it, env):
    t = new(it, ChannelEnvironmentTab, name="tab", command=new(it, Command, env=env), logger=new(it, Log), log_limiter=object())
    return t


def default(it):
    return call(it, collections.defaultdict, list).value


def logs(it, some=False):
    return new(it, Logs, some=some)


def state(it, shown, tag=""):
    """The state of a tab that is shown or not, and what its client sees."""
    g = it.c.ghost
    s = new(it, TabState, shown=shown, tab_logger=logs(it), points=default(it), primitives=MDict([]), callbacks=MDict([]), latest_ui_values=MDict([]), _loggers=MList(items=[]))
    view, pending = {}, {}
    for k in g["names"]:
        kind = g["cur"][k].k
        if it.c.choose(2):  # The value that was saved last.
            old = it.c.sym(kind, "saved_" + k, inp=False)
            if kind == "real":
                it.c.assume(z3.Not(NAN(old.t)))
            it.dict_set(s.attrs["latest_ui_values"], k, old)
            view[k] = old
        else:
            view[k] = ABSENT
        if not shown:
            continue
        # Every value is observed. The client has the current value, or
        # gets it with its next frame.
        p = g["prims"][k]
        g["id"] += 1
        g["reg"].append([p, g["id"], "observer"])
        it.dict_set(s.attrs["primitives"], k, p)
        it.dict_set(s.attrs["callbacks"], k, g["id"])
        nan = is_nan(it, g["cur"][k])
        if it.c.choose(2):
            last = it.c.sym(kind, "last_" + k, inp=False)
            if kind == "real":
                it.c.assume(z3.Not(NAN(last.t)))
            if not nan:
                it.c.assume(last.t == g["cur"][k].t)
            pt = (last, it.c.sym("int", "at_" + k, inp=False))
            it.dict_set(s.attrs["points"], k, MList(items=[(it.c.sym(kind, "first_" + k, inp=False), 1), pt]))
            pending[k] = last
            view[k] = it.c.sym(kind, "seen_" + k, inp=False)
        elif nan:
            view[k] = it.c.sym(kind, "seen_" + k, inp=False)
        else:
            view[k] = g["cur"][k]
    return s, view, pending


def pairs(it, d):
    return {k: v for k, v in d.pairs}


def sees(it, view, k):
    """The client has the current value, unless no browser could have it."""
    g = it.c.ghost
    cur = g["cur"][k]
    nan = NAN(cur.t) if cur.k == "real" else z3.BoolVal(False)
    return z3.Or(nan, z3.BoolVal(False) if view[k] is ABSENT else eqv(it, view[k], cur))


def observed(it, s):
    """One observer for each value: of the right primitive."""
    g = it.c.ghost
    ids = pairs(it, s.attrs["callbacks"])
    ps = pairs(it, s.attrs["primitives"])
    return And(sorted(ids) == sorted(ps) == sorted(g["names"]), len(g["reg"]) == len(g["names"]), *[any(x[0] is g["prims"][k] is ps.get(k) and x[1] == ids.get(k) for x in g["reg"]) for k in g["names"]])


# -- showing and hiding
def cfg_shown(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.isnan = lambda it, v: NAN(v.t)


def v_shown(it, show):
    env = world(it)
    g = it.c.ghost
    was = bool(it.c.choose(2))
    s, view, pending = state(it, was)
    t = tab(it, env)
    out = MDict([])
    send = Prim(lambda it, a, kw: g["sent"].append(a[0]), "send")
    o = call(it, method(t, "handle_shown_state"), show, out, send, s)
    it.c.check("showing and hiding a tab succeeds", o.ok)
    it.c.check("the client is told", eqv(it, out, MDict([["handle_shown_state", show]])))
    it.c.check("the state is kept", s.attrs["shown"] is show)
    for m in g["sent"]:
        it.c.check("values are sent by name", isinstance(m, MDict))
        for k, v in pairs(it, m).items():
            it.c.check("only values of the environment are sent", k in g["cur"])
            it.c.check("the values sent are the current ones", eqv(it, v, g["cur"][k]))
            view[k] = v
    points = pairs(it, s.attrs["points"])
    saved = pairs(it, s.attrs["latest_ui_values"])
    if show:
        it.c.check("every value is observed once", observed(it, s))
        it.c.check("points that are waiting are kept", sorted(points) == sorted(pending) if was else not points)
        for k in g["names"]:
            if k in pending:
                view[k] = pending[k]
            it.c.check("a client of a tab that is shown gets every current value", sees(it, view, k))
        cover(it, "shown")
    else:
        it.c.check("nothing is sent when a tab is hidden", not g["sent"])
        it.c.check("nothing is observed for a hidden tab", And(not g["reg"], not pairs(it, s.attrs["callbacks"]), not pairs(it, s.attrs["primitives"])))
        it.c.check("no points wait for a hidden tab", not points)
        for k, v in saved.items():
            if was or k in view:
                it.c.check("a value saved is one that the client has", z3.BoolVal(False) if view[k] is ABSENT else eqv(it, view[k], v))
        cover(it, "hidden")


def v_observe(it):
    """A change becomes one point."""
    env = world(it)
    g = it.c.ghost
    if not g["names"]:
        return cover(it, "return")
    s = new(it, TabState, shown=True, tab_logger=logs(it), points=default(it), primitives=MDict([]), callbacks=MDict([]), latest_ui_values=MDict([]), _loggers=MList(items=[]))
    t = tab(it, env)
    for k in g["names"]:
        it.c.check("observing succeeds", call(it, method(t, "_setup_callback"), k, s).ok)
    it.c.check("every value is observed once", observed(it, s))
    had = [] if it.c.choose(2) else [(it.c.sym(g["cur"]["a"].k, "earlier", inp=False), 5)]
    if had:
        it.dict_set(s.attrs["points"], "a", MList(items=list(had)))
    if it.c.choose(2):  # A frame took the points, more may come.
        it.setattr(s, "points", default(it))
        had = []
    p = g["prims"]["a"]
    for x in [x for x in g["reg"] if x[0] is p]:
        it.c.check("a change is noted", call(it, x[2], it.c.sym("int", "from", inp=False), it.c.sym("int", "to", inp=False)).ok)
    points = pairs(it, s.attrs["points"])
    for k in g["names"]:
        cur = g["cur"][k]
        got = it.to_items(points[k]) if k in points else []
        new_ = got[len(had if k == "a" else []):]
        mine = g["prims"][k] is p
        nan = NAN(cur.t) if cur.k == "real" else z3.BoolVal(False)
        it.c.check("earlier points stay", And(len(got) >= len(had), *[eqv(it, x, y) for x, y in zip(got, had)]) if k == "a" else z3.BoolVal(True))
        it.c.check("one change is one point, with no other name", zb(len(new_) == 1) == z3.Not(nan) if mine else zb(not new_))
        if new_:
            it.c.check("a point has the value and the time of the change", z3.And(eqv(it, new_[0][0], cur), eqv(it, new_[0][1], p.attrs["last_updated_ns"])))
    it.c.check("there are no points of other names", all(k in g["names"] for k in points))
    cover(it, "return")


# -- the state of a tab
def v_frame(it):
    g = it.c.ghost
    drained = []
    lg = logs(it, bool(it.c.choose(2)))

    def drain_str(it, a, kw):
        r = it.c.sym("str", "log messages") if lg.attrs["some"] else ""
        lg.attrs["some"] = False
        drained.append(r)
        return r

    lg.attrs["drain_str"] = Prim(drain_str, "drain_str")
    some = lg.attrs["some"]
    pts = default(it)
    want = {}
    for k in ["a", "b"][:it.c.choose(3)]:
        want[k] = [(it.c.sym("int", f"{k}{i}"), i) for i in range(1 + it.c.choose(2))]
        it.dict_set(pts, k, MList(items=list(want[k])))
    s = new(it, TabState, shown=bool(it.c.choose(2)), tab_logger=lg, points=pts, primitives=MDict([]), callbacks=MDict([]), latest_ui_values=MDict([]), _loggers=MList(items=[]))
    o = call(it, method(s, "frame"), it.c.sym("real", "time"))
    it.c.check("a frame is made", o.ok)
    got = pairs(it, o.value)
    it.c.check("a frame has what there is, nothing else", sorted(got) == sorted((["log_messages"] if some else []) + (["points"] if want else [])))
    if some:
        it.c.check("log messages are sent once", And(len(drained) == 1, eqv(it, got["log_messages"], drained[0])))
    if want:
        ps = pairs(it, got["points"])
        it.c.check("points are sent by name, in order", And(sorted(ps) == sorted(want), *[eqv(it, x, y) for k in want for x, y in zip(it.to_items(ps[k]), want[k])], *[len(it.to_items(ps[k])) == len(want[k]) for k in want]))
    it.c.check("no point is sent twice", not pairs(it, s.attrs["points"]))
    o = call(it, method(s, "frame"), it.c.sym("real", "later"))
    it.c.check("the next frame has nothing again", And(o.ok, not pairs(it, o.value)))
    it.c.check("points of the next frame are kept apart", s.attrs["points"] is not got.get("points"))
    cover(it, "return")


def v_clear(it, what):
    """Nothing stays registered for a client that is gone."""
    env = world(it)
    g = it.c.ghost
    s, view, pending = state(it, True)
    drained = []
    s.attrs["tab_logger"] = lg = logs(it, True)
    lg.attrs["drain_str"] = Prim(lambda it, a, kw: drained.append(1) or "", "drain_str")
    attached = []

    def logger(it):
        x = new(it, Logger)

        def remove(it, a, kw):
            it.c.check("a logger is left once", And(a[0] is lg, any(y is x for y in attached)))
            attached[:] = [y for y in attached if y is not x]

        def add(it, a, kw):
            it.c.check("the tab's log is added", a[0] is lg)
            attached.append(x)
        x.attrs["removeHandler"] = Prim(remove, "removeHandler")
        x.attrs["addHandler"] = Prim(add, "addHandler")
        return x
    if what == "telemetry":
        o = call(it, method(s, "clear_telemetry"))
    else:
        ls = [logger(it) for _ in range(2)]
        for i in range(it.c.choose(4)):
            it.c.check("a logger is added", call(it, method(s, "add_logger"), ls[it.c.choose(2)]).ok)
        it.c.check("a logger is added once", all(sum(x is y for y in attached) <= 1 for x in ls))
        n = len(attached)
        o = call(it, method(s, "clear_loggers"))
        it.c.check("no logger keeps the log of a client that's gone", not attached)
        it.c.check("its messages are dropped", len(drained) >= 1)
        k = call(it, method(s, "add_logger"), ls[0])
        it.c.check("a logger can be added again", And(k.ok, len(attached) == 1))
    it.c.check("clearing succeeds", o.ok)
    it.c.check("nothing is observed any more", And(not g["reg"], not pairs(it, s.attrs["callbacks"]), not pairs(it, s.attrs["primitives"]), not pairs(it, s.attrs["points"])))
    o = call(it, method(s, "clear_telemetry"))
    it.c.check("clearing again changes nothing", o.ok)
    cover(it, "return")


# -- messages
def cfg_message(cfg):
    cfg_shown(cfg)


def v_message(it):
    g = it.c.ghost
    t = tab(it, new(it, Env))
    seen = []
    kinds = ["init", "command", "tab.shown", "tab.hidden", it.c.sym("str", "kind")]
    k = it.c.choose(5)
    kind = kinds[k]
    line = it.c.sym("str", "value")
    if k == 4:
        it.c.assume(z3.And(*[kind.t != x for x in ("init", "command")], z3.Not(z3.PrefixOf("tab", kind.t))))
    t.attrs["command"].attrs["command"] = Prim(lambda it, a, kw: seen.append(("command", a[0])) or bool(it.c.choose(2)), "command")
    t.attrs["governed_log"] = Prim(lambda it, a, kw: None, "governed_log")
    t.attrs["handle_init"] = Prim(lambda it, a, kw: seen.append(("init", a[0])), "handle_init")

    def shown(it, a, kw):
        it.c.check("the message's state and sender are used", And(a[2] is send, a[3] is s))
        it.dict_set(a[1], "handle_shown_state", a[0])
        seen.append(("shown", a[0]))
    t.attrs["handle_shown_state"] = Prim(shown, "handle_shown_state")
    s, send = new(it, TabState), Prim(lambda it, a, kw: seen.append(("sent", a)), "send")
    data = MDict([["kind", kind]] + ([["value", line]] if k == 1 or it.c.choose(2) else []))
    o = acall(it, method(t, "handle_message"), data, send, s)
    it.c.check("a message is handled", o.ok)
    want = {0: [("init", s)], 1: [("command", line)], 2: [("shown", True)], 3: [("shown", False)], 4: []}[k]
    it.c.check("a message does what it says, once, and nothing else", And(len(seen) == len(want), *[x[0] == y[0] and (x[1] is y[1] if k < 4 else False) for x, y in zip(seen, want)]))
    it.c.check("the response is the one to the message", eqv(it, o.value, MDict([["handle_shown_state", k == 2]] if k in (2, 3) else [])))
    cover(it, "return")


def v_init(it):
    t = tab(it, new(it, Env))
    import logging
    t.attrs["logger"] = lg = new(it, logging.Logger, debug=Prim(lambda it, a, kw: None, "debug")) if it.c.choose(2) else new(it, Log)
    added = []
    s = new(it, TabState, add_logger=Prim(lambda it, a, kw: added.append(a[0]), "add_logger"))
    o = call(it, method(t, "handle_init"), s)
    it.c.check("initializing succeeds", o.ok)
    it.c.check("a client that opens a tab gets its log", [x is lg for x in added] == ([True] if lg.cls is logging.Logger else []))
    cover(it, "return")


# -- a connection
class Ui:
    """The state of the interface: contract."""


class UiEnv:
    def __getitem__(self, key):
        return self.get_(key)

    def __setitem__(self, key, value):
        self.set_(key, value)


def cfg_conn(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    for k in RuntimepyWebsocketConnection.__mro__[1:]:
        if "_register_handlers" in k.__dict__:
            cfg.model(k.__dict__["_register_handlers"], lambda it, a, kw: it.c.ghost.__setitem__("base", True), "_register_handlers")
        if "disable_extra" in k.__dict__:
            cfg.model(k.__dict__["disable_extra"], lambda it, a, kw: None, "disable_extra")


def ui_struct(it, final=True):
    g = it.c.ghost
    g["count"], g["watch"], g["set"], g["order"] = 0, [], {}, []
    raw = new(it, Raw)
    raw.attrs["register_callback"] = Prim(lambda it, a, kw: g["watch"].append(a[0]) or 1, "register_callback")

    def add(it, a, kw):
        it.c.check("the number of connections is what changes", a[0] == "num_connections")
        g["count"] += a[1]
        if g.get("live"):
            for fn in list(g["watch"]):
                it.call(fn, [0, g["now"]])
        return 0

    env = new(it, UiEnv, finalized=final)
    env.attrs["get_"] = Prim(lambda it, a, kw: (new(it, Owner, raw=raw), None) if a[0] == "num_connections" else it.throw(KeyError, a[0]), "get_")
    env.attrs["set_"] = Prim(lambda it, a, kw: g["set"].__setitem__(a[0], a[1]) or g["order"].append("set"), "set_")
    env.attrs["add_int"] = Prim(add, "add_int")
    m = new(it, Ui)
    m.attrs["update"] = Prim(lambda it, a, kw: g["order"].append(("metrics", a[0])), "update")
    return new(it, Ui, env=env, json_metrics=m, poll=Prim(lambda it, a, kw: g["order"].append("poll"), "poll"))


def conn(it, **kw):
    c = new(it, RuntimepyWebsocketConnection, send_interfaces=MDict([]), ui_time=it.c.sym("real", "ui_time"), tabs=MDict([]), poll_connection_metrics=False, _ui=None, metrics=new(it, Ui), **kw)
    return c


def v_get_ui(it):
    """Every connection counts once while it's enabled."""
    g = it.c.ghost
    g["live"], g["now"] = True, it.c.sym("int", "connections")
    there = it.c.choose(3)
    ui = ui_struct(it, final=there == 2)
    it.cfg.model(WS.UiState.singleton, lambda it, a, kw: ui if there else None, "UiState.singleton")
    c = conn(it)
    poll = it.c.choose(2) == 1
    c.attrs["poll_connection_metrics"] = poll
    counted = there == 2 and it.c.choose(2) == 1
    if counted:
        c.attrs["_ui"] = ui
    for _ in range(1 + it.c.choose(2)):
        o = call(it, method(c, "_get_ui"))
        it.c.check("the interface's state is found once it's complete", And(o.ok, o.value is (ui if there == 2 else None)))
    it.c.check("a connection is counted once", g["count"] == (1 if there == 2 and not counted else 0))
    if there == 2 and not counted:
        it.c.check("it follows the number of connections", len(g["watch"]) == 1)
        after = it.truth(c.attrs["poll_connection_metrics"])
        it.c.check("the only connection does the polling", zb(after) == z3.Or(zb(poll), g["now"].t == 1))
    else:
        it.c.check("nothing else changes", And(not g["watch"], c.attrs["poll_connection_metrics"] is poll))
    before = g["count"]
    cleared = []
    for k in ["a", "b"][:it.c.choose(3)]:
        x = new(it, TabState, shown=it.c.sym("bool", f"{k} is shown"), points=MDict([]), callbacks=MDict([]), primitives=MDict([]), latest_ui_values=MDict([]), _loggers=MList(items=[]))
        x.attrs["clear_loggers"] = Prim(lambda it, a, kw, k=k: cleared.append(k), "clear_loggers")
        it.dict_set(c.attrs["tabs"], k, x)
    n = len(c.attrs["tabs"].pairs)
    g["live"] = False
    o = call(it, method(c, "disable_extra"))
    it.c.check("disabling succeeds", o.ok)
    it.c.check("every tab lets go of what it observed", sorted(cleared) == ["a", "b"][:n])
    it.c.check("a connection that ends isn't counted any more", g["count"] == (before - 1 if there == 2 else 0))
    if there == 2:
        it.c.check("it doesn't poll any more", c.attrs["poll_connection_metrics"] is False)
    cover(it, "return")


def v_poll(it):
    g = it.c.ghost
    ui = ui_struct(it)
    c = conn(it)
    on, due = bool(it.c.choose(2)), bool(it.c.choose(2))
    c.attrs["poll_connection_metrics"] = on
    asked = []
    c.attrs["poll_governor"] = Prim(lambda it, a, kw: asked.append(1) or due, "poll_governor")
    t = it.c.sym("real", "time")
    o = call(it, method(c, "_poll_ui_state"), ui, t)
    it.c.check("polling succeeds", o.ok)
    if on and due:
        it.c.check("the time of the frame and its period are set", And(sorted(g["set"]) == ["frame_period_ms", "time_ms"], eqv(it, g["set"]["time_ms"], t), it.term(g["set"]["frame_period_ms"], "real") == t.t - c.attrs["ui_time"].t))
        it.c.check("metrics are updated, then the rest is polled, once", [x if isinstance(x, str) else "metrics" for x in g["order"]] == ["set", "set", "metrics", "poll"] and any(x[0] == "metrics" and x[1] is c.attrs["metrics"] for x in g["order"] if not isinstance(x, str)))
        cover(it, "polled")
    else:
        it.c.check("nothing happens when nothing is due", And(not g["set"], not g["order"]))
        cover(it, "not polled")


def handler(it, c):
    g = it.c.ghost
    found = {}
    c.attrs["basic_handler"] = Prim(lambda it, a, kw: found.__setitem__(a[0], a[1]), "basic_handler")
    o = call(it, method(c, "_register_handlers"))
    it.c.check("handlers are registered", And(o.ok, g.get("base") is True, sorted(found) == ["ui"]))
    return found["ui"]


def tabs(it, names):
    """The tabs of the application."""
    g = it.c.ghost
    all_ = {}
    for k in names:
        t = all_[k] = new(it, ChannelEnvironmentTab, name=k)

        def message(it, a, kw, k=k):
            g["handled"].append((k, a))
            r = MDict([["answer", 1]] if it.c.choose(2) else [])
            g["answer"] = r
            return CoroVal(lambda: r, "handle_message")
        t.attrs["handle_message"] = Prim(message, "handle_message")
    g["handled"] = []
    it.cfg.overrides[id(ChannelEnvironmentTab.all_tabs)] = MDict([[k, v] for k, v in all_.items()])
    return all_


def v_ui_frame(it):
    g = it.c.ghost
    names = ["x", "y"][:it.c.choose(3)]
    tabs(it, names)
    c = conn(it)
    old = c.attrs["ui_time"]
    frames, want = [], {}
    for k in names:
        s = new(it, TabState)
        r = MDict([["points", k]] if it.c.choose(2) else [])
        if r.pairs:
            want[k] = r
        s.attrs["frame"] = Prim(lambda it, a, kw, k=k, r=r: frames.append((k, a[0])) or r, "frame")
        it.dict_set(c.attrs["tabs"], k, s)
    ui = new(it, Ui) if it.c.choose(2) else None
    c.attrs["_get_ui"] = Prim(lambda it, a, kw: ui, "_get_ui")
    polled = []
    c.attrs["_poll_ui_state"] = Prim(lambda it, a, kw: polled.append((a[0], a[1], c.attrs["ui_time"])), "_poll_ui_state")
    fn = handler(it, c)
    t = it.c.sym("real", "time")
    out = MDict([])
    o = acall(it, fn, out, MDict([["time", t]]))
    it.c.check("a frame is answered", o.ok)
    it.c.check("every tab takes part in a frame, once", And(sorted(x[0] for x in frames) == names, *[eqv(it, x[1], t) for x in frames]))
    got = pairs(it, out)
    it.c.check("the answer has what each tab has to say, under its name", And(sorted(got) == sorted(want), *[got[k] is want[k] for k in want if k in got]))
    it.c.check("the time of the last frame is kept", eqv(it, c.attrs["ui_time"], t))
    it.c.check("the interface is polled once a frame, with the previous time known", And(len(polled) == (ui is not None), *[z3.And(zb(x[0] is ui), eqv(it, x[1], t), eqv(it, x[2], old)) for x in polled]))
    it.c.check("no message is handled", not g["handled"])
    cover(it, "return")


def v_ui_message(it):
    g = it.c.ghost
    all_ = tabs(it, ["x", "y"])
    c = conn(it)
    states = {k: new(it, TabState) for k in ("x", "y")}
    for k, v in states.items():
        it.dict_set(c.attrs["tabs"], k, v)
    c.attrs["_get_ui"] = Prim(lambda it, a, kw: it.c.check("a message isn't a frame", False), "_get_ui")
    sent = []
    c.attrs["send_json"] = Prim(lambda it, a, kw: sent.append(a[0]), "send_json")
    fn = handler(it, c)
    which = ["x", "y", "z", None][it.c.choose(4)]
    event = MDict([["kind", it.c.sym("str", "kind")]])
    inbox = MDict(([["name", which]] if which else []) + ([["event", event]] if it.c.choose(2) else []))
    out = MDict([])
    o = acall(it, fn, out, inbox)
    it.c.check("a message is answered", o.ok)
    full = which is not None and len(inbox.pairs) == 2
    if full and which in all_:
        it.c.check("a message is handled once, by the tab it names", [x[0] for x in g["handled"]] == [which])
        _, a = g["handled"][0]
        it.c.check("with its event and the tab's own state", And(a[0] is event, a[2] is states[which]))
        answer = g["answer"]
        it.c.check("the answer is under the tab's name", eqv(it, out, MDict([[which, answer]] if answer.pairs else [])))
        data = MDict([["n", it.c.sym("int", "n")]])
        it.c.check("a tab can send", call(it, a[1], data).ok)
        it.c.check("what a tab sends goes to its own name", And(len(sent) == 1, eqv(it, sent[0], MDict([["ui", MDict([[which, data]])]]))))
        it.c.check("a tab has one way to send", call(it, method(c, "tab_sender"), which).value is a[1])
        cover(it, "handled")
    else:
        it.c.check("anything else is not handled", And(not g["handled"], not out.pairs, not sent))
        cover(it, "not handled")


def v_create(it):
    """Tabs and connections share nothing."""
    a, b = call(it, TabState.create), call(it, TabState.create)
    it.c.check("a state is created", And(a.ok, b.ok, a.value is not b.value))
    it.c.check("a tab isn't shown at first", a.value.attrs["shown"] is False)
    for k in ("points", "primitives", "callbacks", "latest_ui_values", "_loggers", "tab_logger"):
        it.c.check("states share nothing", it.getattr(a.value, k) is not it.getattr(b.value, k))
        if k != "tab_logger":
            it.c.check("a new state is empty", it.truth(it.getattr(a.value, k)) is False)
    cover(it, "return")


def cfg_create(cfg):
    base_cfg(cfg)
    cfg.model(TS.ListLogger.create.__func__ if hasattr(TS.ListLogger.create, "__func__") else TS.ListLogger.create, lambda it, a, kw: new(it, Logs, some=False), "ListLogger.create")


T = "runtimepy.net.server.app.env.tab.message:ChannelEnvironmentTabMessaging"
S = "runtimepy.net.server.websocket.state:TabState"
W = "runtimepy.net.server.websocket:RuntimepyWebsocketConnection"
K = dict(branch_ms=500, budget_s=200, max_paths=20000)
CONTRACTS = [
    Unit("a tab is shown", T + ".handle_shown_state", lambda it: v_shown(it, True), cfg_shown, covers=("shown",), **K),
    Unit("a tab is hidden", T + ".handle_shown_state", lambda it: v_shown(it, False), cfg_shown, covers=("hidden",), **K),
    Unit("a change is observed", T + "._setup_callback", v_observe, cfg_shown, covers=("return",), **K),
    Unit("messages of a tab", T + ".handle_message", v_message, cfg_message, covers=("return",), **K),
    Unit("a tab is initialized", T + ".handle_init", v_init, cfg_message, covers=("return",), **K),
    Unit("a frame of a tab", S + ".frame", v_frame, cfg_shown, covers=("return",), **K),
    Unit("telemetry is cleared", S + ".clear_telemetry", lambda it: v_clear(it, "telemetry"), cfg_shown, covers=("return",), **K),
    Unit("loggers are cleared", S + ".clear_loggers", lambda it: v_clear(it, "loggers"), cfg_shown, covers=("return",), **K),
    Unit("a new state", S + ".create", v_create, cfg_create, covers=("return",), **K),
    Unit("connections are counted", W + "._get_ui", v_get_ui, cfg_conn, covers=("return",), **K),
    Unit("the interface is polled", W + "._poll_ui_state", v_poll, cfg_conn, covers=("polled", "not polled"), **K),
    Unit("a frame of a connection", W + "._register_handlers", v_ui_frame, cfg_conn, covers=("return",), **K),
    Unit("a message of a client", W + "._register_handlers", v_ui_message, cfg_conn, covers=("handled", "not handled"), **K),
]
