"""C24: what a configuration declares is what gets registered."""
from contracts.common import *
import asyncio
import socket
import sys
from contracts.C15 import Log, zb
from contracts.C19 import ctx
from runtimepy.net.arbiter import config as AC
from runtimepy.net.arbiter import imports as AM
from runtimepy.net.arbiter.base import BaseConnectionArbiter
from runtimepy.net.arbiter.config import ConfigConnectionArbiter
from runtimepy.net.arbiter.config import codec as CC
from runtimepy.net.arbiter.config import util as CU
from runtimepy.net.arbiter.config.codec import ConnectionArbiterConfig
from runtimepy.net.arbiter.factory import connection as FC
from runtimepy.net.arbiter.factory import task as FT
from runtimepy.net.arbiter.factory.connection import ConnectionFactory, FactoryConnectionArbiter
from runtimepy.net.arbiter.imports import ImportConnectionArbiter
from runtimepy.net.arbiter.imports import util as IU
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.task import TaskFactory
from runtimepy.subprocess.peer import RuntimepyPeer
import vcorelib.names as VN


# -- ports
class Host:
    """A host and a port."""


def cfg_ports(cfg):
    base_cfg(cfg)
    cfg.method_override = True


def v_ports(it):
    """Every declared port is one number, asked for once."""
    n = it.c.choose(3)
    override = it.c.choose(2) if n else 0  # of the first
    names = ["a", "b"][:n]
    ports = [it.c.sym("int", f"port_{x}") for x in names]
    other = it.c.sym("int", "override")
    for p in ports + [other]:
        it.c.assume(z3.And(p.t >= 0, p.t < 65536))
    kinds = [["tcp", "udp"][it.c.choose(2)] for _ in names]
    asked = []

    def norm(it, a, kw):
        return new(it, Host, host=a[0], port=a[1])

    def free(it, a, kw):
        local = kw.get("local", a[0] if a else None)
        kind = kw.get("kind", a[1] if len(a) > 1 else socket.SOCK_STREAM)
        got = it.c.sym("int", "free_port", inp=False)
        it.c.assume(z3.And(got.t > 0, got.t < 65536))
        it.c.assume(z3.Implies(it.term(local.attrs["port"], "int") != 0, got.t == it.term(local.attrs["port"], "int")))
        asked.append((local.attrs["host"], local.attrs["port"], kind, got))
        return new(it, Host, port=got)

    it.cfg.model(CC.normalize_host, norm, "normalize_host")
    it.cfg.model(CC._Path, lambda it, a, kw: ("path", a[0]), "pathlib.Path")
    it.cfg.model(CC.get_free_socket_name, free, "get_free_socket_name")
    items = [MDict([["name", x], ["type", k], ["host", "h" + x], ["port", p]]) for x, k, p in zip(names, kinds, ports)]
    extra = [[x, MList(items=[x])] for x in ("factories", "clients", "servers", "tasks", "structs", "processes")][: 6 * it.c.choose(2)]
    data = MDict([["ports", MList(items=list(items))]] + ([["port_overrides", MDict([["a", other], ["z", 1]])]] if override else []) + [list(x) for x in extra])
    c = new(it, ConnectionArbiterConfig)
    o = call(it, method(c, "init"), data)
    want = [other if (override and x == "a") else p for x, p in zip(names, ports)]
    it.c.check("every port is asked for once, as declared or overridden", And(o.ok, len(asked) == n, *[And(h == "h" + x, it.term(p, "int") == w.t, k == {"tcp": socket.SOCK_STREAM, "udp": socket.SOCK_DGRAM}[kd]) for (h, p, k, _), x, w, kd in zip(asked, names, want, kinds)]))
    got = c.attrs["ports"]
    it.c.check("what was found is the number of the name", And(len(got.pairs) == n, *[zb(it.eq(it.dict_lookup(got, x)[1] if isinstance(it.dict_lookup(got, x), tuple) else it.dict_lookup(got, x), a[3])) for x, a in zip(names, asked)]))
    it.c.check("the configuration shows it as well", And(*[zb(it.eq(it.getitem(d, "port"), a[3])) for d, a in zip(items, asked)]))
    for x in ("factories", "clients", "servers", "tasks", "structs", "processes"):
        v = c.attrs[x]
        it.c.check("everything that is declared is there", list(it.to_items(v)) == ([x] if extra else []))
    it.c.check("the data is kept", c.attrs["data"] is data)
    cover(it, "return")


# -- processing
class Arb(ConfigConnectionArbiter):
    """An arbiter whose factories have contracts."""


KINDS = ["factories", "clients", "servers", "tasks", "structs", "processes"]


def cfg_process(cfg):
    base_cfg(cfg)
    cfg.method_override = True

    def rec(name, coro=False):
        def f(it, a, kw):
            g = it.c.ghost
            ok = it.c.sym("bool", f"{name}_registered", inp=False)
            g["log"].append((name, [x for x in a[1:]], dict(kw), ok))
            return CoroVal(lambda: ok, name) if coro else ok
        return f

    cfg.model(ImportConnectionArbiter.register_module_factory, rec("factories"), "register_module_factory")
    cfg.model(FactoryConnectionArbiter.factory_client, rec("clients", True), "factory_client")
    cfg.model(FactoryConnectionArbiter.factory_server, rec("servers", True), "factory_server")
    cfg.model(FT.TaskConnectionArbiter.factory_task, rec("tasks"), "factory_task")
    cfg.model(ImportConnectionArbiter.factory_struct, rec("structs"), "factory_struct")
    cfg.model(ImportConnectionArbiter.factory_process, rec("processes"), "factory_process")

    def apps(it, a, kw):
        g = it.c.ghost
        g["log"].append(("apps", list(a), dict(kw), None))
        return MList(items=[a[0]] if a[0] is not None else [])

    cfg.model(AC.get_apps, apps, "get_apps")


def v_process(it):
    g = it.c.ghost
    g["log"] = []
    port = it.c.sym("int", "port")
    it.c.assume(z3.And(port.t > 0, port.t < 65536))
    ports = MDict([["p", port]])
    what = it.c.choose(7)  # one kind with up to two entries, or one of each
    count = {k: (1 if what == 6 else 0) for k in KINDS}
    if what < 6:
        count[KINDS[what]] = 1 + it.c.choose(2)
    opt = it.c.choose(2)  # optional entries are given
    given = [("local_addr", "remote_addr"), ("remote_addr",), ("remote_addr", "local_addr")][it.c.choose(3)] if opt else ()
    same_name = it.c.choose(2) if count["factories"] == 2 else 0

    def args():
        return MList(items=["$p", "h:$p", "x", 3])

    def kwargs():
        addrs = {k: [k, MList(items=["h", "$p"])] for k in ("local_addr", "remote_addr")}
        return MDict([["port", "$p"]] + [addrs[k] for k in given] + [["text", "$q"], ["deep", MDict([["in", MList(items=["$p", MDict([["at", "$p"]])])]])]])

    cfgs = [MDict([["c", i]]) for i in range(2)]
    timing = [(it.c.sym("real", f"period {i}"), it.c.sym("int", f"depth {i}")) for i in range(2)]
    for p, d in timing:
        it.c.assume(z3.And(p.t > 0, d.t >= 1))
    decl = {
        "factories": [[["name", "m.F" if same_name else f"m.F{i}"]] + ([["namespaces", MList(items=["n1", "n2"])], ["kwargs", MDict([["port", "$p"]])]] if opt else []) for i in range(2)],
        "clients": [[["name", f"c{i}"], ["factory", f"f{i}"], ["defer", bool(i)]] + ([["args", args()], ["kwargs", kwargs()], ["markdown", "md"]] if opt else []) for i in range(2)],
        "servers": [[["factory", f"f{i}"]] + ([["args", args()], ["kwargs", kwargs()]] if opt else []) for i in range(2)],
        "tasks": [[["name", f"t{i}"], ["factory", f"f{i}"], ["period_s", timing[i][0]], ["average_depth", timing[i][1]]] + ([["markdown", "md"], ["config", cfgs[i]]] if opt else []) for i in range(2)],
        "structs": [[["name", f"s{i}"], ["factory", f"f{i}"]] + ([["config", cfgs[i]]] if opt else []) for i in range(2)],
        "processes": [[["name", f"p{i}"], ["factory", f"f{i}"], ["program", "m.prog"]] + ([["config", cfgs[i]]] if opt else []) for i in range(2)],
    }
    lists = {k: [MDict(x) for x in decl[k][: count[k]]] for k in KINDS}
    default_apps = MList(items=["default"])
    own = MDict([["x", 1]]) if it.c.choose(2) else None
    app = "m.app" if it.c.choose(2) else None
    wait = it.c.sym("bool", "wait_for_stop")
    root = MDict([])
    old = MDict([["root", root]])
    conf = new(it, ConnectionArbiterConfig, ports=ports, app=app, inits="m.init", config=own, **{k: MList(items=list(v)) for k, v in lists.items()})
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _config=old, _apps=default_apps, _inits=MList(items=["before"] * it.c.choose(2)), _ports=MDict([]))
    o = acall(it, method(a, "process_config"), conf, wait_for_stop=wait)

    want = []
    for k in KINDS:
        for i in range(count[k]):
            if k == "factories" and same_name and i:
                continue
            want.append((k, i))
    calls = [x for x in g["log"] if x[0] != "apps"]
    oks = [x[3].t for x in calls]
    # everything until the first refusal
    it.c.check("what is declared is registered, kind by kind, in order", And([x[0] for x in calls] == [k for k, _ in want][: len(calls)], *[t for t in oks[:-1]]))
    it.c.check("a refusal is an error, nothing else is", z3.BoolVal(o.ok) == z3.And(z3.BoolVal(len(calls) == len(want)), *oks))
    it.c.check("the error is an assertion", o.ok or o.exc.cls is AssertionError)

    def is_args(vs, fixed):
        vs = list(vs)
        if len(vs) != 4:
            return False
        h = vs[1] if not isinstance(vs[1], Sym) else None
        second = zb(it.eq(vs[1], it.call(host_port, [port]))) if fixed else zb(h == "h:$p")
        return And(zb(it.eq(vs[0], port)), second, vs[2] == "x", vs[3] == 3)

    def is_kwargs(kw, fixed):
        conds = [zb(it.eq(kw.get("port"), port)), kw.get("text") == "$q", set(kw) == {"port", "text", "deep", *given}]
        for k in given:
            la = kw.get(k)
            if la is None:
                return False
            items = list(it.to_items(la))
            conds += [isinstance(la, tuple) if fixed else True, len(items) == 2, items[0] == "h", zb(it.eq(items[1], port))]
        inner = list(it.to_items(it.getitem(kw["deep"], "in"))) if "deep" in kw else []
        conds += [len(inner) == 2] + ([zb(it.eq(inner[0], port)), zb(it.eq(it.getitem(inner[1], "at"), port))] if len(inner) == 2 else [])
        return And(*conds)

    for (k, pos, kw, _), (_, i) in zip(calls, want):
        if k == "factories":
            name = "m.F" if same_name else f"m.F{i}"
            it.c.check("factories get their namespaces and arguments", And(pos == ([name, "n1", "n2"] if opt else [name]), zb(it.eq(kw["port"], port)) if opt and "port" in kw else not opt and not kw))
        elif k == "clients":
            rest = {x: y for x, y in kw.items() if x not in ("defer", "markdown")}
            it.c.check("clients get their factory, name and arguments", And(pos[:2] == [f"f{i}", f"c{i}"], is_args(pos[2:], True) if opt else len(pos) == 2, is_kwargs(rest, True) if opt else not rest))
            it.c.check("and are deferred as declared, with their documentation", And(kw.get("defer", False) is bool(i), kw.get("markdown") == ("md" if opt else None)))
        elif k == "servers":
            it.c.check("servers get their factory and arguments", And(pos[:1] == [f"f{i}"], is_args(pos[1:], False) if opt else len(pos) == 1, is_kwargs(kw, False) if opt else not kw))
        elif k == "tasks":
            full = dict(zip(("factory", "name", "period_s"), pos)) | kw
            it.c.check("tasks get their factory, name, period and configuration", And(full.get("factory") == f"f{i}" and full.get("name") == f"t{i}" and full.get("markdown") == ("md" if opt else None) and full.get("config") is (cfgs[i] if opt else None), *[zb(it.eq(full[k], v)) if k in full else False for k, v in zip(("period_s", "average_depth"), timing[i])]))
        elif k == "structs":
            full = dict(zip(("factory", "name", "config"), pos)) | kw
            c = full.get("config")
            it.c.check("structs get their factory, name and configuration", full.get("factory") == f"f{i}" and full.get("name") == f"s{i}" and (c is cfgs[i] if opt else isinstance(c, MDict) and not c.pairs))
        else:
            full = dict(zip(("factory", "name", "top_level"), pos)) | kw
            it.c.check("processes get their factory, name and declaration", full.get("factory") == f"f{i}" and full.get("name") == f"p{i}" and full.get("top_level") is lists["processes"][i])
    if not o.ok:
        cover(it, "refused")
        return
    asked = [x for x in g["log"] if x[0] == "apps"]
    it.c.check("initialization and application are those declared", len(asked) == 2 and asked[0][1][0] == "m.init" and asked[1][1][0] is app or len(asked) == 2 and asked[1][1][0] == app)
    it.c.check("only the application waits for the stop signal", zb(it.eq(asked[1][2].get("wait_for_stop", False), wait)) if "wait_for_stop" in asked[1][2] else wait.t == False)  # noqa: E712
    it.c.check("initialization ends by itself", asked[0][2].get("wait_for_stop", False) is False and len(asked[0][1]) == 1)
    it.c.check("they are kept", And(list(it.to_items(a.attrs["_inits"])) == ["m.init"], list(it.to_items(a.attrs["_apps"])) == (["m.app"] if app else ["default"])))
    it.c.check("ports are known by name", zb(it.eq(it.getitem(a.attrs["_ports"], "p"), port)))
    final = a.attrs["_config"]
    it.c.check("the application's own configuration is used, with everything else as its root", And(final is (own if own is not None else old), it.getitem(final, "root") is root))
    cover(it, "return")


def host_port(port):
    return f"h:{port}"


# -- applications
class Other:
    """Neither a factory nor anything a factory makes."""

    def __init__(self):
        self.made = True


class Module:
    """A module's methods are texts here."""


def cfg_apps(cfg):
    base_cfg(cfg)

    def imp(it, a, kw):
        return new(it, Module, **{x: a[0] + "." + x for x in ("a", "b", "wait_for_stop")})

    cfg.model(IU._import_module, imp, "importlib.import_module")


APPS = [(None, []), ("m.a", [["m.a"]]), ([], []), (["m.a", "k.n.b"], [["m.a"], ["k.n.b"]]), (["m.b", ["m.a", "k.n.a"], "m.a"], [["m.b"], ["m.a", "k.n.a"], ["m.a"]]), ([["m.a"]], [["m.a"]])]


def v_apps(it):
    given, want = APPS[it.c.choose(len(APPS))]
    wait = it.c.choose(2)

    def conv(x):
        return MList(items=[conv(y) for y in x]) if isinstance(x, list) else x
    o = call(it, IU.get_apps, conv(given), wait_for_stop=bool(wait)) if it.c.choose(2) or wait else call(it, IU.get_apps, conv(given))
    want = want + ([["runtimepy.net.apps.wait_for_stop"]] if wait else [])
    got = [list(it.to_items(x)) for x in it.to_items(o.value)] if o.ok else None
    it.c.check("every stage has its applications, in order; waiting comes last", got == want)
    cover(it, "return")


# -- factories
class AFactory(ConnectionFactory):
    """A factory of connections."""

    def __init__(self):
        self.made = True


class BTask(TaskFactory):
    """A factory of tasks."""

    def __init__(self):
        self.made = True


class SomeStruct(RuntimeStruct):
    """A struct."""


class SomePeer(RuntimepyPeer):
    """A peer."""


def cfg_factory(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.model(VN.to_snake, lambda it, a, kw: VN.to_snake(*a, **kw), "to_snake")


REG = {
    "connection": ("_conn_factories", "_conn_names", "register_connection_factory"),
    "task": ("_task_factories", "_task_names", "register_task_factory"),
    "struct": ("_struct_factories", "_struct_names", "register_struct_factory"),
    "peer": ("_peer_factories", "_peer_names", "register_peer_factory"),
}


def v_register(it, kind):
    """A factory is known by its name and its snake-case name, once."""
    cls = {"connection": AFactory, "task": BTask, "struct": SomeStruct, "peer": SomePeer}[kind]
    made, names, reg = REG[kind]
    camel = cls.__name__
    snake = VN.to_snake(camel)
    other = new(it, cls, x=1)
    taken = [[], [camel], [snake], [camel, snake], ["Other"]][it.c.choose(5)]
    d = MDict([[k, other] for k in taken])
    n = MDict([[other, MList(items=["old"])]] if taken else [])
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), **{made: d, names: n})
    f = cls if kind in ("struct", "peer") else new(it, cls)
    spaces = ["n1", "n2"][: it.c.choose(3)]
    o = call(it, method(a, reg), f, *spaces)
    free = not {camel, snake} & set(taken)
    it.c.check("a factory is registered if and only if neither of its names is in use", And(o.ok, o.value is free))
    d, n = a.attrs[made], a.attrs[names]
    now = {k: v for k, v in map(tuple, d.pairs)}
    it.c.check("factories that are known stay", all(now.get(k) is other for k in taken) and (not taken or any(k is other and list(it.to_items(v)) == ["old"] for k, v in map(tuple, n.pairs))))
    it.c.check("it's found by both of its names", not free or (now.get(camel) is f and now.get(snake) is f and len(now) == len(taken) + 2))
    it.c.check("its namespace is kept", not free or any(k is f and list(it.to_items(v)) == spaces for k, v in map(tuple, n.pairs)))
    it.c.check("a refusal changes nothing", free or (len(now) == len(taken) and len(n.pairs) == 1))
    cover(it, "return")


def v_client(it):
    """A client is made by its factory and registered in its namespace."""
    log = []
    conn = new(it, object, kind="conn")
    conn.tag = "conn"

    def make(it, a, kw):
        log.append(("made", list(a), dict(kw)))
        def run():
            log.append(("connected",))
            return conn
        return CoroVal(run, "client")

    f = new(it, AFactory, client=Prim(make, "client"))
    e = new(it, AFactory, client=Prim(lambda it, a, kw: it.throw(KeyError, "wrong factory"), "client"))
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _conn_factories=MDict([["other", e], ["f", f]]), _conn_names=MDict([[e, MList(items=["wrong"])], [f, MList(items=["n1", "n2"][: it.c.choose(3)])]]))
    spaces = list(it.to_items(a.attrs["_conn_names"].pairs[1][1]))
    ok = it.c.sym("bool", "registered")
    a.attrs["register_connection"] = Prim(lambda it, x, kw: log.append(("registered", list(x), dict(kw))) or ok, "register_connection")
    defer = it.c.choose(3)
    name = ["f", "unknown"][it.c.choose(2)]
    kw = {"defer": bool(defer)} if defer < 2 else {}
    o = acall(it, method(a, "factory_client"), name, "c", 1, "x", k=2, **kw)
    if name == "unknown":
        it.c.check("an unknown factory makes nothing", And(o.ok, o.value is False, not log))
        cover(it, "unknown")
        return
    later = kw.get("defer", False)
    it.c.check("a client is made once, as declared", len(log) == (2 if later else 3) and log[0] == ("made", ["c", 1, "x"], {"k": 2}))
    last = log[-1]
    it.c.check("it's registered once, by its name, in the namespace of its factory", last[0] == "registered" and last[1][1:] == spaces + ["c"] and not last[2])
    it.c.check("deferred clients connect later, others before", isinstance(last[1][0], CoroVal) if later else last[1][0] is conn and log[1] == ("connected",))
    it.c.check("the result is that of registration", And(o.ok, zb(it.truth(o.value)) == ok.t))
    cover(it, "return")


def v_server(it):
    log = []
    task = CoroVal(lambda: None, "server")

    def make(it, a, kw):
        log.append((list(a), dict(kw)))
        return CoroVal(lambda: task, "server_task")

    f = new(it, AFactory, server_task=Prim(make, "server_task"))
    created = []
    it.cfg.model(FC._asyncio.create_task, lambda it, a, kw: created.append(a[0]) or "the task", "asyncio.create_task")
    stop, sem, man = new(it, Log), new(it, Log), new(it, Log)
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _conn_factories=MDict([["f", f]]), _servers=MList(items=["old"]), stop_sig=stop, manager=man, _servers_started=sem)
    name = ["f", "unknown"][it.c.choose(2)]
    o = acall(it, method(a, "factory_server"), name, 1, "x", k=2)
    servers = list(it.to_items(a.attrs["_servers"]))
    if name == "unknown":
        it.c.check("an unknown factory serves nothing", And(o.ok, o.value is False, not log, servers == ["old"]))
        cover(it, "unknown")
        return
    it.c.check("a server is made once, as declared", And(o.ok, o.value is True, len(log) == 1, len(created) == 1, created[0] is task))
    p = log[0][0]
    it.c.check("with the application's stop signal, connections and start signal", len(p) == 5 and p[0] is stop and p[1] is man and p[2] is sem and p[3:] == [1, "x"] and log[0][1] == {"k": 2})
    it.c.check("its task is kept", servers == ["old", "the task"])
    cover(it, "return")


def v_task(it):
    """A task is made and registered with its period."""
    log = []
    made = new(it, object)
    kind = Prim(lambda it, a, kw: log.append(("made", list(a), dict(kw))) or made, "kind")
    ok = it.c.sym("bool", "registered")
    man = new(it, Man, reg=Prim(lambda it, a, kw: log.append(("registered", list(a), dict(kw))) or ok, "register"))
    f = new(it, BTask, kind=kind)
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _task_factories=MDict([["f", f]]), task_manager=man)
    name = ["f", "unknown"][it.c.choose(2)]
    o = call(it, method(a, "factory_task"), name, "t", period_s=2, average_depth=5)
    if name == "unknown":
        it.c.check("an unknown factory makes no task", And(o.ok, o.value is False, not log))
        cover(it, "unknown")
        return
    it.c.check("a task is made once, as declared", len(log) == 2 and log[0] == ("made", ["t"], {"average_depth": 5}))
    it.c.check("it's registered once with its period", len(log) == 2 and log[1][1][0] is made and (log[1][2].get("period_s") if len(log[1][1]) == 1 else log[1][1][1]) == 2)
    it.c.check("the result is that of registration", And(o.ok, zb(it.truth(o.value)) == ok.t))
    cover(it, "return")


class Man:
    def register(self, *a, **kw):
        return self.reg(*a, **kw)


def v_struct(it):
    log = []
    made = new(it, object)
    kind = Prim(lambda it, a, kw: log.append((list(a), dict(kw))) or made, "kind")
    name = ["s", "old"][it.c.choose(2)]
    fact = ["f", "unknown"][it.c.choose(2)]
    conf = MDict([["c", 1]])
    old = new(it, object)
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _struct_factories=MDict([["f", kind]]), _structs=MDict([["old", old]]))
    o = call(it, method(a, "factory_struct"), fact, name, conf)
    now = dict(map(tuple, a.attrs["_structs"].pairs))
    good = name == "s" and fact == "f"
    it.c.check("a struct is made if and only if its factory is known and its name is new", And(o.ok, o.value is good, len(log) == int(good)))
    it.c.check("structs that exist stay", now.get("old") is old and len(now) == 1 + int(good))
    it.c.check("it's made as declared and found by its name", not good or (now.get("s") is made and len(log[0][0]) == 2 and log[0][0][0] == "s" and log[0][0][1] is conf))
    cover(it, "return")


def v_peer(it):
    kind = new(it, object)
    name = ["s", "old"][it.c.choose(2)]
    fact = ["f", "unknown"][it.c.choose(2)]
    conf = MDict([["c", 1]])
    old = ("k", "old", None, "m.x", None)
    opt = it.c.choose(2)
    top = MDict([["program", "m.prog"]] + ([["config", conf], ["markdown", "md"]] if opt else []))
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _peer_factories=MDict([["f", kind]]), _peers=MDict([["old", old]]))
    o = call(it, method(a, "factory_process"), fact, name, top)
    now = dict(map(tuple, a.attrs["_peers"].pairs))
    good = name == "s" and fact == "f"
    it.c.check("a process is registered if and only if its factory is known and its name is new", And(o.ok, o.value is good))
    it.c.check("processes that exist stay", now.get("old") is old and len(now) == 1 + int(good))
    p = now.get("s")
    it.c.check("it has its kind, name, configuration, program and documentation", not good or (len(p) == 5 and p[0] is kind and p[1] == "s" and (p[2] is conf if opt else isinstance(p[2], MDict) and not p[2].pairs) and p[3] == "m.prog" and p[4] == ("md" if opt else None)))
    cover(it, "return")


def v_module(it):
    """A factory is registered by what it is."""
    which = ["struct", "peer", "connection", "task", "other"][it.c.choose(5)]
    cls = {"struct": SomeStruct, "peer": SomePeer, "connection": AFactory, "task": BTask, "other": Other}[which]
    it.cfg.model(AM._import_module, lambda it, a, kw: new(it, Module, Factory=cls) if a[0] == "some.module" else it.throw(ImportError, a[0]), "importlib.import_module")
    ok = it.c.sym("bool", "registered")
    log = []
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log))
    for k, (_, _, reg) in REG.items():
        a.attrs[reg] = Prim(lambda it, x, kw, k=k: log.append((k, list(x), dict(kw))) or ok, reg)
    if which in ("connection", "task"):
        o = call(it, method(a, "register_module_factory"), "some.module.Factory", "n1", "n2")
        it.c.check("a factory is registered once, as what it is, in its namespace", And(o.ok, len(log) == 1, log[0][0] == which, isinstance(log[0][1][0], SObj) and log[0][1][0].cls is cls, log[0][1][1:] == ["n1", "n2"]))
        it.c.check("the result is that of registration", zb(it.truth(o.value)) == ok.t)
    elif which == "other":
        o = call(it, method(a, "register_module_factory"), "some.module.Factory")
        it.c.check("anything else is refused", And(o.ok, o.value is False, not log))
    else:
        it.c.assume(ok.t)  # a refused class is instantiated to find out what it makes
        o = call(it, method(a, "register_module_factory"), "some.module.Factory", "n1", "n2")
        it.c.check("a kind of struct or peer is registered once, in its namespace", And(o.ok, len(log) == 1, log[0][0] == which, log[0][1][0] is cls, log[0][1][1:] == ["n1", "n2"]))
        it.c.check("the result is that of registration", zb(it.truth(o.value)) == ok.t)
    cover(it, "return")


# -- loading
class File:
    """A file that was found; two of them may be the same."""

    def resolve(self):
        return self.real


class Time:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def cfg_load(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    g = {}
    cfg.g = g

    def find(it, a, kw):
        g = it.c.ghost
        pkg = kw.get("package")
        key = (a[0], pkg)
        g["asked"].append(key)
        if pkg is None and not kw.get("include_cwd", False):
            g["bad"].append(key)
        real = g["files"].get(key)
        return None if real is None else new(it, File, real=real, key=key)

    def decode(it, a, kw):
        g = it.c.ghost
        g["decoded"].append((a[1].attrs["real"], kw.get("includes_key"), kw.get("require_success")))
        return new(it, Data, data=MDict([["from", a[1].attrs["real"]]]))

    def merge(it, a, kw):
        g = it.c.ghost
        g["merged"].append((a[0], it.getitem(a[1], "from")))
        it.dict_set(a[0], f"data {len(g['merged'])}", 1)
        return a[0]

    cfg.model(AC.find_file, find, "find_file")
    cfg.model(type(AC._ARBITER).decode, decode, "DataArbiter.decode")
    cfg.model(AC._merge, merge, "merge")
    cfg.model(AC._normalize, lambda it, a, kw: new(it, Norm, parent=f"dir of {a[0]}", text=a[0]), "normalize")
    cfg.model(AC._addsitedir, lambda it, a, kw: it.c.ghost["site"].append(a[0]), "addsitedir")
    cfg.model(AC.handle_config_builders, lambda it, a, kw: it.c.ghost["log"].append(("build", a[0], len(a[0].pairs))), "handle_config_builders")
    cfg.model(ConnectionArbiterConfig, lambda it, a, kw: new(it, Conf, given=kw["data"] if "data" in kw else a[0]), "ConnectionArbiterConfig")
    cfg.model(ConfigConnectionArbiter.process_config, lambda it, a, kw: CoroVal(lambda: it.c.ghost["log"].append(("process", a[1], kw.get("wait_for_stop", a[2] if len(a) > 2 else False), it.getitem(a[0].attrs["_config"], "root"))), "process"), "process_config")


class Sys:
    """The sys module."""


class Data:
    """What a file has."""


class Conf:
    """A configuration that was made."""


class Norm:
    """A path."""

    def resolve(self):
        return self

    def __str__(self):
        return self.text


LOADS = [
    # (paths, files, what is read, where it's looked for)
    ([], {}, [], []),
    (["x"], {("x", None): 1}, [1], [("x", None)]),
    (["x"], {("x.yaml", "p"): 1}, [1], [("x", None), ("x.yaml", "p")]),
    (["x"], {("x.yaml", "q"): 1}, [1], [("x", None), ("x.yaml", "p"), ("x.yaml", "q")]),
    (["x"], {("x.yaml", "q"): 2, ("x.yaml", "p"): 1}, [1], [("x", None), ("x.yaml", "p")]),
    (["x"], {("x", None): 3, ("x.yaml", "q"): 2, ("x.yaml", "p"): 1}, [3], [("x", None)]),
    (["x", "y"], {("x", None): 1, ("y", None): 2}, [1, 2], [("x", None), ("y", None)]),
    (["x", "y"], {("x", None): 1, ("y.yaml", "p"): 1}, [1], [("x", None), ("y", None), ("y.yaml", "p")]),
    (["x", "x", "y"], {("x", None): 1, ("y", None): 2}, [1, 2], [("x", None), ("x", None), ("y", None)]),
    (["x", "y", "x"], {("x", None): 1, ("y", None): 2}, [1, 2], [("x", None), ("y", None), ("x", None)]),
    (["x", "y"], {("x", None): 1}, None, [("x", None), ("y", None), ("y.yaml", "p"), ("y.yaml", "q")]),
    (["y"], {("x", None): 1}, None, [("y", None), ("y.yaml", "p"), ("y.yaml", "q")]),
]


def v_load(it):
    """Every file is read once, in order, from where it's found first."""
    g = it.c.ghost
    paths, files, want, where = LOADS[it.c.choose(len(LOADS))]
    g.update(asked=[], bad=[], decoded=[], merged=[], site=[], log=[], files=files)
    wait = it.c.sym("bool", "wait_for_stop")
    it.cfg.overrides[id(sys)] = new(it, Sys, path=MList(items=["here"]))
    a = new(it, ConfigConnectionArbiter, logger=new(it, Log), _config=MDict([["mine", 1]]), search_packages=MList(items=["p", "q"]))
    o = acall(it, method(a, "load_configs"), MList(items=list(paths)), wait_for_stop=wait)
    it.c.check("a path is looked for as it is, then in every search package, in order", And(g["asked"] == where, not g["bad"]))
    it.c.check("a file that can't be found is an error", And(o.ok is (want is not None), o.ok or o.exc.cls is AssertionError))
    if want is None:
        it.c.check("and nothing is processed", not g["log"])
        cover(it, "missing")
        return
    it.c.check("every file is read once, in order, with the files it includes", [x[0] for x in g["decoded"]] == want and all(x[1] == "includes" and x[2] is True for x in g["decoded"]))
    made = g["log"][-1][1].attrs["given"]
    it.c.check("all that was read is merged in order", And([x[1] for x in g["merged"]] == want, all(x[0] is made for x in g["merged"])))
    it.c.check("the merged data is built, then processed once", And([x[0] for x in g["log"]] == ["build", "process"], g["log"][0][1] is made, g["log"][0][2] == len(made.pairs), zb(it.eq(g["log"][1][2], wait))))
    root = g["log"][1][3]
    it.c.check("it's the root of the application's configuration", root is made)
    it.c.check("modules beside every file are found", all(f"dir of {x}" in g["site"] for x in paths))
    cover(it, "return")


# -- search packages
def v_search(it):
    """Packages are searched once each, those added in front first."""
    it.cfg.method_override = True
    cur = [[], ["a"], ["a", "b"]][it.c.choose(3)]
    name = ["a", "c-d", "e"][it.c.choose(3)]
    front = [None, True, False][it.c.choose(3)]
    l = MList(items=list(cur))
    cls = new(it, Packages, search_packages=l)
    kw = {} if front is None else {"front": front}
    o = call(it, Bound(ConfigConnectionArbiter.__dict__["add_search_package"].__func__, cls), name, **kw)
    norm = name.replace("-", "_")
    now = list(it.to_items(cls.attrs["search_packages"]))
    want = cur if norm in cur else ([norm] + cur if front in (None, True) else cur + [norm])
    it.c.check("a package is searched once; before all others if added in front, else after them", And(o.ok, now == want))
    cover(it, "return")


class Packages:
    """Stands for the class."""


K = dict(branch_ms=400)
P = "runtimepy.net.arbiter"
F = P + ".factory.connection:FactoryConnectionArbiter."
M = P + ".imports:ImportConnectionArbiter."
CONTRACTS = [
    Unit("ports", P + ".config.codec:ConnectionArbiterConfig.init", v_ports, cfg_ports, **K),
    Unit("process a configuration", P + ".config:ConfigConnectionArbiter.process_config", v_process, cfg_process, covers=("return", "refused"), **K),
    Unit("applications", P + ".imports.util:get_apps", v_apps, cfg_apps, **K),
    *[Unit(f"register a factory: {k}", (F if k == "connection" else P + ".factory.task:TaskConnectionArbiter." if k == "task" else M) + REG[k][2], (lambda k: lambda it: v_register(it, k))(k), cfg_factory, **K) for k in REG],
    Unit("make a client", F + "factory_client", v_client, cfg_factory, covers=("return", "unknown"), **K),
    Unit("make a server", F + "factory_server", v_server, cfg_factory, covers=("return", "unknown"), **K),
    Unit("make a task", P + ".factory.task:TaskConnectionArbiter.factory_task", v_task, cfg_factory, covers=("return", "unknown"), **K),
    Unit("make a struct", M + "factory_struct", v_struct, cfg_factory, **K),
    Unit("make a process", M + "factory_process", v_peer, cfg_factory, **K),
    Unit("register by import", M + "register_module_factory", v_module, cfg_factory, **K),
    Unit("load files", P + ".config:ConfigConnectionArbiter.load_configs", v_load, cfg_load, covers=("return", "missing"), **K),
    Unit("search packages", P + ".config:ConfigConnectionArbiter.add_search_package", v_search, base_cfg, **K),
]
