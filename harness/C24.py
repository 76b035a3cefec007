import asyncio
import contextlib
import json
import logging
import os
import sys
import tempfile
import types
from harness.lib import *
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.factory.connection import ConnectionFactory
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory
from runtimepy.net.connection import Connection
from runtimepy.subprocess.peer import RuntimepyPeer

logging.disable(logging.CRITICAL)
h = H()
log = []


class Conn(Connection):
    uses_text_tx_queue = False
    uses_binary_tx_queue = False

    def __init__(self, tag=None):
        super().__init__(logging.getLogger("conn"))
        self.tag = tag
        self.ended = asyncio.Event()

    async def _await_message(self):
        await self.ended.wait()
        return None

    def disable_extra(self):
        self.ended.set()


class BaseFactory(ConnectionFactory):
    def __init__(self, port=None, **kw):
        log.append(("factory", type(self).__name__, port, kw))

    async def client(self, name, *args, **kwargs):
        log.append(("client", type(self).__name__, name, list(args), dict(kwargs)))
        return Conn((type(self).__name__, name))

    async def server_task(self, stop_sig, manager, started_sem, *args, **kwargs):
        log.append(("server", type(self).__name__, list(args), dict(kwargs)))

        async def serve():
            started_sem.release()
            await stop_sig.wait()

        return serve()


class FirstConn(BaseFactory):
    pass


class SecondConn(BaseFactory):
    pass


class Task(ArbiterTask):
    def __init__(self, name, **kwargs):
        super().__init__(name, **kwargs)
        self.asked = kwargs

    async def dispatch(self):
        return True


class SomeTask(TaskFactory):
    kind = Task


class OtherKind(Task):
    pass


class OtherTask(TaskFactory):
    kind = OtherKind


class StructOne(RuntimeStruct):
    def init_env(self):
        log.append(("struct", type(self).__name__, self.name, dict(self.config)))


class StructTwo(StructOne):
    pass


class PeerOne(RuntimepyPeer):
    @classmethod
    @contextlib.asynccontextmanager
    async def running_program(cls, name, config, import_str, *args, **kwargs):
        log.append(("process", cls.__name__, name, config, import_str, list(args), kwargs))

        class Stub:
            struct = None
        yield Stub()


class PeerTwo(PeerOne):
    pass


class Neither:
    pass


mod = types.ModuleType("mod24")
for c in (FirstConn, SecondConn, SomeTask, OtherTask, StructOne, StructTwo, PeerOne, PeerTwo, Neither):
    setattr(mod, c.__name__, c)


def stage(name, kind):
    async def app(info):
        log.append((kind, name))
        if kind == "app":
            snap(info)
        return 0
    return app


seen = {}


def snap(info):
    seen.update(
        conns={k: v.tag for k, v in info.connections.items()},
        tasks={k: (type(v), v.period_s.value, v.asked) for k, v in info.tasks.items() if k != "housekeeping"},
        structs={k: (type(v), v.name, v.config) for k, v in info.structs.items()},
        config=info.config,
        ports=dict(info.ports),
    )


for i in range(4):
    setattr(mod, f"app{i}", stage(i, "app"))
    setattr(mod, f"init{i}", stage(i, "init"))
sys.modules["mod24"] = mod
SNAKE = {"FirstConn": "first_conn", "SecondConn": "second_conn", "SomeTask": "some_task", "OtherTask": "other_task", "StructOne": "struct_one", "StructTwo": "struct_two", "PeerOne": "peer_one", "PeerTwo": "peer_two"}
count = [0]


def write(data, name=None):
    count[0] += 1
    path = os.path.join(os.getcwd(), name or f"c{count[0]}.json")
    with open(path, "w") as f:
        json.dump(data, f)
    return path


async def load(*datas, arb=None, **kw):
    log.clear()
    seen.clear()
    arb = ConnectionArbiter(**(arb or {}))
    await arb.load_configs([write(d) if isinstance(d, dict) else d for d in datas], **kw)
    return arb


def either(rng, name):
    return rng.choice([name, SNAKE[name]])


def subst(x, ports, hosts=False):
    if isinstance(x, str):
        def one(p):
            return ports[p[1:]] if p.startswith("$") and p[1:] in ports else p
        return ":".join(str(one(p)) for p in x.split(":")) if hosts and ":" in x else one(x)
    if isinstance(x, list):
        return [subst(y, ports) for y in x]
    if isinstance(x, dict):
        return {k: subst(v, ports) for k, v in x.items()}
    return x


@h.case
async def declared(h):
    rng = h.rng
    for _ in range(h.n(60)):
        ports = [{"name": n, "type": rng.choice(["tcp", "udp"]), "host": rng.choice(["127.0.0.1", "localhost"]), "port": 0} for n in rng.sample(["p1", "p2", "web"], rng.randrange(4))]
        names = [p["name"] for p in ports]

        def value():
            return rng.choice(["x", 3, None, "$nothing"] + [f"${n}" for n in names])

        def kwargs():
            kw = {k: value() for k in rng.sample(["k1", "k2", "port"], rng.randrange(3))}
            if rng.random() < 0.4:
                for k in rng.sample(["local_addr", "remote_addr"], rng.randint(1, 2)):
                    kw[k] = ["127.0.0.1", value()]
            if rng.random() < 0.3:
                kw["deep"] = {"a": [value(), {"b": value()}]}
            return kw

        factories = [{"name": f"mod24.{n}"} for n in ("FirstConn", "SecondConn", "SomeTask", "OtherTask", "StructOne", "StructTwo", "PeerOne", "PeerTwo")]
        rng.shuffle(factories)
        for f in factories:
            if rng.random() < 0.5:
                f["namespaces"] = rng.sample(["n1", "n2", "n3"], rng.randrange(3))
            if f["name"].endswith("Conn") and names and rng.random() < 0.5:
                f["kwargs"] = {"port": f"${names[0]}"}
        if rng.random() < 0.4:
            factories.append(dict(rng.choice(factories)))
        clients = [{"name": f"c{i}", "factory": either(rng, rng.choice(["FirstConn", "SecondConn"])), "defer": rng.random() < 0.4, "args": [rng.choice([value(), f"h:{value()}", "a:b:c"]) for _ in range(rng.randrange(3))], "kwargs": kwargs()} for i in range(rng.randrange(4))]
        for c in clients:
            if rng.random() < 0.4:
                c["markdown"] = "some words"
        servers = [{"factory": either(rng, rng.choice(["FirstConn", "SecondConn"])), "args": [value()], "kwargs": kwargs()} for i in range(rng.randrange(3))]
        tasks = [{"name": f"t{i}", "factory": either(rng, rng.choice(["SomeTask", "OtherTask"])), "period_s": rng.choice([0.5, 1.25, 2.0]), "config": {"i": i}} for i in range(rng.randrange(4))]
        structs = [{"name": f"s{i}", "factory": either(rng, rng.choice(["StructOne", "StructTwo"])), "config": {"i": i}} for i in range(rng.randrange(4))]
        for x in tasks:
            if rng.random() < 0.5:
                x["average_depth"] = rng.randint(1, 30)
            if rng.random() < 0.5:
                x["markdown"] = "words"
        processes = [{"name": f"p{i}", "factory": either(rng, rng.choice(["PeerOne", "PeerTwo"])), "program": rng.choice(["a.B", "c.d.E"])} for i in range(rng.randrange(3))]
        for x in processes:
            if rng.random() < 0.6:
                x["config"] = {"i": rng.randrange(9)}
            if rng.random() < 0.5:
                x["markdown"] = "words"

        def stages():
            out = []
            for _ in range(rng.randrange(4)):
                out.append(rng.randrange(4) if rng.random() < 0.6 else [rng.randrange(4) for _ in range(rng.randint(1, 4))])
            return out

        def named(xs, kind):
            return [f"mod24.{kind}{x}" if isinstance(x, int) else [f"mod24.{kind}{y}" for y in x] for x in xs]

        def flat(xs):
            return [y for x in xs for y in ([x] if isinstance(x, int) else x)]

        app_stages, init_stages = stages() or [0], stages()
        apps, inits = flat(app_stages), flat(init_stages)
        own = {"mine": rng.randrange(100)} if rng.random() < 0.5 else None
        data = {"ports": ports, "factories": factories, "clients": clients, "servers": servers, "tasks": tasks, "structs": structs, "processes": processes, "app": named(app_stages, "app"), "init": named(init_stages, "init")}
        if len(app_stages) == 1 and isinstance(app_stages[0], int) and rng.random() < 0.5:
            data["app"] = data["app"][0]
        if own:
            data["config"] = own
        # split it across files, which are merged
        parts = [{}, {}]
        for k, v in data.items():
            parts[rng.randrange(2)][k] = v
        parts = parts if rng.random() < 0.5 else [data]
        paths = [write(p) for p in parts]
        want = json.loads(json.dumps(data))
        started = {"before": 1} if rng.random() < 0.5 else {}
        arb = await load(*paths, *([paths[0]] if rng.random() < 0.4 else []), arb={"config": dict(started)})
        early = list(log)
        rc = await asyncio.wait_for(arb.app(), 30)
        h.ev(("cfg", len(clients), len(servers), len(tasks), len(structs), bool(own), len(names)))
        pm = seen.get("ports", {})
        if not h.check(rc == 0 and set(pm) == set(names) and all(0 < p < 65536 for p in pm.values()), "an application runs with the ports that are declared", rc=rc, ports=repr(pm)):
            continue
        spaces = {f["name"].split(".")[1]: f.get("namespaces", []) for f in want["factories"]}
        camel = {v: k for k, v in SNAKE.items()}

        def cls(n):
            return camel.get(n, n)

        uniq = []
        for f in want["factories"]:
            n = f["name"].split(".")[1]
            if n.endswith("Conn") and n not in [u[0] for u in uniq]:
                uniq.append((n, subst(f.get("kwargs", {}).get("port"), pm)))
        h.check([(x[1], x[2]) for x in log if x[0] == "factory"] == uniq, "every factory is made once with its arguments", log=repr(log), want=repr(uniq))

        def fixed(kw):
            return {k: tuple(v) if k in ("local_addr", "remote_addr") else v for k, v in subst(kw, pm).items()}

        wc = sorted(((cls(c["factory"]), c["name"], [subst(x, pm, True) for x in subst(c["args"], pm)], {"markdown": c.get("markdown"), **fixed(c["kwargs"])}) for c in want["clients"]), key=lambda x: x[1])
        gc = sorted(((x[1], x[2], x[3], x[4]) for x in log if x[0] == "client"), key=lambda x: x[1])

        def text(rows):
            # what stands in a 'host:port' text is text
            return [(a, b, [str(x) for x in c], d) for a, b, c, d in rows]

        h.check(text(gc) == text(wc), "every client is made once as declared", got=repr(gc), want=repr(wc))
        h.check([x[2] for x in early if x[0] == "client"] == [c["name"] for c in want["clients"] if not c["defer"]], "clients that aren't deferred connect in order, others later")
        h.check([(x[1], x[2], x[3]) for x in log if x[0] == "server"] == [(cls(s["factory"]), subst(s["args"], pm), subst(s["kwargs"], pm)) for s in want["servers"]], "every server is made once as declared")
        h.check({"/".join(spaces[cls(c["factory"])] + [c["name"]]) if False else c["name"]: (cls(c["factory"]), c["name"]) for c in want["clients"]} == {v[1]: v for v in seen["conns"].values()} and len(seen["conns"]) == len(clients), "every client is a connection of the application", got=repr(seen["conns"]))
        for k, v in seen["conns"].items():
            h.check(all(s in k for s in spaces[v[0]] + [v[1]]) and k.endswith(v[1]), "a connection is named in the namespaces of its factory", name=k, want=spaces[v[0]])
        h.check(set(seen["tasks"]) == {t["name"] for t in want["tasks"]} and all(seen["tasks"][t["name"]][0] is (Task if cls(t["factory"]) == "SomeTask" else OtherKind) for t in want["tasks"]), "every task is registered once, of the kind declared", got=repr(seen["tasks"]))
        h.check(all(abs(seen["tasks"][t["name"]][1] - t["period_s"]) < 1e-6 for t in want["tasks"]), "with its period", got=repr(seen["tasks"]))
        h.check(all(seen["tasks"][t["name"]][2].get("average_depth", 10) == t.get("average_depth", 10) and seen["tasks"][t["name"]][2].get("markdown") == t.get("markdown") and seen["tasks"][t["name"]][2].get("config") == t["config"] for t in want["tasks"]), "its depth, documentation and configuration", got=repr(seen["tasks"]), want=repr(want["tasks"]))
        h.check([x[1:5] for x in log if x[0] == "process"] == [(cls(p["factory"]), p["name"], p.get("config", {}), p["program"]) for p in want["processes"]], "every process is started once as declared", got=repr([x for x in log if x[0] == "process"]), want=repr(want["processes"]))
        h.check([x[6].get("markdown") for x in log if x[0] == "process"] == [p.get("markdown") for p in want["processes"]], "with its documentation")
        h.check({k: (v[0].__name__, v[1], v[2]) for k, v in seen["structs"].items()} == {s["name"]: (cls(s["factory"]), s["name"], s["config"]) for s in want["structs"]}, "every struct is registered once as declared", got=repr(seen["structs"]))
        h.check([x[1] for x in log if x[0] == "init"] == inits and [x[1] for x in log if x[0] == "app"] == apps, "initialization, then the application, in order", log=repr(log))
        cfg = seen["config"]
        h.check((not own or cfg.get("mine") == own["mine"]) and set(cfg) == ({"mine", "root"} if own else {"root"} | set(started)) and {x["name"] for x in cfg["root"].get("clients", [])} == {c["name"] for c in clients}, "the application's configuration, with all of it as the root", got=repr(list(cfg)))


FACT = [{"name": f"mod24.{n}"} for n in ("FirstConn", "SomeTask", "StructOne")]


async def refused(**data):
    try:
        await load({"factories": FACT, **data})
    except AssertionError:
        return True
    return False


@h.case
async def refusals(h):
    h.ev("refusals")
    h.check(await refused(clients=[{"name": "a", "factory": "second_conn"}]), "a client of an unknown factory is refused")
    h.check(await refused(servers=[{"factory": "second_conn"}]), "a server of an unknown factory is refused")
    h.check(await refused(tasks=[{"name": "a", "factory": "first_conn"}]), "a task of a connection factory is refused")
    h.check(await refused(structs=[{"name": "a", "factory": "some_task"}]), "a struct of a task factory is refused")
    h.check(await refused(processes=[{"name": "a", "factory": "struct_one", "program": "a.B"}]), "a process of a struct is refused")
    for i in range(2):
        h.check(not await refused(structs=[{"name": "a", "factory": "struct_one"}, {"name": "a" if i < 0 else "b", "factory": "StructOne"}]), "two structs are fine")
        h.check(await refused(structs=[{"name": "a", "factory": "struct_one"}, {"name": "a", "factory": "StructOne"}]), "a struct whose name is in use is refused")
    h.check(await refused(clients=[{"name": "a", "factory": "first_conn"}, {"name": "a", "factory": "first_conn"}]), "a client whose name is in use is refused")
    h.check(await refused(tasks=[{"name": "a", "factory": "some_task"}, {"name": "a", "factory": "SomeTask"}]), "a task whose name is in use is refused")
    arb = ConnectionArbiter()
    h.check(arb.register_module_factory("mod24.FirstConn") and not arb.register_module_factory("mod24.FirstConn"), "a factory is registered once")
    h.check(not arb.register_module_factory("mod24.Neither"), "something else is no factory")
    h.check(await arb.factory_client("first_conn", "x") and await arb.factory_client("FirstConn", "y"), "both of its names work")


@h.case
async def port_numbers(h):
    import socket

    for kind in ("tcp", "udp"):
        for _ in range(h.n(5)):
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM if kind == "tcp" else socket.SOCK_DGRAM)
            s.bind(("127.0.0.1", 0))
            free = s.getsockname()[1]
            s.close()
            h.ev(("port", kind))
            got = {}
            arb = await load({"ports": [{"name": "p", "type": kind, "host": "127.0.0.1", "port": free}], "app": "mod24.app0"})
            await arb.app()
            got = dict(seen["ports"])
            root = seen["config"]["root"]
            h.check(got == {"p": free} and root["ports"][0]["port"] == free, "a port that is declared is used", got=repr(got), want=free)
            arb = await load({"ports": [{"name": "p", "type": kind, "host": "127.0.0.1", "port": 1}, {"name": "q", "type": kind, "host": "127.0.0.1", "port": 0}], "port_overrides": {"p": free, "z": 5}, "app": "mod24.app0"})
            await arb.app()
            h.check(seen["ports"]["p"] == free and seen["ports"]["q"] not in (0, free, 5), "a port is overridden by its name", got=repr(seen["ports"]), want=free)


@h.case
async def files(h):
    h.ev("files")
    ok = outcome(lambda: None)
    try:
        await load(os.path.join(os.getcwd(), "not-there.json"))
        h.check(False, "a file that can't be found is an error")
    except AssertionError:
        pass
    write({"structs": [{"name": "b", "factory": "struct_one"}]}, "inc.json")
    a = write({"includes": ["inc.json"], "factories": FACT, "structs": [{"name": "a", "factory": "struct_one"}], "app": "mod24.app1"}, "main.json")
    for paths in ([a], [a, a], [a, os.path.join(os.getcwd(), ".", "main.json")]):
        arb = await load(*paths)
        await arb.app()
        h.check(set(seen["structs"]) == {"a", "b"}, "files are loaded once, with what they include", got=repr(list(seen["structs"])))
    arb = await load({"factories": FACT, "app": "mod24.app1"}, {"structs": [{"name": "z", "factory": "struct_one"}]})
    asyncio.get_running_loop().call_later(0.2, arb.stop_sig.set)
    await arb.app()
    h.check(set(seen["structs"]) == {"z"}, "files are merged")


@h.case
async def waits(h):
    h.ev("waits")
    for wait in (False, True):
        data = {"app": ["mod24.app2", "mod24.app3"]}
        arb = await load(data, wait_for_stop=wait)
        t = asyncio.create_task(arb.app())
        done, _ = await asyncio.wait([t], timeout=0.5)
        h.check(bool(done) is not wait and [x[1] for x in log if x[0] == "app"] == [2, 3], "an application waits for the stop signal if asked to, after everything else", log=repr(log), wait=wait)
        arb.stop_sig.set()
        await asyncio.wait_for(t, 30)


@h.case
def packages(h):
    h.ev("packages")

    class A(ConnectionArbiter):
        search_packages = ["base"]

    A.add_search_package("first-pkg")
    A.add_search_package("last", front=False)
    A.add_search_package("base")
    A.add_search_package("first_pkg", front=False)
    h.check(A.search_packages == ["first_pkg", "base", "last"], "a package added in front is searched first, others last, each once", got=A.search_packages)


@h.case
async def searched(h):
    """A file that several packages have is the first one's."""
    with tempfile.TemporaryDirectory() as d:
        names = [f"pk24_{c}" for c in "abc"]
        for p in names:
            os.makedirs(os.path.join(d, p, "data"))
            with open(os.path.join(d, p, "__init__.py"), "w"):
                pass
            for f in ("cfg24",) if p != "pk24_b" else ("cfg24", "only24"):
                with open(os.path.join(d, p, "data", f + ".yaml"), "w") as fd:
                    fd.write(f"config:\n  which: {p}\n")
        sys.path.insert(0, d)
        try:
            for _ in range(h.n(6)):
                h.rng.shuffle(names)
                h.ev(tuple(names))

                class A(ConnectionArbiter):
                    search_packages = list(names)

                a = A()
                await a.load_configs(["cfg24"])
                h.check(a._config.get("which") == names[0], "a file is the first search package's that has it", order=names, got=a._config.get("which"))
                a = A()
                await a.load_configs(["only24"])
                h.check(a._config.get("which") == "pk24_b", "a file that one package has is found", order=names)
        finally:
            sys.path.remove(d)


h.done()
