import asyncio
import logging
import re
from harness.lib import *
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.result import AppResult, ResultState, results
from runtimepy.net.arbiter.task import ArbiterTask
from runtimepy.net.connection import Connection

logging.disable(logging.CRITICAL)
h = H()


class Conn(Connection):
    uses_text_tx_queue = False
    uses_binary_tx_queue = False
    ready = True

    def __init__(self):
        super().__init__(logging.getLogger("conn"))
        self.ended = asyncio.Event()

    async def _await_message(self):
        await self.ended.wait()
        return None

    async def async_init(self):
        return self.ready

    def disable_extra(self):
        self.ended.set()


class Other(Conn):
    pass


class Task(ArbiterTask):
    n = 0

    async def init(self, app):
        self.log.append(("init", self.name))

    async def dispatch(self):
        self.n += 1
        self.log.append(("task", self.name))
        return True


class Task2(Task):
    pass


@h.case
async def stages(h):
    for _ in range(h.n(120)):
        log, infos = [], []

        def mk(i, k, code):
            async def app(info):
                infos.append(info)
                log.append((i, k))
                await asyncio.sleep(0)
                if code == "raise":
                    raise KeyError("app")
                return code
            app.__name__ = f"app_{i}_{k}"
            return app

        def plan():
            p = h.rng.random() * 0.5
            return [[h.rng.choice([1, -1, 2, -2, 255, "raise"]) if h.rng.random() < p else 0 for _ in range(h.rng.randrange(4))] for _ in range(h.rng.randrange(4))]
        first, then = plan(), plan()
        if h.rng.random() < 0.3:
            a, b = h.rng.choice([(1, -1), (-2, 2), (1, 1)])
            then.append([a, b])
        if h.rng.random() < 0.5:
            first = [[0 for _ in x] for x in first]
        a = ConnectionArbiter(metrics_poller_task=False)
        a._inits = [[mk(("init", i), k, c) for k, c in enumerate(s)] for i, s in enumerate(first)]
        a._apps = [[mk(("app", i), k, c) for k, c in enumerate(s)] for i, s in enumerate(then)]
        code = await asyncio.wait_for(a.app(), 20)
        want, ok = [], True
        for kind, stage_list in (("init", first), ("app", then)):
            for i, s in enumerate(stage_list):
                if ok:
                    want += [((kind, i), k) for k in range(len(s))]
                    ok = ok and all(c == 0 for c in s)
        d = dict(init=first, apps=then)
        h.ev((repr(first), repr(then)))
        h.check(log == want, "stages run in order until one fails", ran=log, expected=want, **d)
        h.check((code == 0) == ok, "the result is zero if and only if every application succeeded", code=code, **d)
        h.check(a.stop_sig.is_set(), "the application is told to stop in the end", **d)
        if infos:
            res = infos[0].results
            h.check(infos[0].result() == ok, "the overall result says if every application succeeded", **d)
            ran = first + (then if all(c == 0 for s in first for c in s) else [])
            h.check([len(s) for s in res] == [len(s) for s in ran], "every application has a result", results=[[str(x.state) for x in s] for s in res], **d)
            seen = True
            for s, got in zip(ran, res):
                for c, r in zip(s, got):
                    st = ResultState.NOT_RUN if not seen else ResultState.EXCEPTION if "raise" in s else ResultState.PASS if c == 0 else ResultState.FAIL
                    h.check(r.state is st and (not seen or "raise" in s or r.code == c), "a result says how an application ended", got=str(r), expected=str(st), **d)
                seen = seen and all(c == 0 for c in s)
            h.check(infos[0].raised_exception == any(r.exception is not None for s in res for r in s), "exceptions are found in the results", **d)


@h.case
def summaries(h):
    for _ in range(h.n(200)):
        st = [[h.rng.choice([ResultState.PASS] * 9 + list(ResultState)) for _ in range(h.rng.randrange(5))] for _ in range(h.rng.randrange(5))]
        got = results([[AppResult("x", s) for s in stage] for stage in st], logger=h.rng.choice([None, logging.getLogger("x")]))
        h.ev(repr(st))
        h.check(got == all(s is ResultState.PASS for stage in st for s in stage), "an application is successful if and only if all results passed", states=[[str(x) for x in s] for s in st])
    for n in [0, 1, -1, 255, 256, -256, 2**31]:
        h.check(bool(ResultState.from_int(n)) == (n == 0), "zero passes, anything else fails", code=n)


class StructA(RuntimeStruct):
    pass


class StructB(StructA):
    pass


@h.case
async def life(h):
    """Connections and tasks around applications."""
    for _ in range(h.n(40)):
        log, seen = [], {}
        a = ConnectionArbiter(metrics_poller_task=False)
        names = [h.rng.choice(["a", "b", "c", "aa", "d"]) for _ in range(h.rng.randrange(6))]
        reg = {}
        for n in names:
            c = h.rng.choice([Conn, Other])()
            c.ready = h.rng.random() < 0.95
            later = h.rng.random() < 0.4

            async def made(c=c):
                await asyncio.sleep(0)
                return c
            co = made() if later else c
            r = a.register_connection(co, n)
            h.check(r == (n not in reg), "a connection is registered if and only if its name is new", names=names, name=n)
            if r:
                reg[n] = c
            elif later:
                co.close()
        tasks = [h.rng.choice([Task, Task2])(f"t{i}", period_s=0.01) for i in range(h.rng.randrange(3))]
        for t in tasks:
            t.log = log
            a.task_manager.register(t)
        check = h.rng.random() < 0.7
        raises = h.rng.random() < 0.2
        alive = all(c.ready for c in reg.values())

        async def app(info):
            log.append("app")
            seen["info"] = info
            seen["conns"] = dict(info.connections)
            seen["on"] = [not c.disabled for c in reg.values()]
            await asyncio.sleep(0)
            for pattern in (".*", "a", "^t0", "^.$", "0", "[12]$"):
                for kind in (Conn, Other):
                    got = list(info.search(pattern=pattern, kind=kind))
                    want = [c for n, c in reg.items() if re.search(pattern, n) and isinstance(c, kind)]
                    h.check(len(got) == len(set(map(id, got))) and (set(map(id, got)) == set(map(id, want))), "exactly the connections that match are found", pattern=pattern, kind=kind.__name__, names=list(reg), found=len(got)) if alive and pattern != "^.$" or all(c.ready for c in reg.values()) else None
                    try:
                        one = info.single(pattern=pattern, kind=kind)
                        h.check(len(want) == 1 and one is want[0] or not alive, "a single result is returned if and only if there is exactly one", pattern=pattern, names=list(reg))
                    except AssertionError:
                        h.check(len(want) != 1 or not alive, "a single result is returned if and only if there is exactly one", pattern=pattern, names=list(reg))
                for kind in (Task, Task2):
                    got = list(info.search_tasks(kind, pattern=pattern))
                    h.check(got == [t for t in tasks if re.search(pattern, t.name) and isinstance(t, kind)], "exactly the tasks that match are found", pattern=pattern, names=[t.name for t in tasks])
            kept = dict(info.structs)
            try:
                info.structs.clear()
                for k in h.rng.sample(["one", "the_one", "one_two", "ONE", "x"], h.rng.randrange(5)):
                    info.structs[k] = object.__new__(h.rng.choice([StructA, StructB]))
                for pattern in (".*", "one", "one$", "^one", "_", "[A-Z]"):
                    for kind in (StructA, StructB):
                        got = list(info.search_structs(kind, pattern=pattern))
                        want = [s for n, s in info.structs.items() if re.search(pattern, n) and isinstance(s, kind)]
                        h.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "exactly the structs that match are found", pattern=pattern, names=list(info.structs), found=len(got))
            finally:
                info.structs.clear()
                info.structs.update(kept)
            if raises:
                raise ValueError
            return 0
        try:
            code = await asyncio.wait_for(a.app(app=app, check_connections=check), 20)
        except asyncio.TimeoutError:
            h.check(False, "an application ends", names=names)
            continue
        d = dict(names=names, ready=[c.ready for c in reg.values()], check=check, raises=raises)
        h.ev(repr(d))
        runs = alive or not check
        h.check(("app" in log) == runs, "the application runs unless a connection is gone and that matters", **d)
        h.check((code == 0) == (runs and not raises), "the result is zero if and only if it ran and succeeded", code=code, **d)
        h.check(all(c.disabled for c in reg.values()) and a.stop_sig.is_set(), "connections are disabled and the application is told to stop in the end", **d)
        if runs:
            h.check({k: v for k, v in seen["conns"].items()} == reg, "connections are known by their names", known=list(seen["conns"]), **d)
            h.check([x for x in log[:len(tasks)]] == [("init", t.name) for t in tasks], "tasks are initialized first", log=[str(x) for x in log[:5]], **d)
            n = [t.n for t in tasks]
            await asyncio.sleep(0.03)
            h.check(n == [t.n for t in tasks], "tasks have stopped in the end", **d)


h.done()
