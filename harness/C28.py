import asyncio
import json
import logging
import math
from harness.lib import *
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.message import MessageProcessor
import runtimepy.net.server.websocket
from runtimepy.net.html.bootstrap.tabs import TabbedContent
from runtimepy.net.server import struct as ui_struct
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.html import get_html
from runtimepy.net.server.struct import UiState
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.primitives.int import Uint8

h = H()
logging.disable(logging.NOTSET)
logging.getLogger().addHandler(logging.NullHandler())


class Protocol:
    def __init__(self):
        self.logger = logging.Logger("client")
        self.inbox = asyncio.Queue()

    async def recv(self):
        return await self.inbox.get()

    async def send(self, data):
        pass

    async def close(self):
        pass


class Client(RuntimepyWebsocketConnection):
    """The server's side of a client, and what that client has seen."""

    def write(self, data, addr=None):
        for m in MessageProcessor().messages(data):
            self.__dict__.setdefault("out", []).append(m)

    async def loopback(self, *args, **kwargs):
        return True

    async def wait_json(self, *args, **kwargs):
        return {}

    async def say(self, **ui):
        self.out = []
        await self.process_json({"__id__": 7, "ui": json.loads(json.dumps(ui))})
        return self.out


ITEMS = {"off": 0, "on": 1, "idle": 2, "gone": 7}


def build(h, name):
    env = ChannelEnvironment()
    env.enum("Mode", "int", items=dict(ITEMS))
    env.int_channel("i", "int16", commandable=True)
    env.int_channel("mode", "uint8", enum="Mode")
    env.int_channel("scaled", "int32", scaling=[1.0, 0.5]) if h.rng.random() < 0.5 else env.int_channel("plain", "uint8")
    env.float_channel("f", "float")
    env.bool_channel("b", commandable=True)
    raw = Uint8()
    env.add_field(BitFlag("flag1", raw, 0))
    env.add_field(BitField("bits", raw, 1, 3))
    env.add_field(BitFlag("flag2", raw, 6))
    env.finalize(strict=False)
    log = logging.Logger(name)
    log.setLevel(logging.INFO)
    return env, ChannelCommandProcessor(env, log), log


def differs(a, b):
    return a != b and (good(a) or good(b))


def change(h, env):
    """Set any value; the names changed."""
    k = h.rng.choice(sorted(env.names))
    was = {n: env.value(n) for n in env.names}
    if k == "mode":
        env.set(k, h.rng.choice(list(ITEMS)))
    elif k == "f":
        env.set(k, h.rng.choice([0.0, 0.5, -1.0, float("nan"), 2.0]))
    elif k == "b":
        env.set(k, h.rng.random() < 0.5)
    elif k.startswith("flag"):
        env.set(k, h.rng.random() < 0.5)
    elif k == "bits":
        env.set(k, h.rng.randrange(8))
    else:
        env.set(k, h.rng.choice([0, 1, 2, 3, 40]))
    return {n: env.value(n) for n in env.names if differs(env.value(n), was[n])}


def good(v):
    return isinstance(v, str) or not math.isnan(v)


def strict(x):
    """Only what a browser can decode."""
    def bad(c):
        raise ValueError(c)
    return json.loads(json.dumps(x), parse_constant=bad)


def apply(h, seen, want, ui, names, d):
    """What a client does with what it is sent."""
    for name, body in ui.items():
        if name not in names or not isinstance(body, dict):
            continue
        view = seen.setdefault(name, {})
        for k, pts in body.get("points", {}).items():
            got = []
            for v, t in pts:
                if v != (got[-1] if got else view.get(k)):
                    got.append(v)
            exp = want.get((name, k), [])
            todo, last = [], view.get(k)
            for v in exp:
                if v != last:
                    todo.append(v)
                last = v
            h.check(got == todo, "every change of a value reaches the client once, in order", channel=k, got=got, want=todo, **d)
            want[name, k] = []
            view[k] = pts[-1][0]
            h.check([t for _, t in pts] == sorted(t for _, t in pts), "with its time", channel=k, times=[t for _, t in pts], **d)
        if "points" not in body and "log_messages" not in body and "handle_shown_state" not in body:
            view.update({k: v for k, v in body.items() if not want.get((name, k))})


@h.case
async def clients(h):
    """Clients come and go, show and hide tabs, while values change."""
    for run in range(h.n(60)):
        if not h.ok_time():
            break
        kept = dict(ChannelEnvironmentTab.all_tabs)
        ChannelEnvironmentTab.all_tabs.clear()
        tabs = TabbedContent("app", get_html().body)
        envs = {}
        for name in ["one", "two"][:h.rng.randint(1, 2)]:
            env, cmd, log = build(h, name)
            ChannelEnvironmentTab(name, cmd, None, tabs)
            envs[name] = env, cmd, log
        cs = []
        history = []
        d = dict(history=history)
        try:
            for step in range(h.rng.randint(5, 60)):
                op = h.rng.choice(["new", "set", "set", "set", "shown", "shown", "hidden", "frame", "frame", "init", "command", "close", "odd", "log"])
                if op == "new" or not cs:
                    c = Client(Protocol())
                    cs.append((c, {}, {}, set(), {}))
                    history.append("new")
                    continue
                i = h.rng.randrange(len(cs))
                c, seen, want, shown, inits = cs[i]
                name = h.rng.choice(list(envs))
                env, cmd, log = envs[name]
                history.append((op, i, name))
                if op in ("set", "command"):
                    if op == "set":
                        new = change(h, env)
                        history[-1] = ("set", name, new)
                    else:
                        was = {n: env.value(n) for n in env.names}
                        line = h.rng.choice(["set i 5", "set i 6", "toggle b", "set i x", "nothing", "toggle flag1"])
                        history[-1] = ("command", name, line)
                        await c.say(name=name, event={"kind": "command", "value": line})
                        new = {n: env.value(n) for n in env.names if differs(env.value(n), was[n])}
                        ok = {"set i 5": env.value("i") == 5, "set i 6": env.value("i") == 6, "toggle b": env.value("b") != was["b"], "set i x": not new, "nothing": not new, "toggle flag1": env.value("flag1") == was["flag1"]}[line]
                        h.check(ok and all(n in line.split() for n in new), "a command of a client is run once, on the environment of its tab", line=line, **d)
                    for c2, _, want2, shown2, _ in cs:
                        if name in shown2:
                            for k, v in new.items():
                                if good(v):
                                    want2.setdefault((name, k), []).append(v)
                elif op == "log":
                    log.info("hello %d", step)
                    for _, _, _, _, inits2 in cs:
                        if name in inits2:
                            inits2[name].append(f"hello {step}")
                elif op == "close":
                    c.disable("gone")
                    cs.pop(i)
                    for n in envs:
                        others = [x for x in cs if n in x[3]]
                        raws = {id(envs[n][0].field_or_channel(k).raw): envs[n][0].field_or_channel(k).raw for k in envs[n][0].names}
                        total = sum(len(r.callbacks) for r in raws.values()) if all(hasattr(r, "callbacks") for r in raws.values()) else None
                        if hasattr(envs[n][2], "handlers"):
                            h.check(len(envs[n][2].handlers) == sum(1 for x in cs if n in x[4]), "no log handler stays either", tab=n, handlers=len(envs[n][2].handlers), **d)
                        h.check(total in (None, len(others) * len(list(envs[n][0].names))), "nothing stays registered for a client that's gone", tab=n, registered=total, clients=len(others), **d)
                elif op == "odd":
                    out = await c.say(**h.rng.choice([{"name": "three", "event": {"kind": "tab.shown"}}, {"name": name}, {"event": {}}, {"name": name, "event": {"kind": "what"}}]))
                    h.check(not any(name in m.get("ui", {}) for m in out), "a message that means nothing is not answered", out=out, **d)
                elif op == "init":
                    await c.say(name=name, event={"kind": "init"})
                    inits.setdefault(name, [])
                elif op in ("shown", "hidden"):
                    again = name in shown
                    out = await c.say(name=name, event={"kind": "tab." + op})
                    for m in out:
                        strict(m)
                    answers = [m["ui"][name]["handle_shown_state"] for m in out if "handle_shown_state" in m.get("ui", {}).get(name, {})]
                    h.check(answers == [op == "shown"], "a client is told that its tab is shown or hidden", answers=answers, **d)
                    for m in out:
                        apply(h, seen, want, m.get("ui", {}), envs, d)
                    if op == "shown":
                        if not again:
                            view = seen.get(name, {})
                            for k in env.names:
                                v = env.value(k)
                                h.check(not good(v) or k in view and view[k] == v, "a client that shows a tab gets every value that it doesn't have", channel=k, value=v, seen=view.get(k), **d)
                        shown.add(name)
                    else:
                        shown.discard(name)
                        for k in list(want):
                            if k[0] == name:
                                del want[k]
                else:
                    out = await c.say(time=step * 10.0)
                    for m in out:
                        try:
                            strict(m)
                        except ValueError as e:
                            h.check(False, "a browser can decode what it's sent", text=e, **d)
                        ui = m.get("ui", {})
                        apply(h, seen, want, ui, envs, d)
                        for n, (e, _, _) in envs.items():
                            h.check(n in shown or "points" not in ui.get(n, {}), "a client gets no points of tabs that it doesn't show", tab=n, **d)
                            text = ui.get(n, {}).get("log_messages", [])
                            text = text if isinstance(text, str) else "\n".join(text)
                            for line in inits.get(n, []):
                                h.check(text.count(line) == 1 or "hello" not in line, "a log message reaches the clients that opened the tab, once", line=line, text=text, **d)
                            if n in inits:
                                inits[n] = []
                            else:
                                h.check("hello" not in text, "no other client gets it", text=text, **d)
                    for n in shown:
                        for k in envs[n][0].names:
                            v = envs[n][0].value(k)
                            h.check(not good(v) or seen[n].get(k) == v, "after a frame the client has the current values of what it shows", channel=k, value=v, seen=seen[n].get(k), **d)
                    out = [m for m in await c.say(time=step * 10.0 + 1) if any(n in m.get("ui", {}) for n in envs)]
                    h.check(not out, "nothing is sent twice", out=out, **d)
                h.ev((run, step, op))
        finally:
            for c, *_ in cs:
                c.disable("end")
            ChannelEnvironmentTab.all_tabs.clear()
            ChannelEnvironmentTab.all_tabs.update(kept)


@h.case
async def counted(h):
    """The interface knows how many clients there are."""
    class Stub:
        pass
    kept = ui_struct.UI
    for _ in range(h.n(20)):
        ui_struct.UI = None
        early = Client(Protocol())
        await early.say(time=1.0)
        ui = UiState("ui", {"psutil": False})
        await ui.build(Stub())
        ui.env.finalize(strict=False)
        polls = []
        ui.poll = lambda: polls.append(1)
        cs, history, n, known = [early], [], 0, set()
        for step in range(h.rng.randint(1, 15)):
            op = h.rng.choice(["open", "frame", "frame", "close"])
            history.append(op)
            if op == "open":
                c = Client(Protocol())
                cs.append(c)
                await c.async_init()
                known.add(c)
            elif cs:
                c = h.rng.choice(cs)
                if op == "frame":
                    polls.clear()
                    await c.say(time=float(step))
                    known.add(c)
                    h.check(len(polls) <= 1, "a frame polls at most once", polls=len(polls))
                    if polls:
                        h.check(ui.env.value("time_ms") == float(step), "a frame's time is set", got=ui.env.value("time_ms"))
                    if len(known) == 1 and len(history) == 1:
                        h.check(len(polls) == 1, "the only client polls", history=history)
                else:
                    c.disable("gone")
                    c.disable("again")
                    cs.remove(c)
                    known.discard(c)
            h.check(ui.env.value("num_connections") == len(known), "the number of connections is the number of clients", got=ui.env.value("num_connections"), want=len(known), history=history)
            h.ev(tuple(history))
        for c in cs:
            c.disable("end")
    ui_struct.UI = kept


@h.case
def loggers(h):
    from runtimepy.net.server.websocket.state import TabState
    for t in range(h.n(60)):
        s = TabState.create()
        logs = [logging.Logger(f"l{i}") for i in range(3)]
        keep = [logging.NullHandler() for _ in logs]
        for l, k in zip(logs, keep):
            l.addHandler(k)
        hist, used = [], set()
        for _ in range(h.rng.randint(0, 10)):
            i = h.rng.randrange(4)
            hist.append(i)
            if i == 3:
                s.clear_loggers()
                used.clear()
            else:
                s.add_logger(logs[i])
                used.add(i)
            for j, l in enumerate(logs):
                h.check(l.handlers.count(s.tab_logger) == (j in used) and keep[j] in l.handlers, "a tab's handler is registered once with each of its loggers, and gone when they're cleared", history=hist, logger=j, got=l.handlers.count(s.tab_logger))
        for l in logs:
            l.info("hello")
        h.ev((t, len(hist)))


h.done()
