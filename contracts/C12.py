"""C12: channel commands."""
import asyncio
from contracts.C10 import *
from runtimepy.channel.environment.base import BaseChannelEnvironment
from runtimepy.channel.environment.command.parser import ChannelCommand
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor, RemoteCommandProcessor
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin


class CLog:
    def exception(self, *args, **kw):
        pass

    def info(self, *args):
        pass

    def warning(self, *args):
        pass


class Hook:
    """Records its calls."""

    def __init__(self, log, ident):
        self.log = log
        self.ident = ident

    def __call__(self, args, channel):
        self.log.append((self.ident, args, channel))


class Parser:
    def format_help(self):
        return "help"


def proc(it, e, cls=ChannelCommandProcessor):
    log = MList(items=[])
    hooks = MList(items=[it.call(Hook, [log, i]) for i in (1, 2)])
    return new(it, cls, env=e.env, logger=new(it, CLog), hooks=hooks, custom_commands=MDict([]), parser=new(it, Parser), parser_data=MDict([["error_message", None]])), log


def result(it, o):
    """(success, reason)"""
    return it.truth(it.getattr(o.value, "success")), it.getattr(o.value, "reason")


def hooks_called(it, log, args, ent, n=1):
    items = log.items
    it.c.check("every hook is called once, in order, with the arguments and the entity", len(items) == 2 * n and all(x[0] == 1 + i % 2 and x[1] is args and x[2] is ent for i, x in enumerate(items)))


def cmd_args(it, c, name, extra, remote=False, force=None):
    return new(it, object, command=c, channel=name, extra=MList(items=list(extra)), remote=remote, env="default", force=force if force is not None else it.c.choose(2) == 1)


def snapshot(e):
    return e.now(), dict(e.cells), e.it.getattr(e.oraw, "value")


def unchanged_env(it, e, what, s):
    it.c.check(what, And(e.now() == s[0], e.cells == s[1], eqv(it, it.getattr(e.oraw, "value"), s[2])))


def v_command(it, cmd, name, p, nsc, en):
    e = E(it, p, nsc, en)
    names = ["chan", *NAMES, "other"]
    e.m.attrs["registry"].attrs.update(_mapping=MDict([(i + 1, n) for i, n in enumerate(names)]), _reverse=MDict([(n, i + 1) for i, n in enumerate(names)]), registered_order=MList(items=names))
    can = it.c.choose(2) == 1
    ent = e.chan if name == "chan" else e.fs.get(name)
    if ent is not None:
        ent.attrs["commandable"] = can
    pr, log = proc(it, e)
    v = it.c.sym("str", "value")
    given = cmd != "set" or it.c.choose(2) == 1
    more = [it.c.sym("str", "more")] if given and it.c.choose(2) else []
    args = cmd_args(it, ChannelCommand(cmd), name, ([v] if given and cmd == "set" else []) + more)
    force = args.attrs["force"]
    s = snapshot(e)
    o = call(it, method(pr, "handle_command"), args)
    it.c.check("a command always gives a result", o.ok)
    ok, reason = result(it, o)
    if cmd == "get":
        unchanged_env(it, e, "getting changes nothing", s)
        it.c.check("getting calls no hook", len(log.items) == 0)
        if ent is None:
            it.c.check("an unknown channel fails", not ok)
        else:
            w = call(it, method(e.env, "value"), name)
            it.c.check("getting succeeds exactly when the value can be given", ok == w.ok)
            if w.ok:
                it.c.check("the result is the value", eqv(it, reason, it.to_str(w.value)))
                cover(it, "success")
        cover(it, "return")
        return
    if ent is None or not (can or force):
        it.c.check("an unknown channel, or one not commandable and not forced, fails with a reason", not ok and reason is not None)
        it.c.check("and calls no hook", len(log.items) == 0)
        unchanged_env(it, e, "and changes nothing", s)
        cover(it, "refused")
        return
    if cmd == "toggle":
        can_toggle = name != "chan" or KIND(p) == "bool"
        it.c.check("fields and boolean channels can be toggled", ok == can_toggle)
        if not can_toggle:
            unchanged_env(it, e, "a refused toggle changes nothing", s)
            it.c.check("and calls no hook", len(log.items) == 0 and reason is not None)
            cover(it, "refused")
            return
        if name == "chan":
            it.c.check("a boolean is inverted", e.now() == z3.Not(s[0]))
            it.c.check("and nothing else changes", And(e.cells == s[1], eqv(it, it.getattr(e.oraw, "value"), s[2])))
        else:
            f = e.fs[name]
            m = 2 ** WIDTHS[NAMES.index(name)]
            it.c.check("a field is inverted", e.cells[id(f)] == m - 1 - s[1][id(f)])
            it.c.check("and nothing else changes", And(e.now() == s[0], *[e.cells[id(x)] == s[1][id(x)] for x in e.fs.values() if x is not f]))
        hooks_called(it, log, args, ent)
        cover(it, "success")
    else:
        if not given:
            it.c.check("setting without a value fails", not ok and reason is not None)
            unchanged_env(it, e, "and changes nothing", s)
            it.c.check("and calls no hook", len(log.items) == 0)
            cover(it, "refused")
            return
        asked = it.c.ghost["set"]
        it.c.check("setting assigns the value, once, as the environment does", And(len(asked) == 1, asked[0][0] == name, asked[0][1] is v, asked[0][2]))
        it.c.check("setting succeeds exactly when the environment takes the value", ok == (it.c.ghost["set_ok"]))
        unchanged_env(it, e, "and does nothing else", s)
        if it.c.ghost["set_ok"]:
            hooks_called(it, log, args, ent)
            cover(it, "success")
        else:
            it.c.check("a refused value calls no hook and gives a reason", len(log.items) == 0 and reason is not None)
            cover(it, "refused")


def env_set(it, a, kw):
    """ChannelEnvironment.set by its contract (C10): takes the value, or raises and changes nothing."""
    it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"BaseChannelEnvironment.set (C10)"}
    b = dict(zip(("self", "key", "value", "scaled"), a)) | kw
    it.c.ghost.setdefault("set", []).append((b["key"], b["value"], b.get("scaled", True) is True))
    k = it.c.choose(5)
    it.c.ghost["set_ok"] = k == 0
    if k:
        it.throw([ValueError, KeyError, OverflowError, AssertionError][k - 1], "no")


def v_remote(it, custom):
    """Remote and custom commands only reach the hooks."""
    e = E(it, "uint8")
    cls = RemoteCommandProcessor if not custom and it.c.choose(2) else ChannelCommandProcessor
    pr, log = proc(it, e, cls)
    cmd = ChannelCommand.CUSTOM if custom else list(ChannelCommand)[it.c.choose(4)]
    args = cmd_args(it, cmd, it.c.sym("str", "channel"), [it.c.sym("str", "x")], remote=cls is ChannelCommandProcessor and not custom)
    s = snapshot(e)
    o = call(it, method(pr, "handle_command"), args)
    ok, reason = result(it, o)
    it.c.check("a remote or custom command succeeds", And(o.ok, ok))
    hooks_called(it, log, args, None)
    unchanged_env(it, e, "and changes nothing here", s)
    cover(it, "return")


def v_line(it):
    """A whole command line, parsing left open."""
    e = E(it, "uint8")
    pr, log = proc(it, e)
    s = snapshot(e)
    line = it.c.sym("str", "line")
    o = call(it, method(pr, "command"), line)
    ok, reason = result(it, o)
    if it.c.ghost["parsed"] is None:
        it.c.check("a line that does not parse fails with the parser's reason", And(o.ok, not ok, eqv(it, reason, it.c.ghost["message"])))
        it.c.check("and calls no hook", len(log.items) == 0)
        unchanged_env(it, e, "and changes nothing", s)
        cover(it, "refused")
    else:
        it.c.check("a line that parses is carried out", And(o.ok, ok))
        hooks_called(it, log, it.c.ghost["parsed"], None)
        cover(it, "success")


class CQueue:
    """A queue of which everything put is known."""

    def __init__(self):
        self.items = []

    def put_nowait(self, x):
        self.items.append(x)


class AM(AsyncCommandProcessingMixin):
    def __init__(self, command):
        self.command = command


def v_setup(it):
    """Commands are queued for asynchronous handling once, however often that's set up."""
    e = E(it, "uint8")
    pr, log = proc(it, e)
    m = it.call(AM, [pr])
    o = call(it, method(m, "_setup_async_commands"))
    for _ in range(it.c.choose(3)):
        o2 = call(it, method(m, "_setup_async_commands"))
        it.c.check("setting up again is fine", o2.ok)
    it.c.check("commands can be set up for asynchronous handling", o.ok)
    hooks = it.getattr(pr, "hooks").items
    it.c.check("one hook is added, after those already there", len(hooks) == 3)
    queue = it.getattr(m, "outgoing_commands")
    args, chan = cmd_args(it, ChannelCommand.SET, "c", ["1"]), (None, new(it, object))[it.c.choose(2)]
    n = len(it.getattr(queue, "items").items)
    for h in hooks:
        it.call(h, [args, chan])
    got = it.getattr(queue, "items").items[n:]
    it.c.check("a command carried out is queued once, with its channel", len(got) == 1 and got[0][0] is args and got[0][1] is chan)
    cover(it, "return")


def cfg_setup(cfg):
    cfg_cmd(cfg)
    cfg.model(asyncio.Queue, lambda it, a, kw: it.call(CQueue, []), "asyncio.Queue")


def cfg_cmd(cfg):
    cfg_env(cfg)


def cfg_set(cfg):
    cfg_env(cfg)
    cfg.model(BaseChannelEnvironment.set, env_set, "BaseChannelEnvironment.set")


def parse(it, a, kw):
    it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"ChannelCommandProcessor.parse"}
    if it.c.choose(2):
        m = it.c.ghost["message"] = it.c.sym("str", "message")
        it.dict_set(it.getattr(a[0], "parser_data"), "error_message", m)
        it.c.ghost["parsed"] = None
        return None
    args = it.c.ghost["parsed"] = cmd_args(it, ChannelCommand.SET, "x", [], remote=True)
    return args


def cfg_line(cfg):
    cfg_env(cfg)
    cfg.model(ChannelCommandProcessor.parse, parse, "ChannelCommandProcessor.parse")


P = "runtimepy.channel.environment.command.processor:ChannelCommandProcessor"
SR = ("success", "refused")
G = ("success", "return")
CONTRACTS = [
    Unit(f"get {n}[{p}{', scaled' if k else ''}{', enumerated' if en else ''}]", P + ".handle_command", lambda it, n=n, p=p, k=k, en=en: v_command(it, "get", n, p, k, en), cfg_cmd, covers=("return",) if n == "nope" else G, **K)
    for n, p, k, en in (("chan", "uint8", 0, None), ("chan", "bool", 0, None), ("chan", "double", 0, None), ("chan", "int16", 2, None), ("chan", "uint8", 0, INT), ("chan", "bool", 0, BOOL), ("flag", "bool", 0, None), ("eight", "bool", 0, None), ("nope", "bool", 0, None))
] + [
    Unit(f"toggle {n}[{p}]", P + ".handle_command", lambda it, n=n, p=p: v_command(it, "toggle", n, p, 0, None), cfg_cmd, covers=("refused",) if n == "nope" or p != "bool" else SR, **K)
    for n, p in (("chan", "bool"), ("chan", "uint8"), ("chan", "double"), ("flag", "bool"), ("eight", "bool"), ("nope", "bool"))
] + [
    Unit(f"set {n}[{p}]", P + ".handle_command", lambda it, n=n, p=p: v_command(it, "set", n, p, 0, None), cfg_set, covers=("refused",) if n == "nope" else SR, **K)
    for n, p in (("chan", "uint8"), ("chan", "bool"), ("chan", "double"), ("flag", "bool"), ("eight", "bool"), ("nope", "bool"))
] + [
    Unit("remote commands", P + ".handle_command", lambda it: v_remote(it, False), cfg_cmd, **K),
    Unit("custom commands", P + ".handle_command", lambda it: v_remote(it, True), cfg_cmd, **K),
    Unit("queueing commands", "runtimepy.mixins.async_command:AsyncCommandProcessingMixin._setup_async_commands", v_setup, cfg_setup, **K),
    Unit("a command line", P + ".command", v_line, cfg_line, covers=SR, **K),
]
