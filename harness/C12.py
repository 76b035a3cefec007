from harness.lib import *
import contextlib
import io
from logging import getLogger
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.parser import ChannelCommand
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor, RemoteCommandProcessor
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.primitives.field.fields import BitFields

h = H()
KINDS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float", "double", "bool"]
VALUES = ["0", "1", "-1", "5", "300", "99999999999999999999999", "inf", "-inf", "nan", "1e400", "2.5", "-0.0", "true", "False", "TRUE", "on", "off", "high", "low", "", "x", "0x10", "1_0", "\u0663", "1e5", "+7", "ON", "None"]


def build(spec):
    env = ChannelEnvironment()
    env.enum("e", "int", items={"off": 0, "on": 1, "five": 5})
    env.enum("b", "bool", items={"low": False, "high": True})
    for name, kind, sc, en, cmd in spec["chans"]:
        if kind == "bool":
            env.bool_channel(name, enum=en, commandable=cmd)
        elif kind in ("float", "double"):
            env.float_channel(name, kind, scaling=sc, commandable=cmd)
        else:
            env.int_channel(name, kind, scaling=sc, enum=en, commandable=cmd)
    b = BitFields.new("uint16")
    for name, width, en, cmd in spec["fields"]:
        if width == 1:
            b.flag(name, enum=en, commandable=cmd)
        else:
            b.field(name, width, enum=en, commandable=cmd)
    if spec["fields"]:
        env.fields.add(b)
    return env


def spec(h):
    chans, fields = [], []
    for i in range(h.rng.randint(1, 5)):
        kind = h.rng.choice(KINDS)
        sc = en = None
        if kind != "bool" and h.rng.random() < 0.4:
            sc = h.rng.choice([[1, 2], [0.5, 0.25], [0, -4], [1, 2, 3], [5]])
        elif kind not in ("float", "double") and h.rng.random() < 0.5:
            en = "b" if kind == "bool" else "e"
        chans.append((f"c{i}" if h.rng.random() < 0.7 else f"ns.c{i}", kind, sc, en, h.rng.random() < 0.6))
    for i in range(h.rng.randint(0, 3)):
        w = h.rng.choice([1, 1, 3, 4])
        fields.append((f"f{i}", w, h.rng.choice([None, "b" if w == 1 else "e"]), h.rng.random() < 0.6))
    return {"chans": chans, "fields": fields}


def raw(env, sp):
    out = {}
    for name, *_ in sp["chans"] + sp["fields"]:
        out[name] = repr(env.value(name, resolve_enum=False, scaled=False))
    return out


def rand_raw(h, envs, sp):
    """The same arbitrary raw values in each environment, also ones no enumeration names."""
    for name, kind, *_ in sp["chans"]:
        v = h.rng.choice([False, True]) if kind == "bool" else h.rng.choice([0, 1, 5, 7, 100])
        for e in envs:
            e[name][0].raw.value = v
    for name, w, *_ in sp["fields"]:
        v = h.rng.randrange(1 << w)
        for e in envs:
            e.fields[name](v)


class Calls:
    def __init__(self):
        self.log = []

    def hook(self, ident):
        return lambda args, chan: self.log.append((ident, args, chan))


def proc(env, cls=ChannelCommandProcessor, hooks=2):
    p = cls(env, getLogger("x"))
    c = Calls()
    for i in range(hooks):
        p.hooks.append(c.hook(i))
    return p, c


def run(p, line):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return p.command(line)


def check_hooks(h, calls, n, chan, cmd, name, extra, **data):
    h.check([c[0] for c in calls] == list(range(n)), "every hook is called once, in order", calls=calls, **data)
    for _, args, c in calls:
        h.check(c is chan, "hooks get the channel or field (none for remote and custom commands)", got=c, want=chan, **data)
        h.check(args.command == cmd and args.channel == name and args.extra == extra, "hooks get the arguments", args=args, **data)


@h.case
def commands(h):
    """Well-formed lines against a twin environment changed directly."""
    for _ in range(h.n(250)):
        sp = spec(h)
        a, b = build(sp), build(sp)
        rand_raw(h, (a, b), sp)
        n = h.rng.randint(0, 3)
        p, calls = proc(a, hooks=n)
        names = [x[0] for x in sp["chans"] + sp["fields"]]
        cmds = {x[0]: x[-1] for x in sp["chans"] + sp["fields"]}
        kinds = {x[0]: x[1] for x in sp["chans"]}
        for _ in range(h.rng.randint(1, 12)):
            cmd = h.rng.choice(["get", "set", "set", "set", "toggle", "custom"])
            name = h.rng.choice(names) if h.rng.random() < 0.9 else h.rng.choice(["nope", "c", "help", "ns"])
            extra = [h.rng.choice(VALUES + h.strs())] if cmd == "set" and h.rng.random() < 0.93 else []
            extra = [x for e in extra for x in e.split()]
            if (extra or cmd != "set") and h.rng.random() < 0.15:
                extra += h.rng.choices(["1", "true", "more", "on"], k=h.rng.randint(1, 2))
            if extra and (extra[0].startswith("-") and extra[0] not in ("-1", "-0.0")):
                continue
            force, remote = h.rng.random() < 0.4, h.rng.random() < 0.1
            words = [cmd, name] + extra
            if force:
                words.insert(h.rng.choice([0, 1, len(words)]), h.rng.choice(["-f", "--force"]))
            if remote:
                words.insert(0, h.rng.choice(["-r", "--remote"]))
            line = " ".join(words)
            data = dict(line=line, spec=sp, before=raw(a, sp))
            calls.log.clear()
            before = raw(a, sp)
            o = outcome(lambda: run(p, line))
            h.ev((cmd, kinds.get(name, name[:1]), tuple(extra), force, remote, cmds.get(name)))
            if not h.check(o[0] == "ok", "a command gives a result", got=o, **data):
                break
            r = o[1]
            now = raw(a, sp)
            if remote or cmd == "custom":
                h.check(bool(r) and now == before, "remote and custom commands succeed and change nothing here", **data)
                check_hooks(h, calls.log, n, None, cmd, name, extra, **data)
                continue
            if cmd == "get" and name in names:
                w = outcome(lambda: b.value(name))
                h.check(now == before and not calls.log, "getting changes nothing and calls no hook", **data)
                h.check(bool(r) == (w[0] == "ok") and (not r or r.reason == str(w[1])), "getting gives the value", got=r, want=w, **data)
                continue
            refused = name not in names or not (cmds[name] or force)
            if not refused and cmd == "set":
                if not extra:
                    refused = True
                else:
                    w = outcome(lambda: b.set(name, extra[0]))
                    refused = w[0] != "ok"
            if not refused and cmd == "toggle":
                if name in kinds and kinds[name] != "bool":
                    refused = True
                elif name in kinds:
                    b.set(name, not b.value(name, resolve_enum=False), scaled=False) if not b[name][1] else b[name][0].raw.toggle()
                else:
                    w = dict((f[0], f[1]) for f in sp["fields"])[name]
                    b.fields[name]((1 << w) - 1 - int(b.value(name, resolve_enum=False)))
            if cmd == "get" and name not in names:
                refused = True
            want = raw(b, sp)
            if refused:
                h.check(not r and bool(r.reason), "a command that cannot be carried out fails with a reason", got=r, **data)
                h.check(now == before, "and changes nothing", now=now, **data)
                h.check(not calls.log, "and calls no hook", calls=calls.log, **data)
            else:
                h.check(bool(r), "a command that can be carried out succeeds", got=r, **data)
                h.check(now == want, "and has the effect asked for", now=now, want=want, **data)
                ent = a.field_or_channel(name)
                check_hooks(h, calls.log, n, ent, cmd, name, extra, **data)


@h.case
def any_line(h):
    """Arbitrary lines give a result; a failed one changes nothing and calls nothing."""
    words = ["set", "get", "toggle", "custom", "c0", "f0", "-f", "-r", "-e", "--env", "--", "-h", "--help", "help", "-x", "--remote", "--fo", "1", "-1", "SET", "", "set set", "-fr", "@x", "%s", "-e=1", "--force=1"]
    for _ in range(h.n(600)):
        sp = spec(h)
        a = build(sp)
        p, calls = proc(a, h.rng.choice([ChannelCommandProcessor, RemoteCommandProcessor]))
        remote = isinstance(p, RemoteCommandProcessor)
        line = " ".join(h.rng.choice(words + VALUES + h.strs()) for _ in range(h.rng.randint(0, 6)))
        if h.rng.random() < 0.1:
            line = "".join(chr(h.rng.randrange(1, 300)) for _ in range(h.rng.randint(0, 20)))
        before = raw(a, sp)
        h.ev(line)
        o = outcome(lambda: run(p, line))
        if not h.check(o[0] == "ok", "any line gives a result", line=line, got=o):
            continue
        if not o[1]:
            h.check(bool(o[1].reason), "a failure has a reason", line=line)
            h.check(not calls.log, "a failure calls no hook", line=line)
        if not o[1] or remote:
            h.check(raw(a, sp) == before, "a failed or remote command changes nothing", line=line, spec=sp)
        elif line.split()[:1] == ["set"] or line.split()[:1] == ["toggle"]:
            h.check(len(calls.log) == 2, "a success calls the hooks", line=line)
        if not h.check(len(calls.log) in (0, 2), "hooks are called together", line=line):
            continue
        # a failed line leaves no trace on the next
        name = sp["chans"][0][0]
        o = outcome(lambda: run(p, f"get {name}"))
        h.check(o[0] == "ok" and (remote or bool(o[1])) , "the next line is judged on its own", line=line, got=o)


@h.case
def usage_errors(h):
    sp = {"chans": [("c0", "uint8", None, None, True)], "fields": []}
    for line in ["", "get", "set", "bogus c0", "set c0 1 --what", "-e", "get -e", "toggle", "SET c0 1", "c0 set 1", "set --force=1 c0 1", "get -x c0"]:
        a = build(sp)
        p, calls = proc(a)
        r = run(p, line)
        h.ev(line)
        h.check(not r and bool(r.reason) and not calls.log and raw(a, sp)["c0"] == "0", "a line that does not parse fails", line=line, got=r)


@h.case
async def queued(h):
    """Commands queued for asynchronous handling are each handled once, in order."""
    for _ in range(h.n(40)):
        sp = {"chans": [("c0", "uint8", None, None, True), ("c1", "bool", None, None, True)], "fields": []}
        seen = []

        class M(AsyncCommandProcessingMixin):
            async def handle_command(self, args, channel):
                await asyncio.sleep(0)
                seen.append((str(args.command), args.channel, list(args.extra), channel))

        a = build(sp)
        m = M(logger=getLogger("x"))
        m.command = ChannelCommandProcessor(a, getLogger("x"))

        async def alpha(args, channel):
            seen.append(("alpha", args.channel, list(args.extra), channel))

        m._setup_async_commands(alpha)
        # a class derived from one that already did may add its own
        for _ in range(h.rng.randrange(3)):
            m._setup_async_commands()
        want = []
        for _ in range(h.rng.randint(0, 6)):
            for _ in range(h.rng.randint(0, 6)):
                k = h.rng.randrange(5)
                if k == 0:
                    run(m.command, "custom alpha x y")
                    want.append(("alpha", "alpha", ["x", "y"], None))
                elif k == 1:
                    run(m.command, "custom nope")
                elif k == 2:
                    run(m.command, "-r set zzz 1")
                    want.append(("set", "zzz", ["1"], None))
                elif k == 3:
                    v = h.rng.randrange(256)
                    run(m.command, f"set c0 {v}")
                    want.append(("set", "c0", [str(v)], a["c0"][0]))
                else:
                    run(m.command, "set c0 bad")
            await m.process_command_queue()
            h.ev(tuple(x[:2] for x in want))
            h.check(seen == want, "queued commands are handled once each, in order", seen=seen, want=want)
            h.check(m.outgoing_commands.empty(), "and none is left", n=m.outgoing_commands.qsize())


h.done()
