import asyncio
import copy
import logging
import json
from pathlib import Path
from harness.lib import *
from vcorelib.dict.codec import JsonCodec
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.channel.environment.command import register_env, clear_env
from runtimepy.message import MessageProcessor
from runtimepy.message.interface import JsonMessageInterface
from runtimepy.net.arbiter.tcp.json import TcpJsonMessageConnection
from runtimepy.util import Identifier

logging.disable(logging.NOTSET)
logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger("websockets").setLevel(logging.CRITICAL)
h = H()


class Shown(logging.Handler):
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, record):
        self.text.append((record.levelno, record.getMessage()))


class Side(JsonMessageInterface):
    """One end of a message exchange."""

    def __init__(self, name, offset=0):
        self.logger = logging.Logger(name)
        self.shown = Shown()
        self.logger.addHandler(self.shown)
        self.processor = MessageProcessor()
        self.env = ChannelEnvironment()
        self.env.int_channel("n", commandable=True)
        self.command = ChannelCommandProcessor(self.env, self.logger)
        self.sent, self.hold = [], False
        super().__init__()
        for _ in range(offset):
            self.curr_id.curr_id += 1
        self.peer, self.tasks, self.held, self.err = None, [], [], []
        self.shown.text.clear()

    def write(self, data, addr=None):
        for m in MessageProcessor().messages(data):
            self.sent.append(copy.deepcopy(m))
        if self.hold:
            self.held.append(data)
        else:
            self.deliver(data)

    def deliver(self, data):
        async def later():
            await asyncio.sleep(0)
            for m in self.peer.processor.messages(data):
                try:
                    await self.peer.process_json(m)
                except Exception as e:  # pylint: disable=broad-except
                    self.peer.err.append(e)
        self.tasks.append(asyncio.ensure_future(later()))


def pair(offset=1):
    a, b = Side("a"), Side("b", offset)
    a.peer, b.peer = b, a
    return a, b


async def idle(*sides, n=30):
    for _ in range(n):
        await asyncio.sleep(0)


@h.case
async def requests(h):
    """Any number of requests at once, from both sides, answered in any order."""
    for trial in range(h.n(40)):
        a, b = pair()
        for s in (a, b):
            async def slow(outbox, inbox, s=s):
                for _ in range(inbox.get("wait", 0)):
                    await asyncio.sleep(0)
                if "tag" in inbox:  # replies are handled too
                    outbox["echo"] = inbox["tag"]
            s.basic_handler("slow", slow)
        jobs, tags = [], []
        for i in range(h.rng.randrange(1, 12)):
            s = h.rng.choice((a, b))
            tag = f"{trial}-{i}-{id(s)}"
            tags.append(tag)
            jobs.append(s.wait_json({"slow": {"tag": tag, "wait": h.rng.randrange(8)}}, timeout=5))
        got = await asyncio.gather(*jobs)
        h.ev((trial, len(jobs)))
        for t, g in zip(tags, got):
            h.check(g == {"slow": {"echo": t}}, "every request gets its own response", tag=t, got=g)
        n = len(a.sent) + len(b.sent)
        await idle()
        h.check(len(a.sent) + len(b.sent) == n == 2 * len(jobs), "nothing but requests and one response each is sent", sent=a.sent + b.sent)
        h.check(not a.err and not b.err, "processing succeeds", errs=a.err + b.err)
        ids = [m["__id__"] for m in a.sent + b.sent]
        h.check(sorted(ids) == sorted(list(set(ids)) * 2), "identifiers are unique, responses carry their request's", ids=ids)


@h.case
async def lateness(h):
    """Responses that come too late, or never."""
    for trial in range(h.n(6)):
        a, b = pair()
        b.hold = True
        try:
            await a.wait_json({"loopback": {"x": 1}}, timeout=0.01)
            h.check(False, "a request without a response fails")
        except AssertionError:
            pass
        t = asyncio.ensure_future(a.wait_json({"loopback": {"y": trial}}, timeout=5))
        await idle()
        n = len(a.sent)
        for d in b.held:
            b.deliver(d)
        b.held, b.hold = [], False
        got = await t
        await idle()
        h.ev(trial)
        h.check(got == {"loopback": {"y": trial}}, "later requests get their own response, not a late one", got=got)
        h.check(len(a.sent) == n, "a late response isn't answered", sent=a.sent[n:])
        c = asyncio.ensure_future(a.wait_json({"loopback": {"z": 1}}, timeout=5))
        b.hold = True
        await idle()
        c.cancel()
        try:
            await c
        except asyncio.CancelledError:
            pass
        n = len(a.sent)
        for d in b.held:
            b.deliver(d)
        await idle()
        h.check(len(a.sent) == n, "the response to a cancelled request isn't answered", sent=a.sent[n:])


@h.case
async def processing(h):
    for trial in range(h.n(200)):
        a, b = pair()
        seen = []

        def mk(name, speaks):
            async def fn(outbox, inbox):
                await asyncio.sleep(0)
                seen.append((name, inbox))
                if speaks:
                    outbox[name] = inbox.get("v")
            return fn
        b.basic_handler("q", mk("q", False))
        b.basic_handler("l", mk("l", True))
        b.basic_handler("dyn-{num}", mk("dyn", True))
        names = h.rng.sample(["q", "l", "dyn-7", "loopback", "zz", "aa", "keys_ignored", "mm"], h.rng.randrange(0, 6))
        msg = {k: {"v": i} for i, k in enumerate(names)}
        want = {}
        for i, k in enumerate(names):
            if k == "l":
                want["l"] = {"l": i}
            if k == "dyn-7":
                want["dyn-{num}"] = {"dyn": i}
            if k == "loopback":
                want["loopback"] = {"v": i}
        ign = sorted(x for x in names if x in ("zz", "aa", "mm"))
        if ign:
            want["keys_ignored"] = ign
        h.ev(tuple(names))
        if trial % 2:
            got = await a.wait_json(dict(msg), timeout=5)
            h.check(got == want, "a response says what handlers said and what was ignored", names=names, got=got, want=want)
        else:
            a.send_json(dict(msg))
            await idle()
            # (a response without an identifier is another message)
            h.check(b.sent[:1] == ([want] if want else []), "a response is sent if there's something to say", names=names, got=b.sent, want=want)
        exp = [("dyn", {"num": "7", "v": i}) if k == "dyn-7" else (k, {"v": i}) for i, k in enumerate(names) if k in ("q", "l", "dyn-7")]
        h.check(seen[:len(exp)] == exp, "every key's handler runs once with that key's data", names=names, seen=seen)
        await idle()
        h.check(trial % 2 == 0 or len(b.sent) <= 1 and len(a.sent) == 1, "responses aren't answered", a=a.sent, b=b.sent)


@h.case
async def logs(h):
    """Log messages of a side are shown once by the other."""
    class Odd:
        def __str__(self):
            return "odd%s"
    items = [("plain", ()), ("%d%%", (5,)), ("100%", ()), ("%s", (Path("/x"),)), ("%s and %s", (Odd(), {"a"})), ("%(k)s", ({"k": 3},)), ("%s", (ValueError("e"),)), ("%s %s", ((1, 2), b"x")), (Path("/p"), ())]
    for trial in range(h.n(60)):
        a, b = pair()
        log = logging.Logger("app")
        log.addHandler(a.list_handler)
        b.shown.text.clear()
        want = []
        msg = {"quiet": {"n": trial}}

        async def quiet(outbox, inbox):
            pass
        b.basic_handler("quiet", quiet)
        keep = copy.deepcopy(msg)
        for _ in range(h.rng.randrange(1, 4)):
            for _ in range(h.rng.randrange(0, 3)):
                text, args = h.rng.choice(items)
                lev = h.rng.choice([logging.INFO, logging.WARNING, logging.ERROR])
                log.log(lev, text, *args)
                rec = logging.LogRecord("app", lev, "", 0, text, args, None)
                want.append((lev, "remote: " + rec.getMessage()))
            a.send_json(msg)
            h.check(msg == keep, "the caller's message doesn't change", msg=msg)
            await idle()
        h.ev((trial, len(want)))
        h.check(b.shown.text == want, "every message logged is shown once by the peer, in order, as it was", got=b.shown.text, want=want)
        h.check(not b.sent, "log messages aren't sent back", sent=b.sent)
        h.check(not a.err and not b.err, "logging never breaks messaging", errs=a.err + b.err)
    a, b = pair()
    a.stage_remote_log("staged %d", 4, level=logging.WARNING)
    a.stage_remote_log("staged 100%")
    a.stage_remote_log("none %d %s|", 0, "")
    a.send_json({})
    a.send_json({})
    await idle()
    h.check(b.shown.text == [(logging.WARNING, "remote: staged 4"), (logging.INFO, "remote: staged 100%"), (logging.INFO, "remote: none 0 |")], "staged messages are shown once", got=b.shown.text)
    log = logging.Logger("app")
    log.addHandler(a.list_handler)
    log.info("%d %d", "x")
    log.info("after")
    a.send_json({"n": 1})
    await idle()
    h.check(b.shown.text[-1][1] == "remote: after" and b.sent[-1] == {"keys_ignored": ["n"]}, "an ill-formed record breaks nothing", got=b.shown.text)


@h.case
async def commands(h):
    a, b = pair()
    other = ChannelEnvironment()
    other.int_channel("n", commandable=True)
    proc = ChannelCommandProcessor(other, b.logger)
    clear_env()
    b2 = Side("b2", 1)
    register_env("other", proc)
    a.peer, b2.peer = b2, a
    b = b2
    val = lambda e: e.value("n")
    for i in range(h.n(60)):
        v, env = h.rng.randrange(100), h.rng.choice(["default", "other", "none", "Default"])
        was = (val(b.env), val(other))
        h.ev((env, v))
        r = await a.channel_command(f"set n {v}", environment=env)
        now = (val(b.env), val(other))
        exp = (v, was[1]) if env == "default" else (was[0], v) if env == "other" else was
        h.check(now == exp, "exactly the environment named runs the command", env=env, v=v, now=now)
        h.check(bool(r.success) == (env in ("default", "other")), "its result comes back", r=r)
        r = await a.channel_command(f"set nope {v}", environment=env)
        h.check(not r.success and bool(r.reason), "failures come back with a reason", r=r)
    clear_env()


@h.case
async def polls(h):
    for n in [-1, 0, 1, 2, 7]:
        a, b = pair()
        k = [0, 0]
        for i, s in enumerate((a, b)):
            async def poll(i=i):
                k[i] += 1
            s.poll_handler = poll
        a.send_poll(n)
        await idle(n=200)
        h.ev(n)
        h.check(sum(k) == max(n, 0) + 1, "a poll loops back as often as asked, then ends", n=n, k=k)
    a, b = pair()
    await asyncio.gather(a.wait_json({"meta": a.meta}, timeout=5), b.wait_json({"meta": b.meta}, timeout=5))
    h.check(a.remote_meta["handlers"] == b.meta["handlers"] and b.remote_meta["handlers"] == a.meta["handlers"], "metadata is exchanged")
    n = len(a.sent) + len(b.sent)
    await idle(n=100)
    h.check(len(a.sent) + len(b.sent) == n <= 4, "an exchange of metadata ends", n=n)
    h.check(await a.loopback({"k": [1, {"z": None}]}), "a loopback succeeds")


@h.case
def identifiers(h):
    a, b = Identifier(), Identifier()
    b.curr_id += 1
    xs, ys = [a() for _ in range(500)], [b() for _ in range(500)]
    h.ev("ids")
    h.check(len(set(xs)) == len(xs) and len(set(ys)) == len(ys), "identifiers are never issued again")
    h.check(not set(xs) & set(ys), "the two sides of a subprocess never issue the same identifier")


@h.case
async def texts(h):
    """Whatever text a connection gets, it goes on."""
    async with TcpJsonMessageConnection.create_pair() as (a, b):
        got = []

        async def note(outbox, inbox):
            got.append(inbox["n"])
        b.basic_handler("note", note)
        sig = asyncio.Event()
        ts = [asyncio.ensure_future(c.process(stop_sig=sig)) for c in (a, b)]
        await asyncio.gather(a.initialized.wait(), b.initialized.wait())
        want = []
        for i in range(h.n(60)):
            if h.rng.random() < 0.5:
                a.send_message_str(h.rng.choice(["", "{", "[1]", "5", "null", "{}", "\"x\"", "nul", "{'a': 1}", "NaN", "[", "\u20ac", "{\"a\""]))
            else:
                want.append(i)
                a.send_json({"note": {"n": i}})
        await a.loopback()
        h.ev("texts")
        h.check(got == want, "messages are processed in order, whatever came between", got=got, want=want)
        h.check(not b.disabled, "text that is no message doesn't end the connection")
        sig.set()
        await asyncio.gather(*ts)


@h.case
async def crossing(h):
    """The two sides of a network connection draw the same identifiers."""
    a, b = pair(offset=0)
    for s in (a, b):
        async def fn(outbox, inbox, s=s):
            outbox["from"] = s.logger.name
        s.basic_handler("who", fn)
    got = await asyncio.gather(a.wait_json({"who": {"x": 1}}, timeout=5), b.wait_json({"who": {"y": 2}}, timeout=5))
    h.ev("crossing")
    h.check(got == [{"who": {"from": "b"}}, {"who": {"from": "a"}}], "requests that cross each get their own response", finding="C21-crossing-requests", got=got)


class Held(JsonCodec):
    """A codec that gives what it holds."""

    def __init__(self, data):
        self.data = data

    def asdict(self):
        return self.data

    @classmethod
    def create(cls, data):
        return cls(data)

    def init(self, data):
        """Nothing to do."""


@h.case
async def unchanged(h):
    """Messages stay as their callers made them, however they're given."""
    for t in range(h.n(40)):
        a, b = pair()
        first = {"loopback": {"n": t}}
        held = Held(first) if h.rng.random() < 0.5 else first
        want = copy.deepcopy(first)
        for i in range(h.rng.randint(1, 3)):
            if h.rng.random() < 0.5:
                a.stage_remote_log("hello")
            if h.rng.random() < 0.4:
                a.send_json(held)
            else:
                got = await a.wait_json(held, timeout=5)
                h.check("loopback" in got and "__id__" not in got, "a request gets its response", got=got)
            h.check(first == want, "a caller's message isn't changed", got=first, want=want, codec=held is not first)
        await idle(a, b)
        h.check(all(m.get("loopback") == want["loopback"] for m in a.sent[:1]), "what's sent is the message", sent=a.sent)
        h.ev(t)



h.done()
