import asyncio
import io
import logging
import sys
import time
from harness.lib import *
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.channel.environment.command import clear_env
from runtimepy.message import MessageProcessor
from runtimepy.subprocess import spawn_exec, spawn_shell
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram
from runtimepy.subprocess.protocol import RuntimepySubprocessProtocol

logging.disable(logging.CRITICAL)
h = H()


def taken(q):
    got = []
    while not q.empty():
        got.append(q.get_nowait())
    return got


class Pipes:
    """The transport of a process that isn't one."""

    def get_extra_info(self, name, default=None):
        return None

    def get_pipe_transport(self, fd):
        return None

    def get_pid(self):
        return 1


@h.case
async def protocol(h):
    """Data, ends and the exit in any order, with queues for any of the streams."""
    for i in range(h.n(150)):
        q = {fd: asyncio.Queue() if h.rng.random() < 0.7 else None for fd in (1, 2)}
        p = RuntimepySubprocessProtocol()
        how = h.rng.randrange(2)
        try:
            p = RuntimepySubprocessProtocol(q[1], q[2])
        except TypeError:
            p.stdout_queue, p.stderr_queue = q[1], q[2]
        p.connection_made(Pipes())
        h.ev((i, q[1] is None, q[2] is None, how))
        want = {1: [], 2: []}
        for _ in range(h.rng.randrange(12)):
            fd = h.rng.choice([1, 2])
            if h.rng.random() < 0.9:
                d = h.rng.randbytes(h.rng.choice([1, 5, 4096]))
                got = outcome(lambda: p.pipe_data_received(fd, d))
                want[fd].append(d)
            else:
                got = outcome(lambda: p.pipe_connection_lost(fd, None))
                want[fd].append(b"")
            h.check(got[0] == "ok", "output is accepted", fd=fd, queues=[k for k in q if q[k]], got=got)
            h.check(not p.exited.is_set(), "a process exits only once it did")
        p.process_exited()
        h.check(p.exited.is_set() and p.elapsed_time >= 0, "the exit is known")
        for fd in (1, 2):
            if q[fd] is not None:
                h.check(taken(q[fd]) == want[fd] + [b""], "what is written is in its queue, in order, then its end", fd=fd)


WRITER = """
import sys, random
r = random.Random({seed})
for _ in range({n}):
    f = r.choice([sys.stdout.buffer, sys.stderr.buffer])
    f.write(r.randbytes(r.choice([1, 10, 5000, 70000])))
    f.flush()
"""


def written(seed, n):
    import random
    r, out = random.Random(seed), {1: b"", 2: b""}
    for _ in range(n):
        fd = r.choice([1, 2])
        out[fd] += r.randbytes(r.choice([1, 10, 5000, 70000]))
    return out


async def whole(q, markers=2, limit=15.0):
    """All of a stream until its end (and the exit of its process) is known."""
    out, n, end = b"", 0, time.time() + limit
    while n < markers and time.time() < end:
        try:
            d = await asyncio.wait_for(q.get(), 0.5)
        except asyncio.TimeoutError:
            continue
        out += d
        n += not d
    return out, n == markers


@h.case
async def output(h):
    """What real processes write arrives whole, however busy the event loop is."""
    loop = asyncio.get_running_loop()
    for i in range(h.n(12, 60)):
        busy = i % 2
        stop = []

        def hog():
            time.sleep(0.002)
            if not stop:
                loop.call_soon(hog)
        if busy:
            loop.call_soon(hog)
        q = {1: asyncio.Queue(), 2: asyncio.Queue()}
        seed, n = h.rng.randrange(10**6), h.rng.choice([0, 1, 3, 20])
        which = i % 4
        h.ev((i, n, busy, which))
        if which < 2:
            want = {1: b"hello\n", 2: b"err\n"}
            cm = spawn_shell("echo hello; echo err >&2", stdout=q[1], stderr=q[2])
        else:
            want = written(seed, n)
            cm = spawn_exec(sys.executable, "-S", "-c", WRITER.format(seed=seed, n=n), stdout=q[1], stderr=q[2])
        async with cm as p:
            (a, x), (b, y) = await whole(q[1]), await whole(q[2])
            await asyncio.wait_for(p.exited.wait(), 20)
        stop.append(1)
        if x and y:
            h.check(a == want[1], "all output arrives in its queue", case=i, got=len(a), want=len(want[1]))
            h.check(b == want[2], "all errors arrive in their queue", case=i, got=len(b), want=len(want[2]))
        h.check(p.exited.is_set(), "the process has exited after its context")


@h.case
async def single(h):
    """One stream without a queue doesn't matter to the other."""
    for k in (1, 2):
        q = asyncio.Queue()
        errs = []
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda _, c: errs.append(c.get("exception")))
        h.ev(k)
        async with spawn_shell("echo out; echo err >&2", **{"stdout" if k == 1 else "stderr": q}) as p:
            got, end = await whole(q)
            await asyncio.wait_for(p.exited.wait(), 20)
        loop.set_exception_handler(None)
        if end:
            h.check(got == (b"out\n" if k == 1 else b"err\n"), "the stream with a queue arrives", k=k, got=got)
        h.check(not errs, "the other stream causes no errors", k=k, errs=errs)


@h.case
async def endings(h):
    """However the body ends, the process has ended after it."""
    for i in range(h.n(10, 40)):
        what = i % 5
        q, e = asyncio.Queue(), asyncio.Queue()
        h.ev((i, what))
        t = time.time()
        cmd = "sleep 60" if what == 4 else "cat"
        data = h.rng.randbytes(h.rng.choice([1, 1000, 50000]))
        seen = None
        try:
            async with spawn_shell("exec " + cmd, stdout=q, stderr=e) if i % 10 > 4 else spawn_exec(*cmd.split(), stdout=q, stderr=e) as p:
                h.check(not p.exited.is_set(), "a process runs during its context")
                if what < 4:
                    p.stdin.write(data)
                if what == 1:
                    raise KeyError("x")
                if what == 2:
                    asyncio.current_task().cancel()
                    await asyncio.sleep(1)
                if what == 3:
                    got = b""
                    while len(got) < len(data) and time.time() < t + 20:
                        try:
                            got += await asyncio.wait_for(q.get(), 1)
                        except asyncio.TimeoutError:
                            pass
                    if time.time() < t + 20:
                        h.check(got == data, "what is written to a process is what it reads", n=len(data), got=len(got))
        except KeyError:
            seen = "error"
        except asyncio.CancelledError:
            seen = "cancelled"
            asyncio.current_task().uncancel()
        h.check(seen == {1: "error", 2: "cancelled"}.get(what), "exceptions of the body propagate", case=what, seen=seen)
        h.check(p.exited.is_set() and p.transport.get_returncode() is not None, "the process has exited after its context", case=what)
        h.check(q.empty() and e.empty(), "nothing is left in the queues", case=what)
        h.check(time.time() - t < 40, "a process that doesn't end by itself is ended", case=what)


# -- peers
class Mixin:
    """An end that is connected to another in this process."""

    log = None

    def setup(self):
        self.other, self.seen, self.tasks, self.sent = None, [], [], []

        async def note(outbox, inbox):
            await asyncio.sleep(0)
            self.seen.append(inbox)
        self.basic_handler("note", note)

    def write(self, data, addr=None):
        self.sent.append(data)

        if self.other is None:
            return

        async def later(prev):
            if prev is not None:
                await prev
            await self.other.handle_stdout(data)
        self.tasks.append(asyncio.ensure_future(later(self.tasks[-1] if self.tasks else None)))


class Host(Mixin, RuntimepyPeer):
    pass


class Prog(Mixin, RuntimepyPeer):
    pass


N = [0]


def make(cls, **chans):
    N[0] += 1

    class P(cls):
        def struct_pre_finalize(self):
            for k, kind in chans.items():
                self.struct.env.channel(k, kind, commandable=True)
    p = P(None, f"peer{N[0]}", {"config": {"n": N[0]}})
    p.setup()
    return p


CH = dict(n="uint32", f="double", b="bool", s="int8")


def pair():
    clear_env()
    a, b = make(Host, **CH), make(Prog, **CH)
    b.curr_id.curr_id += 1
    a.other, b.other = b, a
    return a, b


async def idle(n=40):
    for _ in range(n):
        await asyncio.sleep(0)


def frame(*msgs):
    s = io.BytesIO()
    m = MessageProcessor()
    for x in msgs:
        m.encode_json(s, x)
    return s.getvalue()


@h.case
async def messages(h):
    """Messages in any pieces are processed once, in order."""
    for i in range(h.n(60)):
        a, b = pair()
        n = h.rng.randrange(1, 30)
        data = frame(*[{"note": {"k": k, "t": "x" * h.rng.choice([0, 1, 300])}, "__id__": 2 * k} for k in range(n)])
        a.other = b.other = None
        before = (a.stdout_metrics.messages.value, a.stdout_metrics.bytes.value)
        pieces = list(chunks(h.rng, data))
        h.ev((i, n, len(pieces)))
        for c in pieces:
            await a.handle_stdout(c)
        await a.handle_stdout(b"")
        await idle()
        h.check([m["k"] for m in a.seen] == list(range(n)), "every message is processed once, in order", n=n, got=[m["k"] for m in a.seen])
        h.check((a.stdout_metrics.messages.value - before[0], a.stdout_metrics.bytes.value - before[1]) == (len([c for c in pieces if c]), len(data)), "output is counted by size")


@h.case
async def telemetry(h):
    """Events in any pieces update the peer's environment."""
    for i in range(h.n(60)):
        a, b = pair()
        await asyncio.wait_for(a.share_environment(), 20)
        await idle()
        h.check(a.peer is not None and b.peer is not None, "both ends have the other's environment")
        env, got = b.struct.env, a.peer.env
        s = io.BytesIO()
        hist = []
        with env.registered(s):
            for _ in range(h.rng.randrange(1, 20)):
                k = h.rng.choice("nfbs")
                v = {"n": h.rng.randrange(2**32), "f": h.rng.uniform(-1e9, 1e9), "b": h.rng.random() < 0.5, "s": h.rng.randrange(-128, 128)}[k]
                env.set(k, v)
                hist.append((k, v))
        data = s.getvalue()
        pieces = list(chunks(h.rng, data))
        h.ev((i, len(hist), len(pieces)))
        for c in pieces:
            a.handle_stderr(c)
        a.handle_stderr(b"")
        for k in CH:
            h.check(got.value(k) == env.value(k), "the peer's environment has what the peer's last event said", k=k, got=got.value(k), want=env.value(k))
        h.check((a.stderr_metrics.bytes.value, a.stderr_metrics.messages.value) == (len(data), len([c for c in pieces if c])), "telemetry is counted by size", got=a.stderr_metrics.bytes.value)
        h.check(set(got.names) == set(env.names), "the environment has the channels of the peer's")


@h.case
async def exchange(h):
    """Environments and configurations are exchanged once."""
    for i in range(h.n(20)):
        a, b = pair()
        h.ev(i)
        for k in range(2):
            x, y = (a, b) if h.rng.random() < 0.5 else (b, a)
            try:
                await asyncio.wait_for(x.share_environment(), 20)
            except KeyError:
                h.check(k == 1, "environments can be exchanged")  # the other doesn't answer twice
            await idle()
            if k == 0:
                pa, pb = a.peer, b.peer
                h.check(pa is not None and set(pa.env.names) == set(b.struct.env.names), "the host has the program's environment")
                h.check(pb is not None and set(pb.env.names) == set(a.struct.env.names), "the program has the host's environment")
            else:
                h.check(a.peer is pa and b.peer is pb, "a later exchange changes nothing")
            if h.rng.random() < 0.5:
                break
        cfg = h.rng.choice([{"v": i}, {}, {"": None}])
        await asyncio.wait_for(a.share_config({"config": dict(cfg)}), 20)
        await idle()
        h.check(b.peer_config == cfg and b.peer_config_event.is_set(), "the configuration arrives as it is", got=b.peer_config)
        await asyncio.wait_for(a.share_config({"config": {"v": -1}}), 20)
        await idle()
        h.check(b.peer_config == cfg, "the first configuration is kept", got=b.peer_config)


@h.case
async def commands(h):
    """Commands for the peer are executed there, once each, in order."""
    for i in range(h.n(20)):
        a, b = pair()
        await asyncio.wait_for(a.share_environment(), 20)
        await idle()
        want = {}
        for _ in range(h.rng.randrange(1, 8)):
            k = h.rng.choice(["n", "s"])
            v = h.rng.randrange(100)
            force = h.rng.random() < 0.3
            h.ev((k, v, force))
            r = a.peer.command(f"set{' -f' if force else ''} {k} {v}")
            h.check(bool(r), "a command for the peer is accepted", got=str(r))
            want[k] = v
        await asyncio.wait_for(a.process_command_queue(), 20)
        await idle()
        for k, v in want.items():
            h.check(b.struct.env.value(k) == v, "commands for the peer are executed there, in order", k=k, want=v, got=b.struct.env.value(k))
        h.check(a.outgoing_commands.empty(), "no command is left")
        before = b.struct.env.value("n")
        a.struct.command.command("set n 55")
        await asyncio.wait_for(a.process_command_queue(), 20)
        await idle()
        h.check((a.struct.env.value("n"), b.struct.env.value("n")) == (55, before), "commands for the own environment stay", got=a.struct.env.value("n"))


@h.case
async def forwarded(h):
    """A command for the peer arrives with the arguments it was given."""
    from argparse import Namespace
    a, b = pair()
    got = []

    async def sent(command, environment="default", addr=None):
        got.append((command, environment))
    a.channel_command = sent
    for _ in range(h.n(40)):
        args = Namespace(remote=h.rng.random() < 0.8, command=h.rng.choice(["set", "toggle", "get"]), force=h.rng.random() < 0.5, channel=h.rng.choice(["n", "s", "set"]),
                         extra=[h.rng.choice(["1", "2", "-f", "n", "a.b"]) for _ in range(h.rng.randint(0, 5))], env=h.rng.choice(["e", "default"]))
        want = [(" ".join([args.command] + ["-f"] * args.force + [args.channel] + args.extra), args.env)] if args.remote else []
        h.ev(repr(args))
        del got[:]
        await a.handle_command(args, None)
        h.check(got == want, "a command for the peer is sent once, as it was given", want=want, got=list(got))


@h.case
async def queues(h):
    """Data in the queues of a process is processed by its stream."""
    for i in range(h.n(40)):
        a, b = pair()
        await asyncio.wait_for(a.share_environment(), 20)
        await idle()
        p = RuntimepySubprocessProtocol()
        q = [asyncio.Queue() if h.rng.random() < 0.8 else None for _ in range(2)]
        p.stdout_queue, p.stderr_queue = q
        a.other = b.other = None
        a.protocol = p
        s = io.BytesIO()
        with b.struct.env.registered(s):
            for k in range(3):
                b.struct.env.set("n", h.rng.randrange(2**32))
        n = h.rng.randrange(5)
        data = frame(*[{"note": {"k": k}, "__id__": 2 * k} for k in range(n)])
        h.ev((i, q[0] is None, q[1] is None))
        if q[0]:
            for c in list(chunks(h.rng, data)) + [b""]:
                q[0].put_nowait(c)
        if q[1]:
            for c in list(chunks(h.rng, s.getvalue())) + [b""]:
                q[1].put_nowait(c)
        go = await a.service_queues()
        await idle()
        h.check(go == any(x is not None for x in q), "servicing goes on as long as there are queues", got=go)
        h.check(all(x is None or x.empty() for x in q), "everything that was there is taken")
        h.check([m["k"] for m in a.seen] == (list(range(n)) if q[0] else []), "messages are processed in order", got=a.seen)
        if q[1]:
            h.check(a.peer.env.value("n") == b.struct.env.value("n"), "telemetry is processed")


class Input:
    """A non-blocking input."""

    def __init__(self, data, rng):
        self.data, self.rng, self.fd = data, rng, None

    def fileno(self):
        import os
        if self.fd is None:
            self.fd = os.open("/dev/null", os.O_RDONLY)
        return self.fd

    def read(self, n=-1):
        if self.data and self.rng.random() < 0.02:
            return None
        n = len(self.data) if n is None or n < 0 else n
        d, self.data = self.data[:n], self.data[n:]
        return d


@h.case
async def program(h):
    """A program processes all messages until its input ends."""
    for i in range(h.n(10)):
        clear_env()
        N[0] += 1
        p = PeerProgram(f"prog{N[0]}", {})
        p.poll_period_s = 0.0
        p.got_eof = asyncio.Event()
        p.json_output = io.BytesIO()
        seen = []

        async def note(outbox, inbox):
            await asyncio.sleep(0)
            h.check(not p.got_eof.is_set(), "the end of input is signalled after the last message")
            seen.append(inbox["k"])
        p.basic_handler("note", note)
        n = h.rng.randrange(1, 12)
        data = frame(*[{"note": {"k": k}, "__id__": 2 * k} for k in range(n)])
        h.ev((i, n))
        before = p.stdin_metrics.bytes.value
        src = Input(data, h.rng)
        await asyncio.wait_for(p.io_task(src), 20)
        await idle()
        import os
        if src.fd is not None:
            os.close(src.fd)
        h.check(seen == list(range(n)), "every message is processed once, in order", n=n, got=seen)
        h.check(p.got_eof.is_set(), "the end of input is signalled")
        h.check(p.stdin_metrics.bytes.value - before == len(data), "input is counted by size", got=p.stdin_metrics.bytes.value - before, want=len(data))
        out = p.json_output.getvalue()
        h.check(p.stdout_metrics.bytes.value == len(out), "what is written is counted by size")


h.done()
