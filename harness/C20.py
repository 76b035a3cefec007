import asyncio
import logging
from harness.lib import *
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.connection import Connection, EchoConnection
from runtimepy.net.manager import ConnectionManager

logging.disable(logging.CRITICAL)
h = H()


class Conn(Connection):
    def __init__(self, script=(), ready=True, reads=True):
        super().__init__(logging.getLogger("conn"))
        self.inbox, self.log, self.sent = asyncio.Queue(), [], []
        self.live, self.most, self.closed, self.tries, self.extra = 0, 0, 0, 0, 0
        self.ready, self.can_restart = ready, False
        for x in script:
            self.inbox.put_nowait(x)

    async def async_init(self):
        await asyncio.sleep(0)
        if self.ready == "raise":
            raise KeyError("init")
        return self.ready

    async def _await_message(self):
        m = await self.inbox.get()
        if m == "rx-error":
            raise KeyError("read")
        return m

    async def handle(self, m):
        self.log.append(m)
        await asyncio.sleep(0)
        if m in ("boom", b"boom"):
            raise KeyError("process")
        if m in ("off", b"off"):
            self.disable("off")
        return m not in ("end", b"end")

    async def process_text(self, data):
        assert isinstance(data, str)
        return await self.handle(data)

    async def process_binary(self, data):
        assert not isinstance(data, str)
        return await self.handle(data)

    async def _send_text_message(self, data):
        await asyncio.sleep(0)
        if data == "boom":
            raise KeyError("send")
        self.sent.append(data)

    async def _send_binay_message(self, data):
        await self._send_text_message(data)

    async def close(self):
        self.closed += 1

    def disable_extra(self):
        self.extra += 1

    async def restart(self):
        self.tries += 1
        return self.can_restart

    async def process(self, **kw):
        self.live += 1
        self.most = max(self.most, self.live)
        try:
            await super().process(**kw)
        finally:
            self.live -= 1


MSGS = ["a", "b", b"c", b"d", "e", "", b""]
ENDS = ["end", b"end", "boom", b"boom", "rx-error", None, "off", b"off"]


@h.case
async def messages(h):
    """Messages are processed in order until one ends the connection."""
    for _ in range(h.n(150)):
        msgs = [h.rng.choice(MSGS) for _ in range(h.rng.randrange(8))]
        end = h.rng.choice(ENDS)
        more = [h.rng.choice(MSGS + ENDS) for _ in range(3)]
        c = Conn(msgs + [end] + more)
        try:
            await asyncio.wait_for(c.process(), 5)
        except asyncio.TimeoutError:
            h.check(False, "a connection that can't read or process a message ends", messages=msgs, end=end)
            continue
        want = msgs + ([end] if end not in (None, "rx-error") else [])
        d = dict(messages=msgs, end=end, more=more)
        h.ev(repr(d))
        h.check(c.log == want, "messages are processed one by one, in order, until one ends the connection", got=c.log, **d)
        h.check(c.disabled and c.disabled_event.is_set(), "a connection that ended is disabled", **d)
        h.check(c.exited.is_set() and c.closed == 1 and c.extra == 1, "it's closed once and has exited", closed=c.closed, extra=c.extra, **d)
        await asyncio.wait_for(c.initialized.wait(), 1)
        c.disable("again")
        h.check(c.extra == 1, "disabling again does nothing", **d)


@h.case
async def sending(h):
    for _ in range(h.n(60)):
        c = Conn()
        t, b = [], []
        async with c.process_then_disable():
            for _ in range(h.rng.randrange(12)):
                if h.rng.random() < 0.5:
                    t.append(h.rng.choice([f"m{len(t)}", "", "é"]))
                    c.send_text(t[-1])
                else:
                    b.append(h.rng.choice([bytes([len(b)]), b"", b"\0"]))
                    c.send_binary(b[-1])
                if h.rng.random() < 0.3:
                    await asyncio.sleep(0)
            await asyncio.wait_for(asyncio.gather(c._text_messages.join(), c._binary_messages.join()), 5) if hasattr(c, "_text_messages") else await asyncio.sleep(0.05)
            h.check([x for x in c.sent if isinstance(x, str)] == t and [x for x in c.sent if not isinstance(x, str)] == b, "messages are sent in order, once", sent=c.sent)
        h.ev((len(t), len(b)))
        h.check(c.disabled and c.exited.is_set(), "the connection ended with its context")
    for kind in ("boom",):
        c = Conn()
        c.send_text(kind)
        try:
            await asyncio.wait_for(c.process(), 2)
            h.check(c.disabled, "a connection that can't send is disabled")
        except asyncio.TimeoutError:
            h.check(False, "a connection that can't send is disabled")


@h.case
async def initialization(h):
    """Whoever waits for initialization goes on."""
    for ready in (True, False, "raise"):
        for script in ([], ["end"], [None], ["rx-error"], ["a", "end"]):
            for early in (0, 1, 2, 3):
                for sig in (False, True):
                    c = Conn(script, ready=ready)
                    stop = asyncio.Event()
                    t = asyncio.create_task(c.process(stop_sig=stop))
                    w = asyncio.create_task(c.initialized.wait())
                    for _ in range(early):
                        await asyncio.sleep(0)
                    if early:
                        stop.set() if sig else c.disable("early")
                    d = dict(ready=ready, messages=script, disabled_after=early, by_signal=sig)
                    h.ev(repr(d))
                    try:
                        await asyncio.wait_for(w, 1)
                        h.check(True, "waiting for initialization ends")
                    except asyncio.TimeoutError:
                        h.check(False, "waiting for initialization ends", **d)
                    if ready is not True:
                        await asyncio.sleep(0)
                        h.check(c.disabled, "a connection whose initialization failed is disabled", **d)
                    c.disable("over")
                    await asyncio.wait_for(t, 2)
                    h.check(c.exited.is_set(), "processing ends when the connection is disabled", **d)
    for delay in (0, 0.01):
        c = Conn()
        async with c.process_then_disable():
            if delay:
                await asyncio.sleep(delay)
        h.check(c.tries == 0 and c.disabled, "a context that ends at once doesn't restart its connection", delay=delay)


@h.case
async def applications(h):
    """An application doesn't wait for connections that are gone."""
    for script, ready in ((["end"], True), ([None], True), (["rx-error"], True), ([], "raise"), ([], False), ([], True), (["a", "b"], True)):
        for slow in (0, 0.02):
            ran = []

            async def app(info):
                ran.append(1)
                return 0

            async def later():
                await asyncio.sleep(slow)
                return Conn()
            a = ConnectionArbiter(app=app, metrics_poller_task=False)
            c = Conn(script, ready=ready)
            a.register_connection(c, "a")
            a.register_connection(later(), "b")
            d = dict(messages=script, ready=ready, other_takes=slow)
            h.ev(repr(d))
            try:
                code = await asyncio.wait_for(a.app(), 3)
            except asyncio.TimeoutError:
                h.check(False, "an application doesn't wait for a connection that's gone", **d)
                continue
            gone = ready is not True or script in (["end"], [None], ["rx-error"])
            if slow or not gone:
                h.check((code == 0) == (not gone) and bool(ran) == (not gone), "it runs unless a connection is gone", code=code, **d)


@h.case
async def managed(h):
    """One task per connection, restarts, shutdown."""
    real = asyncio.sleep
    for _ in range(h.n(25)):
        m, stop = ConnectionManager(), asyncio.Event()
        t = asyncio.create_task(m.manage(stop))
        cs = []

        for step in range(12):
            k = h.rng.randrange(6)
            if k <= 1 or not cs:
                c = Conn()
                c._auto_restart.value = h.rng.random() < 0.5
                c.can_restart = h.rng.random() < 0.5
                cs.append(c)
                m.queue.put_nowait(c)
            else:
                c = h.rng.choice(cs)
                if k == 2:
                    c.inbox.put_nowait(h.rng.choice(MSGS))
                elif k == 3:
                    c.inbox.put_nowait(h.rng.choice(ENDS))
                elif k == 4:
                    c.disable("test")
                else:
                    c.can_restart = True
            for _ in range(h.rng.randrange(4)):
                await real(0)
            h.check(all(c.most <= 1 for c in cs), "a connection is processed by one task at a time", most=[c.most for c in cs], step=step)
        h.ev(len(cs))
        await real(0.01)
        on = [c for c in cs if not c.disabled]
        h.check(all(sum(x is c for x in m.by_type(Conn)) == 1 for c in on), "enabled connections are managed", managed=m.num_connections, enabled=len(on))
        stop.set()
        try:
            await asyncio.wait_for(t, 4)
            h.check(all(c.disabled for c in cs), "everything ends with the stop signal")
        except asyncio.TimeoutError:
            h.check(False, "everything ends with the stop signal")
        except Exception:  # pylint: disable=broad-exception-caught
            pass


@h.case
async def again(h):
    for t in range(h.n(12)):
        class Again(Conn):
            async def restart(self):
                return True
        c = Again()
        runs = h.rng.randint(2, 4)
        for i in range(runs):
            async with c.process_then_disable():
                for _ in range(2000):
                    await asyncio.sleep(0.001)
                    if not c.disabled:
                        break
                h.check(not c.disabled and not c.disabled_event.is_set() and not c.exited.is_set(), "a connection that's processed hasn't exited, whatever it did before", run=i, disabled=c.disabled, exited=c.exited.is_set())
            h.check(c.disabled and c.disabled_event.is_set() and c.exited.is_set(), "it has exited afterwards", run=i)
        h.ev((t, runs))


@h.case
async def some_tasks(h):
    """Looking at some of a connection's tasks doesn't lose the others."""
    for t in range(h.n(10)):
        c = Conn()
        if not hasattr(c, "_conn_tasks"):
            break
        ts = [asyncio.create_task(asyncio.sleep(5)) for _ in range(h.rng.randint(2, 5))]
        c._conn_tasks.extend(ts)
        await asyncio.sleep(0)
        for _ in range(h.rng.randint(1, 3)):
            it, n = iter(c.tasks), h.rng.randint(1, len(ts))
            seen = [next(it, None) for _ in range(n)]
            h.check(seen == ts[:n], "active tasks are those that aren't done", want=n, got=len(seen))
            it.close()
        c.disable("test")
        await asyncio.sleep(0.01)
        h.check(all(x.cancelled() for x in ts), "disabling cancels every unfinished task", tasks=len(ts), cancelled=sum(x.cancelled() for x in ts))
        for x in ts:
            x.cancel()
        h.ev((t, len(ts)))


h.done()
