import asyncio
import logging
from harness.lib import *
from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.connection import Connection
from runtimepy.net.tcp.connection import EchoTcpConnection, TcpConnection
from runtimepy.net.tcp.create import tcp_transport_protocol_backoff
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.udp.create import udp_transport_protocol_backoff
from runtimepy.channel.environment import ChannelEnvironment

h = H()
REAL = asyncio.sleep


class Waits(list):
    """Record what is waited for, without waiting."""

    def __enter__(self):
        async def sleep(t, result=None):
            self.append(t)
            await REAL(0)
            return result
        asyncio.sleep = sleep
        return self

    def __exit__(self, *_):
        asyncio.sleep = REAL


def due(i, interval, limit):
    return 0 if i == 0 else min(interval * 2 ** (i - 1), limit)


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def settings(h):
    return h.rng.choice([0.0, 0.01, 0.25, 0.5, 1.0, 3.0]), h.rng.choice([0.0, 0.1, 1.0, 10.0, 64.0]), h.rng.choice([0, 1, 2, 3, 5, 8, 13, 20])


@h.case
async def paced(h):
    for _ in range(h.n(150)):
        i, m, t = settings(h)
        b = ExponentialBackoff(interval=i, max_sleep=m, max_tries=t)
        for round_ in range(2):
            n = 0
            with Waits() as w:
                while not b.give_up and n <= t + 2:
                    await b.sleep()
                    n += 1
            h.ev((i, m, t))
            h.check(n == t, "there are as many attempts as permitted", attempts=n, interval=i, limit=m, tries=t)
            h.check(near(w, [due(k, i, m) for k in range(n)]), "attempt n waits interval times two to the n, at most the limit", waits=list(w), interval=i, limit=m, tries=t)
            b.reset()
            h.check(b.attempt == 0 and b.wait == 0 and b.give_up == (t == 0), "reset starts over", interval=i, limit=m, tries=t)


async def refuse(h, kind, i, m, t, fail):
    """Connect through a loop that refuses as often as told."""
    loop = asyncio.get_running_loop()
    name = "create_connection" if kind == "tcp" else "create_datagram_endpoint"
    real = getattr(type(loop), name)
    seen = []

    async def create(self, factory, *a, **kw):
        seen.append(len(w))
        if len(seen) <= fail:
            raise ConnectionRefusedError("no")
        return "transport", factory()

    setattr(type(loop), name, create)
    made = []
    try:
        with Waits() as w:
            fn = tcp_transport_protocol_backoff if kind == "tcp" else udp_transport_protocol_backoff
            b = ExponentialBackoff(interval=i, max_sleep=m, max_tries=t)
            kw = dict(host="127.0.0.1", port=9) if kind == "tcp" else dict(remote_addr=("127.0.0.1", 9))
            try:
                made = [await fn(backoff=b, **kw)]
            except AssertionError:
                pass
    finally:
        setattr(type(loop), name, real)
    want = min(t, fail + 1)
    d = dict(kind=kind, interval=i, limit=m, tries=t, refused=fail)
    h.ev((kind, i, m, t, fail))
    h.check(seen == list(range(1, want + 1)), "every attempt follows one wait", attempts=seen, **d)
    h.check(near(w, [due(k, i, m) for k in range(want)]), "waits grow exponentially up to the limit", waits=list(w), **d)
    h.check(len(made) == (1 if fail < t else 0), "connecting succeeds if and only if a permitted attempt did", made=len(made), **d)


@h.case
async def connecting(h):
    logging.disable(logging.CRITICAL)
    for _ in range(h.n(60)):
        i, m, t = settings(h)
        await refuse(h, h.rng.choice(["tcp", "udp"]), i, m, t, h.rng.choice([0, 1, 2, 4, 7, 25]))


class Conn(Connection):
    uses_text_tx_queue = False
    uses_binary_tx_queue = False

    def __init__(self, plan):
        super().__init__(logging.getLogger("conn"), env=ChannelEnvironment())
        self.plan, self.tried, self.seen = list(plan), 0, 0

    async def _await_message(self):
        self.seen += 1
        await REAL(60)

    async def process_text(self, data):
        return True

    async def restart(self):
        self.tried += 1
        self.seen = 0
        return self.plan.pop(0) if self.plan else False


@h.case
async def restarting(h):
    logging.disable(logging.CRITICAL)
    for _ in range(h.n(40)):
        i, m, t = settings(h)
        plan = [h.rng.random() < 0.4 for _ in range(h.rng.choice([0, 1, 2, 5, 9]))]
        c = Conn(plan)
        c._auto_restart.value = h.rng.random() < 0.5
        tries, restarts, left = 0, 0, list(plan)
        for round_ in range(4):
            c.disable("test")
            k, ok, waits = 0, False, []
            while k < t and not ok:
                waits.append(due(k, i, m))
                ok = left.pop(0) if left else False
                k += 1
            tries, restarts = tries + k, restarts + ok
            with Waits() as w:
                task = asyncio.create_task(c.process(backoff=ExponentialBackoff(interval=i, max_sleep=m, max_tries=t)))
                for _ in range(200):
                    await REAL(0)
            seen = list(w)
            d = dict(interval=i, limit=m, tries=t, plan=plan, round=round_)
            h.ev((i, m, t, tuple(plan), round_))
            h.check(task.done() or ok, "processing ends when a connection can't be restarted", **d)
            h.check(c.tried == tries, "a disabled connection is restarted as often as permitted", attempts=c.tried, expected=tries, **d)
            h.check(near(seen, waits), "waits between attempts to restart back off", waits=seen, expected=waits, **d)
            h.check(not ok or c.seen > 0, "a restarted connection is processed", **d)
            for n, v in (("restarts", restarts), ("restart_attempts", tries)):
                if n in set(c.env.names):
                    h.check(c.env.value(n) == v, f"the {n} channel counts them", value=c.env.value(n), restarts=restarts, attempts=tries, **d)
            c.disable("end of round")
            await asyncio.wait_for(task, 5)


@h.case
async def stopping(h):
    logging.disable(logging.CRITICAL)
    for after in (0, 1, 3):
        stop = asyncio.Event()

        class S(Conn):
            async def restart(self):
                self.tried += 1
                if self.tried >= after:
                    stop.set()
                return self.tried > after
        if not after:
            stop.set()
        c = S([])
        c.disable("test")
        c._auto_restart.value = True
        with Waits():
            await asyncio.wait_for(c.process(stop_sig=stop), 5)
        h.ev(after)
        h.check(c.tried == after and c.disabled, "nothing is restarted after the application stops", attempts=c.tried, stopped_after=after)


@h.case
async def stopped(h):
    """Nothing restarts after the stop signal."""
    for t in range(h.n(20)):
        tries, stop, at = [], asyncio.Event(), h.rng.randrange(4)

        class Restarting(Connection):
            async def restart(self):
                tries.append(len(tries))
                if len(tries) == at:
                    stop.set()
                return False

        c = Restarting(logging.getLogger("stopped"))
        c.disable("test")
        if at == 0:
            stop.set()
        with Waits():
            await asyncio.wait_for(c.process(stop_sig=stop, backoff=ExponentialBackoff(max_tries=10)), 20)
        h.check(len(tries) == at and c.disabled, "no attempt is made after the stop signal", stopped_at=at, attempts=len(tries))
        h.ev((t, at))



h.done()
