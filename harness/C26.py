import asyncio
import io
import logging
from contextlib import asynccontextmanager
from harness.lib import *
from runtimepy.metrics import ConnectionMetrics
from runtimepy.metrics.channel import ChannelMetrics
from runtimepy.net.arbiter.struct import TimestampedStruct, UdpStructTransceiver
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket.connection import WebsocketConnection
from runtimepy.primitives import Double, Int32
from runtimepy.primitives.byte_order import ByteOrder

logging.disable(logging.CRITICAL)
h = H()
KEYS = ("messages", "message_rate", "bytes", "kbps")
SEC = 10**9


def near(a, b):
    return abs(a - b) <= 1e-3 * max(abs(a), abs(b), 1)


def vals(m):
    return tuple(getattr(m, k).value for k in KEYS)


@h.case
def rates(h):
    """A steady stream has its rate; polling doesn't change what is reported."""
    for i in range(h.n(60)):
        m = ChannelMetrics()
        dt = h.rng.choice([SEC, SEC // 10, 5 * SEC, SEC // 1000])
        count = h.rng.choice([0, 1, 100, 1500, 65536, 10**6])
        n = h.rng.randrange(2, 200)
        polls = h.rng.random() < 0.5
        h.ev((dt, count, n, polls))
        t = h.rng.randrange(1, 10**6) * SEC
        start, total = t, 0
        for k in range(n):
            t += dt
            m.increment(count, time_ns=t)
            total += count
            h.check((m.messages.value, m.bytes.value) == (k + 1, total), "every message and byte is counted", k=k, count=count, got=vals(m))
        want = n / ((n - 1) * dt / SEC) if n <= 50 else SEC / dt
        if n > 51:
            h.check(near(m.message_rate.value, want), "the message rate is messages per second", dt=dt, n=n, got=m.message_rate.value, want=want)
            h.check(near(m.kbps.value, want * count * 8 / 1000), "the data rate is kilobits per second", dt=dt, count=count, got=m.kbps.value, want=want * count * 8 / 1000)
        before = vals(m)
        if polls:
            m.poll(time_ns=t)
            h.check(vals(m) == before, "polling at the same time changes nothing", before=before, got=vals(m))
            # the same stream, looked at more often
            a = ChannelMetrics()
            t2 = start
            for k in range(60):
                t2 += dt // 2
                a.poll(time_ns=t2)
                t2 += dt - dt // 2
                a.increment(count, time_ns=t2)
                a.poll(time_ns=t2)
            h.check(near(a.kbps.value, SEC / dt * count * 8 / 1000), "the polled data rate is kilobits per second, too", dt=dt, count=count, got=a.kbps.value)
            h.check(near(a.message_rate.value, SEC / dt), "the polled message rate is messages per second", dt=dt, got=a.message_rate.value)
            h.check((a.messages.value, a.bytes.value) == (60, 60 * count), "polling counts nothing", got=vals(a))
        c = ChannelMetrics()
        c.update(m)
        h.check(vals(c) == vals(m), "copies have the same values", got=vals(c), want=vals(m))
        m.reset()
        h.check(vals(m) == (0, 0, 0, 0), "resetting starts over", got=vals(m))
        h.check(vals(c)[0] == n, "the copy remains", got=vals(c))
        m.increment(5, time_ns=t + dt)
        h.check((m.messages.value, m.bytes.value) == (1, 5), "counting goes on after resetting", got=vals(m))
        # what was before the reset has no part in the rates
        a, b, t2 = m, ChannelMetrics(), t + 100 * dt
        a.reset()
        for k in range(h.rng.randint(1, 5)):
            for x in (a, b):
                x.increment(count, time_ns=t2)
            h.check(vals(a) == vals(b), "after resetting, metrics are as new ones", got=vals(a), want=vals(b))
            t2 += dt
    # nothing happens for long: the rates fall
    m = ChannelMetrics()
    for k in range(1, 60):
        m.increment(1000, time_ns=k * SEC)
    for k in range(60, 180):
        m.poll(time_ns=k * SEC)
    h.check(m.kbps.value == 0 and m.message_rate.value == 0, "rates fall to zero when nothing happens", got=vals(m))


@h.case
def connections(h):
    for i in range(h.n(20)):
        a, b = ConnectionMetrics(), ConnectionMetrics()
        for m in (a, b):
            for _ in range(h.rng.randrange(1, 5)):
                m.tx.increment(h.rng.randrange(1, 999))
            for _ in range(h.rng.randrange(6, 9)):
                m.rx.increment(h.rng.randrange(1, 999))
        h.ev(i)
        w = vals(b.tx), vals(b.rx)
        a.update(b)
        h.check((vals(a.tx), vals(a.rx)) == w == (vals(b.tx), vals(b.rx)), "both directions are copied", got=(vals(a.tx), vals(a.rx)), want=w)
        a.poll()
        h.check((vals(a.tx)[::2], vals(a.rx)[::2]) == (w[0][::2], w[1][::2]), "polling counts nothing")
        a.reset()
        h.check(set(vals(a.tx) + vals(a.rx)) == {0}, "both directions are reset")
        h.check((vals(b.tx), vals(b.rx)) == w, "other metrics remain")


class Tcp(TcpConnection):
    async def process_text(self, data):
        return await self.process_binary(data.encode())

    async def process_binary(self, data):
        self.got = getattr(self, "got", b"") + bytes(data)
        return True


class Udp(UdpConnection):
    async def process_datagram(self, data, addr):
        self.got = getattr(self, "got", [])
        self.got.append(bytes(data))
        return True


@asynccontextmanager
async def running(*conns):
    sig = asyncio.Event()
    ts = [asyncio.ensure_future(c.process(stop_sig=sig)) for c in conns]
    await asyncio.gather(*(c.initialized.wait() for c in conns))
    try:
        yield
    finally:
        sig.set()
        await asyncio.gather(*ts)


async def until(cond, n=200):
    for _ in range(n):
        if cond():
            return True
        await asyncio.sleep(0.01)
    return cond()


TEXTS = ["", "a", "hello", "\u00e9\u00e8", "\u20ac" * 7, "\U0001f600", "x" * 2000]


def message(h):
    return h.rng.choice([h.rng.choice(TEXTS), h.rng.randbytes(h.rng.randrange(1, 1200))])


def raw(m):
    return m.encode() if isinstance(m, str) else m


@h.case
async def tcp(h):
    async with Tcp.create_pair(peer=Tcp) as (a, b):
        async with running(a, b):
            sent = b""
            for i in range(h.n(40)):
                m = message(h)
                h.ev(m)
                (a.send_text if isinstance(m, str) else a.send_binary)(m)
                sent += raw(m)
                h.check((a.metrics.tx.messages.value, a.metrics.tx.bytes.value) == (i + 1, len(sent)), "sent messages are counted with their bytes", got=vals(a.metrics.tx), m=m)
            await until(lambda: getattr(b, "got", b"") == sent)
            h.check(b.got == sent, "what is sent arrives")
            h.check(b.metrics.rx.bytes.value == len(sent), "received bytes are counted", got=vals(b.metrics.rx), want=len(sent))
            h.check(b.metrics.tx.messages.value == 0 == a.metrics.rx.messages.value, "the other direction isn't")


@h.case
async def udp(h):
    a, b = await Udp.create_pair()
    async with running(a, b):
        sent = []
        for i in range(h.n(40)):
            m = message(h)
            h.ev(m)
            (a.send_text if isinstance(m, str) else a.send_binary)(m)
            sent.append(raw(m))
            n = sum(map(len, sent))
            h.check((a.metrics.tx.messages.value, a.metrics.tx.bytes.value) == (i + 1, n), "sent datagrams are counted with their bytes", got=vals(a.metrics.tx), m=m)
            await asyncio.sleep(0.001)
        if await until(lambda: len(getattr(b, "got", [])) == len(sent)):
            h.check(b.got == sent, "datagrams arrive")
            h.check((b.metrics.rx.messages.value, b.metrics.rx.bytes.value) == (len(sent), n), "received datagrams are counted with their bytes", got=vals(b.metrics.rx), want=(len(sent), n))
        a.metrics.reset()
        b.metrics.reset()
        h.check(vals(a.metrics.tx) == (0, 0, 0, 0), "metrics of connections can be reset")


class Refuses(Udp):
    async def process_datagram(self, data, addr):
        await super().process_datagram(data, addr)
        return data != b"bad"


@h.case
async def refused(h):
    """A datagram that was received counts, processed successfully or not."""
    for _ in range(h.n(4)):
        a, b = await Refuses.create_pair()
        async with running(b):
            ms = [message(h) for _ in range(h.rng.randrange(3))]
            sent = [raw(m) for m in ms if raw(m) != b"bad"] + [b"bad"]
            h.ev(tuple(sent))
            for m in sent:
                a.send_binary(m)
            if await until(lambda: b.disabled):
                n = len(getattr(b, "got", []))
                h.check((b.metrics.rx.messages.value, b.metrics.rx.bytes.value) == (n, sum(map(len, getattr(b, "got", [])))), "every datagram received is counted, refused ones too", got=vals(b.metrics.rx), want=n)
        await a.close()


class Proto:
    logger = logging.getLogger("ws")

    def __init__(self):
        self.sent, self.box = [], asyncio.Queue()

    async def send(self, data):
        self.sent.append(data)

    async def recv(self):
        return await self.box.get()

    async def close(self):
        pass


class Ws(WebsocketConnection):
    async def process_text(self, data):
        self.got.append(data)
        return True

    process_binary = process_text


@h.case
async def websocket(h):
    p = Proto()
    c = Ws(p)
    c.got = []
    async with running(c):
        sent, rec = [], []
        for i in range(h.n(30)):
            m = message(h)
            h.ev(m)
            if h.rng.random() < 0.5:
                (c.send_text if isinstance(m, str) else c.send_binary)(m)
                sent.append(m)
            else:
                p.box.put_nowait(m)
                rec.append(m)
            await until(lambda: len(c.got) == len(rec) and len(p.sent) == len(sent), 50)
            await asyncio.sleep(0)
            for d, ms in (("tx", sent), ("rx", rec)):
                x = getattr(c.metrics, d)
                want = (len(ms), sum(len(raw(y)) for y in ms))
                h.check((x.messages.value, x.bytes.value) == want, f"{d}: messages are counted with their bytes", m=m, got=vals(x), want=want)
        h.check(c.got == rec and p.sent == sent, "messages are unchanged")


@h.case
async def managers(h):
    man = ConnectionManager()
    a, b = await Udp.create_pair()
    sig = asyncio.Event()
    t = asyncio.ensure_future(man.manage(sig))
    for c in (a, b):
        await man.queue.put(c)
    await until(lambda: man.num_connections == 2)
    h.ev("manager")
    for c in (a, b):
        for k in range(1, 60):
            c.metrics.tx.increment(1000, time_ns=k * SEC)
    for k in range(60, 180):
        man.poll_metrics(time_ns=k * SEC)
    h.check(all(c.metrics.tx.kbps.value == 0 for c in (a, b)), "every connection is polled", got=[vals(c.metrics.tx) for c in (a, b)])
    man.reset_metrics()
    h.check(all(vals(c.metrics.tx) == (0, 0, 0, 0) for c in (a, b)), "every connection is reset")
    sig.set()
    await t


# -- structs
class Base(TimestampedStruct):
    def init_env(self):
        super().init_env()
        self.num, self.real = Int32(), Double()
        self.env.channel("num", self.num)
        self.env.channel("real", self.real)

    def state(self):
        return (self.timestamp.value, self.sequence.value, self.num.value, self.real.value)


class Little(Base):
    byte_order = ByteOrder.LITTLE_ENDIAN


CLOCK = [0]


def tick():
    CLOCK[0] += 1000
    return CLOCK[0]


def struct(cls, name):
    s = cls(name, {})
    s.init_env()
    s.update_byte_order(s.byte_order)
    s.env.finalize()
    return s


@h.case
async def telemetry(h):
    """What was captured is what is received, in order, with its times."""
    for cls in (Base, Little):
        cls.time_keeper = tick

        class Trx(UdpStructTransceiver):
            struct_kind = cls

            def handle_update(self, timestamp_ns, instance, addr):
                self.seen.append((timestamp_ns, instance is self.struct_rx) + instance.state())
                self.stamps.append({p.last_updated_ns for p in (instance.timestamp, instance.sequence, instance.num, instance.real)})

        for r in range(h.n(4)):
            a, b = await Trx.create_pair()
            b.seen, b.stamps = [], []
            tx, rx = struct(cls, "tx"), struct(cls, "rx")
            async with running(a, b):
                a.assign_tx(tx)
                b.assign_rx(rx)
                h.check(raises(lambda: a.assign_tx(tx), AssertionError), "a struct is assigned once")
                h.check(raises(lambda: b.assign_rx(object()), AssertionError), "only structs of the kind are assigned")
                await asyncio.sleep(0.02)
                b.seen.clear()
                b.stamps.clear()
                want = []
                per = a.framer_tx.length
                for k in range(h.rng.choice([3, 10, 200])):
                    tx.num.value = h.rng.randrange(-(2**31), 2**31)
                    tx.real.value = h.rng.random()
                    seq = tx.sequence.value
                    a.capture()
                    h.check(tx.sequence.value == (seq + 1) % 2**16, "the sequence counts samples")
                    want.append((tx.timestamp.value, True) + tx.state())
                    if h.rng.random() < 0.1:
                        a.capture(sample=False, flush=True)
                        a.capture(sample=False, flush=True)
                        await asyncio.sleep(0.001)
                a.capture(sample=False, flush=True)
                h.ev((cls.__name__, len(want), per))
                if not await until(lambda: len(b.seen) >= len(want), 100):
                    continue  # datagrams can be lost
                h.check(b.seen == want, "every sample is received once, in order, with its time and values", got=b.seen[:3], want=want[:3], n=(len(b.seen), len(want)))
                h.check(b.stamps == [{w[0]} for w in want], "values were updated at the time they were sampled", got=b.stamps[:3])


@h.case
def datagrams(h):
    for cls in (Base, Little):
        cls.time_keeper = tick
        tx, rx = struct(cls, "tx"), struct(cls, "rx")
        size = tx.array.size
        for i in range(h.n(60)):
            n = h.rng.randrange(0, 5)
            data, want = b"", []
            for _ in range(n):
                tx.num.value = h.rng.randrange(-(2**31), 2**31)
                tx.real.value = h.rng.random()
                tx.poll()
                data += bytes(tx.array)
                want.append((tx.timestamp.value,) + tx.state())
            h.ev((cls.__name__, data))
            got = [(t,) + rx.state() for t in rx.process_datagram(data)]
            h.check(got == want, "the samples of a datagram are taken in order", got=got, want=want)
            was = rx.state()
            cut = h.rng.randrange(1, size)
            h.check(raises(lambda: list(rx.process_datagram(data + data[:cut] if len(data) > cut else b"x" * cut)), AssertionError), "a datagram that isn't made of whole samples is refused", n=n, cut=cut)
            h.check(rx.state() == was, "a refused datagram changes nothing")
        h.check(raises(lambda: tx.init_env(), AssertionError), "a struct's timestamp is its first channel")


h.done()
