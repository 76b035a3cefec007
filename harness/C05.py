from io import BytesIO
from harness.lib import *
from runtimepy.message import MessageProcessor
from runtimepy.primitives import Uint8, Uint16, Uint32, Uint64
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.net.stream.base import PrefixedMessageConnection

h = H()
END = {ByteOrder.NATIVE: sys.byteorder, ByteOrder.LITTLE_ENDIAN: "little", ByteOrder.BIG_ENDIAN: "big", ByteOrder.NETWORK: "big"}


def make(kind, order):
    cls = type("Processor", (MessageProcessor,), {"message_length_kind": kind})
    return cls(byte_order=order)


def prefix(kind, order, n):
    return n.to_bytes(kind.kind.size, END[order])


def msgs(h, small):
    out = []
    for _ in range(h.rng.randint(0, 7)):
        n = h.rng.choice([0, 0, 1, 2, 3, 4, 5, 9, 16, 100, 254, 255] + ([] if small else [256, 257, 1000]))
        out.append(bytes(h.rng.choice([0, 1, 4, 13, 10, 255, h.rng.randrange(256)]) for _ in range(n)))
    return out + [b for b in h.bytess() if len(b) < 256][:3]


@h.case
def round_trip(h):
    """Any sequence of messages under any chunking and abandoned iterations."""
    for t in range(h.n(400)):
        kind = h.rng.choice([Uint8, Uint16, Uint32, Uint64])
        order = h.rng.choice(list(ByteOrder))
        tx, rx = make(kind, order), make(kind, order)
        want = msgs(h, kind is Uint8)
        wire = b""
        for m in want:
            s = BytesIO()
            s.write(b"xy")
            tx.encode(s, m)
            h.check(s.getvalue() == b"xy" + prefix(kind, order, len(m)) + m, "framing appends the prefix and the message", message=m, kind=kind.__name__, order=order, got=s.getvalue())
            wire += prefix(kind, order, len(m)) + m
        got = []
        parts = chunks(h.rng, wire)
        abandon = h.rng.random() < 0.4
        sent = 0
        for p in parts:
            sent += len(p)
            if abandon and h.rng.random() < 0.5:
                g = rx.process(p)
                for m in g:
                    got.append(m)
                    if h.rng.random() < 0.5:
                        break
                g.close()
            else:
                got += list(rx.process(p))
                # everything complete has been delivered
                n, k = 0, 0
                for m in want:
                    n += kind.kind.size + len(m)
                    if n <= sent:
                        k += 1
                h.check(len(got) == k, "every complete message is delivered at once, no incomplete one is", messages=want, parts=parts, delivered=len(got), complete=k)
        got += list(rx.process(b""))
        h.check(got == want, "the messages delivered are the messages framed", messages=want, parts=parts, got=got, kind=kind.__name__, order=order, abandoned=abandon)
        h.ev((kind.__name__, order, tuple(want), tuple(map(len, parts)), abandon))


@h.case
def text_and_json(h):
    for t in range(h.n(150)):
        tx, rx = MessageProcessor(), MessageProcessor()
        texts = ["".join(h.rng.choice(["a", "é", "→", "𝕏", "{", '"', "\\", "\0", "\n"]) for _ in range(h.rng.randint(0, 30))) for _ in range(4)]
        s = BytesIO()
        for x in texts:
            tx.encode(s, x)
        got = [m for p in chunks(h.rng, s.getvalue()) for m in rx.process(p)]
        h.check([m.decode() for m in got] == texts, "text is framed as its UTF-8 bytes", texts=texts, got=got)
        objs = [{"k": x, "n": h.rng.choice([None, 1, -2.5, True, [1, {"a": []}], {}])} for x in texts]
        s = BytesIO()
        for x in objs:
            tx.encode_json(s, x)
        got = [m for p in chunks(h.rng, s.getvalue()) for m in rx.messages(p)]
        h.check(got == objs, "JSON messages round trip", objects=objs, got=got)
        # a malformed message does not disturb the ones after it
        s = BytesIO()
        tx.encode(s, "{nope")
        for x in objs:
            tx.encode_json(s, x)
        got, data = [], s.getvalue()
        for _ in range(3):
            try:
                for m in rx.messages(data):
                    got.append(m)
                data = b""
            except ValueError:
                data = b""
        h.check(got == objs, "messages after a malformed JSON message are still delivered", objects=objs, got=got)
        h.ev((tuple(texts),))


@h.case
def oversize(h):
    for kind, sizes in ((Uint8, (254, 255, 256, 257, 300, 512, 1000)), (Uint16, (65534, 65535, 65536, 65537, 70000))):
        for order in ByteOrder:
            for n in sizes:
                p = make(kind, order)
                s = BytesIO()
                r = outcome(lambda: p.encode(s, b"z" * n))
                fits = n < 2 ** (8 * kind.kind.size)
                if fits:
                    h.check(r[0] == "ok" and s.getvalue() == prefix(kind, order, n) + b"z" * n, "a message that fits is framed", kind=kind.__name__, size=n)
                else:
                    h.check(r[0] == "exc" and s.getvalue() == b"", "a message that does not fit its prefix is refused and writes nothing", kind=kind.__name__, size=n, got=r, written=len(s.getvalue()))
                s = BytesIO()
                p.encode(s, b"ok")
                h.check(list(make(kind, order).process(s.getvalue())) == [b"ok"], "framing still works after a refusal", kind=kind.__name__)
                h.ev((kind.__name__, order, n))


class Stub(PrefixedMessageConnection):
    """A connection without a transport."""

    byte_order = ByteOrder.NETWORK

    def __init__(self, bad=()):
        self.sent, self.got, self.bad = [], [], bad
        self.init()

    def send_binary(self, data):
        self.sent.append(bytes(data))

    async def process_single(self, stream, addr=None):
        self.got.append((stream.read(), addr))
        return len(self.got) not in self.bad


@h.case
def connection(h):
    for t in range(h.n(100)):
        bad = [i for i in range(8) if h.rng.random() < 0.2]
        a, b = Stub(), Stub(bad)
        want = msgs(h, False)
        for m in want:
            n = len(a.sent)
            if h.rng.random() < 0.3 and m.isascii():
                a.send_message_str(m.decode())
            else:
                a.send_message(m)
            h.check(len(a.sent) == n + 1, "a message is sent in one write", message=m)
        parts = chunks(h.rng, b"".join(a.sent))

        async def run():
            for p in parts:
                n = len(b.got)
                ok = await b.process_binary(p, addr=("x", 1))
                h.check(bool(ok) == (not any(n < i <= len(b.got) for i in bad)), "receiving succeeds if and only if every message was handled", bad=bad, handled=(n, len(b.got)), got=ok)
        asyncio.run(run())
        h.check(b.got == [(m, ("x", 1)) for m in want], "messages received by the peer are the messages sent, in order", messages=want, parts=parts, got=b.got)
        h.ev((tuple(want), tuple(map(len, parts))))


h.done()
