import http
import socket
from harness.lib import *
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.tcp.http import HttpConnection
from runtimepy.net.tcp.protocol import QueueProtocol

h = H()
WORDS = ["a", "X-Thing", "accept", "Content-Type", "é", "ключ", "日本", "x_y", "*/*", "1", "Ä-Ö", "cookie"]
VALUES = ["", "v", " padded ", "a: b", "x;y=1, z", "émile", "日本語", "ż" * 9, "\t tab\t", "1234", "a=b?c"]


def text(h, n):
    return "".join(h.rng.choice("abcXYZ019-_.é日!*") for _ in range(n))


def make(h, kind, payload):
    if kind is RequestHeader:
        m = h.rng.choice(list(http.HTTPMethod))
        t = "host:80" if m == http.HTTPMethod.CONNECT else h.rng.choice(["/", "*", "/a/b?c=d", "/" + text(h, 5), "http://x/y"])
        r = RequestHeader(m, t, major=h.rng.choice([1, 1, 2]), minor=h.rng.choice([0, 1]))
    else:
        s = h.rng.choice(list(http.HTTPStatus))
        r = ResponseHeader(status=s, reason=h.rng.choice(["", "OK", s.phrase, "não é", " two  words "]), minor=h.rng.choice([0, 1]))
    for _ in range(h.rng.randint(0, 5)):
        k, v = h.rng.choice(WORDS + [text(h, 3)]), h.rng.choice(VALUES + [text(h, 12)] + [s for s in h.strs() if not set(s) & set("\r\n")])
        r[k] = v
        h.check(r[k] == v.strip() and r[k.upper()] == r[k] if k.upper().lower() == k.lower() else True, "a field has the value set, under any case of its key", key=k, value=v)
    if payload is not None or h.rng.random() < 0.5:
        r["Content-Length"] = str(len(payload or b""))
    return r


def same(a, b):
    if type(a) is not type(b) or a.headers != b.headers or str(a.version) != str(b.version):
        return False
    if isinstance(a, RequestHeader):
        return a.method == b.method and a.target.raw == b.target.raw and a.target.origin_form == b.target.origin_form
    return a.status == b.status and a.reason == b.reason


def payload_of(h):
    n = h.rng.choice([0, 0, 1, 2, 3, 4, 17, 100, 1000])
    return bytes(h.rng.choice([13, 10, 0, 58, 255, h.rng.randrange(256)]) for _ in range(n)) or None


@h.case
def messages(h):
    """Any messages, any split, consumers that stop early."""
    for _ in range(h.n(250)):
        if not h.ok_time():
            break
        kind = h.rng.choice([RequestHeader, ResponseHeader])
        want, wire, ends = [], b"", []
        for _ in range(h.rng.randint(0, 5)):
            p = payload_of(h)
            m = make(h, kind, p)
            want.append((m, p))
            wire += bytes(m) + (p or b"")
            ends.append(len(wire))
        p = HttpMessageProcessor()
        got, sent, abandon = [], 0, h.rng.random() < 0.3
        parts = [wire[i:i + 1] for i in range(len(wire))] if h.rng.random() < 0.1 else chunks(h.rng, wire)
        for c in parts:
            sent += len(c)
            g = p.ingest(c, kind)
            for m in g:
                got.append(m)
                if abandon and h.rng.random() < 0.6:
                    break
            else:
                h.check(len(got) == sum(e <= sent for e in ends), "every complete message is given", wire=wire, sent=sent, parts=parts)
            g.close()
        for _ in range(len(want)):
            got += list(p.ingest(b"", kind))
        h.ev((wire, parts, abandon), (len(want), len(parts)))
        h.check([x[1] for x in got] == [x[1] for x in want], "payloads are exact and in order", wire=wire, parts=parts, got=got)
        h.check(len(got) == len(want) and all(same(a[0], b[0]) for a, b in zip(want, got)), "headers read back as written", wire=wire, parts=parts)


class Transport:
    def __init__(self):
        self.out = b""
        self.sock = SOCK

    def write(self, data):
        self.out += bytes(data)

    def get_extra_info(self, name, default=None):
        return {"socket": self.sock, "sockname": ("127.0.0.1", 1), "peername": ("127.0.0.1", 2)}.get(name, default)

    def close(self):
        pass


SOCK = socket.socket()


class Conn(HttpConnection):
    def init(self):
        super().init()
        self.seen = []

    async def get_handler(self, response, request, data):
        self.seen.append((request, data))
        await asyncio.sleep(0)
        return self.replies[len(self.seen) - 1]

    post_handler = get_handler


def conn(h, cls=Conn):
    return cls(Transport(), QueueProtocol())


def parse(wire):
    """An independent reading of a stream of responses."""
    out = []
    while wire:
        head, wire = wire.split(b"\r\n\r\n", 1)
        lines = head.decode().split("\r\n")
        fields = {}
        for line in lines[1:]:
            k, v = line.split(":", 1)
            fields[k.lower()] = v.strip()
        n = int(fields["content-length"])
        assert len(wire) >= n
        out.append((lines[0], fields, wire[:n]))
        wire = wire[n:]
    return out


@h.case
async def server(h):
    """One response for each request, in order."""
    for _ in range(h.n(60)):
        if not h.ok_time():
            break
        c = conn(h)
        wire, want, c.replies = b"", [], []
        for _ in range(h.rng.randint(1, 5)):
            p = payload_of(h)
            m = make(h, RequestHeader, p)
            wire += bytes(m) + (p or b"")
            r = payload_of(h)
            handled = m.method in (http.HTTPMethod.GET, http.HTTPMethod.POST)
            if handled:
                c.replies.append(r)
            want.append((handled, m, p, r))
        for part in chunks(h.rng, wire):
            h.check(await c.process_binary(part) is True, "processing succeeds")
        got = parse(c._transport.out)
        h.ev(wire, len(want))
        h.check(len(got) == len(want), "one response for each request", wire=wire, got=got)
        h.check([(a.method, a.target.raw, d) for a, d in c.seen] == [(m.method, m.target.raw, p) for f, m, p, r in want if f], "handlers see their requests in order", wire=wire)
        for (line, fields, body), (f, m, p, r) in zip(got, want):
            if f:
                h.check(line == "HTTP/1.1 200" and body == (r or b""), "a response has the handler's data", line=line, body=body, want=r)
            else:
                h.check(line.startswith("HTTP/1.1 501") and body == b"", "a method without a handler is not implemented", line=line, method=m.method)


@h.case
async def client(h):
    """A request returns its response."""
    for _ in range(h.n(30)):
        if not h.ok_time():
            break
        c, req = conn(h), None
        for _ in range(h.rng.randint(1, 4)):
            c._transport.out = b""
            p, r = payload_of(h), payload_of(h)
            req = make(h, RequestHeader, p) if req is None or h.rng.random() < 0.6 else req
            res = make(h, ResponseHeader, r)
            t = asyncio.ensure_future(c.request(req, p))
            while not c._transport.out:
                await asyncio.sleep(0)
            back = list(HttpMessageProcessor().ingest(c._transport.out, RequestHeader))
            h.check(len(back) == 1 and same(back[0][0], req) and back[0][1] == p, "the request is sent as it is", out=c._transport.out)
            await asyncio.sleep(0)
            for part in chunks(h.rng, bytes(res) + (r or b"")):
                await c.process_binary(part)
            got = await asyncio.wait_for(t, 5)
            h.ev((bytes(req), bytes(res), p, r))
            h.check(same(got[0], res) and got[1] == r, "a request returns its response", got=got, want=(res, r))


h.done()
