"""C14: HTTP messages."""
from contracts.common import *
import http
from pyvc.values import STR
from vcorelib.io.fifo import ByteFifo
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.common import HeadersMixin
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.http.request_target import RequestTarget
from runtimepy.net.http.state import HeaderProcessingState
from runtimepy.net.http.version import HttpVersion
from runtimepy.net.tcp.http import HttpConnection

S = z3.StringSort()
SQ = z3.SeqSort(S)
# what the bytes since the start of a header amount to
LINE = z3.Function("http_line", S, S)
LINES = z3.Function("http_lines", S, SQ)
END = z3.Function("http_ended", S, z3.BoolSort())
OPEN = z3.Function("http_open", S, z3.BoolSort())  # no proper prefix has ended
LEN = z3.Function("http_length", SQ, z3.IntSort())
TEXT = z3.Function("utf8_dec", S, S)
NL, CR, E = z3.StringVal("\n"), z3.StringVal("\r"), z3.StringVal("")


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def start(it):
    it.c.assume(z3.And(LINE(E) == E, LINES(E) == z3.Empty(SQ), z3.Not(END(E)), OPEN(E)))


def step(it, s, c):
    """The definition of the fold, for one more byte; lines are valid text."""
    n = z3.Concat(s, c)
    dec = it.term(it.call(it.getattr(Sym("bytes", LINE(s)), "decode"), [], {"encoding": "utf-8"}), "str") if it.c.ghost.get("dec", True) else None
    ended = z3.And(c == NL, LINE(s) == E)
    it.c.assume(z3.And(
        LINE(n) == z3.If(c == NL, E, z3.If(c == CR, LINE(s), z3.Concat(LINE(s), c))),
        LINES(n) == z3.If(z3.And(c == NL, LINE(s) != E), z3.Concat(LINES(s), z3.Unit(dec)), LINES(s)),
        END(n) == ended, OPEN(n) == z3.And(OPEN(s), z3.Not(END(s)))))


class Kind:
    """A header type, as the parser sees it."""

    def __init__(self):
        self.given = None

    def from_lines(self, lines):
        assert self.given is None
        self.given = list(lines)


class Fifo(ByteFifo):
    """The real fifo; every byte taken advances the definition of the fold."""

    def pop(self, size):
        r = super().pop(size)
        taken(r)
        return r


def taken(r):
    pass


def fstate(it, b):
    return it.term(it.getattr(b, "data"), "bytes"), it.term(it.getattr(b, "size"), "int")


def havoc_fifo(it, b):
    b.attrs["data"] = MBytes(it.c.fresh(S, "buffer"))
    b.attrs["size"] = Sym("int", it.c.fresh(z3.IntSort(), "size"))
    it.c.assume(b.attrs["size"].t == z3.Length(b.attrs["data"].t))


def sym_state(it):
    st = new(it, HeaderProcessingState)
    set_state(it, st)
    return st


def set_state(it, st):
    h = it.c.ghost["h"]
    st.attrs["line"] = Sym("bytes", LINE(h))
    st.attrs["lines"] = MList(seq=LINES(h), ty=STR)


def cfg_service(cfg):
    base_cfg(cfg)

    def on_taken(it, a, kw):
        g = it.c.ghost
        if a[0] is None:
            return None
        c = it.term(a[0], "bytes")
        it.c.check("one byte is taken at a time", z3.Length(c) == 1)
        step(it, g["h"], c)
        g["h"] = z3.Concat(g["h"], c)
        return None

    cfg.model(taken, on_taken, "ghost: one more byte of the header")

    def inv(it, env):
        g = it.c.ghost
        st, b = env.vars["self"], env.vars["buffer"]
        data, size = fstate(it, b)
        res = env.vars["result"]
        out = [
            ("taken bytes, then the bytes left", g["total"] == z3.Concat(g["h"], data)),
            ("no header has ended before", OPEN(g["h"])),
            ("a header is given when it ends, and only then", END(g["h"]) == zb(res is not None)),
            ("the fifo is well-formed", size == z3.Length(data)),
            ("the bytes of the current line are kept", it.term(st.attrs["line"], "bytes") == LINE(g["h"])),
        ]
        if res is None:
            out.append(("the lines so far are kept", seq_of(it, st.attrs["lines"]) == LINES(g["h"])))
        else:
            out.append(("the header gets its lines", seq_of(it, res.attrs["given"]) == LINES(g["h"])))
            out.append(("nothing of the next line is kept", it.term(st.attrs["line"], "bytes") == E))
            out.append(("and the next starts with none", seq_of(it, st.attrs["lines"]) == z3.Empty(SQ)))
        return out

    def havoc(it, env):
        g = it.c.ghost
        st, b = env.vars["self"], env.vars["buffer"]
        g["h"] = it.c.fresh(S, "h")
        havoc_fifo(it, b)
        set_state(it, st)
        env.vars["result"] = None
        if it.c.choose(2):
            env.vars["result"] = new(it, Kind, given=MList(seq=LINES(g["h"]), ty=STR))
            st.attrs["lines"] = MList(items=[])
        for o, f in ((b, "data"), (b, "size"), (st, "line"), (st, "lines")):
            it.allow(o, f)
        it.allow(b.attrs["data"])
        if isinstance(st.attrs["lines"], MList):
            it.allow(st.attrs["lines"])

    cfg.loop(HeaderProcessingState.service, 0, LoopSpec(inv, havoc, decreases=lambda it, env: z3.Length(fstate(it, env.vars["buffer"])[0])))


def seq_of(it, l):
    if isinstance(l, MList) and l.conc:
        r = z3.Empty(SQ)
        for x in l.items:
            r = z3.Concat(r, z3.Unit(it.term(x, "str")))
        return r
    return l.seq


def v_service(it):
    g = it.c.ghost
    start(it)
    g["h"] = it.c.fresh(S, "h")
    it.c.assume(z3.And(OPEN(g["h"]), z3.Not(END(g["h"]))))
    st = sym_state(it)
    b = call(it, Fifo).value
    havoc_fifo(it, b)
    g["total"] = z3.Concat(g["h"], fstate(it, b)[0])
    o = call(it, method(st, "service"), b, Kind)
    if o.raised(UnicodeDecodeError):
        cover(it, "not text")
        return
    it.c.check("reading never fails otherwise", o.ok)
    data, size = fstate(it, b)
    if o.value is None:
        it.c.check("without an end everything is taken", z3.And(data == E, z3.Not(END(g["h"])), OPEN(g["h"])))
        it.c.check("and kept", z3.And(it.term(st.attrs["line"], "bytes") == LINE(g["h"]), seq_of(it, st.attrs["lines"]) == LINES(g["h"])))
        cover(it, "open")
    else:
        it.c.check("the first header that ends is given its lines", z3.And(END(g["h"]), OPEN(g["h"]), seq_of(it, o.value.attrs["given"]) == LINES(g["h"])))
        it.c.check("and the next starts afresh", z3.And(it.term(st.attrs["line"], "bytes") == E, seq_of(it, st.attrs["lines"]) == z3.Empty(SQ)))
        cover(it, "return")
    it.c.check("nothing is lost", z3.And(g["total"] == z3.Concat(g["h"], data), size == z3.Length(data)))


# -- whole messages
def header(it, h):
    """A header parsed from the bytes h."""
    n = LEN(LINES(h))
    it.c.assume(n >= 0)
    o = new(it, RequestHeader)
    o.ghost_h = h
    return o


def cfg_ingest(cfg):
    base_cfg(cfg)

    def service(it, a, kw):
        """HeaderProcessingState.service by its contract."""
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"HeaderProcessingState.service"}
        g = it.c.ghost
        b = a[1]
        it.c.check("reading starts within a header", z3.And(OPEN(g["h"]), z3.Not(END(g["h"]))))
        it.c.check("the type asked for is read", a[2] is g["kind"])
        old = fstate(it, b)[0]
        d = it.c.fresh(S, "taken")
        havoc_fifo(it, b)
        it.c.assume(old == z3.Concat(d, fstate(it, b)[0]))
        h = z3.Concat(g["h"], d)
        it.c.assume(OPEN(h))
        if it.c.choose(2):
            it.c.assume(z3.And(fstate(it, b)[0] == E, z3.Not(END(h))))
            g["h"] = h
            return None
        it.c.assume(END(h))
        g["h"] = E
        return header(it, h)

    cfg.model(HeaderProcessingState.service, service, "HeaderProcessingState.service")
    cfg.model(HeadersMixin.__dict__["content_length"].fget, lambda it, a, kw: Sym("int", LEN(LINES(a[0].ghost_h))), "content_length")

    def inv(it, env):
        g = it.c.ghost
        cr = zb(it.truth(env.vars["can_read_payload"]))
        return [
            ("well-formed state", iwf(it)),
            ("input so far = messages given, then the bytes pending", g["total"] == z3.Concat(g["enc"], ipending(it))),
            ("stops only without a complete message", z3.Implies(z3.Or(z3.Not(cr), fstate(it, g["p"].attrs["buffer"])[0] == E), idone(it))),
        ]

    def havoc(it, env):
        ihavoc(it)
        g = it.c.ghost
        b = g["p"].attrs["buffer"]
        for o, f in ((b, "data"), (b, "size"), (g["p"], "current_header")):
            it.allow(o, f)
        it.allow(b.attrs["data"])
        g["enc"] = it.c.fresh(S, "enc")

    cfg.loop(HttpMessageProcessor.ingest, 0, LoopSpec(inv, havoc))


def ihavoc(it):
    g = it.c.ghost
    p = g["p"]
    havoc_fifo(it, p.attrs["buffer"])
    g["h"] = it.c.fresh(S, "h")
    p.attrs["current_header"] = None
    if it.c.choose(2):
        h = it.c.fresh(S, "header")
        it.c.assume(z3.And(END(h), OPEN(h)))
        p.attrs["current_header"] = header(it, h)
        g["h"] = E


def ipending(it):
    g = it.c.ghost
    c = g["p"].attrs["current_header"]
    data = fstate(it, g["p"].attrs["buffer"])[0]
    return z3.Concat(g["h"] if c is None else c.ghost_h, data)


def iwf(it):
    g = it.c.ghost
    data, size = fstate(it, g["p"].attrs["buffer"])
    return z3.And(size == z3.Length(data), OPEN(g["h"]), z3.Not(END(g["h"])))


def idone(it):
    g = it.c.ghost
    c = g["p"].attrs["current_header"]
    data = fstate(it, g["p"].attrs["buffer"])[0]
    if c is None:
        return data == E
    return z3.Length(data) < LEN(LINES(c.ghost_h))


def v_ingest(it):
    g = it.c.ghost
    start(it)
    b = call(it, ByteFifo).value
    g["p"] = p = new(it, HttpMessageProcessor, buffer=b, header=new(it, HeaderProcessingState))
    ihavoc(it)
    g["kind"] = [RequestHeader, ResponseHeader][it.c.choose(2)]
    it.c.assume(z3.And(iwf(it), idone(it)))
    data = it.c.sym("bytes", "data")
    g["total"] = z3.Concat(ipending(it), data.t)
    g["enc"] = E
    abandon = it.c.choose(2) == 1

    def on(m):
        h, payload = m
        n = LEN(LINES(h.ghost_h))
        t = E if payload is None else it.term(payload, "bytes")
        it.c.check("a message has exactly the payload its header announces", z3.And(z3.Length(t) == n, (n == 0) == zb(payload is None)))
        it.c.check("a header is given when it ended", z3.And(END(h.ghost_h), OPEN(h.ghost_h)))
        g["enc"] = z3.Concat(g["enc"], h.ghost_h, t)
        if abandon:
            it.c.check("stopping after a message loses and repeats nothing", z3.And(iwf(it), g["total"] == z3.Concat(g["enc"], ipending(it))))
            cover(it, "abandoned")
            it.throw(GeneratorExit)
        return None

    o = drain(it, call(it, method(p, "ingest"), data, g["kind"]).value, on)
    it.c.check("processing never fails", o.ok or o.raised(GeneratorExit))
    if o.ok:
        it.c.check("state is well-formed", iwf(it))
        it.c.check("input = messages given, then the bytes pending", g["total"] == z3.Concat(g["enc"], ipending(it)))
        it.c.check("every complete message was given", idone(it))
        cover(it, "return")


# -- headers as text
def word(it, name, ban=" \r\n"):
    v = it.c.sym("str", name)
    for c in ban:
        it.c.assume(z3.Not(z3.Contains(v.t, z3.StringVal(c))))
    return v


def fields(it, h, n):
    out = []
    for i in range(n):
        k, v = word(it, f"key{i}", ":\r\n"), word(it, f"value{i}", "\r\n")
        o = call(it, it.getattr(h, "__setitem__"), k, v)
        it.c.check("a field can be set", o.ok)
        got = call(it, it.getattr(h, "__getitem__"), k)
        it.c.check("a field has the value set, without surrounding space", And(got.ok, eqv(it, got.value, it.call(it.getattr(v, "strip"), []))))
        other = it.call(it.getattr(k, "upper"), [])
        out.append((k, v))
    return out


def lines_of(it, first, h):
    out = [first]
    for k, v in h.attrs["headers"].pairs:
        out.append(Sym("str", z3.Concat(it.term(k, "str"), z3.StringVal(": "), it.term(v, "str"))))
    return out


def joined(it, lines):
    ts = []
    for x in lines:
        ts += [it.term(x, "str"), z3.StringVal("\r\n")]
    return z3.Concat(*ts, z3.StringVal("\r\n"))


def version(it):
    a, b = it.c.sym("int", "major"), it.c.sym("int", "minor")
    it.c.assume(z3.And(a.t >= 0, b.t >= 0))
    return a, b


METHODS = list(http.HTTPMethod)


def check_fields(it, h, g):
    it.c.check("the fields are the same", it.eq(g.attrs["headers"], h.attrs["headers"]))


def v_request(it, n):
    m = METHODS[it.c.choose(len(METHODS))] if n == 0 else http.HTTPMethod.GET
    if it.c.choose(2):
        t = "*" if m != http.HTTPMethod.CONNECT else "host:80"
    else:
        t = word(it, "target")
        it.c.assume(z3.And(z3.PrefixOf(z3.StringVal("/"), t.t), z3.Not(z3.Contains(t.t, z3.StringVal("?")))))
        if m == http.HTTPMethod.CONNECT:
            return
    a, b = 1, it.c.choose(2)
    o = call(it, RequestHeader, m, t, major=a, minor=b)
    it.c.check("a request can be made", o.ok)
    h = o.value
    fields(it, h, n)
    s = call(it, it.getattr(h, "__str__")).value
    line = Sym("str", z3.Concat(z3.StringVal(str(m) + " "), it.term(t, "str"), z3.StringVal(f" HTTP/{a}.{b}")))
    ls = lines_of(it, line, h)
    it.c.check("a request is written as its lines", it.term(s, "str") == joined(it, ls))
    g = call(it, RequestHeader).value
    o = call(it, method(g, "from_lines"), MList(items=ls))
    it.c.check("and read back", o.ok)
    it.c.check("with the same method, target and version", And(g.attrs["method"] == m, eqv(it, g.attrs["target"].attrs["raw"], t), eqv(it, g.attrs["version"].attrs["major"], a), eqv(it, g.attrs["version"].attrs["minor"], b)))
    check_fields(it, h, g)
    cover(it, "return")


def v_response(it, n):
    st = [http.HTTPStatus.OK, http.HTTPStatus.NOT_FOUND, http.HTTPStatus.NOT_IMPLEMENTED, http.HTTPStatus.CONTINUE][it.c.choose(4)]
    reason = word(it, "reason", "\r\n")
    a, b = 1, it.c.choose(2)
    h = call(it, ResponseHeader, major=a, minor=b, status=st, reason=reason).value
    fields(it, h, n)
    s = call(it, it.getattr(h, "__str__")).value
    line = Sym("str", z3.Concat(z3.StringVal(f"HTTP/{a}.{b} {st.value}"), *([z3.StringVal(" "), reason.t] if it.c.branch(reason.t != E) else [E])))
    ls = lines_of(it, line, h)
    it.c.check("a response is written as its lines", it.term(s, "str") == joined(it, ls))
    g = call(it, ResponseHeader).value
    o = call(it, method(g, "from_lines"), MList(items=ls))
    it.c.check("and read back", o.ok)
    it.c.check("with the same status, reason and version", And(g.attrs["status"] == st, eqv(it, g.attrs["reason"], reason), eqv(it, g.attrs["version"].attrs["major"], a), eqv(it, g.attrs["version"].attrs["minor"], b)))
    check_fields(it, h, g)
    cover(it, "return")


# -- the connection
class Log:
    def log(self, *args, **kw):
        pass

    def debug(self, *args, **kw):
        pass


class Lock:
    async def __aenter__(self):
        assert not self.held
        self.held = True

    async def __aexit__(self, a, b, c):
        self.held = False
        return False


def conn(it, expecting):
    g = it.c.ghost
    g["sent"] = []
    c = new(it, HttpConnection, logger=new(it, Log), expecting_response=expecting, request_ready=new(it, Lock, held=False), processor=new(it, HttpMessageProcessor))
    c.attrs["send_binary"] = Prim(lambda it, a, kw: g["sent"].append(a[0]), "send_binary")
    it.cfg.method_override = True
    return c


def v_send(it):
    c = conn(it, False)
    g = it.c.ghost
    h = call(it, [RequestHeader, ResponseHeader][it.c.choose(2)]).value
    if it.c.choose(2):
        call(it, it.getattr(h, "__setitem__"), "content-length", "5")  # Sent before.
    d = [None, it.c.sym("bytes", "data")][it.c.choose(2)]
    o = call(it, method(c, "_send"), h, d)
    it.c.check("sending succeeds", o.ok)
    n = 0 if d is None else z3.Length(d.t)
    it.c.check("the length announced is the length of the data", eqv(it, call(it, it.getattr(h, "__getitem__"), "content-length").value, it.to_str(Sym("int", z3.IntVal(0) if d is None else n))))
    want = [it.term(call(it, it.getattr(h, "__bytes__")).value, "bytes")]
    sent = [it.term(x, "bytes") for x in g["sent"]]
    if d is None:
        it.c.check("only the header is sent", And(len(sent) == 1, sent[0] == want[0]))
    else:
        it.c.check("the header, then the data", z3.And(sent[0] == want[0], (z3.Concat(*sent[1:]) if len(sent) > 2 else sent[1] if len(sent) == 2 else E) == d.t))
    cover(it, "return")


def v_requests(it):
    """Every request gets one response, in order."""
    c = conn(it, False)
    g = it.c.ghost
    n = it.c.choose(3)
    msgs = []
    for i in range(n):
        h = call(it, RequestHeader, [http.HTTPMethod.GET, http.HTTPMethod.PUT][it.c.choose(2)], "/").value
        msgs.append((h, [None, it.c.sym("bytes", f"payload{i}")][it.c.choose(2)]))
    g["handled"], g["replies"] = [], []

    def handler(it, a, kw):
        g["handled"].append(a)
        r = [None, it.c.sym("bytes", f"reply{len(g['handled'])}", inp=False)][it.c.choose(2)]
        g["replies"].append(r)
        return CoroVal(lambda: r, "handler")

    c.attrs["handlers"] = MDict([[http.HTTPMethod.GET, Prim(handler, "handler")]])
    c.attrs["_send"] = Prim(lambda it, a, kw: g["sent"].append((a[0], a[1] if len(a) > 1 else None)), "_send")
    it.cfg.model(HttpMessageProcessor.ingest, lambda it, a, kw: g.__setitem__("kind", a[2]) or MList(items=list(msgs)), "HttpMessageProcessor.ingest")
    o = acall(it, method(c, "process_binary"), it.c.sym("bytes", "data"))
    it.c.check("processing succeeds", And(o.ok, o.value is True))
    it.c.check("requests are expected", g["kind"] is RequestHeader)
    it.c.check("every request gets one response, in order", len(g["sent"]) == n)
    k = 0
    for (h, d), (r, body) in zip(msgs, g["sent"]):
        it.c.check("a response names the server", And(eqv(it, call(it, it.getattr(r, "__getitem__"), "server").value, HttpConnection.identity)))
        if h.attrs["method"] == http.HTTPMethod.GET:
            a = g["handled"][k]
            it.c.check("the handler of the method answers", And(a[0] is r, a[1] is h, a[2] is d, body is g["replies"][k], r.attrs["status"] == http.HTTPStatus.OK))
            k += 1
        else:
            it.c.check("a method without handler is not implemented", And(body is None, r.attrs["status"] == http.HTTPStatus.NOT_IMPLEMENTED))
    it.c.check("and handlers are called once each", len(g["handled"]) == k)
    cover(it, "return")


def v_responses(it):
    c = conn(it, True)
    g = it.c.ghost
    msgs = [(call(it, ResponseHeader).value, [None, it.c.sym("bytes", "p")][it.c.choose(2)]) for i in range(it.c.choose(2))]
    g["put"] = []

    class Queue:
        pass

    q = new(it, Queue)
    q.attrs["put"] = Prim(lambda it, a, kw: CoroVal(lambda: g["put"].append(a[0]), "put"), "put")
    c.attrs["responses"] = q
    it.cfg.model(HttpMessageProcessor.ingest, lambda it, a, kw: g.__setitem__("kind", a[2]) or MList(items=list(msgs)), "HttpMessageProcessor.ingest")
    o = acall(it, method(c, "process_binary"), it.c.sym("bytes", "data"))
    it.c.check("processing succeeds", And(o.ok, o.value is True))
    it.c.check("responses are passed on, in order, and nothing is sent", And(g["kind"] is ResponseHeader, len(g["sent"]) == 0, len(g["put"]) == len(msgs) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(g["put"], msgs))))
    cover(it, "return")


def v_request_call(it):
    c = conn(it, False)
    g = it.c.ghost
    res = (call(it, ResponseHeader).value, None)

    class Queue:
        pass

    q = new(it, Queue)

    def get():
        it.c.check("a response is awaited after the request was sent", And(len(g["sent"]) == 1, it.truth(c.attrs["expecting_response"]) == True, it.truth(c.attrs["request_ready"].attrs["held"]) == True))
        return res

    q.attrs["get"] = Prim(lambda it, a, kw: CoroVal(get, "get"), "get")
    c.attrs["responses"] = q
    c.attrs["_send"] = Prim(lambda it, a, kw: g["sent"].append((a[0], a[1] if len(a) > 1 else None)), "_send")
    h = call(it, RequestHeader).value
    d = [None, it.c.sym("bytes", "data")][it.c.choose(2)]
    o = acall(it, method(c, "request"), h, d)
    it.c.check("a request gives the response", And(o.ok, o.value is res, g["sent"][0][0] is h, g["sent"][0][1] is d))
    it.c.check("and afterwards none is expected", And(it.truth(c.attrs["expecting_response"]) == False, it.truth(c.attrs["request_ready"].attrs["held"]) == False))
    cover(it, "return")


K = dict(branch_ms=400)
C = "runtimepy.net.tcp.http:HttpConnection"
CONTRACTS = [
    Unit("read a header", "runtimepy.net.http.state:HeaderProcessingState.service", v_service, cfg_service, covers=("return", "open"), **K),
    Unit("messages", "runtimepy.net.http:HttpMessageProcessor.ingest", v_ingest, cfg_ingest, covers=("return", "abandoned"), **K),
    *[Unit(f"request text[{n}]", "runtimepy.net.http.header:RequestHeader.from_lines", lambda it, n=n: v_request(it, n), base_cfg, **K) for n in (0, 1, 2)],
    *[Unit(f"response text[{n}]", "runtimepy.net.http.response:ResponseHeader.from_lines", lambda it, n=n: v_response(it, n), base_cfg, **K) for n in (0, 1)],
    Unit("send", C + "._send", v_send, base_cfg, **K),
    Unit("requests", C + ".process_binary", v_requests, base_cfg, **K),
    Unit("responses", C + ".process_binary", v_responses, base_cfg, **K),
    Unit("request", C + ".request", v_request_call, base_cfg, **K),
]
