"""C22: telnet streams."""
from contracts.common import *
from contracts.C15 import Log, zb
from runtimepy.net.tcp import telnet as T
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.tcp.telnet import BasicTelnet, Telnet
from runtimepy.net.tcp.telnet.codes import TelnetCode, TelnetNvt

I = z3.IntSort()
NVT = (0, 7, 8, 9, 10, 11, 12, 13)


class Stream:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def read(self, n):
        return self.pull(n)


class Text:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def write(self, data):
        return self.put(data)

    def tell(self):
        return self.size()

    def getvalue(self):
        return self


class Stack:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def enter_context(self, cm):
        return cm


class Decoder:
    pass


def zeq(it, a, b):
    return tm(it, a, "int") == tm(it, b, "int")


def expect(it, what):
    g = it.c.ghost
    g["todo"], g["val"] = what


def got(it, kind, *vals):
    """An event of the stream: exactly the one due, with its values."""
    g = it.c.ghost
    it.c.check("only what the bytes received mean happens, once", kind == g["todo"])
    if kind == g["todo"]:
        it.c.check("with its own values", And(*[same(it, x, y) for x, y in zip(vals, g["val"])]))
    g["todo"], g["val"] = None, ()


def state(it, c, mode, last):
    c.attrs["_processing_command"], c.attrs["_processing_option"], c.attrs["_last_val"] = mode == 1, mode == 2, last


def any_state(it, c):
    g = it.c.ghost
    g["mode"] = m = it.c.choose(3)
    if m == 0:
        last = it.c.sym("int", "last", inp=False)
    elif m == 1:
        last = 255
    else:
        last = 251 + it.c.choose(4)
    g["last"] = last
    state(it, c, m, last)


def in_state(it, c):
    """The state kept is that of the bytes read."""
    g = it.c.ghost
    t = [zb(it.truth(c.attrs["_processing_command"])) == z3.BoolVal(g["mode"] == 1), zb(it.truth(c.attrs["_processing_option"])) == z3.BoolVal(g["mode"] == 2)]
    if g["mode"]:
        t.append(zeq(it, c.attrs["_last_val"], g["last"]))
    return z3.And(*t)


def pull(it, a, kw):
    """The next byte, and what it means."""
    g = it.c.ghost
    it.c.check("bytes are read one at a time", a[0] == 1)
    if it.c.choose(2) == 0:
        g["ended"] = True
        return b""
    m = g["mode"]
    special = list(range(240, 256)) + (list(NVT) if m != 1 else [])
    k = it.c.choose(len(special) + (m != 1))
    if k < len(special):
        b = special[k]
        out = bytes([b])
    else:
        s = it.c.sym("int", "byte")
        it.c.assume(z3.And(s.t >= 1, s.t < 240, z3.Or(s.t < 7, s.t > 13)))
        b, out = s, it.call(bytes, [MList(items=[s])])
    conc = isinstance(b, int)
    if m == 2:
        expect(it, ("option", (g["last"], b)))
        g["mode"] = 0
    elif m == 1:
        if 251 <= b <= 254:
            expect(it, (None, ()))
            g["mode"] = 2
        else:
            expect(it, ("text", (255,)) if b == 255 else ("command", (b,)))
            g["mode"] = 0
    elif conc and b == 255:
        expect(it, (None, ()))
        g["mode"] = 1
    elif conc and b in NVT and b not in (9, 10, 13):
        expect(it, ("nvt", (b,)))
    else:
        expect(it, ("text", (b,)))
    g["last"] = b
    return out


def handler(it, kind):
    def fn(it, a, kw):
        return CoroVal(lambda: got(it, kind, *a), kind)
    return Prim(fn, kind)


def parser(it):
    it.cfg.method_override = True
    g = it.c.ghost
    c = new(it, BasicTelnet, logger=new(it, Log))
    g["conn"], g["todo"], g["val"], g["ended"], g["size"] = c, None, (), False, 0
    g["delivered"] = []
    any_state(it, c)
    c.attrs["process_option"] = Prim(lambda it, a, kw: CoroVal(lambda: got(it, "option", *a[:2]), "option"), "option")
    c.attrs["process_command"] = handler(it, "command")
    c.attrs["handle_nvt"] = handler(it, "nvt")
    return c


def cfg_parse(cfg):
    base_cfg(cfg)
    cfg.method_override = True

    def put(it, a, kw):
        g = it.c.ghost
        it.c.check("one byte at a time", zeq(it, it.call(len, [a[0]]), 1))
        got(it, "text", it.getitem(a[0], 0))
        g["size"] = g["size"] + 1
        return 1

    def io(it, a, kw):
        if a:
            return new(it, Stream, pull=Prim(pull, "read"))
        g = it.c.ghost
        return new(it, Text, put=Prim(put, "write"), size=Prim(lambda it, a, kw: Sym("int", z3.IntVal(g["size"]) if isinstance(g["size"], int) else g["size"]), "tell"))
    cfg.model(T._BytesIO, io, "BytesIO")
    cfg.model(T._ExitStack, lambda it, a, kw: new(it, Stack), "ExitStack")

    def inv(it, env):
        g = it.c.ghost
        size = z3.IntVal(g["size"]) if isinstance(g["size"], int) else g["size"]
        return [("everything the bytes read mean has happened", z3.BoolVal(g["todo"] is None)), ("the state is that of the bytes read", in_state(it, g["conn"])), ("text only grows", size >= 0),
                ("the value kept is the last byte", zeq(it, env.get("val"), g["last"])) if g["mode"] == 2 else ("", z3.BoolVal(True))]

    def havoc(it, env):
        g = it.c.ghost
        c = g["conn"]
        for k in ("_processing_command", "_processing_option", "_last_val"):
            it.allow(c, k)
        any_state(it, c)
        env.set("val", g["last"]) if hasattr(env, "set") else None
        g["size"] = it.c.fresh(I, "text_size")
    cfg.loop(Telnet.process_binary, 0, LoopSpec(inv, havoc))


def v_parse(it):
    g = it.c.ghost
    c = parser(it)
    verdict = it.c.sym("bool", "verdict")

    def deliver(it, a, kw):
        def body():
            g["delivered"].append((a[0], g["size"]))
            return verdict
        return CoroVal(body, "process_telnet_message")
    c.attrs["process_telnet_message"] = Prim(deliver, "process_telnet_message")
    data = it.c.sym("bytes", "data") if False else b"chunk"
    o = acall(it, method(c, "process_binary"), data)
    it.c.check("processing succeeds", o.ok)
    it.c.check("all bytes are read", g["ended"])
    it.c.check("everything they mean has happened", g["todo"] is None)
    it.c.check("the rest of a sequence may come with the next bytes", in_state(it, c))
    size = z3.IntVal(g["size"]) if isinstance(g["size"], int) else g["size"]
    it.c.check("text is processed if there is any, once", z3.BoolVal(len(g["delivered"]) == 1) == (size > 0))
    it.c.check("at most once", len(g["delivered"]) <= 1)
    if g["delivered"]:
        it.c.check("all of it", g["delivered"][0][1] is g["size"])
        it.c.check("the result is that of the text", same(it, o.value, verdict))
    else:
        it.c.check("without text, processing goes on", it.truth(o.value))
    cover(it, "return")


def v_text(it):
    """Characters may come in parts too."""
    g = it.c.ghost
    c = parser(it)
    g["texts"] = []
    part, verdict = it.c.sym("str", "decoded"), it.c.sym("bool", "verdict")
    g["fed"] = []

    def dec(it, a, kw):
        g["fed"].append(a[0])
        return part
    c.attrs["_decoder"] = new(it, Decoder, decode=Prim(dec, "decode"))

    def text(it, a, kw):
        def body():
            g["texts"].append(a[0])
            return verdict
        return CoroVal(body, "process_text")
    c.attrs["process_text"] = Prim(text, "process_text")
    data = it.c.sym("bytes", "data")
    o = acall(it, method(c, "process_telnet_message"), data)
    some = it.c.branch(part.t != z3.StringVal(""))
    it.c.check("every byte of text is decoded once", And(o.ok, len(g["fed"]) == 1, g["fed"] and g["fed"][0] is data))
    it.c.check("what it adds is processed once", And(len(g["texts"]) == (1 if some else 0), not some or same(it, g["texts"][0], part)))
    it.c.check("and its result returned", same(it, o.value, verdict) if some else it.truth(o.value))
    cover(it, "return")


def v_reset(it):
    """Another stream starts afresh."""
    c = parser(it)
    g = it.c.ghost
    p = new(it, Decoder)
    d = new(it, Decoder)
    it.cfg.model(T._getincrementaldecoder, lambda it, a, kw: Prim(lambda it, a, kw: d, "decoder"), "getincrementaldecoder")
    c.attrs["_decoder"] = None
    o = call(it, method(c, "_set_protocol"), p)
    g["mode"] = 0
    it.c.check("a new stream doesn't start within a sequence", And(o.ok, in_state(it, c), c.attrs["_decoder"] is d))
    it.c.check("it's the stream given", And(c.attrs["_protocol"] is p, p.attrs["conn"] is c))
    cover(it, "return")


def v_send(it):
    g = it.c.ghost
    c = parser(it)
    g["sent"] = []
    c.attrs["send_binary"] = Prim(lambda it, a, kw: g["sent"].append(a[0]), "send_binary")
    code = list(TelnetCode)[it.c.choose(len(TelnetCode))]
    o = call(it, method(c, "send_command"), code)
    it.c.check("a command is sent as its sequence", And(o.ok, len(g["sent"]) == 1, it.eq(g["sent"][0], bytes([255, int(code)]))))
    opt = it.c.sym("int", "option")
    it.c.assume(z3.And(opt.t >= 0, opt.t <= 255))
    o = call(it, method(c, "send_option"), code, opt)
    isopt = 251 <= code <= 254
    it.c.check("options are those that negotiate", o.ok == isopt)
    if isopt:
        b = [it.getitem(g["sent"][1], i) for i in range(3)]
        it.c.check("an option is sent as its sequence", And(zeq(it, it.call(len, [g["sent"][1]]), 3), zeq(it, b[0], 255), zeq(it, b[1], int(code)), same(it, b[2], opt)))
    cover(it, "return")


CONTRACTS = [
    Unit("parsing", Telnet.process_binary, v_parse, cfg_parse, covers=["return"]),
    Unit("text", Telnet.process_telnet_message, v_text, base_cfg, covers=["return"]),
    Unit("another stream", Telnet._set_protocol, v_reset, base_cfg, covers=["return"]),
    Unit("sequences sent", Telnet.send_option, v_send, base_cfg, covers=["return"]),
]
