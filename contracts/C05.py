"""C05: size-prefixed message framing."""
from contracts.common import *
from pyvc.models import enc_axioms, RANGES, codec
from runtimepy import primitives as RP
from runtimepy.message import MessageProcessor
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.net.stream.base import PrefixedMessageConnection

ORDERS = [("NATIVE", "<"), ("LITTLE_ENDIAN", "<"), ("BIG_ENDIAN", ">"), ("NETWORK", ">")]
PREFIX = {RP.Uint8: "B", RP.Uint16: "H", RP.Uint32: "I", RP.Uint64: "Q"}


def proc(it, full=True):
    """A processor in an arbitrary reachable state."""
    oname, end = ORDERS[it.c.choose(4)] if full else ORDERS[3]
    kind = list(PREFIX)[it.c.choose(4)] if full else RP.Uint32
    cls = MessageProcessor if kind is RP.Uint32 else type("Processor", (MessageProcessor,), {"message_length_kind": kind})
    p = call(it, cls, ByteOrder[oname]).value
    g = it.c.ghost
    g["p"], g["end"], g["code"], g["kind"] = p, end, PREFIX[kind], kind
    return p


def hdr(it, n):
    g = it.c.ghost
    return enc_axioms(it, g["code"], g["end"], n)


def state(it):
    p = it.c.ghost["p"]
    b = it.getattr(p, "buffer")
    return (it.term(it.getattr(b, "data"), "bytes"), it.term(it.getattr(b, "size"), "int"), it.truth(it.getattr(p, "reading_header")),
            it.term(it.getattr(it.getattr(p, "message_length_in"), "value"), "int"))


def bz(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def pending(it):
    """The bytes received and not yet delivered, as they came."""
    data, size, rh, n = state(it)
    return z3.If(bz(rh), data, z3.Concat(hdr(it, n), data))


def wf(it):
    data, size, rh, n = state(it)
    g = it.c.ghost
    lo, hi = RANGES[g["code"]]
    return z3.And(size == z3.Length(data), n >= 0, n <= hi)


def havoc_state(it):
    g = it.c.ghost
    p = g["p"]
    b = it.getattr(p, "buffer")
    b.attrs["data"] = MBytes(it.c.fresh(z3.StringSort(), "buffer"))
    b.attrs["size"] = Sym("int", it.c.fresh(z3.IntSort(), "size"))
    p.attrs["reading_header"] = Sym("bool", it.c.fresh(z3.BoolSort(), "reading_header"))
    m = it.getattr(p, "message_length_in")
    raw = it.getattr(m, "raw")
    raw.value = Sym("int", it.c.fresh(z3.IntSort(), "length_in"))
    m.attrs["last_updated_ns"] = Sym("int", it.c.fresh(z3.IntSort(), "t"))
    return b, p, m, raw


def done(it):
    """No complete message is left behind."""
    data, size, rh, n = state(it)
    w = it.c.ghost["kind"].kind.size
    return z3.If(bz(rh), z3.Length(data) < w, z3.Length(data) < n)


def outcome_of(it):
    """The boolean the consumer of the messages keeps, if it keeps one."""
    if "ok" not in it.c.ghost or not it.bodies:
        return None
    b = [v for k, v in it.bodies[-1][0].vars.items() if it.kind(v) == "bool"]
    it.c.ghost["accumulated"] = len(b) == 1
    return b[0] if len(b) == 1 else None


def cfg(cfg):
    base_cfg(cfg)

    def inv(it, env):
        g = it.c.ghost
        cc = bz(it.truth(env.vars["can_continue"]))
        acc = outcome_of(it)
        return [
            ("well-formed parser state", wf(it)),
            ("input so far = delivered messages with their prefixes, then the bytes pending", g["total"] == z3.Concat(g["enc"], pending(it))),
            ("stops only without a complete message", z3.Implies(z3.Not(cc), done(it))),
        ] + ([("the result so far is whether every message was handled", bz(it.truth(acc)) == g["ok"])] if acc is not None else [])

    def havoc(it, env):
        g = it.c.ghost
        b, p, m, raw = havoc_state(it)
        for o in (b, raw, m):
            it.allow(o)
        it.allow(b, "data"), it.allow(b, "size")
        it.allow(m, "last_updated_ns")
        it.allow(p, "reading_header")
        it.allow(b.attrs["data"])
        g["enc"] = it.c.fresh(z3.StringSort(), "enc")
        if "ok" in g:
            g["ok"] = it.c.fresh(z3.BoolSort(), "every message was handled")

    def variant(it, env):
        data, size, rh, n = state(it)
        cc = bz(it.truth(env.vars["can_continue"]))
        return 2 * z3.Length(data) + z3.If(bz(rh), z3.IntVal(1), z3.IntVal(0)) * 0 + z3.If(bz(rh), z3.IntVal(0), z3.IntVal(1)) + z3.If(cc, z3.IntVal(1), z3.IntVal(0))

    cfg.loop(MessageProcessor.process, 0, LoopSpec(inv, havoc, decreases=variant))


def v_process(it):
    p = proc(it)
    g = it.c.ghost
    havoc_state(it)
    it.c.assume(wf(it))
    data = it.c.sym("bytes", "data")
    before = pending(it)
    g["total"] = z3.Concat(before, data.t)
    g["enc"] = z3.StringVal("")
    abandon = it.c.choose(2) == 1

    def on(m):
        t = it.term(m, "bytes")
        n = z3.Length(t)
        lo, hi = RANGES[g["code"]]
        it.c.check("a delivered message fits its prefix", n <= hi)
        g["enc"] = z3.Concat(g["enc"], hdr(it, n), t)
        if abandon:
            # the consumer stops here: everything not delivered must survive
            it.c.check("stopping after a message loses and repeats nothing", z3.And(wf(it), g["total"] == z3.Concat(g["enc"], pending(it))))
            cover(it, "abandoned")
            it.throw(GeneratorExit)
        return None

    gen = call(it, method(p, "process"), data).value
    o = drain(it, gen, on)
    it.c.check("processing never fails", o.ok or o.raised(GeneratorExit))
    if o.ok:
        it.c.check("state is well-formed", wf(it))
        it.c.check("input = delivered messages with their prefixes, then the bytes pending", g["total"] == z3.Concat(g["enc"], pending(it)))
        it.c.check("every complete message was delivered", done(it))
        cover(it, "return")


def v_init(it):
    p = proc(it)
    it.c.check("a new processor has nothing pending", z3.And(wf(it), pending(it) == z3.StringVal(""), bz(state(it)[2])))
    cover(it, "return")


def v_encode(it, kind):
    p = proc(it)
    g = it.c.ghost
    d = it.c.sym(kind, "message")
    s = Stream(it.c.sym("bytes", "before").t)
    s.pos = z3.Length(s.data)
    start = s.data
    pend = pending(it)
    raw = it.term(call(it, it.getattr(d, "encode")).value, "bytes") if kind == "str" else d.t
    o = call(it, method(p, "encode"), s, d)
    lo, hi = RANGES[g["code"]]
    n = z3.Length(raw)
    if o.ok:
        it.c.check("only a message that fits its prefix is framed", n <= hi)
        it.c.check("framing appends the prefix and the message", s.data == z3.Concat(start, hdr(it, n), raw))
        it.c.check("framing does not disturb parsing", pending(it) == pend)
        cover(it, "return")
    else:
        it.c.check("a message is refused only when it cannot be framed", n > hi)
        it.c.check("a refused message writes nothing", s.data == start)
        cover(it, "refused")


def v_conn_receive(it):
    """Received bytes reach the handler as whole messages, in order."""
    p = proc(it, full=False)
    g = it.c.ghost
    havoc_state(it)
    it.c.assume(wf(it))
    data = it.c.sym("bytes", "data")
    g["total"] = z3.Concat(pending(it), data.t)
    g["enc"] = z3.StringVal("")
    g["ok"] = z3.BoolVal(True)
    conn = new(it, PrefixedMessageConnection, processor=p)
    addr = it.c.sym("any", "addr", inp=False)

    def single(it, a, kw):
        stream = a[-1] if not kw.get("stream") else kw["stream"]
        t = it.term(call(it, it.getattr(stream, "read")).value, "bytes")
        it.c.check("the sender's address is passed on", kw.get("addr", a[1] if len(a) > 1 else None) is addr)
        g["enc"] = z3.Concat(g["enc"], hdr(it, z3.Length(t)), t)
        ok = it.c.sym("bool", "handled", inp=False)
        g["ok"] = z3.And(g["ok"], ok.t)
        return CoroVal(lambda: ok, "process_single")

    conn.attrs["process_single"] = Prim(lambda it, a, kw: single(it, a, kw), "process_single")
    it.cfg.method_override = True
    o = acall(it, method(conn, "process_binary"), data, addr=addr)
    it.c.check("receiving never fails by itself", o.ok)
    it.c.check("input = handled messages with their prefixes, then the bytes pending", g["total"] == z3.Concat(g["enc"], pending(it)))
    it.c.check("every complete message was handled", done(it))
    if g.get("accumulated"):
        it.c.check("receiving succeeds if and only if every message was handled", bz(it.truth(o.value)) == g["ok"])
    cover(it, "return")


def v_conn_send(it):
    p = proc(it, full=False)
    g = it.c.ghost
    conn = new(it, PrefixedMessageConnection, processor=p)
    sent = []
    conn.attrs["send_binary"] = Prim(lambda it, a, kw: sent.append(it.term(a[0], "bytes")), "send_binary")
    text = it.c.choose(2) == 1
    d = it.c.sym("str" if text else "bytes", "message")
    raw = it.term(call(it, it.getattr(d, "encode")).value, "bytes") if text else d.t
    it.c.assume(z3.Length(raw) < 2**32)
    o = call(it, method(conn, "send_message_str" if text else "send_message"), d)
    it.c.check("a message is sent as its prefix and its bytes, in one write", o.ok and len(sent) == 1 and sent[0] == z3.Concat(hdr(it, z3.Length(raw)), raw))
    cover(it, "return")


M = "runtimepy.message:MessageProcessor"
CONTRACTS = [
    Unit("process", M + ".process", v_process, cfg, covers=("return", "abandoned")),
    Unit("__init__", M + ".__init__", v_init, cfg),
    Unit("encode[bytes]", M + ".encode", lambda it: v_encode(it, "bytes"), cfg, covers=("return", "refused"), branch_ms=300),
    Unit("encode[str]", M + ".encode", lambda it: v_encode(it, "str"), cfg, covers=("return", "refused"), branch_ms=300),
    Unit("connection receive", "runtimepy.net.stream.base:PrefixedMessageConnection.process_binary", v_conn_receive, cfg),
    Unit("connection send", "runtimepy.net.stream.base:PrefixedMessageConnection.send_message", v_conn_send, cfg, branch_ms=300),
]
