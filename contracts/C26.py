"""C26: metrics, and telemetry of structs."""
from contracts.common import *
from contracts.C04 import cat, enc_of, val
from contracts.C15 import Log, zb
from contracts.C18 import F32, prim, put, raw, zi, zr
from contracts.C20 import conn, enable, on, others
from pyvc.models import RANGES, SIZES
from runtimepy import primitives as RP
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.metrics import channel as MC
from runtimepy.metrics.channel import ChannelMetrics
from runtimepy.metrics.connection import ConnectionMetrics
from runtimepy.net import manager as NM
from runtimepy.net.arbiter import struct as ST
from runtimepy.net.arbiter.struct import TimestampedStruct, UdpStructTransceiver
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket.connection import WebsocketConnection
from runtimepy.primitives.array import PrimitiveArray
from runtimepy.primitives.byte_order import ByteOrder
from vcorelib.math import constants as VC
from vcorelib.math.analysis import rate as VR

KIND = {"messages": ("int", 2**32), "bytes": ("int", 2**64), "message_rate": ("real", None), "kbps": ("real", None)}
NAMES = list(KIND)
TR = {"message_rate": "_message_rate_tracker", "kbps": "_kbps_tracker"}


# -- rates
class Weighted:
    """A weighted average of rates: contract."""

    def __init__(self, **kwargs):
        self.avg = 0.0
        self.seen = []

    def __call__(self, value, weight=1.0):
        self.seen.append((value, weight))
        return None

    def average(self):
        return self.avg

    def reset(self):
        self.seen.append("reset")


def now(it, a, kw):
    g = it.c.ghost
    if g.get("now") is None:
        g["now"] = it.c.sym("int", "now").t
        it.c.assume(z3.And(g["now"] > 0, g["now"] < 2**64))
    g["asked"] = g.get("asked", 0) + 1
    return Sym("int", g["now"])


def cfg_rate(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.overrides[id(VR._WeightedAverage)] = Weighted
    for m in {MC._metrics_time_ns, NM._metrics_time_ns}:
        cfg.model(m, now, "metrics_time_ns")
    cfg.model(VR.from_nanos, lambda it, a, kw: Sym("real", z3.ToReal(zi(it, a[0])) / 1000000000), "from_nanos")


def metrics(it, tag=""):
    """Channel metrics in any state."""
    m = call(it, ChannelMetrics).value
    was = {}
    for k, (kind, top) in KIND.items():
        v = was[k] = it.c.sym(kind, k + tag)
        if top:
            it.c.assume(z3.And(v.t >= 0, v.t < top - 1 if top == 2**32 else v.t < top - 2**32))
        else:
            it.c.assume(F32(v.t) == v.t)
        put(it, it.getattr(m, k), v)
    for k, t in TR.items():
        t = it.getattr(m, t)
        w = it.getattr(t, "average")
        w.attrs["avg"], w.attrs["seen"] = it.c.sym("real", "average_" + k + tag), MList(items=[])
        for x, kind in (("prev_time_ns", "int"), ("accumulated", "real")):
            v = was[k, x] = it.c.sym(kind, x + "_" + k + tag)
            it.setattr(t, x, v)
        it.c.assume(was[k, "prev_time_ns"].t >= 0)
    return m, was


def got(it, m, k):
    return (zi if KIND[k][0] == "int" else zr)(it, raw(it, it.getattr(m, k)))


def avg(it, m, k):
    return it.getattr(it.getattr(m, TR[k]), "average").attrs["avg"].t


def seen(it, m, k):
    return it.to_items(it.getattr(it.getattr(m, TR[k]), "average").attrs["seen"])


def rates(it, m, was, k, added, t):
    """What a rate has to do with `added` at time t."""
    p, acc = was[k, "prev_time_ns"].t, was[k, "accumulated"].t + added
    s = seen(it, m, k)
    tr = it.getattr(m, TR[k])
    it.c.check(f"{k}: nothing is measured before there are two different times", (len(s) == 1) == z3.And(p != 0, t > p) if len(s) < 2 else False)
    if len(s) == 1:
        dt = z3.ToReal(t - p) / 1000000000
        v, w = it.to_items(s[0]) if not isinstance(s[0], tuple) else s[0]
        it.c.check(f"{k}: the rate is what was accumulated per second since", And(zr(it, v) * dt == acc, zr(it, w) == dt))
    it.c.check(f"{k}: what was measured isn't accumulated again, what wasn't remains", zr(it, it.getattr(tr, "accumulated")) == (z3.RealVal(0) if s else acc))
    it.c.check(f"{k}: the next rate starts at this time", zi(it, it.getattr(tr, "prev_time_ns")) == t)


def v_increment(it):
    g = it.c.ghost
    m, was = metrics(it)
    n = it.c.sym("int", "count")
    it.c.assume(z3.And(n.t >= 0, n.t < 2**31))
    kw = {}
    if it.c.choose(2):
        kw["time_ns"] = it.c.sym("int", "time")
        it.c.assume(kw["time_ns"].t > 0)
    o = call(it, method(m, "increment"), n, **kw)
    t = kw["time_ns"].t if kw else g.get("now")
    it.c.check("counting succeeds", o.ok and t is not None)
    it.c.check("one message more", got(it, m, "messages") == was["messages"].t + 1)
    it.c.check("as many bytes more as the message has", got(it, m, "bytes") == was["bytes"].t + n.t)
    rates(it, m, was, "message_rate", 1, t)
    rates(it, m, was, "kbps", z3.ToReal(n.t) / 1000, t)
    it.c.check("the message rate is its average", got(it, m, "message_rate") == F32(avg(it, m, "message_rate")))
    it.c.check("the data rate is in kilobits", got(it, m, "kbps") == F32(8 * avg(it, m, "kbps")))
    cover(it, "return")


def v_poll(it):
    g = it.c.ghost
    m, was = metrics(it)
    kw = {}
    if it.c.choose(2):
        kw["time_ns"] = it.c.sym("int", "time")
        it.c.assume(kw["time_ns"].t > 0)
    o = call(it, method(m, "poll"), **kw)
    t = kw["time_ns"].t if kw else g.get("now")
    it.c.check("polling succeeds", o.ok and t is not None)
    rates(it, m, was, "message_rate", 0, t)
    rates(it, m, was, "kbps", 0, t)
    it.c.check("the polled message rate is its average", got(it, m, "message_rate") == F32(avg(it, m, "message_rate")))
    it.c.check("the polled data rate is in kilobits, too", got(it, m, "kbps") == F32(8 * avg(it, m, "kbps")))
    it.c.check("polling counts nothing", And(got(it, m, "messages") == was["messages"].t, got(it, m, "bytes") == was["bytes"].t))
    cover(it, "return")


def v_update(it):
    a, wa = metrics(it)
    b, wb = metrics(it, "2")
    o = call(it, method(a, "update"), b)
    it.c.check("metrics can be copied", o.ok)
    for k in NAMES:
        it.c.check(f"{k} is the other's", got(it, a, k) == wb[k].t)
        it.c.check(f"the other's {k} remains", got(it, b, k) == wb[k].t)
    it.c.check("copying measures nothing", And(*[len(seen(it, x, k)) == 0 for x in (a, b) for k in TR]))
    cover(it, "return")


def v_reset(it):
    m, was = metrics(it)
    o = call(it, method(m, "reset"))
    it.c.check("metrics can be reset", o.ok)
    for k in NAMES:
        it.c.check(f"{k} starts over", got(it, m, k) == 0)
    for k in TR:
        it.c.check("rates start over", And(list(seen(it, m, k)) == ["reset"], zi(it, it.getattr(it.getattr(m, TR[k]), "prev_time_ns")) == 0, zr(it, it.getattr(it.getattr(m, TR[k]), "accumulated")) == 0))
    cover(it, "return")


def v_conn(it):
    """Both directions are handled alike."""
    g = it.c.ghost
    a = call(it, ConnectionMetrics).value
    b = call(it, ConnectionMetrics).value
    it.c.check("both directions of every connection have their own metrics", len({id(it.getattr(x, d)) for x in (a, b) for d in ("tx", "rx")}) == 4)
    was = {}
    for i, x in enumerate((a, b)):
        for d in ("tx", "rx"):
            for k, (kind, top) in KIND.items():
                v = was[i, d, k] = it.c.sym(kind, f"{k}_{d}{i}")
                it.c.assume(z3.And(v.t >= 0, v.t < top) if top else F32(v.t) == v.t)
                put(it, it.getattr(it.getattr(x, d), k), v)
    what = it.c.choose(3)
    o = call(it, method(a, ("update", "reset", "poll")[what]), *([b] if what == 0 else []))
    it.c.check("connection metrics can be copied, reset and polled", o.ok)
    for d in ("tx", "rx"):
        for k in NAMES:
            want = was[1, d, k].t if what == 0 else 0
            if what < 2 or k in ("messages", "bytes"):
                it.c.check(f"{d} {k}: copied from the same direction, reset in both, or kept", got(it, it.getattr(a, d), k) == (want if what < 2 else was[0, d, k].t))
            it.c.check("other metrics remain", got(it, it.getattr(b, d), k) == was[1, d, k].t)
        if what == 2:
            tr = [it.getattr(it.getattr(it.getattr(a, d), t), "prev_time_ns") for t in TR.values()]
            it.c.check("both directions are polled", And(*[zi(it, x) == g["now"] for x in tr]))
    cover(it, "return")


class Managed:
    pass


def v_manager(it):
    g = it.c.ghost
    n = it.c.choose(4)
    log = []
    cs = []
    for i in range(n):
        m = new(it, Managed)
        m.attrs["poll"] = Prim(lambda it, a, kw, i=i: log.append((i, "poll", kw.get("time_ns", a[0] if a else None))), "poll")
        m.attrs["reset"] = Prim(lambda it, a, kw, i=i: log.append((i, "reset", None)), "reset")
        cs.append(new(it, Managed, metrics=m))
    man = new(it, ConnectionManager, _conns=MList(items=cs))
    what = it.c.choose(3)
    t = it.c.sym("int", "time")
    o = call(it, method(man, "reset_metrics" if what == 0 else "poll_metrics"), *([t] if what == 2 else []))
    it.c.check("all metrics can be reset and polled", o.ok)
    it.c.check("every connection's metrics are handled, once", [x[:2] for x in log] == [(i, "reset" if what == 0 else "poll") for i in range(n)])
    if what:
        want = t.t if what == 2 else g.get("now")
        it.c.check("all at the same time, the one given if any", And(*[x[2] is not None and zi(it, x[2]) == want for x in log]))
    cover(it, "return")


# -- what connections count
class Counter:
    def increment(self, count, time_ns=None):
        self.log.append(count)


class Transport:
    pass


class Both:
    pass


def counting(it, cls, **kw):
    tx, rx = MList(items=[]), MList(items=[])
    c = conn(it, cls=cls, **kw)
    c.attrs["metrics"] = new(it, Both, tx=new(it, Counter, log=tx), rx=new(it, Counter, log=rx))
    return c, tx, rx


def ENC(it, s):
    return it.term(it.call(it.getattr(s, "encode"), []), "bytes")


def v_send(it):
    """What is handed to the transport is counted: one message, its bytes."""
    kind = it.c.choose(3)
    text = it.c.choose(2) == 1
    m = it.c.sym("str" if text else "bytes", "message")
    wire = []
    gone = False
    if kind == 0:
        c, tx, rx = counting(it, TcpConnection)
        c.attrs["_transport"] = t = new(it, Transport)
        t.attrs["write"] = Prim(lambda it, a, kw: wire.append(a[0]), "write")
        o = call(it, method(c, "send_text" if text else "send_binary"), m)
    elif kind == 1:
        c, tx, rx = counting(it, UdpConnection)
        c.attrs["_transport"] = t = new(it, Transport)
        addr = c.attrs["remote_address"] = new(it, Transport)
        gone = it.c.choose(2) == 1

        def sendto(it, a, kw):
            if gone:
                it.throw(AttributeError, "closed")
            wire.append(a[0])
            it.c.check("datagrams go to the remote address", (kw.get("addr") or a[1]) is addr)
        t.attrs["sendto"] = Prim(sendto, "sendto")
        o = call(it, method(c, "send_text" if text else "send_binary"), m)
    else:
        c, tx, rx = counting(it, WebsocketConnection)
        c.attrs["protocol"] = t = new(it, Transport)
        t.attrs["send"] = Prim(lambda it, a, kw: CoroVal(lambda: wire.append(a[0]), "send"), "send")
        o = acall(it, method(c, "_send_text_message" if text else "_send_binay_message"), m)
    it.c.check("messages can be sent", o.ok)
    body = ENC(it, m) if text else m.t
    sent = it.to_items(tx)
    it.c.check("nothing was received", len(it.to_items(rx)) == 0)
    if gone:
        it.c.check("what couldn't be sent isn't counted, and ends the connection", And(len(sent) == 0, z3.Not(on(it, c))))
        cover(it, "gone")
        return
    it.c.check("exactly the message is handed to the transport, once", And(len(wire) == 1, (ENC(it, wire[0]) if isinstance(wire[0], Sym) and wire[0].k == "str" else it.term(wire[0], "bytes")) == body))
    it.c.check("one message of its size in bytes is counted", And(len(sent) == 1, zi(it, sent[0]) == z3.Length(body)))
    cover(it, "sent")


class Chan:
    def get(self):
        return self.take()


def v_receive(it):
    """What is received is counted and returned; nothing isn't counted."""
    kind = it.c.choose(2)
    what = it.c.choose(3)
    m = None if what == 0 else it.c.sym("str" if what == 1 else "bytes", "message")
    src = Prim(lambda it, a, kw: CoroVal(lambda: m, "get"), "get")
    if kind == 0:
        c, tx, rx = counting(it, TcpConnection)
        c.attrs["_protocol"] = new(it, Transport, queue=new(it, Chan, take=src))
        if what == 1:
            m = it.c.sym("bytes", "data")
            what = 2
    else:
        c, tx, rx = counting(it, WebsocketConnection)
        c.attrs["protocol"] = new(it, Transport, recv=src)
    o = acall(it, method(c, "_await_message"))
    it.c.check("what was received is returned", o.ok and o.value is m)
    r = it.to_items(rx)
    it.c.check("nothing was sent", len(it.to_items(tx)) == 0)
    if m is None:
        it.c.check("nothing received isn't counted", len(r) == 0)
        return
    it.c.check("one message of its size in bytes is counted as received", And(len(r) == 1, zi(it, r[0]) == z3.Length(ENC(it, m) if what == 1 else m.t)))
    cover(it, "received")


def cfg_dgrams(cfg):
    base_cfg(cfg)

    cfg.method_override = True

    def inv(it, env):
        g = it.c.ghost
        return [("every datagram was processed once and counted", z3.And(g["got"] == g["done"], g["got"] == g["count"])), ("bytes are those of the datagrams", g["size"] == g["total"])]

    def havoc(it, env):
        g = it.c.ghost
        c = g["conn"]
        enable(it, c, it.c.fresh(z3.BoolSort(), "enabled"))
        it.allow(c, "_conn_tasks")
        it.allow(c, "latest_rx_address")
        for k in ("disabled_event", "initialized"):
            it.allow(c.attrs[k])
            c.attrs[k].attrs["flag"] = Sym("bool", it.c.fresh(z3.BoolSort(), k))
        for k in ("got", "done", "count", "size", "total"):
            g[k] = it.c.fresh(z3.IntSort(), k)

    cfg.loop(UdpConnection._process_read, 0, LoopSpec(inv=inv, havoc=havoc))


def v_datagrams(it):
    g = it.c.ghost
    c, tx, rx = counting(it, UdpConnection)
    Z = z3.IntVal(0)
    g.update(conn=c, got=Z, done=Z, count=Z, size=Z, total=Z, raised=False)

    def take(it, a, kw):
        def run():
            it.c.check("a datagram is taken only while the connection is enabled", on(it, c))
            others(it, c)
            if it.c.choose(2) == 0:
                g["good"] = False
                return None
            g["got"] = g["got"] + 1
            g["m"], g["from"] = it.c.sym("bytes", "datagram"), it.c.sym("int", "address")
            g["total"] = g["total"] + z3.Length(g["m"].t)
            return (g["m"], g["from"])
        return CoroVal(run, "get")

    def process(it, a, kw):
        def run():
            it.c.check("a datagram is processed unchanged, with the address it came from", And(a[0] is g["m"], a[1] is g["from"]))
            it.c.check("the latest address is known", it.getattr(c, "latest_rx_address") is g["from"])
            g["done"] = g["done"] + 1
            others(it, c)
            r = it.c.choose(3)
            if r == 2:
                g["raised"] = True
                it.throw(KeyError, "x")
            return bool(r)
        return CoroVal(run, "process_datagram")

    def inc(it, a, kw):
        it.c.check("a datagram is counted with its size", zi(it, a[0]) == z3.Length(g["m"].t))
        g["count"] = g["count"] + 1
        g["size"] = g["size"] + zi(it, a[0])
    c.attrs["_protocol"] = new(it, Transport, queue=new(it, Chan, take=Prim(take, "get")))
    c.attrs["process_datagram"] = Prim(process, "process_datagram")
    it.getattr(it.getattr(c, "metrics"), "rx").attrs["increment"] = Prim(inc, "increment")
    o = acall(it, method(c, "_process_read"))
    if g["raised"]:
        it.c.check("exceptions propagate", And(not o.ok, o.exc.cls is KeyError))
        cover(it, "raised")
        return
    it.c.check("reading ends only when the connection is disabled", And(o.ok, z3.Not(on(it, c))))
    it.c.check("every datagram was processed and counted", And(g["got"] == g["done"], g["count"] == g["got"], g["size"] == g["total"]))
    cover(it, "ended")


# -- structs
class Sample(TimestampedStruct):
    """A struct: a timestamp, a sequence and what its subclass adds."""


def cfg_struct(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.model(ST.default_time_ns, now, "default_time_ns")


FIELDS = [(RP.Uint8, "B", "int"), (RP.Double, "d", "real"), (RP.Int32, "i", "int")]


def struct(it, n):
    """A struct with n more elements."""
    ts, seq = call(it, RP.Uint64).value, call(it, RP.Uint16).value
    els = [(ts, "Q", it.c.sym("int", "timestamp")), (seq, "H", it.c.sym("int", "sequence"))]
    for i in range(n):
        cls, code, k = FIELDS[it.c.choose(2) if i == 0 else 2]
        els.append((call(it, cls).value, code, it.c.sym(k, f"v{i}")))
    for p, code, v in els:
        if code in RANGES:
            it.c.assume(z3.And(v.t >= RANGES[code][0], v.t <= RANGES[code][1]))
        it.getattr(p, "raw").value = v
    oname = ("NETWORK", "LITTLE_ENDIAN")[it.c.choose(2)]
    end = "<" if oname == "LITTLE_ENDIAN" else ">"
    a = call(it, PrimitiveArray, *[e[0] for e in els], byte_order=ByteOrder[oname]).value
    s = new(it, Sample, timestamp=ts, sequence=seq, array=a)
    return s, els, end


def written(it, els, tag):
    out = []
    for i, (p, code, v) in enumerate(els):
        w = it.c.sym("real" if code == "d" else "int", f"w{tag}_{i}")
        if code in RANGES:
            it.c.assume(z3.And(w.t >= RANGES[code][0], w.t <= RANGES[code][1]))
        out.append(w)
    return out


def v_single(it):
    s, els, end = struct(it, it.c.choose(3))
    ws = written(it, els, 0)
    data = cat(enc_of(it, e[1], end, w) for e, w in zip(els, ws))
    o = call(it, method(s, "update_single"), Sym("bytes", data))
    it.c.check("an update returns the time it was sampled", o.ok and eqv(it, o.value, ws[0]))
    for e, w in zip(els, ws):
        it.c.check("every element has the value that was sent", eqv(it, val(it, e[0]), w))
        it.c.check("every element was updated at the time it was sampled", eqv(it, it.getattr(e[0], "last_updated_ns"), ws[0]))
    cover(it, "return")


TIME = z3.Function("time_of_sample", z3.StringSort(), z3.IntSort())


def cfg_samples(cfg):
    cfg_struct(cfg)

    def bio(it, a, kw):
        s = it.c.ghost["stream"] = Stream(it.term(a[0], "bytes"))
        return s
    cfg.model(ST.BytesIO, bio, "io.BytesIO")

    def inv(it, env, i, n):
        g = it.c.ghost
        s = g.get("stream")
        return [("one update was reported for every sample so far", g["k"] == i), ("there are as many rounds as samples", n * g["size"] == z3.Length(g["D"]))] + ([] if s is None else [("whole samples were read", s.pos == i * g["size"])])

    def havoc(it, env):
        g = it.c.ghost
        g["k"] = it.c.fresh(z3.IntSort(), "k")
        if g.get("stream") is not None:
            it.allow(g["stream"])
            g["stream"].pos = it.c.fresh(z3.IntSort(), "pos")
    cfg.loop(TimestampedStruct.process_datagram, 0, LoopSpec(inv, havoc))


def v_datagram(it):
    """Any number of samples in one datagram: each once, in order."""
    g = it.c.ghost
    s, els, end = struct(it, 2)
    d = it.c.sym("bytes", "datagram")
    size = sum(SIZES[e[1]] for e in els)
    g.update(D=d.t, size=size, k=z3.IntVal(0))

    def single(it, a, kw):
        b = it.term(a[0], "bytes")
        it.c.check("samples are taken one after the other, whole", b == z3.SubString(d.t, g["k"] * size, size))
        return Sym("int", TIME(b))
    s.attrs["update_single"] = Prim(single, "update_single")

    def on(y):
        it.c.check("an update is reported with its time", zi(it, y) == TIME(z3.SubString(d.t, g["k"] * size, size)))
        g["k"] = g["k"] + 1
    o = drain(it, call(it, method(s, "process_datagram"), d).value, on)
    whole = z3.Length(d.t) % size == 0
    if not o.ok:
        it.c.check("only a datagram that isn't made of whole samples is refused", z3.Not(whole))
        it.c.check("without any update", g["k"] == 0)
        cover(it, "refused")
        return
    it.c.check("every sample is reported", And(whole, g["k"] * size == z3.Length(d.t)))
    cover(it, "return")


def v_struct_poll(it):
    g = it.c.ghost
    s, els, end = struct(it, 1)
    o = call(it, method(s, "poll"))
    it.c.check("polling succeeds", o.ok)
    it.c.check("the timestamp is the time of the poll", zi(it, val(it, els[0][0])) == g["now"])
    it.c.check("the sequence counts polls, modulo its size", zi(it, val(it, els[1][0])) == (els[1][2].t + 1) % 2**16)
    it.c.check("polling changes nothing else", eqv(it, val(it, els[2][0]), els[2][2]))
    cover(it, "return")


def cfg_env(cfg):
    cfg_struct(cfg)


class EnvRec:
    """Channels are created with contract C10."""


def v_env(it):
    """A struct starts with its timestamp and its sequence."""
    g = it.c.ghost
    made = []
    env = new(it, EnvRec)
    env.attrs["channel"] = Prim(lambda it, a, kw: made.append((a[0], a[1])), "channel")
    full = it.c.choose(2) == 1
    env.attrs["names"] = MList(items=["x"] if full else [])
    s = new(it, Sample, env=env)
    o = call(it, method(s, "init_env"))
    if full:
        it.c.check("a struct that already has channels is refused", And(not o.ok, len(made) == 0))
        return
    it.c.check("a struct's first channels are its timestamp and its sequence", And(o.ok, [x[0] for x in made] == ["timestamp", "sequence"]))
    it.c.check("they are the struct's own", And(len(made) == 2, made[0][1] is it.getattr(s, "timestamp"), made[1][1] is it.getattr(s, "sequence"), made[0][1].cls is RP.Uint64, made[1][1].cls is RP.Uint16))
    it.c.check("the timestamp is the current time, the sequence starts at zero", And(zi(it, val(it, made[0][1])) == g["now"], zi(it, val(it, made[1][1])) == 0))
    cover(it, "return")


class Inst:
    def poll(self):
        self.log.append("poll")


class OtherKind:
    pass


class Framer:
    def __init__(self, instance, mtu):
        self.made = (instance, mtu)

    def set_mtu(self, mtu, logger=None, protocol_overhead=0):
        self.log.append(("mtu", mtu, protocol_overhead))

    def capture(self, sample=True, flush=False):
        self.log.append(("capture", sample, flush))
        return self.out(self)


class Transceiver(UdpStructTransceiver):
    struct_kind = Inst


def cfg_tx(cfg):
    cfg_struct(cfg)
    cfg.overrides[id(ST.SerializableFramer)] = Framer


def trx(it, **kw):
    it.cfg.method_override = True
    return new(it, Transceiver, logger=new(it, Log), **kw)


def v_capture_tx(it):
    log = MList(items=[])
    kind = it.c.choose(3)
    out = [None, b"", it.c.sym("bytes", "frame")][kind]
    if kind == 2:
        it.c.assume(z3.Length(out.t) > 0)
    sent = []
    has = it.c.choose(2) == 1
    f = new(it, Framer, log=log, out=Prim(lambda it, a, kw: out, "out"))
    c = trx(it, struct_tx=new(it, Inst, log=log) if has else None, framer_tx=f)
    c.attrs["sendto"] = Prim(lambda it, a, kw: sent.append((a, kw)), "sendto")
    kw = {}
    sample, flush = True, False
    if it.c.choose(2):
        sample = kw["sample"] = it.c.choose(2) == 1
        flush = kw["flush"] = it.c.choose(2) == 1
    o = call(it, method(c, "capture"), **kw)
    it.c.check("capturing succeeds", o.ok)
    l = it.to_items(log)
    if not has:
        it.c.check("nothing is sent without a struct", len(l) == 0 and len(sent) == 0)
        return
    it.c.check("a sample is polled before it's captured, and only if one is taken", list(l) == (["poll"] if sample else []) + [("capture", sample, flush)])
    it.c.check("what the framer has is sent, once and unchanged", And(len(sent) == (kind == 2), *[a == [out] and not k for a, k in sent]))
    cover(it, "return")


def v_assign(it):
    """Assigning structs."""
    g = it.c.ghost
    tx = it.c.choose(2) == 1
    right, free = it.c.choose(2) == 1, it.c.choose(2) == 1
    log = MList(items=[])
    arr = new(it, OtherKind)
    s = new(it, Inst if right else OtherKind, log=log, array=arr)
    before = None if free else new(it, Inst, log=log)
    c = trx(it, struct_tx=before if tx else None, struct_rx=None if tx else before)
    m = it.c.sym("int", "mtu")
    probes = []

    def mtu(it, a, kw):
        fr = it.getattr(c, "framer_tx")
        fr.attrs["log"] = log
        outs = [None] * it.c.choose(3) + [b"full"]
        fr.attrs["out"] = Prim(lambda it, a, kw: outs.pop(0), "out")
        if it.c.choose(2):
            p = it.call(kw["probe_create"], [1024])
            probes.append(p)
        return m
    c.attrs["mtu"] = Prim(mtu, "mtu")
    o = call(it, method(c, "assign_tx" if tx else "assign_rx"), s)
    it.c.check("a struct is accepted exactly if it's of the right kind and the first", o.ok == (right and free))
    now_tx, now_rx = it.getattr(c, "struct_tx"), it.getattr(c, "struct_rx")
    if not o.ok:
        it.c.check("a refused struct changes nothing", And(now_tx is (before if tx else None), now_rx is (None if tx else before)))
        cover(it, "refused")
        return
    it.c.check("the struct is the connection's, for its direction", And((now_tx if tx else now_rx) is s, (now_rx if tx else now_tx) is None))
    if tx:
        f = it.getattr(c, "framer_tx")
        l = [x for x in it.to_items(log)]
        it.c.check("it's framed as its array", it.getattr(f, "made")[0] is arr if isinstance(it.getattr(f, "made"), tuple) else it.to_items(it.getattr(f, "made"))[0] is arr)
        it.c.check("frames are as large as the connection permits", And(len(l) > 0, l[-1][0] == "mtu", l[-1][1] is m, eqv(it, l[-1][2], 68)))
        it.c.check("probes are frames of the requested size", And(*[p == b"full" for p in probes], not probes or (l[0][0] == "mtu" and eqv(it, l[0][1], 1024))))
    cover(it, "accepted")


class App:
    pass


def v_assign_app(it):
    """Structs of an application are assigned if there's exactly one."""
    tx = it.c.choose(2) == 1
    n = it.c.choose(4)
    log = MList(items=[])
    ss = [new(it, Inst, log=log) for _ in range(n)]
    app = new(it, App)
    args = []
    app.attrs["search_structs"] = Prim(lambda it, a, kw: args.append(kw) or MList(items=list(ss)), "search_structs")
    got_ = []
    c = trx(it)
    for k in ("assign_tx", "assign_rx"):
        c.attrs[k] = Prim(lambda it, a, kw, k=k: got_.append((k, a[0])), k)
    pat = it.c.sym("str", "pattern")
    o = call(it, method(c, "assign_app_tx" if tx else "assign_app_rx"), pat, app)
    it.c.check("an application's structs of the kind are searched by the pattern", And(o.ok, len(args) == 1, args[0].get("pattern") is pat, args[0].get("kind") is Inst))
    it.c.check("a struct is assigned exactly if it's the only one, in the right direction", got_ == ([("assign_tx" if tx else "assign_rx", ss[0])] if n == 1 else []))
    it.c.check("and returned", o.value is (ss[0] if n == 1 else None))
    cover(it, "return")


def v_rx(it):
    """Datagrams update the receive struct; every sample is handled."""
    has = it.c.choose(2) == 1
    n = it.c.choose(4)
    ts = [it.c.sym("int", f"t{i}") for i in range(n)]
    done = []
    log = []
    s = new(it, Inst)
    d, addr = it.c.sym("bytes", "datagram"), it.c.sym("int", "addr")

    def pd(it, a, kw):
        it.c.check("the datagram is given to the struct", a[0] is d)

        def run(h):
            for i, t in enumerate(ts):
                done.append(i)
                h(t)
        return GenVal(run, "process_datagram")
    s.attrs["process_datagram"] = Prim(pd, "process_datagram")
    c = trx(it, struct_rx=s if has else None)

    def handle(it, a, kw):
        log.append(a)
        it.c.check("a sample is handled before the next one replaces it", len(done) == len(log))
    c.attrs["handle_update"] = Prim(handle, "handle_update")
    o = acall(it, method(c, "process_datagram"), d, addr)
    it.c.check("datagrams are accepted", And(o.ok, o.value is True))
    it.c.check("every sample is handled once, in order, with its time, struct and address", And(len(log) == (n if has else 0), *[And(a[0] is t, a[1] is s, a[2] is addr) for a, t in zip(log, ts)]))
    cover(it, "return")


P = "runtimepy.metrics.channel:ChannelMetrics."
S = "runtimepy.net.arbiter.struct:"
K = dict(branch_ms=500)
CONTRACTS = [
    Unit("increment", P + "increment", v_increment, cfg_rate, **K),
    Unit("poll", P + "poll", v_poll, cfg_rate, **K),
    Unit("update", P + "update", v_update, cfg_rate, **K),
    Unit("reset", P + "reset", v_reset, cfg_rate, **K),
    Unit("connections", "runtimepy.metrics.connection:ConnectionMetrics.poll", v_conn, cfg_rate, **K),
    Unit("manager", "runtimepy.net.manager:ConnectionManager.poll_metrics", v_manager, cfg_rate, **K),
    Unit("send", "runtimepy.net.tcp.connection:TcpConnection.send_binary", v_send, base_cfg, covers=("sent", "gone"), **K),
    Unit("receive", "runtimepy.net.tcp.connection:TcpConnection._await_message", v_receive, base_cfg, covers=("received",), **K),
    Unit("datagrams", "runtimepy.net.udp.connection:UdpConnection._process_read", v_datagrams, cfg_dgrams, covers=("ended", "raised"), **K),
    Unit("sample", S + "TimestampedStruct.update_single", v_single, cfg_struct, **K),
    Unit("samples", S + "TimestampedStruct.process_datagram", v_datagram, cfg_samples, covers=("return", "refused"), **K),
    Unit("struct poll", S + "TimestampedStruct.poll", v_struct_poll, cfg_struct, **K),
    Unit("struct channels", S + "TimestampedStruct.init_env", v_env, cfg_struct, **K),
    Unit("capture", S + "UdpStructTransceiver.capture", v_capture_tx, cfg_tx, **K),
    Unit("assign", S + "UdpStructTransceiver.assign_tx", v_assign, cfg_tx, covers=("accepted", "refused"), **K),
    Unit("assign from applications", S + "UdpStructTransceiver.assign_app_tx", v_assign_app, cfg_tx, **K),
    Unit("samples received", S + "UdpStructTransceiver.process_datagram", v_rx, cfg_tx, **K),
]
