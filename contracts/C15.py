"""C15: TFTP transfers."""
from contracts.common import *
import asyncio
import logging
import os
from vcorelib.asyncio.poll import repeat_until
from vcorelib.paths.info import FileInfo
from runtimepy.net import IPv4Host
from runtimepy.net.udp.tftp import TftpConnection, as_path, file_md5_hex, tempfile
from runtimepy.net.udp.tftp.base import BaseTftpConnection
from runtimepy.net.udp.tftp.endpoint import TftpEndpoint
from runtimepy.net.udp.tftp.enums import TftpErrorCode, TftpOpCode, encode_filename_mode, parse_filename_mode
from runtimepy.net.udp.tftp.io import tftp_chunks
from pyvc.values import BYTES

S = z3.StringSort()
E = z3.StringVal("")
# block n of the file, and the file up to block n
CH = z3.Function("tftp_block", z3.IntSort(), S)
OUT = z3.Function("tftp_file", z3.IntSort(), S)
MAX = z3.Int("max_block_size")  # of any size


def zi(it, v):
    return it.term(v, "int")


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def step(it, n):
    """Definition of a file's text up to block n; blocks hold at most MAX."""
    it.c.assume(z3.And(OUT(z3.IntVal(0)) == E, OUT(n) == z3.Concat(OUT(n - 1), CH(n)), z3.Length(CH(n)) <= MAX))


# -- chunks of a file
class Path:
    """A file with some content."""


def v_chunks(it):
    g = it.c.ghost
    g["F"] = it.c.sym("bytes", "content").t
    n = it.c.sym("int", "max_block_size")
    it.c.assume(n.t > 0)
    g.update(n=n.t, out=E, last=z3.IntVal(-1))
    p = new(it, Path)
    p.attrs["open"] = Prim(lambda it, a, kw: g.setdefault("fd", Stream(g["F"])), "open")
    it.cfg.method_override = True

    def on(d):
        t = it.term(d, "bytes")
        it.c.check("every block before the last is full", z3.Or(g["last"] == -1, g["last"] == n.t))
        it.c.check("no block is too long", z3.Length(t) <= n.t)
        g["out"], g["last"] = z3.Concat(g["out"], t), z3.Length(t)

    o = drain(it, call(it, tftp_chunks, p, n).value, on)
    it.c.check("a file can be read", o.ok)
    it.c.check("the blocks together are the file", g["out"] == g["F"])
    it.c.check("the last block, and only that, is short", z3.And(g["last"] >= 0, g["last"] < n.t))
    cover(it, "return")


def cfg_chunks(cfg):
    base_cfg(cfg)

    def inv(it, env):
        g = it.c.ghost
        fd, kg, pl = env.vars["path_fd"], zb(it.truth(env.vars["keep_going"])), zi(it, env.vars["prev_length"])
        return [
            ("the blocks so far are the text read so far", g["out"] == z3.SubString(g["F"], 0, fd.pos)),
            ("the place in the file is valid", z3.And(fd.pos >= 0, fd.pos <= z3.Length(g["F"]))),
            ("the length of the last block is known", z3.If(g["last"] == -1, pl == 0, z3.And(pl == g["last"], pl > 0, pl <= g["n"]))),
            ("a short block ends the file", z3.Implies(z3.Or(z3.Not(kg), z3.And(g["last"] >= 0, g["last"] < g["n"])), fd.pos == z3.Length(g["F"]))),
            ("no block only if nothing was read", z3.Implies(g["last"] == -1, fd.pos == 0)),
        ]

    def havoc(it, env):
        g = it.c.ghost
        fd = env.vars["path_fd"]
        fd.pos = it.c.fresh(z3.IntSort(), "pos")
        it.allow(fd)
        g["out"], g["last"] = it.c.fresh(S, "out"), it.c.fresh(z3.IntSort(), "last")
        it.c.assume(g["last"] >= -1)

    cfg.loop(tftp_chunks, 0, LoopSpec(inv, havoc, decreases=lambda it, env: z3.Length(it.c.ghost["F"]) - env.vars["path_fd"].pos + z3.If(zb(it.truth(env.vars["keep_going"])), z3.IntVal(1), z3.IntVal(0))))


# -- endpoints
class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag


class Value:
    pass


class Lock:
    async def __aenter__(self):
        assert not self.held
        self.held = True

    async def __aexit__(self, a, b, c):
        self.held = False
        return False


class Task:
    def __init__(self, coro):
        self.coro = coro
        self.callbacks = []
        self.finished = False

    def add_done_callback(self, cb):
        self.callbacks.append(cb)

    async def go(self):
        try:
            await self.coro
        finally:
            self.finished = True
            for cb in self.callbacks:
                cb(self)


HOST = IPv4Host("peer", 1000)


def stale(it, name, v):
    """Entries left by anything else: none, or one for some block."""
    if it.c.choose(2):
        k = it.c.sym("int", "stale_" + name)
        return MDict([[k, v]])
    return MDict([])


def endpoint(it, quiet=False):
    """An endpoint with senders that only record."""
    g = it.c.ghost
    it.c.assume(MAX >= 1)
    g.update(data=[], acks=[], errors=[])
    if not quiet:
        g["on_data"] = g["on_ack"] = lambda *a: None
    per, tmo = new(it, Value, value=Sym("real", it.c.fresh(z3.RealSort(), "period"))), new(it, Value, value=Sym("real", it.c.fresh(z3.RealSort(), "timeout")))

    def rec(key, hook):
        def f(it, a, kw):
            g[key].append(tuple(a))
            if g.get(hook):
                g[hook](*a)
        return Prim(f, key)

    ep = new(it, TftpEndpoint, addr=HOST, data_sender=rec("data", "on_data"), ack_sender=rec("acks", "on_ack"), error_sender=rec("errors", "on_error"),
             lock=new(it, Lock, held=False), max_block_size=Sym("int", MAX), period=per, timeout=tmo, _path=new(it, Path), servicing=set() if 0 else it.call(set, []))
    ep.attrs["awaiting_acks"] = MDict([])
    ep.attrs["awaiting_blocks"] = MDict([])
    ep.attrs["blocks"] = MDict([])
    ep.attrs["governed_log"] = Prim(lambda it, a, kw: None, "governed_log")
    ep.attrs["log_time"] = Prim(nullctx, "log_time")
    ep.attrs["logger"] = new(it, Log)
    ep.attrs["log_limiter"] = None
    it.cfg.method_override = True
    g["ep"] = ep
    return ep


class Log:
    def info(self, *a):
        pass

    def error(self, *a):
        pass

    def warning(self, *a):
        pass

    def debug(self, *a):
        pass


def nullctx(it, a, kw):
    p = Prim(lambda *x: None, "nullcontext")
    p.with_ = lambda it_, inner: inner(None)
    return p


def cfg_ep(cfg):
    base_cfg(cfg)
    cfg.model(asyncio.Event, lambda it, a, kw: it.call(Event, []), "asyncio.Event")
    cfg.model(asyncio.create_task, create_task, "asyncio.create_task")
    cfg.model(repeat_until, repeat, "vcorelib repeat_until: repeats a task until the event is set or time runs out, and tells which")
    cfg.model(FileInfo.__dict__["from_file"].__func__, lambda it, a, kw: None, "FileInfo.from_file")
    cfg.model(os.fsync, lambda it, a, kw: None, "os.fsync")


def create_task(it, a, kw):
    t = it.call(Task, [a[0]])
    it.c.ghost.setdefault("tasks", []).append(t)
    return t


def repeat(it, a, kw):
    task, event = a[0], a[1]

    def run():
        g = it.c.ghost
        g["waits"] = g.get("waits", 0) + 1
        for _ in range(it.c.choose(2)):
            it.call(task, [])
        if g.get("arrive"):
            g["arrive"]()
        r = it.truth(it.getattr(event, "flag"))
        it.call(it.getattr(event, "set"), [])
        return r if isinstance(r, bool) else Sym("bool", r)

    return CoroVal(run, "repeat_until")


def absent(it, d, k):
    """Key k is not in the dict."""
    return z3.Not(zb(it.contains(d, k)))


def v_handle(it, kind):
    """Only an awaited block is taken, once; anything else changes nothing."""
    ep = endpoint(it)
    g = it.c.ghost
    d = ep.attrs["awaiting_blocks" if kind == "data" else "awaiting_acks"]
    keys = [it.c.sym("int", f"awaited{i}") for i in range(2)]
    it.c.assume(keys[0].t != keys[1].t)
    evs = [it.call(Event, []) for _ in keys]
    d.pairs = [[k, e] for k, e in zip(keys, evs)]
    b, x = it.c.sym("int", "block"), it.c.sym("bytes", "data")
    hit = z3.Or(*[b.t == k.t for k in keys])
    o = call(it, method(ep, "handle_" + kind), *([b, x] if kind == "data" else [b]))
    it.c.check("handling never fails", o.ok)
    if it.c.branch(hit):
        it.c.check("a block that was awaited is no longer", absent(it, d, b))
        for k, e in zip(keys, evs):
            it.c.check("its event is set, and no other", zb(it.truth(e.attrs["flag"])) == (b.t == k.t))
            it.c.check("the others are still awaited", zb(it.contains(d, k)) == (b.t != k.t))
        if kind == "data":
            it.c.check("its data is kept", And(len(ep.attrs["blocks"].pairs) == 1, it.eq(ep.attrs["blocks"].pairs[0][0], b), it.eq(ep.attrs["blocks"].pairs[0][1], x)))
        cover(it, "awaited")
    else:
        it.c.check("a block that was not awaited changes nothing", And(len(ep.attrs["blocks"].pairs) == 0, *[zb(it.contains(d, k)) for k in keys], *[z3.Not(zb(it.truth(e.attrs["flag"]))) for e in evs]))
        cover(it, "refused")


# -- sending a file
def cfg_serve(cfg):
    cfg_ep(cfg)

    def chunks(it, a, kw):
        """tftp_chunks by its contract."""
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"tftp_chunks"}
        g = it.c.ghost
        it.c.check("the blocks of the file are sent", And(a[0] is g["path"], zi(it, a[1]) == MAX))
        return MList(seq=g["chunks"], ty=BYTES)

    cfg.model(tftp_chunks, chunks, "tftp_chunks")

    def inv(it, env, i, n):
        g = it.c.ghost
        return [
            ("blocks are numbered from one", zi(it, env.vars["idx"]) == i + 1),
            ("all blocks before were acknowledged", g["acked"] == i),
            ("no block has failed", zb(it.truth(env.vars["success"]))),
            ("nothing stays awaited", And(*[absent(it, g["ep"].attrs["awaiting_acks"], k) for k in (env.vars["idx"],)], len(g["ep"].attrs["awaiting_acks"].pairs) == 0)),
        ]

    def havoc(it, env):
        g = it.c.ghost
        g["acked"] = it.c.fresh(z3.IntSort(), "acked")
        it.allow(g["ep"].attrs["awaiting_acks"])

    cfg.loop(TftpEndpoint.serve_file, 0, LoopSpec(inv, havoc))


def v_serve(it):
    g = it.c.ghost
    ep = endpoint(it)
    g["path"] = new(it, Path)
    g["chunks"] = it.c.fresh(z3.SeqSort(S), "chunks")
    n = z3.Length(g["chunks"])
    it.c.assume(z3.And(n >= 1, n < 2**16))
    g["acked"] = z3.IntVal(0)

    def on_data(b, d, addr):
        t = zi(it, b)
        it.c.check("a block is sent once those before it were acknowledged", t == g["acked"] + 1)
        it.c.check("block n is the n-th block of the file", it.term(d, "bytes") == g["chunks"][t - 1])
        it.c.check("to the peer", addr is HOST)

    def arrive():
        for _ in range(it.c.choose(3)):
            b = it.c.fresh(z3.IntSort(), "ack")
            was = it.contains(ep.attrs["awaiting_acks"], Sym("int", b))
            o = call(it, method(ep, "handle_ack"), Sym("int", b))
            it.c.check("an acknowledgement is handled", o.ok)
            if was is True or (was is not False and it.c.branch(was)):
                it.c.check("acknowledgements are awaited in order", b == g["acked"] + 1)
                g["acked"] = b

    g["on_data"], g["arrive"] = on_data, arrive
    o = acall(it, method(ep, "serve_file"), g["path"])
    it.c.check("sending never fails by itself", o.ok)
    it.c.check("a file was sent if and only if all its blocks were acknowledged", zb(it.truth(o.value)) == (g["acked"] == n))
    it.c.check("nothing stays awaited", len(ep.attrs["awaiting_acks"].pairs) == 0)
    cover(it, "sent" if it.c.branch(zb(it.truth(o.value))) else "failed")


# -- receiving a file
def setup_receive(it):
    g = it.c.ghost
    ep = endpoint(it)
    it.c.assume(OUT(z3.IntVal(0)) == E)
    g["got"] = z3.IntVal(0)  # blocks received

    def arrive():
        for _ in range(it.c.choose(3)):
            b = it.c.fresh(z3.IntSort(), "block")
            it.c.assume(z3.And(b >= 0, b < 2**16))
            step(it, b)
            was = it.contains(ep.attrs["awaiting_blocks"], Sym("int", b))
            o = call(it, method(ep, "handle_data"), Sym("int", b), Sym("bytes", CH(b)))
            it.c.check("data is handled", o.ok)
            if was is True or (was is not False and it.c.branch(was)):
                it.c.check("blocks are awaited in order", b == g["got"] + 1)
                g["got"] = b

    def on_ack(b, addr):
        it.c.check("the last block received is acknowledged", zi(it, b) == g["got"])
        it.c.check("to the peer", addr is ep.attrs["addr"])

    g["arrive"], g["on_ack"] = arrive, on_ack
    return ep


def cfg_ingest(cfg):
    cfg_ep(cfg)

    def inv(it, env):
        g = it.c.ghost
        ep, st = env.vars["self"], env.vars["stream"]
        kg, idx, cs = zb(it.truth(env.vars["keep_going"])), zi(it, env.vars["idx"]), zi(it, env.vars["curr_size"])
        return [
            ("what was written is the file up to the last block received", st.data == OUT(g["got"])),
            ("the size of the last block is known", z3.If(g["got"] == 0, cs == MAX, cs == z3.Length(CH(g["got"])))),
            ("the next block is expected", z3.And(idx >= 1, z3.Implies(kg, z3.And(idx == g["got"] + 1, cs >= MAX)), z3.Implies(z3.Not(kg), z3.If(cs < MAX, idx == g["got"], idx == g["got"] + 1)))),
            ("nothing stays behind", And(len(ep.attrs["blocks"].pairs) == 0, len(ep.attrs["awaiting_blocks"].pairs) == 0)),
            ("the stream is at its end", st.pos == z3.Length(st.data)),
        ]

    def havoc(it, env):
        g = it.c.ghost
        ep, st = env.vars["self"], env.vars["stream"]
        g["got"] = it.c.fresh(z3.IntSort(), "got")
        it.c.assume(g["got"] >= 0)
        step(it, g["got"])
        step(it, g["got"] + 1)
        st.data = it.c.fresh(S, "written")
        st.pos = z3.Length(st.data)
        for o in (ep.attrs["blocks"], ep.attrs["awaiting_blocks"], st):
            it.allow(o)

    cfg.loop(TftpEndpoint.ingest_file, 0, LoopSpec(inv, havoc))


def v_ingest(it):
    ep = setup_receive(it)
    g = it.c.ghost
    st = Stream(E)
    o = acall(it, method(ep, "ingest_file"), st)
    it.c.check("receiving never fails by itself", o.ok)
    ok = zb(it.truth(o.value))
    short = z3.And(g["got"] >= 1, z3.Length(CH(g["got"])) < MAX)
    it.c.check("a file was received if and only if its short block was", ok == short)
    it.c.check("what was written is the file up to the last block received", st.data == OUT(g["got"]))
    it.c.check("nothing stays behind", And(len(ep.attrs["blocks"].pairs) == 0, len(ep.attrs["awaiting_blocks"].pairs) == 0))
    cover(it, "received" if it.c.branch(ok) else "failed")


# -- requests
def conn(it, ep):
    g = it.c.ghost
    c = new(it, TftpConnection, logger=new(it, Log), _conn_tasks=MList(items=[]), _awaiting_first_block=MDict([]), _awaiting_first_ack=MDict([]))
    c.attrs["endpoint"] = Prim(lambda it, a, kw: ep, "endpoint")
    c.attrs["log_time"] = Prim(nullctx, "log_time")
    g["rrq"], g["wrq"] = [], []
    c.attrs["send_rrq"] = Prim(lambda it, a, kw: g["rrq"].append((a, kw)), "send_rrq")
    c.attrs["send_wrq"] = Prim(lambda it, a, kw: g["wrq"].append((a, kw)), "send_wrq")
    ep.attrs["addr"] = host(it)
    return c


class Host:
    """An address."""


def host(it, name="peer"):
    return new(it, Host, hostname=name, name=name, port=1)


def cfg_read(cfg):
    cfg_ep(cfg)
    cfg.model(asyncio.sleep, lambda it, a, kw: CoroVal(lambda: None, "sleep"), "asyncio.sleep")

    def inv(it, env):
        g = it.c.ghost
        st = g["fd"]
        idx, eod, ok = zi(it, env.vars["idx"]), zb(it.truth(env.vars["end_of_data"])), zb(it.truth(env.vars["success"]))
        ep = g["ep"]
        return [
            ("what was written is the file up to the last block received", st.data == OUT(g["got"])),
            ("the next block is expected", idx == g["got"] + 1),
            ("the file ends with its short block", z3.And(g["got"] >= 1, eod == (z3.Length(CH(g["got"])) < MAX))),
            ("no block is kept", len(ep.attrs["blocks"].pairs) == 0),
            ("only a block that did not come is awaited", z3.Or(z3.Not(ok), zb(len(ep.attrs["awaiting_blocks"].pairs) == 0))),
            ("the stream is at its end", st.pos == z3.Length(st.data)),
        ]

    def havoc(it, env):
        g = it.c.ghost
        ep, st = g["ep"], g["fd"]
        g["got"] = it.c.fresh(z3.IntSort(), "got")
        it.c.assume(g["got"] >= 0)
        step(it, g["got"])
        step(it, g["got"] + 1)
        st.data = it.c.fresh(S, "written")
        st.pos = z3.Length(st.data)
        env.vars["success"] = it.c.choose(2) == 0
        if not env.vars["success"]:
            ep.attrs["awaiting_blocks"].pairs = [[Sym("int", g["got"] + 1), it.call(Event, [])]]
        for o in (ep.attrs["blocks"], ep.attrs["awaiting_blocks"], st):
            it.allow(o)

    cfg.loop(TftpConnection.request_read, 0, LoopSpec(inv, havoc))


def v_read(it):
    ep = setup_receive(it)
    g = it.c.ghost
    c = conn(it, ep)
    p = new(it, Path)
    g["fd"] = Stream(E)
    p.attrs["open"] = Prim(lambda it, a, kw: g.__setitem__("opened", a[0]) or g["fd"], "open")
    name = it.c.sym("str", "filename")
    on_ack = g["on_ack"]
    o = acall(it, method(c, "request_read"), p, name)
    it.c.check("reading never fails by itself", o.ok)
    it.c.check("only the request is repeated", And(*[And(a[0] is name) for a, kw in g["rrq"]], len(g["errors"]) >= 0))
    short = z3.And(g["got"] >= 1, z3.Length(CH(g["got"])) < MAX)
    ok = zb(it.truth(o.value))
    it.c.check("a file was read if and only if its short block came", ok == short)
    it.c.check("what was written is the file up to the last block received", g["fd"].data == OUT(g["got"]))
    it.c.check("the endpoint is free again", it.truth(ep.attrs["lock"].attrs["held"]) is False)
    if it.c.branch(ok):
        tasks = g.get("tasks", [])
        it.c.check("the last block is acknowledged for a while", len(tasks) == 1)
        g["arrive"] = None
        before = len(g["acks"])
        it.await_(tasks[0].attrs["coro"])
        cover(it, "read")
    else:
        cover(it, "failed")


def v_write(it):
    g = it.c.ghost
    ep = endpoint(it)
    c = conn(it, ep)
    src, name = new(it, Path), it.c.sym("str", "filename")
    tmp = new(it, Path)
    g["log"] = []

    def ctx(v):
        def f(it, a, kw):
            p = Prim(lambda *x: None, "context")
            p.with_ = lambda it_, inner: inner(v)
            return p
        return f

    it.cfg.model(as_path, ctx(src), "as_path")
    it.cfg.model(tempfile, ctx(tmp), "tempfile")
    m1, m2 = it.c.sym("str", "md5_source", inp=False), it.c.sym("str", "md5_back", inp=False)
    it.cfg.model(file_md5_hex, lambda it, a, kw: m1 if a[0] is src else m2, "file_md5_hex")
    sent, back = it.c.choose(2) == 0, it.c.choose(2) == 0

    def serve(it, a, kw):
        it.c.check("the file is sent after the first acknowledgement", And(a[0] is src, g["first"] is True, it.truth(ep.attrs["lock"].attrs["held"]) is True))
        g["log"].append("serve")
        return CoroVal(lambda: sent, "serve_file")

    def read(it, a, kw):
        it.c.check("the file is read back from where it was written", And(a[0] is tmp, a[1] is name, it.truth(ep.attrs["lock"].attrs["held"]) is False))
        g["log"].append("read")
        return CoroVal(lambda: back, "request_read")

    def arrive():
        g["first"] = False
        if it.c.choose(2):
            g["first"] = True
            call(it, method(ep, "handle_ack"), 0)

    g["arrive"] = arrive
    ep.attrs["serve_file"] = Prim(serve, "serve_file")
    c.attrs["request_read"] = Prim(read, "request_read")
    verify = it.c.choose(2) == 0
    o = acall(it, method(c, "request_write"), src, name, verify=verify)
    it.c.check("writing never fails by itself", o.ok)
    it.c.check("the request names the file", And(*[And(a[0] is name) for a, kw in g["wrq"]], True))
    it.c.check("nothing is sent without the first acknowledgement", g["first"] or g["log"] == [])
    want = g["first"] and sent and (not verify or back)
    ok = zb(it.truth(o.value))
    if want and verify:
        it.c.check("verified: the sums are the same", ok == (m1.t == m2.t))
    else:
        it.c.check("written if and only if acknowledged, sent and read back", ok == z3.BoolVal(bool(want)))
    it.c.check("the endpoint is free again", And(it.truth(ep.attrs["lock"].attrs["held"]) is False, len(ep.attrs["awaiting_acks"].pairs) == 0))
    cover(it, "return")


def v_service(it, kind):
    """A request is serviced once, however often it is repeated."""
    g = it.c.ghost
    ep = endpoint(it)
    path = g["path"] = new(it, Path)
    ep.attrs["get_path"] = Prim(lambda it, a, kw: path, "get_path")
    g["opened"] = 0
    denied, isfile = [None, PermissionError, FileNotFoundError, IsADirectoryError][it.c.choose(4)], it.c.choose(2) == 0
    inside = it.c.choose(2) == 0
    path.attrs["is_relative_to"] = Prim(lambda it, a, kw: inside, "is_relative_to")
    it.cfg.model(os.path.abspath, lambda it, a, kw: a[0], "os.path.abspath")

    def op(it, a, kw):
        g["opened"] += 1
        it.c.check("a file is opened as the request needs", a[0] == ("wb" if kind == "write" else "rb"))
        it.c.check("only a file inside of the root is opened", inside)
        if denied:
            it.throw(denied, "denied")
        return Stream(E)

    path.attrs["open"] = Prim(op, "open")
    def is_file(it, a, kw):
        if not isfile and it.c.choose(2):
            it.throw(OSError, "name too long")
        return isfile

    path.attrs["is_file"] = Prim(is_file, "is_file")
    g["served"] = 0

    def served(it, a, kw):
        def run():
            it.c.check("a transfer has the endpoint for itself", it.truth(ep.attrs["lock"].attrs["held"]) is True)
            g["served"] += 1
            return it.c.sym("bool", "success", inp=False)
        return CoroVal(run, "transfer")

    ep.attrs["ingest_file"] = ep.attrs["serve_file"] = Prim(served, "transfer")
    ok = inside and not denied and (kind == "write" or isfile)
    h = method(ep, f"handle_{kind}_request")
    o = call(it, h, "name", "octet")
    it.c.check("a request is started if it is permitted", And(o.ok, (o.value is not None) == ok))
    if not ok:
        it.c.check("or an error is sent", And(len(g["errors"]) == 1, g["errors"][0][0] is (TftpErrorCode.FILE_NOT_FOUND if inside and kind == "read" and not isfile else TftpErrorCode.ACCESS_VIOLATION), g["errors"][0][2] is HOST))
        cover(it, "refused")
        return
    n = g["opened"]
    for _ in range(it.c.choose(3)):
        r = call(it, h, "name", "octet")
        it.c.check("repeating it while it is serviced does nothing", And(r.ok, r.value is None, g["opened"] == n))
    o2 = acall(it, it.getattr(o.value, "go"))
    it.c.check("it is serviced once", And(o2.ok, g["served"] == 1))
    it.c.check("and the endpoint is free again", it.truth(ep.attrs["lock"].attrs["held"]) is False)
    r = call(it, h, "name", "octet")
    it.c.check("afterwards it can be requested again", And(r.ok, r.value is not None))
    cover(it, "return")


# -- messages
def v_names(it):
    f, m = it.c.sym("str", "filename"), it.c.sym("str", "mode")
    ef, em = it.term(it.call(it.getattr(f, "encode"), []), "bytes"), it.term(it.call(it.getattr(m, "encode"), []), "bytes")
    z = z3.StringVal("\0")
    it.c.assume(z3.And(z3.Not(z3.Contains(ef, z)), z3.Not(z3.Contains(em, z))))
    o = call(it, encode_filename_mode, f, m)
    it.c.check("names can be encoded", o.ok)
    it.c.check("as text ended by zeros", it.term(o.value, "bytes") == z3.Concat(ef, z, em, z))
    p = call(it, parse_filename_mode, Stream(z3.Concat(ef, z, em, z)))
    it.c.check("and read back", And(p.ok, it.eq(p.value[0], f), it.eq(p.value[1], m)))
    cover(it, "return")


KINDS = ["rrq", "wrq", "data", "ack", "error"]


def tconn(it):
    """A connection with its real message state."""
    from runtimepy.primitives import Uint16
    from vcorelib.math import metrics_time_ns
    g = it.c.ghost
    c = new(it, TftpConnection, logger=new(it, Log), _conn_tasks=MList(items=[]), error_handlers=MList(items=[]))
    for k in ("opcode", "block_number", "error_code"):
        c.attrs[k] = call(it, Uint16).value
    c.attrs["handlers"] = MDict([[getattr(TftpOpCode, k.upper()).value, method(c, "_handle_" + k)] for k in KINDS])
    g["sent"], g["got"] = [], []
    c.attrs["sendto"] = Prim(lambda it, a, kw: g["sent"].append((a[0], kw.get("addr"))), "sendto")
    c.attrs["governed_log"] = Prim(lambda it, a, kw: None, "governed_log")
    ep = new(it, Value, log_limiter=None, addr=host(it))
    for k in ("handle_read_request", "handle_write_request", "handle_data", "handle_ack", "handle_error"):
        ep.attrs[k] = Prim(lambda it, a, kw, k=k: g["got"].append((k, a)), k)
    c.attrs["endpoint"] = Prim(lambda it, a, kw: g.__setitem__("addr", a[0] if a else None) or ep, "endpoint")
    c.attrs["_awaiting_first_block"], c.attrs["_awaiting_first_ack"] = MDict([]), MDict([])
    it.cfg.method_override = True
    return c


def v_message(it, kind):
    """A message arrives as it was sent."""
    a, b = tconn(it), None
    g = it.c.ghost
    to = host(it)
    text, mode = it.c.sym("str", "text"), it.c.sym("str", "mode")
    z = z3.StringVal("\0")
    for v in (text, mode):
        it.c.assume(z3.Not(z3.Contains(it.term(it.call(it.getattr(v, "encode"), []), "bytes"), z)))
    blk, data = it.c.sym("int", "block"), it.c.sym("bytes", "data")
    it.c.assume(z3.And(blk.t >= 0, blk.t < 2**16))
    code = list(TftpErrorCode)[it.c.choose(len(list(TftpErrorCode)))] if kind == "error" else None
    args = {"rrq": [text, mode], "wrq": [text, mode], "data": [blk, data], "ack": [blk], "error": [code, text]}[kind]
    o = call(it, method(a, "send_" + kind), *args, addr=to)
    it.c.check("one message is sent, to the address given", And(o.ok, len(g["sent"]) == 1, g["sent"][0][1] is to))
    msg = g["sent"][0][0]
    op = getattr(TftpOpCode, kind.upper()).value
    it.c.check("it starts with its operation code", z3.PrefixOf(z3.StringVal(chr(0) + chr(op)), it.term(msg, "bytes")))
    b = tconn(it)
    src = ("peer", 1)
    o = acall(it, method(b, "process_datagram"), msg, src)
    it.c.check("it is understood", And(o.ok, o.value is True))
    it.c.check("and handled once, for its sender", And(len(g["got"]) == 1, len(g["sent"]) == 0, g["addr"] is src))
    k, got = g["got"][0]
    it.c.check("by the handler of its kind", k == {"rrq": "handle_read_request", "wrq": "handle_write_request"}.get(kind, "handle_" + kind))
    if kind == "error":
        it.c.check("with its code", got[0] is code)
        it.c.check("and its text", it.eq(got[1], text))
        cover(it, "return")
        return
    it.c.check("with what was sent", And(*[it.eq(x, y) for x, y in zip(got, args)]))
    cover(it, "return")


def cfg_any(cfg):
    """The contract of parse_filename_mode for any text: two texts, or it fails
    (a part is missing, or is not text)."""
    cfg_ep(cfg)

    def parse(it, a, kw):
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"parse_filename_mode"}
        i = it.c.choose(3)
        if i == 0:
            return (it.c.sym("str", "filename", inp=False), it.c.sym("str", "mode", inp=False))
        it.throw(IndexError if i == 1 else UnicodeDecodeError)

    cfg.model(parse_filename_mode, parse, "parse_filename_mode")


def v_any(it):
    """No datagram, whatever its bytes, ends the service."""
    c = tconn(it)
    g = it.c.ghost
    src = ("peer", 1)
    o = acall(it, method(c, "process_datagram"), it.c.sym("bytes", "datagram"), src)
    it.c.check("any datagram is survived", And(o.ok, o.value is True))
    it.c.check("it is handled or answered with an error", len(g["got"]) + len(g["sent"]) == 1)
    for d, to in g["sent"]:
        it.c.check("an error goes to the sender", And(to is src, z3.PrefixOf(z3.StringVal("\0\x05"), it.term(d, "bytes"))))
    cover(it, "handled" if g["got"] else "refused")


def v_first(it, kind):
    """The first answer may come from another port: the transfer moves there."""
    g = it.c.ghost
    c = tconn(it)
    ends = {}

    def mk(name):
        ep = new(it, TftpEndpoint, addr=new(it, Host, hostname="peer", port=name), logger=new(it, Log))
        for k in ("handle_data", "handle_ack"):
            ep.attrs[k] = Prim(lambda it, a, kw, k=k: g["got"].append((name, a)), k)
        return ep

    asked, other = mk("asked"), mk("other")
    c.attrs["endpoint"] = Prim(lambda it, a, kw: other, "endpoint")
    c.attrs["_endpoints"] = MDict([[asked.attrs["addr"], asked], [other.attrs["addr"], other]])
    waits = it.c.choose(2) == 0
    if waits:
        c.attrs["_awaiting_first_" + ("block" if kind == "data" else "ack")].pairs.append(["peer", asked])
    b = it.c.sym("int", "block")
    it.c.assume(z3.And(b.t >= 0, b.t < 2**16))
    msg = it.call(it.getattr(b, "to_bytes"), [2, "big"]) if 0 else None
    call(it, method(c, "send_" + kind), *([b, b""] if kind == "data" else [b]), addr=None)
    msg = g["sent"][0][0]
    o = acall(it, method(c, "process_datagram"), msg, ("peer", 2))
    first = b.t == (1 if kind == "data" else 0)
    it.c.check("it is handled once", And(o.ok, len(g["got"]) == 1))
    who, a = g["got"][0]
    it.c.check("the block number is passed on", it.eq(a[0], b))
    moved = waits and it.c.branch(first)
    it.c.check("by the endpoint that waits for it", who == ("asked" if moved else "other"))
    if moved:
        it.c.check("which answers to where it came from", asked.attrs["addr"] is other.attrs["addr"])
        it.c.check("and stands for that address from now on", And(it.dict_lookup(c.attrs["_endpoints"], asked.attrs["addr"])[1] is asked, len(c.attrs["_awaiting_first_" + ("block" if kind == "data" else "ack")].pairs) == 0))
        cover(it, "moved")
    else:
        cover(it, "kept")


K = dict(branch_ms=400)
P = "runtimepy.net.udp.tftp"
CONTRACTS = [
    Unit("blocks of a file", P + ".io:tftp_chunks", v_chunks, cfg_chunks, **K),
    Unit("incoming data", P + ".endpoint:TftpEndpoint.handle_data", lambda it: v_handle(it, "data"), cfg_ep, covers=("awaited", "refused"), **K),
    Unit("incoming ack", P + ".endpoint:TftpEndpoint.handle_ack", lambda it: v_handle(it, "ack"), cfg_ep, covers=("awaited", "refused"), **K),
    Unit("send a file", P + ".endpoint:TftpEndpoint.serve_file", v_serve, cfg_serve, covers=("sent", "failed"), **K),
    Unit("receive a file", P + ".endpoint:TftpEndpoint.ingest_file", v_ingest, cfg_ingest, covers=("received", "failed"), **K),
    Unit("request to read", P + ":TftpConnection.request_read", v_read, cfg_read, covers=("read", "failed"), **K),
    Unit("request to write", P + ":TftpConnection.request_write", v_write, cfg_ep, **K),
    Unit("service reading", P + ".endpoint:TftpEndpoint.handle_read_request", lambda it: v_service(it, "read"), cfg_ep, covers=("return", "refused"), **K),
    Unit("service writing", P + ".endpoint:TftpEndpoint.handle_write_request", lambda it: v_service(it, "write"), cfg_ep, covers=("return", "refused"), **K),
    Unit("names", P + ".enums:encode_filename_mode", v_names, cfg_ep, **K),
    *[Unit(f"message[{k}]", P + ".base:BaseTftpConnection.process_datagram", lambda it, k=k: v_message(it, k), cfg_ep, **K) for k in KINDS],
    Unit("any datagram", P + ".base:BaseTftpConnection.process_datagram", v_any, cfg_any, covers=("handled", "refused"), **K),
    Unit("first block", P + ".base:BaseTftpConnection._handle_data", lambda it: v_first(it, "data"), cfg_ep, covers=("moved", "kept"), **K),
    Unit("first ack", P + ".base:BaseTftpConnection._handle_ack", lambda it: v_first(it, "ack"), cfg_ep, covers=("moved", "kept"), **K),
]
