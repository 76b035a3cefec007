"""C21: JSON messages, requests and responses."""
from contracts.common import *
import asyncio
import logging
import json
from contracts.C15 import Log, zb
from contracts.C17 import Event
from runtimepy.message import interface as MI
from runtimepy.message import handlers as MH
from runtimepy.message.interface import JsonMessageInterface
from runtimepy.net.stream.json import JsonMessageConnection
from runtimepy.net.stream import json as NJ
from runtimepy.util import Identifier

I = z3.IntSort()


class Records:
    """The records a program logged since the last message."""

    def __bool__(self):
        return len(self.records) > 0

    def drain(self):
        got = self.records
        self.records = []
        return got


class Record:
    def getMessage(self):
        return self.text


class Processor:
    def encode_json(self, stream, data):
        self.sent.append(data)


class Buffer:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def getvalue(self):
        return self


class Resolver:
    def evaluate(self, key):
        return self.find(key)


class Target:
    def __bool__(self):
        return self.found


class Match:
    pass


class Codec:
    def create(self, data):
        return data


def iface(it, cls=JsonMessageInterface, **kw):
    it.cfg.method_override = True
    g = it.c.ghost
    g["wire"], g["out"] = MList(items=[]), []
    c = new(it, cls, logger=new(it, Log), remote_meta=None, remote_environments=MDict([]), _log_messages=MList(items=[]),
            list_handler=new(it, Records, records=MList(items=[])), meta=MDict([["package", "p"], ["kind", "k"]]),
            ids_waiting=MDict([]), id_responses=MDict([]), processor=new(it, Processor, sent=g["wire"]))
    ident = it.call(Identifier, [])
    ident.attrs["curr_id"] = n = it.c.sym("int", "next_id")
    ident.attrs["scale"] = 2
    c.attrs["curr_id"] = ident
    g["next"] = n.t

    def write(it, a, kw):
        g["out"].append((len(g["wire"].items), kw.get("addr", a[1] if len(a) > 1 else None)))
    c.attrs["write"] = Prim(write, "write")
    c.attrs.update(kw)
    return c


def cfg_buf(cfg):
    base_cfg(cfg)
    cfg.method_override = True
    cfg.model(MI.BytesIO, lambda it, a, kw: new(it, Buffer), "BytesIO")
    cfg.model(asyncio.Event, lambda it, a, kw: it.call(Event, []), "asyncio.Event")


def has(it, d, k):
    """Concrete knowledge of whether a key is present."""
    f, v = it.dict_lookup(d, k)
    return bool(f), v


def keys(d):
    return [k for k, _ in d.pairs]


# -- identifiers
def v_ident(it):
    a = it.call(Identifier, [])
    b = it.call(Identifier, [])
    x = it.c.sym("int", "issued")
    it.c.assume(x.t >= 0)
    # after any number of identifiers
    y = it.c.sym("int", "issued_by_the_peer")
    it.c.assume(y.t >= 0)
    st, sc = tm(it, a.attrs["curr_id"]), tm(it, a.attrs["scale"])
    stb = tm(it, b.attrs["curr_id"]) + 1  # the offset of RuntimepyPeer
    a.attrs["curr_id"] = Sym("int", st + sc * x.t)
    b.attrs["curr_id"] = Sym("int", stb + sc * y.t)
    o, p = call(it, a), call(it, b)
    it.c.check("the identifier is the next of its sequence", And(o.ok, tm(it, o.value) == st + sc * x.t))
    it.c.check("which moves on", tm(it, a.attrs["curr_id"]) == st + sc * (x.t + 1))
    it.c.check("an identifier is never issued again", sc > 0)
    it.c.check("the two sides of a subprocess never issue the same identifier", tm(it, o.value) != tm(it, p.value))
    cover(it, "return")


# -- sending
def v_send(it):
    g = it.c.ghost
    c = iface(it)
    nrec, nlog = it.c.choose(3), it.c.choose(2)
    nargs = it.c.choose(3) if nlog and nrec < 2 else 1
    sargs = [it.c.sym("int", f"arg{i}") if i == 0 else it.c.sym("str", f"arg{i}") for i in range(nargs)]
    recs = [new(it, Record, text=it.c.sym("str", f"text{i}"), msg=f"m{i}", args=(), levelno=it.c.sym("int", f"level{i}")) for i in range(nrec)]
    bad = it.c.choose(2) if nrec else 0
    if bad:
        recs[0].attrs["getMessage"] = Prim(lambda it, a, kw: it.throw(TypeError, "bad format"), "getMessage")
    c.attrs["list_handler"].attrs["records"] = MList(items=list(recs))
    if nlog:
        o = call(it, method(c, "stage_remote_log"), "hello", *sargs, level=30)
        it.c.check("a message can be staged", o.ok)
    v = it.c.sym("int", "value")
    msg = MDict([["a", v]])
    addr = it.c.sym("int", "addr")
    arg = msg
    if it.c.choose(2):
        arg = new(it, JC)
        arg.attrs["asdict"] = Prim(lambda it, a, kw: msg, "asdict")
    o = call(it, method(c, "send_json"), arg, addr=addr)
    it.c.check("sending succeeds, whatever was logged", o.ok)
    it.c.check("one message is written", And(len(g["wire"].items) == 1, len(g["out"]) == 1))
    sent = g["wire"].items[0]
    it.c.check("once it's encoded, to the address given", And(g["out"][0][0] == 1, g["out"][0][1] is addr))
    f, w = has(it, sent, "a")
    it.c.check("the message is what was given", And(f, f and same(it, w, v)))
    it.c.check("the caller's message doesn't change", And(keys(msg) == ["a"], len(keys(msg)) == 1 and same(it, it.dict_lookup(msg, "a")[1], v)))
    f, logs = has(it, sent, "__log_messages__")
    n = nlog + nrec
    it.c.check("log messages are sent if there are any", And(f == (n > 0), len(keys(sent)) == 1 + (n > 0)))
    if n:
        logs = it.to_items(logs)
        it.c.check("each one once", len(logs) == n)
        if nlog:
            f, w = has(it, logs[0], "args")
            it.c.check("a staged message is sent with its level and arguments, if any", And(has(it, logs[0], "msg")[1] == "hello", has(it, logs[0], "level")[1] == 30, f == (nargs > 0), not f or (len(it.to_items(w)) == nargs and And(*[same(it, x, y) for x, y in zip(it.to_items(w), sargs)]))))
        logs = logs[nlog:]
        for i, (m, r) in enumerate(zip(logs, recs)):
            f, w = has(it, m, "msg")
            want = "m0" if bad and i == 0 else r.attrs["text"]
            it.c.check("as the text it would have shown, in order", And(f, same(it, w, want), keys(m) == ["msg", "level"]))
            it.c.check("at its own level", same(it, has(it, m, "level")[1], r.attrs["levelno"]))
    o = call(it, method(c, "send_json"), msg)
    it.c.check("and no log message is ever sent again", And(o.ok, keys(g["wire"].items[-1]) == ["a"]))
    cover(it, "return")


from vcorelib.dict.codec import JsonCodec


class JC(JsonCodec):
    pass


# -- receiving
def log_of(it, c):
    g = it.c.ghost
    g["logged"] = []
    c.attrs["handle_log_message"] = Prim(lambda it, a, kw: g["logged"].append(a[0]), "handle_log_message")


def waiting(it, c, n):
    ids = [it.c.sym("int", f"waiting{i}") for i in range(n)]
    for i in range(n):
        for j in range(i):
            it.c.assume(ids[i].t != ids[j].t)
    evs = [it.call(Event, []) for _ in ids]
    for e in evs:
        e.attrs["flag"] = False
    c.attrs["ids_waiting"] = MDict([[k, e] for k, e in zip(ids, evs)])
    return ids, evs


def v_reserved(it):
    """Special keys of an incoming message."""
    c = iface(it)
    log_of(it, c)
    g = it.c.ghost
    ids, evs = waiting(it, c, it.c.choose(4))
    v = it.c.sym("int", "value")
    data = MDict([["a", v]])
    has_id, nlog = it.c.choose(2), it.c.choose(3)
    logs = [MDict([["msg", f"m{i}"]]) for i in range(nlog)]
    if has_id:
        k = it.c.sym("int", "id")
        it.dict_set(data, "__id__", k)
    if nlog:
        it.dict_set(data, "__log_messages__", MList(items=list(logs)))
    resp = MDict([["r", 1]])
    o = call(it, method(c, "_handle_reserved"), data, resp)
    it.c.check("special keys never fail", o.ok)
    it.c.check("every log message of the peer is shown once, in order", And(len(g["logged"]) == nlog, all(x is y for x, y in zip(g["logged"], logs))))
    left = it.c.ghost["left"] = c.attrs["ids_waiting"]
    resps = c.attrs["id_responses"]
    if not has_id:
        it.c.check("a message that isn't a reply may be answered", it.truth(o.value))
        it.c.check("and nobody's request is", And(len(left.pairs) == len(ids), len(resps.pairs) == 0, keys(resp) == ["r"]))
        cover(it, "plain")
        return
    hit = next((i for i, x in enumerate(ids) if it.c.branch(x.t == k.t)), None)
    it.c.check("exactly those that reply to no request of ours may be answered", zb(it.truth(o.value)) == z3.BoolVal(hit is None))
    it.c.check("with the identifier that was sent", same(it, has(it, resp, "__id__")[1], k))
    for i, e in enumerate(evs):
        it.c.check("a reply wakes its request and no other", zb(it.truth(e.attrs["flag"])) == z3.BoolVal(i == hit))
    if hit is None:
        it.c.check("what isn't a reply completes nobody's request", And(len(left.pairs) == len(ids), len(resps.pairs) == 0))
        cover(it, "request")
        return
    rest = [x for i, x in enumerate(ids) if i != hit]
    it.c.check("the other requests keep waiting", And(len(left.pairs) == len(rest), all(x is y for (x, _), y in zip(left.pairs, rest))))
    it.c.check("the reply is kept for its request alone", And(len(resps.pairs) == 1, same(it, resps.pairs[0][0], k)))
    kept = resps.pairs[0][1]
    it.c.check("as it was sent, without special keys", And(keys(kept) == ["a"], same(it, it.dict_lookup(kept, "a")[1], v)))
    cover(it, "reply")


def v_wait(it):
    """A request, while other things go on."""
    g = it.c.ghost
    c = iface(it)
    log_of(it, c)
    ids, evs = waiting(it, c, it.c.choose(3))
    for x in ids:
        it.c.assume(x.t < g["next"])  # issued before
    ident = Sym("int", g["next"])
    how, other = it.c.choose(3), it.c.choose(2) if ids else 0
    kind = it.c.choose(3)
    v, rv = it.c.sym("int", "value"), it.c.sym("int", "reply")
    msg = MDict([["a", v]])
    arg = [None, msg, None][kind]
    if kind == 2:
        arg = new(it, JC)
        arg.attrs["asdict"] = Prim(lambda it, a, kw: msg, "asdict")
    addr = it.c.sym("int", "addr")
    limit = it.c.sym("real", "timeout")

    def wait(it, a, kw):
        """Until the event is set: by the reply, if it comes in time."""
        def body():
            it.c.check("the request was sent before its reply is awaited", len(g["wire"].items) == 1)
            it.c.check("within the timeout given", same(it, a[1], limit))
            if other:
                call(it, method(c, "_handle_reserved"), MDict([["__id__", ids[0]], ["o", 1]]), MDict([]))
            if how == 0:
                call(it, method(c, "_handle_reserved"), MDict([["r", rv], ["__id__", ident]]), MDict([]))
            if how == 2:
                it.throw(asyncio.CancelledError)
            return it.truth(a[0].attrs["flag"])
        return CoroVal(body, "event_wait")
    it.cfg.model(MH.event_wait, wait, "event_wait")
    o = acall(it, method(c, "wait_json"), arg, addr=addr, timeout=limit)
    sent = g["wire"].items
    it.c.check("exactly one message is sent", And(len(sent) == 1, len(g["out"]) == 1 and g["out"][0][1] is addr))
    m = sent[0]
    it.c.check("it's the message given with a new identifier", And(keys(m) == ((["a"] if kind else []) + ["__id__"]), same(it, has(it, m, "__id__")[1], ident), kind == 0 or same(it, has(it, m, "a")[1], v)))
    it.c.check("the caller's message doesn't change", keys(msg) == ["a"])
    left, resps = c.attrs["ids_waiting"], c.attrs["id_responses"]
    rest = ids[1:] if other else ids
    it.c.check("other requests go on undisturbed", And(*[any(x is y for y, _ in left.pairs) for x in rest] or [True]))
    it.c.check("replies to others stay theirs", len([1 for k, _ in resps.pairs if any(k is x for x in ids)]) == (1 if other else 0))
    if how == 0:
        it.c.check("the request returns its reply, without the identifier", And(o.ok, o.ok and keys(o.value) == ["r"], o.ok and same(it, has(it, o.value, "r")[1], rv)))
        it.c.check("nothing of it is left", And(len(left.pairs) == len(rest), len(resps.pairs) == (1 if other else 0)))
        cover(it, "reply")
    else:
        it.c.check("without a reply, the request fails", And(not o.ok, not o.ok and o.exc.cls is (AssertionError if how == 1 else asyncio.CancelledError)))
        # the reply comes later
        resp = MDict([["r", 1]])
        late = call(it, method(c, "_handle_reserved"), MDict([["r", rv], ["__id__", ident]]), resp)
        it.c.check("a late reply isn't answered", And(late.ok, z3.Not(zb(it.truth(late.value)))))
        cover(it, "timeout" if how == 1 else "cancelled")


def v_process(it):
    """Handlers, and at most one response."""
    g = it.c.ghost
    c = iface(it)
    log_of(it, c)
    ids, evs = waiting(it, c, it.c.choose(2))
    g["sent"] = []
    c.attrs["send_json"] = Prim(lambda it, a, kw: g["sent"].append((a[0], kw.get("addr"))), "send_json")
    shapes = {"quiet": ("h", None, False), "loud": ("h", None, True), "typed": ("t", Codec, True), "unknown": None, "also": None, "keys_ignored": None}
    g["calls"] = []

    def handler(name, speaks):
        def fn(it, a, kw):
            def body():
                g["calls"].append((name, a[1]))
                it.c.check("a handler's response starts empty", len(a[0].pairs) == 0)
                if speaks:
                    it.dict_set(a[0], "out", name)
            return CoroVal(body, name)
        return Prim(fn, name)
    tgts = {}
    for name, (_, kind, speaks) in {k: x for k, x in shapes.items() if x}.items():
        m = new(it, Match, substitutions=None if name != "loud" else MDict([["sub", 5]]))
        cod = None
        if kind:
            cod = new(it, Codec)
        tgts[name] = new(it, Target, found=True, result=m, data=(name, handler(name, speaks), cod))
    none = new(it, Target, found=False, data=None)

    def find(it, a, kw):
        return tgts.get(a[0], none)
    c.attrs["targets"] = new(it, Resolver, find=Prim(find, "evaluate"))
    n = it.c.choose(4)
    names = list(shapes)
    picked = []
    for _ in range(n):
        left = [x for x in names if x not in picked]
        picked.append(left[it.c.choose(len(left))])
    data = MDict([[k, MDict([["v", i]])] for i, k in enumerate(picked)])
    has_id = it.c.choose(2)
    if has_id:
        k = it.c.sym("int", "id")
        it.dict_set(data, "__id__", k)
    addr = it.c.sym("int", "addr")
    o = acall(it, method(c, "process_json"), data, addr=addr)
    it.c.check("processing succeeds", And(o.ok, o.ok and it.truth(o.value)))
    handled = [x for x in picked if shapes[x]]
    it.c.check("every key's handler runs exactly once", [x for x, _ in g["calls"]] == handled)
    for name, arg in g["calls"]:
        want = (["sub"] if name == "loud" else []) + ["v"]
        it.c.check("with that key's data", And(keys(arg) == want, it.eq(has(it, arg, "v")[1], picked.index(name))))
    reply = bool(has_id and ids and it.c.branch(ids[0].t == k.t))
    ignored = sorted(x for x in picked if x in ("unknown", "also"))
    want = {x: {"out": x} for x in handled if shapes[x][2]}
    nonempty = bool(want or ignored or has_id)
    it.c.check("a response is sent if there's something to say, except to a reply", len(g["sent"]) == (1 if nonempty and not reply else 0))
    if g["sent"]:
        r, ad = g["sent"][0]
        it.c.check("to where the message came from", ad is addr)
        it.c.check("with what handlers said, the keys nobody handles and the request's identifier", set(keys(r)) == set(want) | ({"keys_ignored"} if ignored else set()) | ({"__id__"} if has_id else set()))
        for x in want:
            w = has(it, r, x)[1]
            it.c.check("each key's response is its own handler's", And(keys(w) == ["out"], it.eq(has(it, w, "out")[1], x)))
        if ignored:
            it.c.check("keys without a handler are named, sorted", it.eq(has(it, r, "keys_ignored")[1], MList(items=ignored)))
        if has_id:
            it.c.check("the response carries the request's identifier", same(it, has(it, r, "__id__")[1], k))
    cover(it, "return")


def cfg_process(cfg):
    cfg_buf(cfg)

    def gather(it, a, kw):
        ts = list(a)

        def body():
            return [it.await_(t) for t in ts]
        return CoroVal(body, "gather")
    cfg.model(asyncio.gather, gather, "asyncio.gather")


def v_round(it):
    """A message carries no reserved key into a reply to a reply."""
    c = iface(it)
    g = it.c.ghost
    inbox, outbox = MDict([["a", 1], ["b", it.c.sym("int", "b")]]), MDict([])
    o = acall(it, MH.loopback_handler, outbox, inbox)
    it.c.check("a loopback returns what it got", And(o.ok, keys(outbox) == keys(inbox), *[same(it, has(it, outbox, k)[1], v) for k, v in inbox.pairs]))
    meta = MDict([["package", "q"], ["version", "1"], ["kind", "z"], ["handlers", MList(items=[])]])
    other = MDict([["package", "r"], ["version", "1"], ["kind", "z"], ["handlers", MList(items=[])]])
    out1, out2 = MDict([]), MDict([])
    o = acall(it, method(c, "_meta_handler"), out1, meta)
    it.c.check("metadata is answered with ours", And(o.ok, keys(out1) == keys(c.attrs["meta"]), c.attrs["remote_meta"] is meta))
    o = acall(it, method(c, "_meta_handler"), out2, other)
    it.c.check("once", And(o.ok, len(out2.pairs) == 0, c.attrs["remote_meta"] is meta))
    cover(it, "return")


def v_poll(it):
    g = it.c.ghost
    c = iface(it)
    g["polled"] = 0

    def poll(it, a, kw):
        def body():
            g["polled"] += 1
        return CoroVal(body, "poll")
    c.attrs["poll_handler"] = Prim(poll, "poll_handler")
    n = it.c.sym("int", "loopback")
    inbox, out = MDict([["loopback", n]] if it.c.choose(2) else []), MDict([])
    o = acall(it, method(c, "_poll_handler"), out, inbox)
    it.c.check("a poll message polls once", And(o.ok, g["polled"] == 1))
    f, w = has(it, out, "loopback")
    if inbox.pairs and it.c.branch(n.t > 0):
        it.c.check("then asks for one less", And(f, f and tm(it, w) == n.t - 1))
    else:
        it.c.check("polling each other comes to an end", len(out.pairs) == 0)
    c2 = iface(it)
    o = call(it, method(c2, "send_poll"), loopback=n)
    it.c.check("a poll message asks for the polls given", And(o.ok, keys(g["wire"].items[0]) == ["poll"], same(it, has(it, has(it, g["wire"].items[0], "poll")[1], "loopback")[1], n)))
    cover(it, "return")


class Cmd:
    def command(self, text):
        self.log.append(text)
        return self.result


class Result:
    pass


def v_env(it):
    """Channel commands reach the environment they name."""
    mk = lambda n: new(it, Cmd, log=MList(items=[]), result=new(it, Result, success=it.c.sym("bool", n), reason=n))
    default, a, b = mk("default"), mk("a"), mk("b")
    envs = MDict([["a", a], ["b", b]])
    h = call(it, MH.channel_env_handler, envs, default).value
    name = it.c.sym("str", "environment")
    req = it.c.choose(2)
    cmd = it.c.sym("str", "command")
    r = new(it, Result, data=MDict([["is_request", bool(req)], ["environment", name], ["command", cmd]]))
    out = MDict([])
    o = acall(it, h, out, r)
    it.c.check("channel commands are always answered", o.ok)
    n = {k: len(x.attrs["log"].items) for k, x in (("default", default), ("a", a), ("b", b))}
    if not req:
        it.c.check("a response runs no command and isn't answered", And(len(out.pairs) == 0, sum(n.values()) == 0))
        cover(it, "response")
        return
    pick = next((k for k in ("default", "a", "b") if it.c.branch(name.t == z3.StringVal(k))), None)
    it.c.check("exactly the environment named runs the command, once", all(n[k] == (k == pick) for k in n))
    it.c.check("the answer is no request", it.eq(has(it, out, "is_request")[1], False))
    if pick:
        x = {"default": default, "a": a, "b": b}[pick]
        it.c.check("the command is the one given", same(it, x.attrs["log"].items[0], cmd))
        it.c.check("its result is the answer", And(same(it, has(it, out, "success")[1], x.attrs["result"].attrs["success"]), same(it, has(it, out, "reason")[1], pick)))
        cover(it, "known")
    else:
        it.c.check("an unknown environment is a failure", it.eq(has(it, out, "success")[1], False))
        cover(it, "unknown")


def v_ask(it):
    """The asking side of commands and loopbacks."""
    g = it.c.ghost
    c = iface(it)
    g["asked"] = []
    s, why = it.c.sym("bool", "success"), it.c.choose(2)
    same_ = it.c.choose(2)

    def wait(it, a, kw):
        def body():
            g["asked"].append((a[0], kw.get("addr")))
            if has(it, a[0], "loopback")[0]:
                return MDict([["loopback", MDict([["a", 1 if same_ else 2]])]])
            return MDict([["channel_command", MDict([["success", s]] + ([["reason", "why"]] if why else []))]])
        return CoroVal(body, "wait_json")
    c.attrs["wait_json"] = Prim(wait, "wait_json")
    addr, cmd = it.c.sym("int", "addr"), it.c.sym("str", "command")
    env = it.c.sym("str", "env")
    o = acall(it, method(c, "channel_command"), cmd, env, addr=addr)
    m, ad = g["asked"][0]
    body = has(it, m, "channel_command")[1]
    it.c.check("the command is sent to the environment and address named", And(ad is addr, same(it, has(it, body, "command")[1], cmd), same(it, has(it, body, "environment")[1], env), it.eq(has(it, body, "is_request")[1], True)))
    it.c.check("its result is the peer's", And(o.ok, same(it, it.getattr(o.value, "success"), s), it.eq(it.getattr(o.value, "reason"), "why") if why else it.getattr(o.value, "reason") is None))
    o = acall(it, method(c, "loopback"), MDict([["a", 1]]), addr=addr)
    it.c.check("a loopback succeeds exactly if what was sent comes back", And(o.ok, zb(it.truth(o.value)) == z3.BoolVal(bool(same_)), g["asked"][1][1] is addr))
    cover(it, "return")


def v_text(it):
    """Anything may arrive."""
    g = it.c.ghost
    c = iface(it, JsonMessageConnection)
    c.attrs["logger"].attrs["exception"] = Prim(lambda it, a, kw: None, "exception")
    g["got"] = []
    verdict = it.c.sym("bool", "verdict")

    def proc(it, a, kw):
        def body():
            g["got"].append((a[0], kw.get("addr")))
            return verdict
        return CoroVal(body, "process_json")
    c.attrs["process_json"] = Prim(proc, "process_json")
    kind = it.c.choose(5)
    full = MDict([["a", 1]])
    val = [None, full, MDict([]), MList(items=[1]), 5][kind]

    def loads(it, a, kw):
        if kind == 0:
            it.throw(json.JSONDecodeError, "bad")
        return val
    it.cfg.model(json.loads, loads, "json.loads")
    addr, text = it.c.sym("int", "addr"), it.c.sym("str", "text")
    o = acall(it, method(c, "process_message"), text, addr=addr)
    it.c.check("no text fails", o.ok)
    if kind == 1:
        it.c.check("objects are processed, with the address they came from", And(len(g["got"]) == 1, g["got"][0][0] is full, g["got"][0][1] is addr, same(it, o.value, verdict)))
    else:
        it.c.check("anything else is ignored, and the connection goes on", And(len(g["got"]) == 0, it.truth(o.value)))
    cover(it, "return")


CONTRACTS = [
    Unit("identifiers", Identifier.__call__, v_ident, base_cfg, covers=["return"]),
    Unit("sending", JsonMessageInterface.send_json, v_send, cfg_buf, covers=["return"]),
    Unit("special keys", JsonMessageInterface._handle_reserved, v_reserved, cfg_buf, covers=["plain", "request", "reply"]),
    Unit("requests", JsonMessageInterface.wait_json, v_wait, cfg_buf, covers=["reply", "timeout", "cancelled"]),
    Unit("processing", JsonMessageInterface.process_json, v_process, cfg_process, covers=["return"], max_paths=6000),
    Unit("loopback and metadata", JsonMessageInterface._meta_handler, v_round, cfg_buf, covers=["return"]),
    Unit("polls", JsonMessageInterface._poll_handler, v_poll, cfg_buf, covers=["return"]),
    Unit("channel commands", MH.channel_env_handler, v_env, cfg_buf, covers=["response", "known", "unknown"]),
    Unit("asking", JsonMessageInterface.channel_command, v_ask, cfg_buf, covers=["return"]),
    Unit("texts", JsonMessageConnection.process_message, v_text, cfg_buf, covers=["return"]),
]
