from harness.lib import *
import struct
from io import BytesIO
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.registry import ParsedEvent
from runtimepy.primitives.field.fields import BitFields

h = H()
CODE = dict(int8="b", int16="h", int32="i", int64="q", uint8="B", uint16="H", uint32="I", uint64="Q", float="f", double="d", bool="?")


def build(spec):
    env = ChannelEnvironment()
    for x in spec:
        if x[0] == "fields":
            b = BitFields.new(x[1])
            for name, w in x[2]:
                b.flag(name) if w == 1 else b.field(name, w)
            env.fields.add(b)
        elif x[1] == "bool":
            env.bool_channel(x[0])
        elif x[1] in ("float", "double"):
            env.float_channel(x[0], x[1], scaling=x[2])
        else:
            env.int_channel(x[0], x[1], scaling=x[2])
    return env


def rspec(h):
    out, n, f = [], 0, 0
    for _ in range(h.rng.randint(1, 5)):
        if h.rng.random() < 0.3:
            names = []
            for w in h.rng.choice([[1, 3], [1], [2, 2, 1], [1, 1]]):
                names.append((f"f{f}", w))
                f += 1
            out.append(("fields", h.rng.choice(["uint8", "uint16"]), names))
        else:
            k = h.rng.choice(list(CODE))
            sc = h.rng.choice([None, None, [1, 2], [0.5, 0.25], [0, -4]]) if k != "bool" else None
            out.append((f"c{n}", k, sc))
            n += 1
    return out


def prims(env, spec):
    """name -> (primitive, kind), in the order they are registered"""
    fields, chans = {}, {}
    for x in spec:
        if x[0] == "fields":
            for name, _ in x[2]:
                fields[name] = (env.fields[name].raw, x[1])
        else:
            chans[x[0]] = (env[x[0]][0].raw, x[1])
    return fields | chans


def rval(h, k):
    if k == "bool":
        return h.rng.random() < 0.5
    if k == "float":
        return struct.unpack("f", struct.pack("f", h.rng.choice([0, 1.5, -2.25, h.rng.uniform(-1e6, 1e6)])))[0]
    if k == "double":
        return h.rng.choice([0.0, 0.1, -1e300, float("inf"), h.rng.uniform(-1, 1)])
    w = int(k.lstrip("uint"))
    lo, hi = (0, (1 << w) - 1) if k[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return h.rng.choice([lo, hi, 0, 1, h.rng.randint(lo, hi)] + [x for x in h.ints() if lo <= x <= hi])


def ident(env, name):
    return env.channels.names.identifier(name)


def ev_bytes(i, ts, k, v):
    return struct.pack(">HQ" + CODE[k], i, ts, v)


def expect_parse(env, ps, data):
    """Independent parse of a whole stream."""
    out, i = [], 0
    by_id = {ident(env, n): n for n in ps}
    while i + 10 <= len(data):
        d, ts = struct.unpack(">HQ", data[i:i + 10])
        n = by_id[d]
        fmt = ">" + CODE[ps[n][1]]
        z = struct.calcsize(fmt)
        if i + 10 + z > len(data):
            break
        out.append((n, ts, struct.unpack(fmt, data[i + 10:i + 10 + z])[0]))
        i += 10 + z
    return out, i


def write(h, env, spec, ps, n, pattern=".*", s=None):
    """Random changes while registered; returns what must have been written."""
    s = s or BytesIO()
    want = []
    exact = h.rng.random() < 0.3
    if exact:
        pattern = h.rng.choice([pattern, h.rng.choice(list(ps))])
    names = [x for x in ps if (x == pattern if exact else __import__("re").search(pattern, x))]
    t = h.rng.randrange(1, 1 << 60)
    for r, _ in ps.values():
        r.set_value(r.value, timestamp_ns=t)
    with env.registered(s, pattern=pattern, exact=exact) as got:
        h.check(list(got) == names, "the registered names are those that match, fields first", got=got, want=names)
        for x in names:
            r, k = ps[x]
            want.append((x, r.last_updated_ns, k, r.value))
        for _ in range(n):
            x = h.rng.choice(list(ps))
            r, k = ps[x]
            old = r.value
            v = rval(h, k)
            t += h.rng.randrange(0, 1000)
            r.set_value(v, timestamp_ns=t)
            if v != old:
                for y in names:
                    if ps[y][0] is r:
                        want.append((y, t, k, v))
    return s, want


@h.case
def stream(h):
    """What is written while registered."""
    for _ in range(h.n(120)):
        spec = rspec(h)
        env = build(spec)
        ps = prims(env, spec)
        pat = h.rng.choice([".*", ".*", "c", "f", "0$", "^c1$", "zzz"])
        s, want = write(h, env, spec, ps, h.rng.randint(0, 12), pat)
        exp = b"".join(ev_bytes(ident(env, x), t, k, v) for x, t, k, v in want)
        h.ev((len(want), pat, str(spec)[:60]))
        h.check(s.getvalue() == exp, "the stream is the current values, then one event per change", spec=spec, pattern=pat, got=s.getvalue().hex(), want=exp.hex())
        n = len(s.getvalue())
        for r, k in ps.values():
            r.set_value(rval(h, k))
            h.check(not r.callbacks, "nothing stays registered", spec=spec)
        h.check(len(s.getvalue()) == n, "nothing is written afterwards", spec=spec)


@h.case
def split(h):
    """Any split of a stream parses to the same events; a mirror follows."""
    for _ in range(h.n(150)):
        spec = rspec(h)
        env, mirror = build(spec), build(spec)
        ps, ms = prims(env, spec), prims(mirror, spec)
        s, want = write(h, env, spec, ps, h.rng.randint(0, 10))
        data = s.getvalue()
        cut = h.rng.randrange(len(data) + 1) if h.rng.random() < 0.3 else len(data)
        data = data[:cut]
        exp, used = expect_parse(env, ps, data)
        got = []
        seen = b""
        for c in chunks(h.rng, data):
            seen += c
            if h.rng.random() < 0.2:
                # a consumer that stops early and resumes later
                for e in mirror.parse_event_stream(BytesIO(c)):
                    got.append(e)
                    mirror.ingest(e)
                    break
                c = b""
            for e in mirror.parse_event_stream(BytesIO(c)):
                got.append(e)
                mirror.ingest(e)
            if not h.check([tuple(e) for e in got] == expect_parse(env, ps, seen)[0], "every complete event is given as soon as it arrived", spec=spec, got=got, seen=seen.hex()):
                break
        h.ev((len(exp), used == len(data), str(spec)[:60]))
        h.check([tuple(e) for e in got] == exp, "parsing any split gives the events of the stream", spec=spec, got=got, want=exp)
        last = {}
        for n, _, v in exp:
            last[ps[n][0]] = (n, v)
        for r, (n, v) in last.items():
            h.check(ms[n][0].value == v, "a mirror has the value of the last event", name=n, got=ms[n][0].value, want=v, spec=spec)
            if len(data) == len(s.getvalue()):
                h.check(ms[n][0].value == r.value, "a mirror ends with the same values", name=n, spec=spec)


@h.case
def ingest(h):
    for _ in range(h.n(200)):
        spec = rspec(h)
        env = build(spec)
        ps = prims(env, spec)
        for r, k in ps.values():
            r.value = rval(h, k)
        n = h.rng.choice(list(ps))
        r, k = ps[n]
        v = rval(h, k)
        before = {x: p.value for x, (p, _) in ps.items()}
        env.ingest(ParsedEvent(n, h.rng.randrange(1 << 60), v))
        h.ev((n, k, v))
        h.check(r.value == v, "an ingested value is stored as it is", spec=spec, name=n, got=r.value, want=v)
        h.check(all(p.value == before[x] for x, (p, _) in ps.items() if p is not r), "and nothing else changes", spec=spec, name=n)


@h.case
def grouped(h):
    """Events grouped by channel are all events, each channel's in the order of the stream."""
    for _ in range(h.n(40)):
        evs = [ParsedEvent(h.rng.choice("abc"), h.rng.randrange(3), h.rng.choice([0, 1, 5, -3, 2.5, True])) for _ in range(h.rng.randrange(12))]
        want = {}
        for e in evs:
            want.setdefault(e.name, []).append(e)
        got = ParsedEvent.by_channel(iter(evs))
        h.ev(str(evs))
        h.check(got == want, "events by channel are that channel's, in order", events=evs, got=got)


class Boom(Exception):
    pass


@h.case
def failures(h):
    for _ in range(h.n(60)):
        spec = rspec(h)
        env = build(spec)
        ps = prims(env, spec)
        s = BytesIO()
        h.ev(str(spec))
        try:
            with env.registered(s):
                if h.rng.random() < 0.5:
                    raise Boom
                h.check(raises(lambda: env.registered(BytesIO()).__enter__(), AssertionError) or not any(x[0] != "fields" for x in spec), "a busy stream is refused", spec=spec)
                raise Boom
        except Boom:
            pass
        h.check(not any(p.callbacks for p, _ in ps.values()), "an exception leaves nothing registered", spec=spec)
        n = len(s.getvalue())
        for r, k in ps.values():
            r.value = rval(h, k)
        h.check(len(s.getvalue()) == n, "and nothing is written later", spec=spec)
        o = outcome(lambda: write(h, env, spec, ps, 3))
        h.check(o[0] == "ok", "and registering works again", spec=spec, got=o)


@h.case
def rate(h):
    """At most one event per period, and the first after the period has passed."""
    for _ in range(h.n(60)):
        env = ChannelEnvironment()
        c = env.int_channel("a", "uint32")
        ev = env["a"][0].event
        p = h.rng.randrange(1, 1000)
        ev.set_min_period(p / 1e9)
        p = ev.min_period_ns
        raw = env["a"][0].raw
        t = h.rng.randrange(0, 5000)
        raw.set_value(1, timestamp_ns=t)
        s = BytesIO()
        want, prev, v = [], 0, 1
        with ev.registered(s):
            if t >= p:
                want.append((t, v))
                prev = t
            for _ in range(h.rng.randint(0, 12)):
                t += h.rng.randrange(0, 700)
                v += 1
                raw.set_value(v, timestamp_ns=t)
                if t - prev >= p:
                    want.append((t, v))
                    prev = t
        h.ev((p, len(want)))
        h.check(s.getvalue() == b"".join(ev_bytes(ident(env, "a"), a, "uint32", b) for a, b in want), "events keep to the period", period=p, want=want, got=s.getvalue().hex())
        again = BytesIO()
        with ev.registered(again):
            pass
        h.check(again.getvalue() == (ev_bytes(ident(env, "a"), t, "uint32", v) if t >= p else b""), "registering again writes the current value", period=p, time=t, got=again.getvalue().hex())
    h.check(raises(lambda: ev.set_min_period(0), AssertionError), "a period is positive")


@h.case
def again(h):
    """A stream registered again starts with the current values, whatever the period."""
    for t in range(h.n(20)):
        env = ChannelEnvironment()
        chan = env.int_channel("x", "uint8", min_period_s=1000.0)[0]
        env.finalize(strict=False)
        for i in range(h.rng.randint(2, 4)):
            if h.rng.random() < 0.5:
                chan.raw.value = h.rng.randrange(256)
            s = BytesIO()
            with env.registered(s):
                data = s.getvalue()
            got = list(env.parse_event_stream(BytesIO(data)))
            h.check([(e.name, e.value, e.timestamp) for e in got] == [("x", chan.raw.value, chan.raw.last_updated_ns)], "registering writes the current value", round=i, got=got)
        h.ev(t)



h.done()
