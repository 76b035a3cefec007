from harness.lib import *
from struct import pack
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import create
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.field.fields import BitFields

h = H()
CODES = {"uint8": "B", "int8": "b", "uint16": "H", "int16": "h", "uint32": "I", "int32": "i", "uint64": "Q", "int64": "q", "float": "f", "double": "d", "bool": "?"}
SIZE = {"B": 1, "b": 1, "?": 1, "H": 2, "h": 2, "I": 4, "i": 4, "f": 4, "Q": 8, "q": 8, "d": 8}


class Plan:
    """What an environment consists of: parts in the order they are registered."""

    def __init__(self, h):
        self.parts, self.used = [], {}
        for i in range(h.rng.randint(1, 6)):
            if h.rng.random() < 0.5:
                self.parts.append(("chan", f"ns.c{i}", h.rng.choice(list(CODES))))
            else:
                kind, fs, at = h.rng.choice(["uint8", "uint16", "uint32"]), [], 0
                for j in range(h.rng.randint(1, 4)):
                    w = h.rng.randint(1, 2)
                    fs.append((f"g{i}_{j}", at, w))
                    at += w
                self.parts.append(("bits", kind, fs))
        self.names = []
        self.of = {}
        for i, p in enumerate(self.parts):
            for n in [p[1]] if p[0] == "chan" else [x[0] for x in p[2]]:
                self.names.append(n)
                self.of[n] = i

    def make(self):
        env = ChannelEnvironment()
        for p in self.parts:
            if p[0] == "chan":
                env.channel(p[1], create(p[2]))
            else:
                b = BitFields.new(p[1])
                for n, _, w in p[2]:
                    b.flag(n) if w == 1 else b.field(n, w)
                env.fields.add(b)
        return env

    def code(self, i):
        p = self.parts[i]
        return CODES[p[2] if p[0] == "chan" else p[1]]

    def layout(self, names):
        """The parts an array of these names has, None if it is refused."""
        out, closed, at = [], set(), None
        if len(set(names)) != len(names) or any(n not in self.of for n in names):
            return None
        for n in names:
            i = self.of[n]
            if i != at:
                if i in closed:
                    return None
                if at is not None:
                    closed.add(at)
                out.append(i)
            at = i
        return out


def rnd(h, code):
    if code == "?":
        return h.rng.random() < 0.5
    if code in "fd":
        return float(h.rng.randint(-1000, 1000))
    bits = SIZE[code] * 8
    return h.rng.randrange(-(1 << (bits - 1)), 1 << (bits - 1)) if code.islower() else h.rng.randrange(1 << bits)


def fill(h, plan, env):
    """Set everything, by name; what each part's storage then is."""
    vals, raw = {}, {}
    for i, p in enumerate(plan.parts):
        if p[0] == "chan":
            vals[p[1]] = raw[i] = rnd(h, CODES[p[2]])
            env.set(p[1], vals[p[1]])
        else:
            raw[i] = 0
            for n, at, w in p[2]:
                v = h.rng.randrange(1 << w)
                vals[n] = v
                raw[i] |= v << at
                env.set(n, bool(v) if w == 1 else v)
    return vals, raw


def wire(plan, layout, raw, order):
    e = ">" if order is ByteOrder.BIG_ENDIAN else "<"
    return b"".join(pack(e + plan.code(i), raw[i]) for i in layout)


def keys_for(h, plan):
    k = h.rng.random()
    if k < 0.3:
        return list(plan.names)
    if k < 0.6:             # parts shuffled, some fields of each, in any order
        out = []
        parts = list(range(len(plan.parts)))
        h.rng.shuffle(parts)
        for i in parts[:h.rng.randint(1, len(parts))]:
            ns = [n for n in plan.names if plan.of[n] == i]
            h.rng.shuffle(ns)
            out += ns[:h.rng.randint(1, len(ns))]
        return out
    pool = plan.names + (["nope"] if h.rng.random() < 0.2 else [])
    if h.rng.random() < 0.2:
        return [h.rng.choice(pool) for _ in range(h.rng.randint(1, 5))]
    h.rng.shuffle(pool := list(pool))
    return pool[:h.rng.randint(1, len(pool))]


@h.case
def arrays(h):
    orders = [ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN]
    for _ in range(h.n(500)):
        if not h.ok_time():
            return
        plan = Plan(h)
        env, other = plan.make(), plan.make()
        order = h.rng.choice(orders)
        whole = h.rng.random() < 0.2
        names = list(plan.names) if whole else keys_for(h, plan)
        want = plan.layout(names)
        ids = h.rng.choice([0, 0, 1, 0.5])
        by_id = [h.rng.random() < ids for _ in names]

        def key(e, n, k):
            i = e.channels.names.identifier(n)
            return i if by_id[k] and i is not None else n
        args = (lambda e: ()) if whole else (lambda e: ([key(e, n, k) for k, n in enumerate(names)],))
        before = (list(env.names), env.values())
        kind, arr = outcome(lambda: env.array(*args(env), byte_order=order))
        h.ev((plan.parts.__repr__(), tuple(names), ids, order.name))
        h.check((list(env.names), env.values()) == before, "making an array changed the environment", names=names, parts=plan.parts)
        if want is None:
            h.check(kind == "exc", "an array was made of unknown, repeated or separated names", names=names, parts=plan.parts)
            continue
        if not h.check(kind == "ok", "an array was refused", names=names, parts=plan.parts, got=repr(arr)):
            continue
        h.check(list(arr.names) == names, "names of an array", names=names, got=list(arr.names))
        h.check(arr.array.size == sum(SIZE[plan.code(i)] for i in want), "size of an array", names=names, parts=plan.parts, got=arr.array.size)
        vals, raw = fill(h, plan, env)
        data = bytes(arr.array)
        h.check(data == wire(plan, want, raw, order), "encoding of an array", names=names, parts=plan.parts, raw=raw, got=data.hex(), order=order.name)
        # the same array of an environment made the same way
        arr2 = other.array(*args(other), byte_order=order)
        others, _ = fill(h, plan, other)
        took = outcome(lambda: arr2.array.update(data))
        h.check(took == ("ok", len(data)), "decoding an array takes all of it", got=repr(took), size=len(data))
        for n in plan.names:
            exp = vals[n] if plan.of[n] in want else others[n]
            h.check(other.value(n) == exp, "a value after decoding", name=n, names=names, parts=plan.parts, got=other.value(n), want=exp)
        h.check(bytes(arr2.array) == data, "encoding again gives the same", names=names)


@h.case
def structs(h):
    """The arrays of an application's structs follow their environment and byte order."""
    from runtimepy.net.arbiter.info import RuntimeStruct
    for _ in range(h.n(40)):
        plan = Plan(h)

        class S(RuntimeStruct):
            log_level_channel = False
            byte_order = h.rng.choice([ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN])

            def init_env(self):
                for p in plan.parts:
                    if p[0] == "chan":
                        self.env.channel(p[1], create(p[2]))
                    else:
                        b = BitFields.new(p[1])
                        for n, _, w in p[2]:
                            b.flag(n) if w == 1 else b.field(n, w)
                        self.env.fields.add(b)

            def poll(self):
                pass
        s = outcome(lambda: S("s", {}))
        if not h.check(s[0] == "ok", "a struct can be made", got=repr(s)):
            return
        s = s[1]
        import asyncio
        asyncio.run(s.build(None))
        _, raw = fill(h, plan, s.env)
        lay = plan.layout(plan.names)
        h.ev(repr(plan.parts))
        h.check(bytes(s.array) == wire(plan, lay, raw, S.byte_order), "encoding of a struct", parts=plan.parts)
        for o in (ByteOrder.BIG_ENDIAN, ByteOrder.LITTLE_ENDIAN):
            s.update_byte_order(o)
            h.check(s.array.byte_order is o, "byte order of a struct")
            h.check(bytes(s.array) == wire(plan, lay, raw, o), "encoding of a struct in another byte order", parts=plan.parts, order=o.name)


h.done()
