from harness.lib import *
from runtimepy.primitives import Int8, Int32, Uint16, Uint64, Float, Double, Half, Bool

h = H()


def pick(h, cls):
    if cls is Bool:
        return h.rng.random() < 0.5
    if cls in (Float, Double, Half):
        return h.rng.choice([0.0, 1.0, -1.5, 2.25, h.rng.randint(-100, 100) / 8])
    return h.rng.choice([0, 1, 2, 100, h.rng.randint(0, 120)] + [x for x in h.ints() if 0 <= x < 128])


@h.case
def histories(h):
    """Random histories of register/remove/set/context against a reference."""
    for t in range(h.n(150)):
        cls = h.rng.choice([Int8, Int32, Uint16, Uint64, Float, Double, Half, Bool])
        now = [1000]

        def clock():
            now[0] += 7
            return now[0]

        p = cls(time_source=clock)
        h.check(p.last_updated_ns == now[0], "a new value is stamped by its clock")
        regs = []  # [id, name, once]
        log = []
        ids = set()
        val = p.value
        hist = []

        def cb(name):
            def f(old, new):
                log.append((name, old, new, p.value, p.last_updated_ns))
            return f

        ctx = []
        for i in range(h.rng.randint(1, 25)):
            op = h.rng.random()
            if op < 0.3:
                once = h.rng.random() < 0.4
                r = p.register_callback(cb(i), once=once) if once or h.rng.random() < 0.5 else p.register_callback(cb(i))
                h.check(r not in ids, "registration identifiers are never reused", history=hist)
                ids.add(r)
                regs.append([r, i, once])
                hist.append(("register", once))
            elif op < 0.4:
                r = h.rng.choice([x[0] for x in regs if x[0] != "ctx"] + [10**6, -1])
                want = any(x[0] == r for x in regs)
                got = p.remove_callback(r)
                hist.append(("remove", r))
                h.check(got == want, "removal reports whether the callback was registered", history=hist, got=got)
                regs = [x for x in regs if x[0] != r]
            elif op < 0.45:
                cm = p.callback(cb(i))
                cm.__enter__()
                ctx.append((cm, i))
                regs.append(["ctx", i, False])
                hist.append("enter")
            elif op < 0.5 and ctx:
                cm, name = ctx.pop(h.rng.randrange(len(ctx)))
                if h.rng.random() < 0.5:
                    try:
                        cm.__exit__(RuntimeError, RuntimeError("x"), None)
                    except RuntimeError:
                        pass
                else:
                    cm.__exit__(None, None, None)
                regs = [x for x in regs if x[1] != name]
                hist.append("exit")
            else:
                v = pick(h, cls)
                how = h.rng.randrange(4)
                ts = None
                del log[:]
                if how == 0:
                    p.value = v
                elif how == 1:
                    h.check(p(v) == v, "calling with a value returns it")
                elif how == 2:
                    p.set_value(v)
                else:
                    ts = h.rng.choice([0, 1, h.rng.randint(1, 10**15), h.rng.randint(1, 10**15)])
                    p.set_value(v, timestamp_ns=ts)
                stamp = ts if ts is not None else now[0]
                hist.append(("set", v, how))
                h.check(p.value == v, "the value set is the value held", history=hist, got=p.value)
                h.check(p.last_updated_ns == stamp, "each assignment records the given timestamp, else the clock's", history=hist, got=p.last_updated_ns, want=stamp)
                want = [(n, val, v, v, stamp) for _, n, _ in regs] if v != val else []
                h.check(log == want, "a change calls every registered callback once, in order, with the old and new value; no change calls none", history=hist, got=log, want=want)
                if v != val:
                    regs = [x for x in regs if not x[2]]
                val = v
            h.ev((t, i))
        n = h.rng.randint(0, 10**6)
        h.check(p.age_ns(now=p.last_updated_ns + n) == n, "the age is the time since the last update", n=n)
        for cm, _ in ctx:
            cm.__exit__(None, None, None)


@h.case
def nan(h):
    for cls in (Float, Double):
        p = cls(value=1.0)
        log = []
        p.register_callback(lambda a, b: log.append((a, b)))
        p.value = float("nan")
        h.check(log == [] and p.value != p.value, "NaN is stored but not delivered to callbacks", got=log)
        p.value = 2.0
        h.check(len(log) == 1 and log[0][1] == 2.0, "the change after NaN is delivered", got=log)
        h.ev(cls)


@h.case
def operations(h):
    for _ in range(h.n(60)):
        p = Int32(value=h.rng.randint(-1000, 1000))
        log = []
        p.register_callback(lambda a, b: log.append((a, b)))
        v, a = p.value, h.rng.choice([0, 1, -1, 17, h.rng.randint(-500, 500)])
        ts = h.rng.choice([0, h.rng.randint(1, 10**12), h.rng.randint(1, 10**12)])
        r = p.increment(a, timestamp_ns=ts)
        h.check(r == v + a == p.value and p.last_updated_ns == ts and log == ([(v, v + a)] if a else []), "increment adds, stamps and notifies", start=v, amount=a, got=(r, p.value, log))
        b = Bool(value=h.rng.random() < 0.5)
        log2 = []
        b.register_callback(lambda x, y: log2.append((x, y)))
        for name in [h.rng.choice(["toggle", "set", "clear"]) for _ in range(6)]:
            old = b.value
            del log2[:]
            getattr(b, name)()
            new = {"toggle": not old, "set": True, "clear": False}[name]
            h.check(b.value == new and log2 == ([(old, new)] if old != new else []), "boolean operations store their state and notify exactly on a change", op=name, old=old, got=(b.value, log2))
            h.ev((name, old))


h.done()
