import asyncio
import logging
import math
import operator
from harness.lib import *
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import Bool, Double, Int16, Uint8
from runtimepy.primitives.evaluation import EvalResult, Operator, evaluate, sample_for

logging.disable(logging.CRITICAL)
h = H()
OPS = {Operator.LESS_THAN: operator.lt, Operator.LESS_THAN_OR_EQUAL: operator.le, Operator.EQUAL: operator.eq, Operator.NOT_EQUAL: operator.ne, Operator.GREATER_THAN_OR_EQUAL: operator.ge, Operator.GREATER_THAN: operator.gt}
clock = [100]


def now():
    clock[0] += 1
    return clock[0]


async def play(prim, script):
    """Groups of writes; a group is written at once."""
    for group in script:
        await asyncio.sleep(0)
        for x in group:
            prim.value = x


def expect(v0, script, ok):
    """The result of a wait."""
    if ok(v0):
        return EvalResult.SUCCESS
    cur, changed = v0, False
    for group in script:
        hit = False
        for x in group:
            if x != cur:
                changed = True
                hit = hit or ok(x)
                cur = x
        if hit:
            return EvalResult.SUCCESS
    return EvalResult.FAIL if changed else EvalResult.TIMEOUT


async def wait(h, prim, coro, script, ok, what, **data):
    v0 = prim.value
    n = len(prim.callbacks)
    loop = asyncio.get_running_loop()
    start = loop.time()
    t = asyncio.create_task(coro)
    await asyncio.sleep(0)
    await play(prim, script)
    late = loop.time() - start > 0.012  # a busy machine: what's due is unknown
    r = await asyncio.wait_for(t, 20)
    took = loop.time() - start
    want = expect(v0, script, ok)
    h.check(late or r is want and bool(r) is (want is EvalResult.SUCCESS), f"{what}: the result is what happened", got=repr(r), want=repr(want), v0=v0, script=script, **data)
    h.check(len(prim.callbacks) == n, f"{what}: no callback stays behind", **data)
    h.check(r is EvalResult.SUCCESS or took >= 0.015, f"{what}: it waits for its time limit", took=took, **data)


def scripts(rng, values):
    return [[rng.choice(values) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(4))]


@h.case
async def values(h):
    rng = h.rng
    for _ in range(h.n(150)):
        op = rng.choice(list(OPS))
        cls = rng.choice([Uint8, Int16, Double])
        vals = [1, 2, 3, 4]
        p = cls(rng.choice(vals))
        if rng.random() < 0.5:
            p.register_callback(lambda a, b: None)
        target = rng.choice(vals)
        script = scripts(rng, vals)
        h.ev(("value", cls.__name__, op.name, len(script)))
        coro = p.wait_for_value(target, 0.02) if op is Operator.EQUAL and rng.random() < 0.5 else p.wait_for_value(target, 0.02, operation=op)
        await wait(h, p, coro, script, lambda x: OPS[op](target, x), "wait_for_value", op=op.name, target=target)


@h.case
async def scaled(h):
    rng = h.rng
    for _ in range(h.n(40)):
        p = Uint8(3, scaling=[1.0, 2.0])
        target = rng.choice([1, 3, 5, 7, 9, 9.4])
        script = scripts(rng, [0, 1, 2, 3, 4])
        h.ev(("scaled", target, len(script)))
        await wait(h, p, p.wait_for_value(target, 0.02), script, lambda x: x == round((target - 1) / 2), "wait_for_value, scaled", target=target)
        p = Double(3.0, scaling=[1.0, 2.0])
        script = scripts(rng, [0.0, 1.0, 2.0, 3.0, 4.0])
        await wait(h, p, p.wait_for_isclose(target, 0.02, abs_tol=0.5), script, lambda x: math.isclose(target, 2 * x + 1, abs_tol=0.5), "wait_for_isclose", target=target)
        p = Bool(rng.random() < 0.5)
        state = rng.random() < 0.5
        await wait(h, p, p.wait_for_state(state, 0.02), scripts(rng, [True, False]), lambda x: x is state, "wait_for_state", state=state)


@h.case
async def previous(h):
    rng = h.rng
    for _ in range(h.n(20)):
        # of the previous and the new value
        p = Int16(0)
        steps = [rng.choice([1, 2, 5]) for _ in range(4)]
        big = 5 in steps
        t = asyncio.create_task(evaluate(p, lambda a, b: EvalResult.SUCCESS if b - a > 4 else EvalResult.FAIL, 0.05))
        await asyncio.sleep(0)
        v = 0
        for s in steps:
            v += s
            p.value = v
        h.ev(("steps", big))
        h.check((await t) is (EvalResult.SUCCESS if big else EvalResult.FAIL), "a condition of the previous and new value", steps=steps)
        # cancelled
        t = asyncio.create_task(p.wait_for_value(-1, 5))
        await asyncio.sleep(0)
        t.cancel()
        try:
            await t
            h.check(False, "a wait can be cancelled")
        except asyncio.CancelledError:
            h.check(not p.callbacks, "a cancelled wait leaves no callback")


@h.case
async def samples(h):
    rng = h.rng
    for _ in range(h.n(150)):
        p = Uint8(7, time_source=now)
        count = rng.choice([-1, 0, 1, 2, 3])
        current = rng.random() < 0.5
        limit = rng.choice([0.0, 0.03])
        slow = rng.random() < 0.3
        leave = rng.choice([None, None, 1, 2])
        script = scripts(rng, [7, 8, 9]) if limit else []
        log = [(7, p.last_updated_ns)] if current else []
        h.ev(("sample", count, current, slow, len(script)))
        got, cancelled = [], False

        async def consume():
            gen = sample_for(p, limit, count=count, current=current)
            async for x in gen:
                got.append(x)
                if leave and len(got) == leave:
                    break
                if slow:
                    await asyncio.sleep(0.05)
            await gen.aclose()

        start = asyncio.get_running_loop().time()
        t = asyncio.create_task(consume())
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        cur = 7
        for group in script:
            for x in group:
                p.value = x
                if x != cur:
                    log.append((x, p.last_updated_ns))
                    cur = x
            await asyncio.sleep(0)
        # what is late isn't a sample
        late = asyncio.get_running_loop().time() - start > 0.02
        try:
            await asyncio.wait_for(t, 20)
        except asyncio.CancelledError:
            cancelled = True
        h.check(not cancelled, "the consumer of samples isn't cancelled by their time limit", count=count, slow=slow)
        want = log[:count] if count > 0 else log
        if leave:
            want = want[:leave]
        h.check(late or cancelled or got == want, "samples are what happened, in order, each once", got=got, want=want, count=count, current=current, limit=limit, script=script, leave=leave)
        h.check(not p.callbacks or cancelled, "no callback stays behind")




def env_of():
    env = ChannelEnvironment()
    env.int_channel("i", scaling=[0.0, 2.0])
    env.float_channel("f", scaling=[1.0, 0.5])
    env.bool_channel("b")
    en = env.enum("state", "int", {"x": 1, "y": 2, "z": 3})
    env.int_channel("e", enum="state")
    env.enum("onoff", "bool", {"on": True, "off": False})
    env.bool_channel("be", enum="onoff")
    env.float_channel("g")
    env.float_channel("poly", scaling=[1.0, 0.5, 0.25])
    env.int_channel("flat", scaling=[7.0])
    env.float_channel("level", scaling=[7.0])
    env.finalize()
    return env


@h.case
async def environment(h):
    rng = h.rng
    for _ in range(h.n(25)):
        env = env_of()
        raw = {k: env[k][0].raw for k in ("i", "f", "b", "e", "be", "g", "poly", "flat", "level")}
        h.ev(("env", _ % 5))
        await wait(h, raw["i"], env.wait_for_numeric("i", 4, 0.02), scripts(rng, [1, 2, 3]), lambda x: x == 2, "wait_for_numeric")
        await wait(h, raw["g"], env.wait_for_numeric("g", 2.0, 0.02, operation=Operator.LESS_THAN), scripts(rng, [1.0, 2.0, 3.0]), lambda x: 2.0 < x, "wait_for_numeric, less")
        await wait(h, raw["f"], env.wait_for_numeric_isclose("f", 2.0, 0.02, abs_tol=0.3), scripts(rng, [0.0, 1.0, 2.0, 3.0]), lambda x: abs(1 + x / 2 - 2) <= 0.3, "wait_for_numeric_isclose")
        await wait(h, raw["b"], env.wait_for_bool("b", True, 0.02), scripts(rng, [True, False]), lambda x: x is True, "wait_for_bool")
        await wait(h, raw["e"], env.wait_for_enum("e", "y", 0.02), scripts(rng, [1, 2, 3]), lambda x: x == 2, "wait_for_enum")
        await wait(h, raw["be"], env.wait_for_enum("be", "on", 0.02), scripts(rng, [True, False]), lambda x: x is True, "wait_for_enum, boolean")
        for key, fn, seq, conv in (
            ("i", env.sample_int_for, [1, 2], lambda x: 2 * x),
            ("f", env.sample_float_for, [1.0, 2.0], lambda x: 1 + x / 2),
            ("g", env.sample_float_for, [1.0, 2.0], lambda x: x),
            ("poly", env.sample_float_for, [1.0, 2.0], lambda x: 1 + x / 2 + x * x / 4),
            ("flat", env.sample_int_for, [1, 2], lambda x: 7.0),
            ("level", env.sample_float_for, [1.0, 2.0], lambda x: 7.0),
            ("b", env.sample_bool_for, [not env["b"][0].raw.value, env["b"][0].raw.value], lambda x: x),
            ("e", env.sample_enum_for, [1 + env["e"][0].raw.value % 3, 1 + (env["e"][0].raw.value + 1) % 3], lambda x: {1: "x", 2: "y", 3: "z"}[x]),
        ):
            kws = [{}] if key in "be" else [{}, {"scale": False}, {"scale": True}]
            kw = rng.choice(kws)
            got = []
            if key in ("i", "f", "g", "poly", "flat", "level"):
                raw[key].value = 5 if key in ("i", "flat") else 5.0

            async def consume():
                async for x in fn(key, 5, count=2, current=False, **kw):
                    got.append(x)

            t = asyncio.create_task(consume())
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            want = []
            for v in seq:
                raw[key].value = v
                want.append((v if kw.get("scale") is False else conv(v), raw[key].last_updated_ns))
            await asyncio.wait_for(t, 20)
            h.check(got == want, "samples of a channel", key=key, got=repr(got), want=repr(want), kw=kw)
            first = (raw[key].value if kw.get("scale") is False else conv(raw[key].value), raw[key].last_updated_ns)
            for n, cur in ((0, True), (-1, True), (1, True), (0, False)):
                got = [x async for x in fn(key, 0.002, count=n, current=cur, **kw)]
                h.check(got == ([first] if cur else []), "without changes there's the current value, if asked for", key=key, count=n, current=cur, got=repr(got), want=repr(first))
    h.check(raises(lambda: asyncio.get_running_loop() and env["nothing"], KeyError), "unknown channels are refused")
    for bad in ("i", "f"):
        try:
            await env.wait_for_enum(bad, "x", 0.0)
            h.check(False, "a channel that has no enumeration is refused")
        except AssertionError:
            pass


h.done()
