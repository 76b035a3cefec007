import asyncio
import logging
from harness.lib import *
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.task import AsyncTask, PeriodicTask, PeriodicTaskManager

logging.disable(logging.CRITICAL)
h = H()
REAL = asyncio.sleep
ACTIONS = ["nothing", "disable", "stop", "pause", "resume", "period", "fail", "raise", "cancel", "slow"]


class Scripted:
    """Records waits instead of waiting; others act in between."""

    def __init__(self, task, script, stop):
        self.task, self.script, self.stop, self.log, self.waits = task, list(script), stop, [], []

    def act(self, a):
        t = self.task
        self.log.append(a)
        if a == "disable":
            t.disable()
        elif a == "stop":
            self.stop.set()
        elif a in ("pause", "resume") and hasattr(t, "paused"):
            t.paused.value = a == "pause"
        elif a == "period":
            t.period_s.value = self.rng.choice([0.0, 0.5, 2.0])

    def __enter__(self):
        async def sleep(s, result=None):
            self.waits.append(s)
            a = self.script.pop(0) if self.script else "disable"
            self.act(a)
            await REAL(0)
            if a == "cancel":
                raise asyncio.CancelledError
            return result
        asyncio.sleep = sleep
        return self

    def __exit__(self, *_):
        asyncio.sleep = REAL


class P(PeriodicTask):
    s = None

    async def dispatch(self):
        self.n += 1
        s = self.s
        s.log.append("iteration")
        a = s.script.pop(0) if s.script else "disable"
        s.act(a)
        await REAL(0)
        if a == "raise":
            raise KeyError
        return a != "fail"

    n = 0


class A(AsyncTask):
    s = None
    n = 0

    async def dispatch(self, *a, **kw):
        return await P.dispatch(self)

    async def init(self, *a, **kw):
        return self.ok

    ok = True


def expect(script, periodic, limit=0):
    """The iterations that happen, by the meaning of the actions."""
    script, n, paused, stop = list(script), 0, False, False
    nxt = lambda: script.pop(0) if script else "disable"
    while True:
        if not (periodic and paused):
            n += 1
            a = nxt()
            paused = a == "pause" or (paused and a != "resume")
            stop = stop or a == "stop"
            if a == "raise":
                return n, "raised"
            if a in ("fail", "disable"):
                return n, "ended"
        if stop or (limit and n >= limit):
            return n, "ended"
        a = nxt()
        paused = a == "pause" or (paused and a != "resume")
        stop = stop or a == "stop"
        if a in ("disable", "cancel"):
            return n, "ended"


async def once(h, t, script, kind, limit=0):
    stop = asyncio.Event()
    s = Scripted(t, script, stop)
    s.rng = h.rng
    t.s, t.n = s, 0
    how = "ended"
    with s:
        try:
            await asyncio.wait_for(asyncio.ensure_future(t.run(stop_sig=stop)), 5)
        except KeyError:
            how = "raised"
    want, end = expect(script, kind == "periodic", limit)
    d = dict(kind=kind, script=script, limit=limit, log=s.log)
    h.ev((kind, tuple(script), limit))
    h.check(t.n == want, "iterations happen as long as the task is enabled, succeeds, isn't paused and isn't told to stop", iterations=t.n, expected=want, **d)
    h.check(how == end, "an exception of an iteration is raised, nothing else is", got=how, expected=end, **d)
    return how


@h.case
async def periodic(h):
    for _ in range(h.n(250)):
        script = [h.rng.choice(["nothing"] * 6 + ACTIONS[:8] + ["cancel"] * (i % 2)) for i in range(h.rng.randrange(12))]
        t = P("task", period_s=h.rng.choice([1e-6, 1.0]))
        await once(h, t, script, "periodic")


@h.case
async def asynchronous(h):
    for _ in range(h.n(250)):
        env = ChannelEnvironment()
        limit = h.rng.choice([0, 0, 0, 1, 2, 3, 5])
        t = A("task", 0.5, env, max_iterations=limit)
        for round_ in range(2):
            script = [h.rng.choice(["nothing"] * 9 + ["disable", "stop", "fail", "raise"] + ["cancel"] * (i % 2)) for i in range(h.rng.randrange(12))]
            how = await once(h, t, script, "async", limit)
            h.check(t.dispatches.raw.value == t.n - (how == "raised"), "iterations are counted", count=t.dispatches.raw.value, iterations=t.n, script=script)
        t.ok = False
        await_ = asyncio.wait_for(t.run(), 5)
        n = t.n
        t.s = Scripted(t, [], asyncio.Event())
        await await_
        h.check(t.n == n and not t.enabled.raw.value, "a task whose initialization failed isn't iterated", iterations=t.n - n)


@h.case
async def limits(h):
    """The limit of iterations may change during a run."""
    class L(A):
        async def dispatch(self, *a, **kw):
            self.n += 1
            if self.n in self.changes:
                self.max_iterations.raw.value = self.changes[self.n]
            return self.n < 40

    async def sleep(s, result=None):
        await REAL(0)

    for _ in range(h.n(60)):
        limit = h.rng.choice([0, 3, 10, 20])
        t = L("task", 0.5, ChannelEnvironment(), max_iterations=limit)
        t.changes = {h.rng.randrange(1, 15): h.rng.choice([0, 1, 2, 5, 12]) for _ in range(h.rng.randrange(1, 3))}
        asyncio.sleep = sleep
        try:
            await asyncio.wait_for(asyncio.ensure_future(t.run()), 5)
        finally:
            asyncio.sleep = REAL
        n, m = 0, limit
        while True:
            n += 1
            m = t.changes.get(n, m)
            if n == 40 or (m > 0 and n >= m):
                break
        h.ev((limit, tuple(t.changes.items())))
        h.check(t.n == n and t.dispatches.raw.value == n, "a run ends after the iteration that finds the limit reached", limit=limit, changes=t.changes, iterations=t.n, expected=n)


@h.case
async def fresh(h):
    """Metrics are those of the current run."""
    class F(A):
        async def dispatch(self, *a, **kw):
            self.n += 1
            await REAL(self.slow)
            return self.n % 3 != 0

    async def sleep(s, result=None):
        await REAL(0)

    for _ in range(h.n(3)):
        t = F("task", 0.5, ChannelEnvironment())
        asyncio.sleep = sleep
        try:
            t.slow = 0.05
            await t.run()
            slow = (t.max_s.raw.value, t.average_s.raw.value, t.min_s.raw.value)
            h.check(slow[0] >= 0.045 and slow[2] >= 0.045 and t.dispatches.raw.value == 3, "durations are measured", durations=slow)
            h.check(slow[2] <= slow[0] * 1.001 and slow[1] <= slow[0] * 1.001, "minimum, average and maximum are in order", durations=slow)
            t.slow = 0
            start = asyncio.get_running_loop().time()
            await t.run()
            took = asyncio.get_running_loop().time() - start
        finally:
            asyncio.sleep = REAL
        fast = (t.max_s.raw.value, t.average_s.raw.value, t.min_s.raw.value)
        h.check(t.dispatches.raw.value == 3, "iterations of the current run are counted", count=t.dispatches.raw.value)
        if took < 0.04:
            h.check(max(fast) <= took, "durations are those of the current run", durations=fast, before=slow, took=took)
        h.ev(slow)


@h.case
async def many(h):
    """More iterations than small counters hold."""
    for limit in (255, 256, 300, 1000):
        t = A("task", 1e-6, ChannelEnvironment(), max_iterations=limit)
        await once(h, t, ["nothing"] * 2 * limit, "async", limit)
        h.check(t.dispatches.raw.value == limit, "iterations are counted", count=t.dispatches.raw.value, limit=limit)


@h.case
async def measured(h):
    """Counts, durations and overruns."""
    class Slow(PeriodicTask):
        durations = []

        async def dispatch(self):
            d = self.durations.pop(0)
            await REAL(d)
            return bool(self.durations)

    for durations, period, over in (([0, 0, 0], 10, 0), ([0.02, 0, 0.02, 0], 0.01, 2), ([0.03], 0.001, 1)):
        t = Slow("slow", period_s=period)
        t.durations = list(durations)
        waits = []

        async def sleep(s):
            waits.append(s)
        asyncio.sleep = sleep
        try:
            await t.run()
        finally:
            asyncio.sleep = REAL
        h.ev((tuple(durations), period))
        d = dict(durations=durations, period=period)
        h.check(t.metrics.dispatches.value == len(durations), "every iteration is counted", count=t.metrics.dispatches.value, **d)
        h.check(over <= t.metrics.overruns.value <= (over if period > 1 else len(durations)), "iterations longer than the period are overruns", count=t.metrics.overruns.value, **d)
        h.check(t.metrics.max_s.value >= max(durations) * 0.99, "the maximum is at least the longest iteration", value=t.metrics.max_s.value, **d)
        h.check(all(0 <= w <= max(0, period - x) + 1e-3 for w, x in zip(waits, durations)), "a wait lasts what remains of the period", waits=waits, **d)


@h.case
async def changed(h):
    """The period that counts is the current one, however it was set."""
    class Changing(PeriodicTask):
        async def dispatch(self):
            if self.periods:
                p = self.periods.pop(0)
                if p is not None:
                    self.set_period(p)
                    h.check(self.period_s.value == p, "a period set is the period")
                self.now.append(self.period_s.value)
                return True
            return False

    for given in (None, 7.0):
        for before in (None, 9.0):
            for _ in range(h.n(5)):
                t = Changing("changing", period_s=3.0)
                if before is not None:
                    t.set_period(before)
                t.periods, t.now = [h.rng.choice([None, 2.0, 5.0, 11.0]) for _ in range(5)], []
                plan, waits = list(t.periods), []

                async def sleep(s):
                    waits.append(s)
                asyncio.sleep = sleep
                try:
                    await t.run(**({} if given is None else {"period_s": given}))
                finally:
                    asyncio.sleep = REAL
                h.ev((given, before, tuple(plan)))
                want, cur = [], given or before or 3.0
                for p in plan:
                    cur = cur if p is None else p
                    want.append(cur)
                h.check(t.now == want and len(waits) == len(want) and all(w - 1 <= x <= w for w, x in zip(want, waits)), "a task waits for what remains of its current period", waits=waits, periods=want, given=given, before=before)


@h.case
async def single(h):
    """At most one run of a task at any time."""
    class One(PeriodicTask):
        live, most, n = 0, 0, 0
        extra = 0

        async def run(self, **kw):
            self.live += 1
            self.most = max(self.most, self.live)
            try:
                await super().run(**kw)
            finally:
                self.live -= 1

        async def dispatch(self):
            self.n += 1
            if self.n in self.bad:
                raise KeyError
            return self.n not in self.fails

        async def stop_extra(self):
            self.extra += 1

    for _ in range(h.n(40)):
        t = One("one", period_s=h.rng.choice([1e-6, 10.0]))
        t.bad = set(h.rng.sample(range(12), h.rng.randrange(3)))
        t.fails = set(h.rng.sample(range(12), h.rng.randrange(3)))
        ops, first = [], True
        had = False
        for _ in range(8):
            op = h.rng.choice(["start", "start", "stop", "wait", "disable"])
            ops.append(op)
            d = dict(ops=list(ops), raise_at=sorted(t.bad), fail_at=sorted(t.fails))
            if op == "start":
                n = t.n
                task = await asyncio.wait_for(t.task(), 5)
                task.add_done_callback(lambda f: f.cancelled() or f.exception())
                had = True
                for _ in range(3):
                    await REAL(0)
                h.check(t.n > n, "a task that's started runs", **d)
            elif op == "stop":
                extra = t.extra
                r = await asyncio.wait_for(t.stop(), 5)
                h.check(r == had, "stopping a task tells if there was one", got=r, **d)
                h.check(t.extra - extra == had, "a task that's stopped cleans up, whatever ended it", times=t.extra - extra, **d)
                had = False
                n = t.n
                await REAL(0.001)
                h.check(t.n == n and t.live == 0, "nothing runs after a task was stopped", **d)
            elif op == "disable":
                t.disable()
                await REAL(0)  # (an iteration that was started already runs as a task of its own)
                n = t.n
                await REAL(0.001)
                h.check(t.n == n, "no iteration starts after a task was disabled", **d)
            else:
                await REAL(0)
            h.check(t.most <= 1, "a task runs at most once at any time", most=t.most, **d)
            h.ev((tuple(ops), tuple(t.bad)))
        await asyncio.wait_for(t.stop(), 5)


@h.case
async def group(h):
    class G(PeriodicTask):
        n = 0

        async def dispatch(self):
            self.n += 1
            return True

    for _ in range(h.n(20)):
        m = PeriodicTaskManager()
        names = [h.rng.choice("abcd") for _ in range(h.rng.randrange(6))]
        first = {}
        for x in names:
            t = G(x, period_s=1.0)
            r = m.register(t, period_s=0.25)
            h.check(r == (x not in first), "a task is registered if and only if its name is new", names=names, name=x)
            h.check(t.period_s.value == (0.25 if r else 1.0), "a task that's registered gets its period", names=names)
            first.setdefault(x, t)
        h.check(list(m.tasks) == list(first.values()) and all(m[k] is v for k, v in first.items()), "a task is found by name", names=names)
        fail = h.rng.random() < 0.5
        try:
            async with m.running():
                await REAL(0)
                await REAL(0)
                h.check(all(x.n == 1 for x in first.values()), "all tasks run", names=names)
                if fail:
                    raise KeyError
        except KeyError:
            pass
        h.ev((tuple(names), fail))
        ns = [x.n for x in first.values()]
        await REAL(0)
        h.check(all(not x.disable() for x in first.values()) and ns == [x.n for x in first.values()], "all tasks are stopped in the end", names=names, raised=fail)


@h.case
async def ended(h):
    """Extra actions are taken if the run has ended by itself, too."""
    for how in ("fails", "disabled"):
        class Ends(PeriodicTask):
            extra = 0

            async def dispatch(self):
                if how == "disabled":
                    self.disable()
                    return True
                return False

            async def stop_extra(self):
                self.extra += 1

        t = Ends("ends")
        await (await t.task(period_s=0.001))
        await t.stop()
        h.check(t.extra == 1, "stopping takes the extra actions once", run=how, got=t.extra)
        h.ev(("ended", how))


@h.case
async def other_period(h):
    """A period changed while running counts, whatever it was started with."""
    class Changes(PeriodicTask):
        count = 0

        async def dispatch(self):
            self.count += 1
            self.period_s.value = 0.5
            return self.count < 4

    t, waits = Changes("changes"), []

    async def sleep(s, result=None):
        waits.append(s)
        await REAL(0)
        return result
    asyncio.sleep = sleep
    try:
        await REAL(0)
        await asyncio.wait_for(t.run(period_s=600.0), 20)
    finally:
        asyncio.sleep = REAL
    h.check(t.count == 4 and all(w <= 0.5 for w in waits), "it waits for what remains of the current period", waits=waits)
    h.ev("other_period")



h.done()
