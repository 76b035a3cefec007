"""Bounded, contract-driven evaluation of the real code (run with the venv)."""
import asyncio
import json
import os
import random
import signal
import sys
import time
import traceback
import logging

logging.disable(logging.CRITICAL)


class Stuck(BaseException):
    """A case took far longer than it can take."""


class H:
    def __init__(self):
        cfg = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {"seed": 1, "tier": "quick", "hints": {}, "budget_s": 60}
        self.cfg = cfg
        self.out = sys.argv[2] if len(sys.argv) > 2 else None
        self.seed = cfg["seed"]
        self.thorough = cfg["tier"] == "thorough"
        self.hints = cfg.get("hints") or {}
        self.t_end = time.time() + cfg.get("budget_s", 60)
        self.rng = random.Random(self.seed)
        self.failures = []
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.cases = {}
        self.rule = "seeded random and boundary inputs, contract post-conditions evaluated on the running code"
        self.fail_keys = {}
        self.cur = ""
        self.late = False
        # far beyond what any case takes
        signal.signal(signal.SIGALRM, self._stuck)
        signal.alarm(int(cfg.get("budget_s", 60) * 1.25))

    def _stuck(self, *_):
        raise Stuck("the code did not come to an end")

    # ---- pools seeded with the verifier's counter-models
    def ints(self):
        return [x for x in self.hints.get("int", [])]

    def strs(self):
        return [x for x in self.hints.get("str", [])]

    def bytess(self):
        return [bytes.fromhex(x) for x in self.hints.get("bytes", [])]

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 20) if self.thorough else quick

    def ok_time(self):
        return time.time() < self.t_end

    def ev(self, key=None, sample=None):
        """Count one evaluation; key identifies a distinct non-trivial case."""
        self.evaluations += 1
        self.cases[self.cur] = self.cases.get(self.cur, 0) + 1
        if key is not None:
            k = hash((self.cur, repr(key)))
            if k not in self.seen:
                self.seen.add(k)
                if len(self.samples) < 8 and self.cases[self.cur] in (3, 17):
                    self.samples.append(f"{self.cur}: {sample if sample is not None else key!r}"[:400])

    def fail(self, what, finding=None, **data):
        k = (self.cur, what)
        self.fail_keys[k] = self.fail_keys.get(k, 0) + 1
        if self.fail_keys[k] <= 2:
            self.failures.append({"case": self.cur, "contract": what, "finding": finding, "input": {a: repr(b)[:600] for a, b in data.items()}})
            if self.out:  # kept even if the code never ends
                self.save(self.out)

    def check(self, cond, what, finding=None, **data):
        if not cond:
            self.fail(what, finding, **data)
        return bool(cond)

    def case(self, fn):
        """Run one case function; an unexpected exception is a finding of the case."""
        self.cur = fn.__name__
        self.rng = random.Random(f"{self.seed}-{fn.__name__}")
        try:
            r = fn(self)
            if asyncio.iscoroutine(r):
                asyncio.run(r)
        except Stuck as e:
            self.fail("the code comes to an end", trace=traceback.format_exc()[-1200:])
            self.done()
            os._exit(0)
        except Exception as e:
            tb = traceback.format_exc()
            if isinstance(e, asyncio.TimeoutError) and not self.late:
                # Tolerate a machine that was busy: give it another chance.
                self.late = True
                try:
                    return self.case(fn)
                finally:
                    self.late = False
            if isinstance(e, asyncio.TimeoutError):
                self.fail("what is waited for happens", trace=tb[-1200:])
                return fn
            frames = traceback.extract_tb(e.__traceback__)
            in_repo = any("/runtimepy/" in f.filename for f in frames)
            if in_repo:
                self.fail(f"unexpected {type(e).__name__} from the code", trace=tb[-1200:])
            else:
                self.err = getattr(self, "err", "") + f"{fn.__name__}: {tb[-800:]}\n"
                print(tb)
        return fn

    def result(self):
        res = {
            "failures": self.failures, "evaluations": self.evaluations, "distinct_nontrivial": len(self.seen), "samples": self.samples,
            "cases": self.cases, "rule": self.rule,
        }
        if getattr(self, "err", None):
            res["error"] = self.err
        return res

    def save(self, out):
        with open(out + ".part", "w") as f:
            json.dump(self.result(), f)
        os.replace(out + ".part", out)

    def done(self):
        signal.alarm(0)
        if self.out:
            self.save(self.out)
        else:
            print(json.dumps(self.result(), indent=1)[:6000])


def raises(fn, *exc):
    """True when fn() raises one of exc (any Exception if empty)."""
    try:
        fn()
    except exc or (Exception,) as e:
        return True
    return False


def outcome(fn):
    """('ok', value) or ('exc', class name)."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", type(e).__name__)


def chunks(rng, data, mode=None):
    """Split data into arbitrary consecutive pieces."""
    out = []
    i = 0
    mode = mode or rng.choice(["one", "small", "mixed", "all", "two"])
    if mode == "two" and len(data) > 1:
        k = rng.randrange(1, len(data))
        return [data[:k], data[k:]]
    while i < len(data):
        if mode == "one":
            n = 1
        elif mode == "small":
            n = rng.randint(1, 5)
        elif mode == "all":
            n = len(data)
        else:
            n = rng.choice([1, 2, 3, 7, 19, 64, 200, 1000])
        out.append(data[i:i + n])
        i += n
        if mode == "mixed" and rng.random() < 0.1:
            out.append(data[:0])
    return out
