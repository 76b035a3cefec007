"""Contracts: what is assumed, what is proved, per function."""
from __future__ import annotations
import importlib
import time
import os
import traceback
import types
import z3
from .ctx import Engine
from .interp import Interp, Config, LoopSpec, qual
from .values import *


class Contract:
    """One verification unit. `verify(it)` runs one path of the proof."""

    name = ""
    target = None  # "module:qualname" (for the report)
    covers = ("return",)
    budget_s = 150
    prove_ms = 20000
    branch_ms = 4000
    max_paths = 3000

    def configure(self, cfg):
        pass

    def verify(self, it):
        raise NotImplementedError


class Unit(Contract):
    """A contract given by plain functions (see the contracts/ sidecars)."""

    def __init__(self, name, target, fn, cfg=None, covers=("return",), **kw):
        if callable(target):
            target = f"{target.__module__}:{target.__qualname__}"
        self.name, self.target, self.fn, self.cfg_fn, self.covers = name, target, fn, cfg, covers
        self.__dict__.update(kw)

    def configure(self, cfg):
        if self.cfg_fn:
            self.cfg_fn(cfg)

    def verify(self, it):
        self.fn(it)


class Out:
    """Outcome of a call: normal return or exception."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *cls):
        return self.exc is not None and any(issubclass(self.exc.cls, c) for c in cls)


def call(it, fn, *args, **kw):
    """Call the code under contract and catch the Python exception."""
    try:
        return Out(it.call(fn, list(args), kw))
    except PyExc as e:
        return Out(exc=e.exc)


def acall(it, fn, *args, **kw):
    """As call(), awaiting a coroutine result."""
    try:
        v = it.call(fn, list(args), kw)
        return Out(it.await_(v))
    except PyExc as e:
        return Out(exc=e.exc)


def drain(it, gen, on_yield):
    """Run a generator to its end, calling on_yield(value) at each yield."""
    try:
        gen.run(on_yield)
        return Out()
    except PyExc as e:
        return Out(exc=e.exc)


def method(obj, name):
    """The real function implementing a method of an interpreter object."""
    cls = obj.cls if isinstance(obj, (SObj, NT)) else obj.spec.cls
    for k in cls.__mro__:
        if name in k.__dict__:
            a = k.__dict__[name]
            if isinstance(a, property):
                a = a.fget
            return Bound(a, obj)
    raise Unsupported(f"{cls.__name__}.{name} is gone")


def new(it, cls, **attrs):
    """An arbitrary instance of cls with the given attributes (type invariant)."""
    o = SObj(cls, attrs)
    o.open = True
    o.tag = cls.__name__
    return o


def cover(it, label):
    """Reachability marker (vacuity guard): this point must be reachable."""
    eng = it.c.eng
    eng.covered = getattr(eng, "covered", set())
    if label in eng.covered:
        return
    if it.c.feasible() != z3.unsat:
        eng.covered.add(label)


def eqv(it, a, b):
    """Equality as a z3 term."""
    t = it.eq(a, b)
    return z3.BoolVal(t) if isinstance(t, bool) else t


# ---- frames -------------------------------------------------------------------
class Frame:
    """Snapshot of everything reachable, to prove 'nothing else changed'."""

    def __init__(self, it, *roots):
        self.it = it
        self.objs = []
        self.snap = {}
        seen = set()
        stack = list(roots)
        while stack:
            o = stack.pop()
            if isinstance(o, (tuple, list)):
                stack.extend(o)
                continue
            if not isinstance(o, Mut) or id(o) in seen:
                continue
            seen.add(id(o))
            self.objs.append(o)
            self.snap[id(o)] = self._state(o)
            if isinstance(o, SObj):
                stack.extend(o.attrs.values())
            elif isinstance(o, MList) and o.conc:
                stack.extend(o.items)
            elif isinstance(o, MDict) and o.conc:
                for k, v in o.pairs:
                    stack.extend([k, v])
        self.heap = dict(it.c.heap)

    @staticmethod
    def _state(o):
        if isinstance(o, SObj):
            return dict(o.attrs)
        if isinstance(o, MList):
            return (list(o.items) if o.conc else None, o.seq)
        if isinstance(o, MDict):
            return ([tuple(p) for p in o.pairs] if o.conc else None, o.dom, o.val)
        if isinstance(o, AList):
            return (o.arr, o.n)
        if isinstance(o, MSet):
            return (list(o.items) if o.conc else None, o.mem)
        if isinstance(o, MBytes):
            return (o.t,)
        if isinstance(o, Stream):
            return (o.data, o.pos)
        if isinstance(o, Cell):
            return (o.value,)
        return None

    def _same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Mut) or isinstance(b, Mut) or callable(a) or callable(b):
            return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.it.all_([self._same(x, y) for x, y in zip(a, b)])
        try:
            return self.it.eq(a, b)
        except Unsupported:
            return False

    def check(self, label, allow=(), heap_allow=()):
        """allow: objects, or (object, attribute) pairs, that may change."""
        ok_o = {id(a) for a in allow if not isinstance(a, tuple)}
        ok_f = {(id(a[0]), a[1]) for a in allow if isinstance(a, tuple)}
        it = self.it
        for o in self.objs:
            if id(o) in ok_o:
                continue
            old, now = self.snap[id(o)], self._state(o)
            if isinstance(o, SObj):
                for k in sorted(set(old) | set(now)):
                    if (id(o), k) in ok_f:
                        continue
                    if k not in old:
                        continue  # new private attribute: not observable state
                    t = self._same(old[k], now.get(k, _GONE))
                    if t is not True:
                        it.c.check(f"{label}: frame, {o.tag or o.cls.__name__}.{k} unchanged", t)
            else:
                t = self._same(old, now)
                if t is not True:
                    it.c.check(f"{label}: frame, {o.tag or type(o).__name__} unchanged", t)
        for key, arr in it.c.heap.items():
            if key in heap_allow:
                continue
            if key in self.heap and not self.heap[key].eq(arr):
                it.c.check(f"{label}: frame, heap {key} unchanged", self.heap[key] == arr)


_GONE = object()


# ---- running ------------------------------------------------------------------
def run_contract(con):
    """Verify one contract; returns a JSON-able report."""
    eng = Engine(con.branch_ms, con.prove_ms, con.max_paths, con.budget_s)
    t0 = time.time()
    status, why = "ok", ""
    paths = done = 0

    def body(c):
        cfg = Config()
        it = Interp(c, cfg)
        con.configure(cfg)
        try:
            con.verify(it)
        except (IndexError, KeyError, AttributeError) as e:
            # The post-state a contract speaks of isn't there (say, an empty
            # list of effects, or the result of a call that raised): that's a
            # violation if this path is feasible. Anything that comes from
            # below a call into the code under contract isn't.
            files = [f.filename for f in traceback.extract_tb(e.__traceback__)][1:]
            while files and files[0] == __file__:
                files.pop(0)
            own = files and all(os.sep + "contracts" + os.sep in f for f in files)
            if not own or isinstance(e, AttributeError) and "'NoneType'" not in str(e):
                raise
            c.check("the post-state that the contract speaks of exists", False)

    try:
        paths, done = eng.explore(con, body)
    except Unsupported as e:
        status, why = "unsupported", str(e)
    except Undecided as e:
        status, why = "undecided", str(e)
    except PyExc as e:
        status, why = "unsupported", f"uncaught {e.exc!r} in contract code"
    except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, RecursionError, z3.Z3Exception, NotImplementedError) as e:
        status, why = "unsupported", "".join(traceback.format_exception(e)[-4:])[-1500:]
    obs = eng.obligations
    failed = [o for o in obs if o.status == "failed"]
    unknown = [o for o in obs if o.status == "unknown"]
    if status == "ok":
        if failed:
            status = "failed"
        elif unknown:
            status = "undecided"
            why = "solver unknown: " + "; ".join(sorted({o.label for o in unknown}))
        elif not obs:
            status, why = "vacuous", "no obligation was generated"
        else:
            miss = [l for l in con.covers if l not in getattr(eng, "covered", set())]
            if miss:
                status, why = "vacuous", f"unreachable: {miss}"
    elif failed:
        # obligations that failed before the verifier gave up still count
        why = f"{status}: {why}"
        status = "failed"
    backends = {}
    for o in obs:
        if o.status == "discharged":
            backends[o.backend] = backends.get(o.backend, 0) + 1
    return {
        "contract": con.name,
        "target": con.target,
        "status": status,
        "why": why,
        "paths": paths,
        "obligations": len(obs),
        "discharged": sum(o.status == "discharged" for o in obs),
        "labels": sorted({o.label for o in obs}),
        "failed": [{"label": o.label, "model": o.model, "path": o.path} for o in failed][:20],
        "unknown": sorted({o.label for o in unknown}),
        "backends": backends,
        "solver_s": round(eng.solver_s, 3),
        "wall_s": round(time.time() - t0, 3),
        "functions": sorted(getattr(eng, "used", set())),
        "trusted": sorted(getattr(eng, "trusted", set())),
        "modular": sorted(getattr(eng, "modular", set())),
    }


# ---- reusable function contracts -----------------------------------------------
class FnContract(Contract):
    """A pre/post contract both proved here and used at call sites.

    subclass: setup(it) -> args; pre(it,a); old(it,a); modifies(it,a,old);
    result(it,a,old) -> fresh value; post(it,a,old,r); raises(it,a,old) ->
    [(exception class, condition term)].
    """

    func = None
    covers = ("return",)

    def setup(self, it):
        raise NotImplementedError

    def pre(self, it, a):
        return []

    def old(self, it, a):
        return None

    def frame(self, it, a):
        return ()

    def raises(self, it, a, old):
        return []

    def post(self, it, a, old, r):
        return []

    def roots(self, it, a):
        return list(a)

    def verify(self, it):
        a = self.setup(it)
        for _, t in self.pre(it, a):
            it.c.assume(t)
        old = self.old(it, a)
        rs = self.raises(it, a, old)
        fr = Frame(it, *self.roots(it, a))
        o = call(it, self.func, *a)
        if o.ok:
            cover(it, "return")
            for cls, cond in rs:
                it.c.check(f"{self.name}: {cls.__name__} raised when required", z3.Not(cond) if not isinstance(cond, bool) else not cond)
            for label, t in self.post(it, a, old, o.value):
                it.c.check(f"{self.name}: {label}", t)
            fr.check(self.name, self.frame(it, a))
        else:
            cover(it, "raise")
            conds = [cond for cls, cond in rs if issubclass(o.exc.cls, cls)]
            it.c.check(f"{self.name}: {o.exc.cls.__name__} only when allowed", it.any_(conds) if conds else False)
            fr.check(self.name + " (exceptional)", self.frame_exc(it, a))

    def frame_exc(self, it, a):
        return ()

    # modular use: the caller sees only this contract
    def havoc(self, it, a, old):
        pass

    def result(self, it, a, old):
        return None

    def apply(self, it, args, kw):
        if kw:
            raise Unsupported("keyword call of a function under contract")
        it.c.eng.modular = getattr(it.c.eng, "modular", set())
        it.c.eng.modular.add(self.name)
        a = args
        for label, t in self.pre(it, a):
            it.c.check(f"precondition of {self.name}: {label}", t)
        old = self.old(it, a)
        for cls, cond in self.raises(it, a, old):
            if it.c.branch(cond):
                it.throw(cls, self.name)
        self.havoc(it, a, old)
        r = self.result(it, a, old)
        for _, t in self.post(it, a, old, r):
            it.c.assume(t)
        return r
