"""Path exploration, path conditions and proof obligations."""
from __future__ import annotations
import os
import subprocess
import tempfile
import time
import z3
from .values import PathEnd, Undecided, SORTS, Sym

# a query that runs away ends its contract (undecided), not the machine
z3.set_param("memory_max_size", 3500)


CVC5 = "cvc5"


class Obligation:
    def __init__(self, contract, label, status, path, secs, backend, model=None, detail=""):
        self.contract, self.label, self.status = contract, label, status
        self.path, self.secs, self.backend = path, secs, backend
        self.model, self.detail = model, detail


_hq = {}


def has_quant(t):
    """Does a term contain a quantifier (or lambda)?"""
    k = t.get_id()
    hit = _hq.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            r = True
            break
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    _hq[k] = (t, r)
    return r


class Ctx:
    """One path of one contract; re-executed from scratch for every path."""

    def __init__(self, eng, contract, prefix):
        self.eng = eng
        self.contract = contract
        self.prefix = prefix
        self.trace = []
        self.n = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.branch_ms)
        self.qf = z3.Solver()  # the quantifier-free facts: cheap feasibility
        self.qf.set("timeout", eng.branch_ms)
        self.quant = False
        self.pc = []
        self.heap = {}
        self.ghost = {}
        self.inputs = {}
        self.frames = []
        self.alloc0 = None
        self.allocs = 0
        self.notes = []

    # -- symbols ---------------------------------------------------------
    def fresh(self, sort, name):
        self.n += 1
        return z3.Const(f"{name}!{self.n}", sort)

    def sym(self, k, name, inp=True):
        """A new unconstrained input of kind k."""
        t = self.fresh(SORTS[k], name)
        if inp:
            self.inputs[name] = (k, t)
        return Sym(k, t)

    # -- path condition -----------------------------------------------------
    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)
        if has_quant(t):
            self.quant = True
        else:
            self.qf.add(t)
        if z3.is_false(t):
            raise PathEnd()

    def _sat(self, t):
        t0 = time.time()
        if not has_quant(t):
            self.qf.push()
            self.qf.add(t)
            r = self.qf.check()
            self.qf.pop()
            if r == z3.unsat or not self.quant:
                self.eng.solver_s += time.time() - t0
                return r != z3.unsat
        self.solver.push()
        self.solver.set("timeout", self.eng.quant_ms if self.quant else self.eng.branch_ms)
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        self.solver.set("timeout", self.eng.branch_ms)
        self.eng.solver_s += time.time() - t0
        return r != z3.unsat

    def feasible(self):
        t0 = time.time()
        r = self.solver.check()
        self.eng.solver_s += time.time() - t0
        return r

    def branch(self, t):
        """Decide a condition, forking the path when both ways are open."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._decide([t, z3.Not(t)]) == 0

    def choose(self, n, label=""):
        """Fork into n unconstrained alternatives."""
        return self._decide([z3.BoolVal(True)] * n, check=False)

    def _decide(self, alts, check=True):
        self.eng.tick()
        i = len(self.trace)
        if i < len(self.prefix):
            pick = self.prefix[i]
            self.trace.append(pick)
            self.assume(alts[pick])
            return pick
        open_ = []
        for j, a in enumerate(alts):
            if not check or (j == len(alts) - 1 and not open_) or self._sat(a):
                open_.append(j)
        pick = open_[0]
        for j in open_[1:]:
            self.eng.push(self.trace + [j])
        self.trace.append(pick)
        self.assume(alts[pick])
        return pick

    # -- obligations ---------------------------------------------------------
    def check(self, label, t, assume=True):
        """Prove that t holds on this path."""
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        t0 = time.time()
        status, backend, model = self._prove(t)
        self.eng.record(
            Obligation(self.contract.name, label, status, list(self.trace), time.time() - t0, backend, model)
        )
        if assume:
            # continue on the assumption that it holds (as a verifier does)
            if status == "failed":
                raise PathEnd()
            self.assume(t)

    def _prove(self, t):
        ts = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(ts):
            return "discharged", "simplifier", None
        # short attempts first (incremental z3, a fresh z3, cvc5), then long ones
        # the back end that did the last hard one first
        eng = self.eng
        order = eng.order = getattr(eng, "order", ["_p_inc", "_p_fresh", "_p_cvc5"])
        for full in (False, True):
            for stage in list(order):
                t0 = time.time()
                r = getattr(self, stage)(ts, full)
                if r is not None:
                    if stage != order[0]:
                        order.remove(stage)
                        order.insert(0, stage)
                    return r
        return "unknown", "z3+cvc5", None

    def _p_inc(self, ts, full):
        eng = self.eng
        self.solver.push()
        self.solver.set("timeout", eng.prove_ms if full else min(eng.prove_ms, 2000))
        self.solver.add(z3.Not(ts))
        t0 = time.time()
        r = self.solver.check()
        eng.solver_s += time.time() - t0
        model = self._model(self.solver.model()) if r == z3.sat else None
        self.solver.pop()
        self.solver.set("timeout", eng.branch_ms)
        return self._p_result(r, "z3", model)

    def _p_result(self, r, backend, model):
        return ("discharged", backend, None) if r == z3.unsat else ("failed", backend, model) if r == z3.sat else None

    def _p_solver(self, ts):
        s = z3.Solver()
        s.add(*self.pc)
        s.add(z3.Not(ts))
        return s

    def _p_fresh(self, ts, full):
        eng = self.eng
        s = self._p_solver(ts)
        s.set("timeout", eng.prove_ms if full else min(eng.prove_ms, 3000))
        t0 = time.time()
        r = s.check()
        eng.solver_s += time.time() - t0
        return self._p_result(r, "z3-fresh", self._model(s.model()) if r == z3.sat else None)

    def _p_cvc5(self, ts, full):
        ms = self.eng.prove_ms if full else min(self.eng.prove_ms, 5000)
        return ("discharged", "cvc5", None) if self._cvc5(self._p_solver(ts), ms) == "unsat" else None

    def _cvc5(self, s, ms):
        text = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        fd, path = tempfile.mkstemp(suffix=".smt2")
        with os.fdopen(fd, "w") as f:
            f.write(text)
        t0 = time.time()
        try:
            out = subprocess.run(
                [CVC5, f"--tlimit={ms}", "--strings-exp", path],
                capture_output=True, text=True, timeout=ms / 1000 + 5,
            ).stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
        finally:
            self.eng.solver_s += time.time() - t0
            os.unlink(path)

    def _model(self, m):
        out = {}
        for name, (k, t) in self.inputs.items():
            try:
                v = m.eval(t, model_completion=True)
                if k == "int":
                    out[name] = v.as_long()
                elif k == "bool":
                    out[name] = z3.is_true(v)
                elif k == "real":
                    out[name] = str(v)
                elif k in ("str", "bytes"):
                    s = v.as_string()
                    s = _unescape(s)
                    out[name] = s if k == "str" else {"bytes": s.encode("latin-1", "replace").hex()}
                else:
                    out[name] = str(v)
            except Exception as e:  # model values are only hints
                out[name] = f"?{e}"
        return out


def _unescape(s):
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class Engine:
    """Explores all paths of a contract's verification condition."""

    def __init__(self, branch_ms=4000, prove_ms=20000, max_paths=3000, budget_s=240):
        self.branch_ms, self.prove_ms = branch_ms, prove_ms
        self.max_paths, self.budget_s = max_paths, budget_s
        self.quant_ms = 300
        self.solver_s = 0.0
        self.obligations = []
        self.work = []
        self.t0 = time.time()

    def tick(self):
        if time.time() - self.t0 > self.budget_s:
            raise Undecided("time budget exhausted")

    def push(self, prefix):
        self.work.append(prefix)

    def record(self, ob):
        self.obligations.append(ob)

    def explore(self, contract, body):
        """body(ctx) runs one path. Returns number of completed paths."""
        self.t0 = time.time()
        self.work = [[]]
        paths = done = 0
        while self.work:
            if paths >= self.max_paths:
                raise Undecided(f"more than {self.max_paths} paths")
            prefix = self.work.pop()
            paths += 1
            c = Ctx(self, contract, prefix)
            try:
                body(c)
                done += 1
            except PathEnd:
                pass
        return paths, done
