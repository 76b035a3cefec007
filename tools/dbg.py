#!/usr/bin/env python3-vt
"""dbg.py ID contract-substring: run one contract, timing each obligation."""
import sys, os, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("PYVC_REPO", "/repo"), HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import importlib.util
from pyvc import ctx, contract
spec = importlib.util.spec_from_file_location("c", f"{HERE}/contracts/{sys.argv[1]}.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
orec = ctx.Engine.record
def rec(self, ob):
    orec(self, ob)
    if ob.secs > 0.5 or ob.status != "discharged" or "-a" in sys.argv:
        print(f"  {ob.status} {ob.secs:.2f}s {ob.backend} {ob.label} {ob.path} {ob.model or ''}", flush=True)
ctx.Engine.record = rec
osat = ctx.Ctx._sat
def sat(self, t):
    t0 = time.time(); r = osat(self, t); d = time.time() - t0
    if d > 0.5:
        print(f"  branch {d:.2f}s {str(t)[:300]} {self.trace}", flush=True)
    return r
ctx.Ctx._sat = sat
if "-x" in sys.argv:
    oi = contract.Out.__init__
    def ini(self, value=None, exc=None):
        if exc is not None:
            print("  exc", exc.cls.__name__, getattr(exc, "args", None), flush=True)
        oi(self, value, exc)
    contract.Out.__init__ = ini
for c in m.CONTRACTS:
    if len(sys.argv) > 2 and sys.argv[2] in c.name:
        r = contract.run_contract(c)
        print({k: r[k] for k in ("contract", "status", "why", "paths", "obligations", "discharged", "wall_s", "solver_s", "modular")})
