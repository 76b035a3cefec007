"""Symbolic interpreter for the Python subset runtimepy is written in.

It executes the real source (the AST of the file the imported function comes
from), never a copy. What it drops: annotations, docstrings, logging.
"""
from __future__ import annotations
import ast
import builtins
import enum
import re
import inspect
import operator
import sys
import types
import typing
import z3
from .values import *
from .values import Noop, NOOP

LOGGING = {"Logger." + x for x in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn")}
PURE_MODULES = {"builtins", "math", "operator", "struct", "re", "posixpath", "os.path", "enum", "string", "ctypes", "_ctypes",
                "_operator", "_struct", "functools", "fractions", "typing"}
SRC_OK = ("/runtimepy/", "/vcorelib/", "/contracts/")
IMMUT = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, enum.Enum, type, types.ModuleType, range,
         types.BuiltinFunctionType, types.FunctionType, type(Ellipsis))
INTERP_T = (Sym, Mut, Ref, FuncVal, Bound, Prim, GenVal, CoroVal, RangeVal, View, SuperVal, ExcVal, NT, Noop)

_files = {}


def _index(path):
    if path not in _files:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(line, n.name)] = n
                _number_loops(n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, "<lambda>"), n)
        _files[path] = idx
    return _files[path]


def _number_loops(fn):
    k = 0

    def go(n):
        nonlocal k
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(ch, (ast.For, ast.While, ast.AsyncFor)):
                ch._ord = k
                k += 1
            go(ch)

    go(fn)
    c = 0
    for n in ast.walk(fn):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            n._ord = f"c{c}"
            c += 1


def has_yield(fn):
    r = getattr(fn, "_has_yield", None)
    if r is None:
        r = False
        stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        fn._has_yield = r
    return r


def assigned_names(nodes):
    out = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            # comprehension targets are local to it
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    out.add(s.target.id)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


class Env:
    """A function activation."""

    def __init__(self, fn, parent=None):
        self.fn = fn
        self.vars = {}
        self.parent = parent
        self.nonlocals = set()
        self.globals_ = set()
        self.handler = None
        self.loops = 0

    def get(self, name):
        return self.vars[name]


class LoopSpec:
    """A loop contract: invariant + frame (what the loop may change)."""

    def __init__(self, inv, havoc=None, decreases=None, locals_=None, after=None, members=False):
        self.members = members  # iterate an AList as the set of its members (order and repetition ignored)
        self.inv, self.havoc, self.decreases, self.locals_, self.after = inv, havoc, decreases, locals_ or {}, after


class Config:
    """What a contract tells the interpreter about its surroundings."""

    def __init__(self):
        self.loops = {}  # (qualname, ordinal) -> LoopSpec
        self.models = {}  # id(real callable) -> Prim
        self.summaries = {}  # id(real function) -> Contract
        self.call_any = None  # (it, value, args) -> value, calls of opaque values
        self.on_await = None
        self.overrides = {}  # id(live object) -> value
        self.trusted = set()
        self.keep = []  # keeps ids alive

    def model(self, obj, fn, name=None):
        self.keep.append(obj)
        self.models[id(obj)] = Prim(fn, name or getattr(obj, "__qualname__", str(obj)))

    def loop(self, func, ordinal, spec):
        self.loops[(qual(func), ordinal)] = spec


def qual(f):
    f = getattr(f, "__func__", f)
    f = getattr(f, "fget", f)
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    return f"{f.__module__}:{f.__qualname__}"


def int_bv(t):
    """A small-constant integer term (e.g. int(bool)) as a bit vector."""
    if z3.is_int_value(t) and abs(t.as_long()) < 1 << (BVW - 2):
        return z3.BitVecVal(t.as_long(), BVW)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = int_bv(t.arg(1)), int_bv(t.arg(2))
        if a is not None and b is not None:
            return z3.If(t.arg(0), a, b)
    return None


def ite_const(fn, x, y):
    """fn over two terms that are case distinctions over constants."""
    if z3.is_int_value(x) and z3.is_int_value(y):
        return z3.IntVal(fn(x.as_long(), y.as_long()))
    for i, t in enumerate((x, y)):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            ps = [(t.arg(k), y) if i == 0 else (x, t.arg(k)) for k in (1, 2)]
            a, b = ite_const(fn, *ps[0]), ite_const(fn, *ps[1])
            return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


class Interp:
    def __init__(self, ctx, cfg=None):
        self.c = ctx
        self.cfg = cfg or Config()
        self.depth = 0
        self.bodies = []  # loop bodies that run at the yields of the running generators
        self.used = set()  # functions whose real source was interpreted
        ctx.eng.used = getattr(ctx.eng, "used", set())

    # ---------------------------------------------------------------- scalars
    def is_conc(self, v):
        if isinstance(v, tuple) and not isinstance(v, NT):
            return all(self.is_conc(x) for x in v)
        return not isinstance(v, INTERP_T)

    def kind(self, v):
        if isinstance(v, Sym):
            return v.k
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "real"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, MBytes):
            return "bytes"
        return None

    def term(self, v, k=None):
        """z3 term of a scalar value at kind k."""
        if isinstance(v, MBytes):
            v = Sym("bytes", v.t)
        if isinstance(v, Sym):
            if k is None or v.k == k:
                return v.t
            if v.k == "bool" and k == "int":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.k == "bool" and k == "real":
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if v.k == "int" and k == "real":
                return z3.ToReal(v.t)
            if k == "any":
                return self.box(v)
            if k == "bv":
                t = v.t if v.k == "int" else z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if v.k == "bool" else None
                t = int_bv(t) if t is not None else None
                if t is not None:
                    return t
            raise Unsupported(f"kind {v.k} used as {k}: {str(v.t)[:80]}")
        if k is None:
            k = self.kind(v)
        if k == "any":
            return self.box(v)
        if isinstance(v, (bool, int)) and k == "int":
            return z3.IntVal(int(v))
        if isinstance(v, (bool, int)) and k == "bv":
            if abs(int(v)) >= 1 << (BVW - 2):
                raise Unsupported("integer constant outside the bit-vector range")
            return z3.BitVecVal(int(v), BVW)
        if isinstance(v, bool) and k == "bool":
            return z3.BoolVal(v)
        if isinstance(v, (bool, int)) and k == "real":
            return z3.RealVal(int(v))
        if isinstance(v, float) and k == "real":
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float constant")
            from fractions import Fraction

            f = Fraction(v)
            return z3.Q(f.numerator, f.denominator)
        if isinstance(v, str) and k == "str":
            return z3.StringVal(v)
        if isinstance(v, (bytes, bytearray)) and k == "bytes":
            return z3.StringVal(v.decode("latin-1"))
        if isinstance(v, MList) and v.cls is bytes:
            return v.seq
        raise Unsupported(f"{v!r} used as {k}")

    def box(self, v):
        """An opaque-sort term for a concrete or symbolic value."""
        if isinstance(v, Sym):
            if v.k == "any":
                return v.t
            f = z3.Function(f"box_{v.k}", v.t.sort(), U)
            return f(v.t)
        if self.is_conc(v):
            key = f"{type(v).__name__}_{v!r}" if isinstance(v, (int, str, bytes, float, bool, type(None))) else f"obj_{id(v)}"
            return z3.Const("const_" + key, U)
        if isinstance(v, Mut):
            return z3.Const(f"mut_{v.serial}", U)
        raise Unsupported(f"box {v!r}")

    def truth(self, v):
        """Truth value: a Python bool or a z3 term."""
        if isinstance(v, Sym):
            if v.k == "bool":
                return v.t
            if v.k in ("int", "real", "bv"):
                return v.t != 0
            if v.k in ("str", "bytes"):
                return z3.Length(v.t) > 0
            if v.k == "any":
                return z3.Function("truth_any", U, z3.BoolSort())(v.t)
        if isinstance(v, (NT, tuple)):
            t = v.cls if isinstance(v, NT) else type(v)
            if t is not tuple:
                f = self.class_attr(t, "__bool__")
                if isinstance(f, types.FunctionType):
                    return self.truth(self.call(self.bind(f, v, t), []))
            return len(v) > 0
        if isinstance(v, MList):
            return len(v.items) > 0 if v.conc else z3.Length(v.seq) > 0
        if isinstance(v, AList):
            return v.n > 0
        if isinstance(v, (MDict, MSet)):
            n = self.length(v)
            return self.truth(n)
        if isinstance(v, MBytes):
            return z3.Length(v.t) > 0
        if isinstance(v, SObj):
            for m in ("__bool__", "__len__"):
                f = self.class_attr(v.cls, m)
                if f is not None:
                    return self.truth(self.call(self.bind(f, v, v.cls), []))
            return True
        if isinstance(v, Ref):
            f = self.class_attr(v.spec.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v, v.spec.cls), []))
            return True
        if isinstance(v, Cell):
            return self.truth(v.value)  # ctypes scalars are false when zero
        if isinstance(v, RangeVal):
            return self.term(v.lo, "int") < self.term(v.hi, "int")
        if isinstance(v, (FuncVal, Bound, Prim, GenVal, CoroVal, ExcVal, Noop, Stream)):
            return True
        if isinstance(v, INTERP_T):
            raise Unsupported(f"truth of {v!r}")
        t = type(v)
        if isinstance(v, IMMUT) and not isinstance(v, enum.Enum):
            return bool(v)
        f = self.class_attr(t, "__bool__")
        if f is not None and isinstance(f, types.FunctionType):
            return self.truth(self.call(self.bind(f, v, t), []))
        return bool(v)

    def test(self, v):
        return self.c.branch(self.truth(v))

    # ------------------------------------------------------------- exceptions
    def throw(self, cls, *args):
        raise PyExc(ExcVal(cls, args))

    def native(self, fn, *args, **kw):
        try:
            return fn(*args, **kw)
        except (PyExc, PathEnd, Unsupported, Undecided):
            raise
        except Exception as e:
            raise PyExc(ExcVal(type(e), e.args)) from None

    # ------------------------------------------------------------- operations
    BIN = {
        ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
        ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
    }
    DUNDER = {
        ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
        ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor",
    }

    def binop(self, op, a, b, inplace=False):
        if self.is_conc(a) and self.is_conc(b) and not isinstance(a, (list, dict, set)) and not isinstance(b, (list, dict, set)):
            return self.native(self.BIN[op], a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return tuple(a) + tuple(b)
        a, b = self.unlive(a), self.unlive(b)
        if isinstance(a, MBytes) and op is ast.Add:
            tb = self.term(b, "bytes")
            if inplace:
                a.t = z3.Concat(a.t, tb)
                return a
            return Sym("bytes", z3.Concat(a.t, tb))
        if isinstance(a, MList) and op is ast.Add:
            if inplace:
                self.list_extend(a, b)
                return a
            return self.list_concat(a, b)
        if isinstance(a, MList) and op is ast.Mult and a.conc and isinstance(b, int):
            return MList(items=list(a.items) * b)
        if isinstance(a, MSet) or isinstance(b, MSet):
            return self.set_op(op, a, b, inplace)
        if isinstance(a, MDict) and op is ast.BitOr and a.conc:
            r = MDict(pairs=[list(p) for p in a.pairs])
            self.dict_update(r, b)
            return r
        ka, kb = self.kind(a), self.kind(b)
        if "bv" in (ka, kb):
            return self.bv_arith(op, self.term(a, "bv"), self.term(b, "bv"))
        if ka in ("str", "bytes") and op is ast.Add:
            if ka != kb:
                self.throw(TypeError, "concat")
            return Sym(ka, z3.Concat(self.term(a, ka), self.term(b, ka)))
        if ka == "str" and op is ast.Mod:
            return self.opaque_str("fmt", [a, b])
        if ka in ("str", "bytes") and op is ast.Mult and isinstance(b, int):
            return Sym(ka, z3.Concat(*[self.term(a, ka)] * b) if b > 1 else (a.t if b == 1 else z3.StringVal("")))
        if ka in ("int", "bool", "real") and kb in ("int", "bool", "real"):
            return self.arith(op, a, b, ka, kb)
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            cls = x.cls if isinstance(x, SObj) else x.spec.cls if isinstance(x, Ref) else None
            if cls is not None:
                f = self.class_attr(cls, f"__{pre}{self.DUNDER[op]}__")
                if f is not None:
                    return self.call(self.bind(f, x, cls), [y])
        if op is ast.Div and not isinstance(a, INTERP_T) and isinstance(b, Sym):
            raise Unsupported("path join")
        raise Unsupported(f"{op.__name__} on {a!r}, {b!r}")

    def arith(self, op, a, b, ka, kb):
        k = "real" if "real" in (ka, kb) else "int"
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and ka == kb == "bool":
            x, y = self.term(a, "bool"), self.term(b, "bool")
            return Sym("bool", {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](x, y))
        if op is ast.Div:
            y = self.term(b, "real")
            if self.c.branch(y == 0):
                self.throw(ZeroDivisionError, "division by zero")
            return Sym("real", self.term(a, "real") / y)
        x, y = self.term(a, k), self.term(b, k)
        if op is ast.Add:
            return Sym(k, x + y)
        if op is ast.Sub:
            return Sym(k, x - y)
        if op is ast.Mult:
            return Sym(k, x * y)
        if op in (ast.FloorDiv, ast.Mod):
            if self.c.branch(y == 0):
                self.throw(ZeroDivisionError, "division by zero")
            if k == "real":
                q = z3.ToReal(z3.ToInt(x / y))
                return Sym(k, q if op is ast.FloorDiv else x - q * y)
            # floor semantics from z3's Euclidean division
            if self.c.branch(y > 0):
                q = x / y
            else:
                q = (-x) / (-y)
            return Sym(k, q if op is ast.FloorDiv else x - q * y)
        if op is ast.Pow:
            if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
                r = z3.IntVal(1) if k == "int" else z3.RealVal(1)
                for _ in range(b):
                    r = r * x
                return Sym(k, r)
            if isinstance(a, int) and a == 2 and k == "int":
                if self.c.branch(y < 0):
                    raise Unsupported("negative power")
                return Sym("int", self.pow2(y))
            raise Unsupported("general power")
        if k != "int":
            self.throw(TypeError, "unsupported operand")
        if op is ast.LShift:
            if self.c.branch(y < 0):
                self.throw(ValueError, "negative shift count")
            return Sym("int", x * self.pow2(y))
        if op is ast.RShift:
            if self.c.branch(y < 0):
                self.throw(ValueError, "negative shift count")
            return Sym("int", x / self.pow2(y))
        return Sym("int", self.bitop(op, x, y))

    # ints modelled as 192-bit two's complement: exact because every
    # operation is accompanied by an obligation that it stays in range
    def bv_arith(self, op, x, y):
        def rng(t, why):
            self.c.check(f"bit arithmetic in range ({why})", t)

        lo, hi = z3.BitVecVal(-(1 << (BVW - 2)), BVW), z3.BitVecVal(1 << (BVW - 2), BVW)
        if op is ast.BitAnd:
            return Sym("bv", x & y)
        if op is ast.BitOr:
            return Sym("bv", x | y)
        if op is ast.BitXor:
            return Sym("bv", x ^ y)
        if op in (ast.LShift, ast.RShift):
            if self.c.branch(y < 0):
                self.throw(ValueError, "negative shift count")
            if op is ast.RShift:
                return Sym("bv", z3.If(y >= BVW, z3.If(x < 0, z3.BitVecVal(-1, BVW), z3.BitVecVal(0, BVW)), x >> y))
            r = x << y
            rng(z3.And(y < BVW, (r >> y) == x, r >= lo, r < hi), "shift")
            return Sym("bv", r)
        if op is ast.Pow and z3.is_bv_value(z3.simplify(x)) and z3.simplify(x).as_long() == 2:
            if self.c.branch(y < 0):
                raise Unsupported("negative power")
            rng(z3.And(y >= 0, y < BVW - 2), "power")
            return Sym("bv", z3.BitVecVal(1, BVW) << y)
        if op in (ast.Add, ast.Sub):
            rng(z3.And(x >= lo, x < hi, y >= lo, y < hi), "sum")
            return Sym("bv", x + y if op is ast.Add else x - y)
        if op is ast.Mult:
            rng(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), "product")
            return Sym("bv", x * y)
        raise Unsupported(f"{op.__name__} on bit vectors")

    # bit operations on unbounded integers: through 2's complement vectors of
    # stated width; operands must provably fit, else the answer is undecided
    BITW = 160

    def bitop(self, op, x, y):
        W = self.BITW
        lim = z3.IntVal(1 << (W - 2))
        for t in (x, y):
            if z3.is_int_value(z3.simplify(t)):
                continue
        r = ite_const(lambda a, b: {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[op], x, y)
        if r is not None:
            return r
        bx, by = z3.Int2BV(x, W), z3.Int2BV(y, W)
        r = {ast.BitAnd: bx & by, ast.BitOr: bx | by, ast.BitXor: bx ^ by}[op]
        # operands outside the vector range are excluded: an obligation
        self.c.check("bit operand range", z3.And(x < lim, x >= -lim, y < lim, y >= -lim))
        return z3.BV2Int(r, is_signed=True)

    def pow2(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return z3.IntVal(2 ** t.as_long())
        f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        r = f(t)
        self.c.assume(r >= 1)
        self.c.assume(z3.Implies(t >= 1, z3.And(r == 2 * f(t - 1), f(t - 1) >= 1)))
        self.c.assume(f(z3.IntVal(0)) == 1)
        self.c.assume(z3.Implies(t >= 0, r > t))
        for k in (8, 16, 32, 64, 128):
            self.c.assume(z3.Implies(t <= k, r <= 2**k))
        return r

    def unop(self, op, a):
        if isinstance(op, ast.Not):
            t = self.truth(a)
            return (not t) if isinstance(t, bool) else Sym("bool", z3.Not(t))
        if self.is_conc(a):
            return self.native({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)], a)
        k = self.kind(a)
        if k == "bv":
            if isinstance(op, ast.Invert):
                return Sym("bv", ~a.t)
            return self.bv_arith(ast.Sub, z3.BitVecVal(0, BVW), a.t) if isinstance(op, ast.USub) else a
        if k in ("int", "bool", "real"):
            kk = "real" if k == "real" else "int"
            if isinstance(op, ast.USub):
                return Sym(kk, -self.term(a, kk))
            if isinstance(op, ast.UAdd):
                return Sym(kk, self.term(a, kk))
            return Sym("int", -self.term(a, "int") - 1)
        raise Unsupported(f"unary on {a!r}")

    def eq(self, a, b):
        """Equality: Python bool or z3 term."""
        if a is b:
            return True
        if self.is_conc(a) and self.is_conc(b):
            ta = type(a)
            f = getattr(ta, "__eq__", None)
            return bool(self.native(operator.eq, a, b))
        a, b = self.unlive(a), self.unlive(b)
        ka, kb = self.kind(a), self.kind(b)
        num = ("int", "bool", "real")
        if "bv" in (ka, kb) and ka in num + ("bv",) and kb in num + ("bv",):
            return self.term(a, "bv") == self.term(b, "bv")
        if ka in num and kb in num:
            if ka == kb == "bool":
                return self.term(a, "bool") == self.term(b, "bool")
            k = "real" if "real" in (ka, kb) else "int"
            return self.term(a, k) == self.term(b, k)
        if ka and kb:
            if "any" in (ka, kb):
                return self.term(a, "any") == self.term(b, "any")
            if ka != kb:
                return False
            return self.term(a, ka) == self.term(b, kb)
        if "any" in (ka, kb):
            return self.term(a, "any") == self.term(b, "any")
        if isinstance(a, (tuple, MList)) and isinstance(b, (tuple, MList)):
            return self.seq_eq(a, b)
        if isinstance(a, SObj) or isinstance(b, SObj) or isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                cls = x.cls if isinstance(x, SObj) else x.spec.cls if isinstance(x, Ref) else None
                if cls is None:
                    continue
                f = self.class_attr(cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    return self.truth(self.call(self.bind(f, x, cls), [y]))
            if isinstance(a, Ref) and isinstance(b, Ref):
                return a.t == b.t
            return False
        if isinstance(a, MDict) and isinstance(b, MDict):
            return self.dict_eq(a, b)
        if isinstance(a, MSet) and isinstance(b, MSet) and not a.conc and not b.conc:
            return a.mem == b.mem
        if a is None or b is None:
            return False
        if isinstance(a, ExcVal) or isinstance(b, ExcVal):
            return False
        if ka or kb:
            return False
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def seq_eq(self, a, b):
        ia = list(a) if isinstance(a, tuple) else a.items
        ib = list(b) if isinstance(b, tuple) else b.items
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return False
            return self.all_([self.eq(x, y) for x, y in zip(ia, ib)])
        sa, sb = self.seq_term(a, b), self.seq_term(b, a)
        return sa == sb

    def seq_term(self, a, like):
        if isinstance(a, MList) and not a.conc:
            return a.seq
        ty = like.ty if isinstance(like, MList) else None
        if ty is None:
            raise Unsupported("sequence element type")
        items = list(a) if isinstance(a, tuple) else a.items
        return self.seq_of(items, ty)

    def seq_of(self, items, ty):
        us = [z3.Unit(ty.enc(self, x)) for x in items]
        if not us:
            return z3.Empty(z3.SeqSort(ty.sort))
        return us[0] if len(us) == 1 else z3.Concat(*us)

    def all_(self, ts):
        if any(t is False for t in ts):
            return False
        ts = [t for t in ts if t is not True]
        if not ts:
            return True
        return z3.And(*ts) if len(ts) > 1 else ts[0]

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if self.is_conc(a) and self.is_conc(b):
            return bool(self.native(f, a, b))
        ka, kb = self.kind(a), self.kind(b)
        if "bv" in (ka, kb):
            return f(self.term(a, "bv"), self.term(b, "bv"))
        if ka in ("int", "bool", "real") and kb in ("int", "bool", "real"):
            k = "real" if "real" in (ka, kb) else "int"
            return f(self.term(a, k), self.term(b, k))
        if ka == kb == "str" or ka == kb == "bytes":
            x, y = self.term(a, ka), self.term(b, ka)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()
        if ka and kb and ka != kb and "any" not in (ka, kb):
            self.throw(TypeError, "unorderable")
        if isinstance(a, MSet) and isinstance(b, MSet) and isinstance(op, ast.LtE):
            x = self.c.fresh(a.ty.sort, "x")
            return z3.ForAll([x], z3.Implies(a.mem[x], b.mem[x]))
        raise Unsupported(f"compare {a!r} {b!r}")

    def not_(self, t):
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.t == b.t
        if isinstance(a, Sym) and isinstance(b, Sym) and a.k == b.k == "bool":
            return a.t == b.t
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.k == "bool" and isinstance(y, bool):
                return x.t if y else z3.Not(x.t)
            if isinstance(x, Sym) and x.k == "any":
                return self.term(a, "any") == self.term(b, "any")
        if self.is_conc(a) and self.is_conc(b):
            if isinstance(a, (int, str, bytes, float)) and isinstance(b, (int, str, bytes, float)):
                return a is b or (type(a) is type(b) and a == b)
        return False

    # ------------------------------------------------------------ containers
    def unlive(self, v):
        """View a live concrete container as an interpreter container."""
        if isinstance(v, list):
            return MList(items=list(v))
        if isinstance(v, dict):
            return MDict(pairs=[[k, x] for k, x in v.items()])
        if isinstance(v, (set, frozenset)):
            return MSet(items=list(v))
        return v

    def contains(self, cont, x):
        cont = self.unlive(cont)
        if isinstance(cont, (type({}.keys()), type({}.values()))):
            cont = MList(items=list(cont))
        if isinstance(cont, tuple):
            return self.any_([self.eq(y, x) for y in cont])
        if isinstance(cont, MList):
            if cont.conc:
                return self.any_([self.eq(y, x) for y in cont.items])
            return z3.Contains(cont.seq, z3.Unit(cont.ty.enc(self, x)))
        if isinstance(cont, AList):
            if cont.mem is None:
                raise Unsupported("membership of a rewritten list")
            return cont.mem[cont.ty.enc(self, x)]
        if isinstance(cont, MDict):
            if cont.conc:
                return True if any(k is x for k, _ in cont.pairs) else self.any_([self.key_eq(k, x) for k, _ in cont.pairs])
            if not self.compatible(cont.kty, x):
                return False
            return cont.dom[cont.kty.enc(self, x)]
        if isinstance(cont, MSet):
            if cont.conc:
                return True if any(k is x for k in cont.items) else self.any_([self.key_eq(k, x) for k in cont.items])
            return cont.mem[cont.ty.enc(self, x)]
        if isinstance(cont, View) and cont.kind == "keys":
            return self.contains(cont.src[0], x)
        if isinstance(cont, View) and cont.kind == "values" and cont.src[0].conc:
            return self.any_([self.eq(v, x) for _, v in cont.src[0].pairs])
        if isinstance(cont, RangeVal) and cont.step == 1:
            t = self.term(x, "int")
            return z3.And(self.term(cont.lo, "int") <= t, t < self.term(cont.hi, "int"))
        k = self.kind(cont)
        if k in ("str", "bytes"):
            if k == "bytes" and self.kind(x) == "int":
                return z3.Contains(self.term(cont, k), z3.CharFromBv(z3.Int2BV(self.term(x, "int"), 18)))
            if self.kind(x) != k:
                self.throw(TypeError, "in <string> requires string")
            return z3.Contains(self.term(cont, k), self.term(x, k))
        if isinstance(cont, (SObj, Ref)):
            cls = cont.cls if isinstance(cont, SObj) else cont.spec.cls
            f = self.class_attr(cls, "__contains__")
            if f is not None:
                return self.truth(self.call(self.bind(f, cont, cls), [x]))
        if self.is_conc(cont) and self.is_conc(x):
            return bool(self.native(operator.contains, cont, x))
        if isinstance(cont, type) and issubclass(cont, enum.Enum):
            return self.any_([self.eq(m.value, x) for m in cont])
        raise Unsupported(f"contains {cont!r}")

    def any_(self, ts):
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        if not ts:
            return False
        return z3.Or(*ts) if len(ts) > 1 else ts[0]

    def compatible(self, ty, v):
        k = self.kind(v)
        if isinstance(ty, Scalar) and k:
            num = ("int", "bool")
            return ty.k == k or ty.k == "any" or k == "any" or (ty.k in num and k in num)
        if isinstance(ty, Scalar) and ty.k != "any" and v is None:
            return False
        return True

    def length(self, v):
        v = self.unlive(v)
        if isinstance(v, (tuple,)):
            return len(v)
        if isinstance(v, MList):
            return len(v.items) if v.conc else Sym("int", z3.Length(v.seq))
        if isinstance(v, MDict):
            if v.conc:
                return len(v.pairs)
            if v.order is not None:
                return Sym("int", v.order.n)
            if v.size is None:
                raise Unsupported("size of a symbolic dict")
            return Sym("int", v.size)
        if isinstance(v, MSet):
            if v.conc:
                return len(v.items)
            raise Unsupported("size of a symbolic set")
        if isinstance(v, AList):
            return Sym("int", v.n)
        if isinstance(v, MBytes):
            return Sym("int", z3.Length(v.t))
        if isinstance(v, Sym) and v.k in ("str", "bytes"):
            return Sym("int", z3.Length(v.t))
        if isinstance(v, SObj):
            f = self.class_attr(v.cls, "__len__")
            if f is not None:
                return self.call(self.bind(f, v, v.cls), [])
        if isinstance(v, Sym):
            self.throw(TypeError, "object has no len()")
        if self.is_conc(v):
            return self.native(len, v)
        if isinstance(v, View):
            if v.kind in ("keys", "items", "values"):
                return self.length(v.src[0])
        raise Unsupported(f"len of {v!r}")

    def list_extend(self, a, b):
        b = self.unlive(b)
        if a.conc:
            items = self.to_items(b)
            if items is not None:
                self.touch(a)
                a.items = a.items + items
                return
            if isinstance(b, MList) and not b.conc:
                self.touch(a)
                a.seq = z3.Concat(self.seq_of(a.items, b.ty), b.seq)
                a.items, a.ty = None, b.ty
                return
        else:
            if isinstance(b, MList) and not b.conc:
                self.touch(a)
                a.seq = z3.Concat(a.seq, b.seq)
                return
            items = self.to_items(b)
            if items is not None:
                self.touch(a)
                a.seq = z3.Concat(a.seq, self.seq_of(items, a.ty)) if items else a.seq
                return
        raise Unsupported("list extension")

    def list_concat(self, a, b):
        r = MList(items=list(a.items) if a.conc else None, seq=a.seq, ty=a.ty, cls=a.cls)
        self.list_extend(r, b)
        return r

    def to_items(self, v):
        """Elements of a finite iterable as a Python list, or None."""
        v = self.unlive(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, MList):
            return list(v.items) if v.conc else None
        if isinstance(v, MDict):
            return [k for k, _ in v.pairs] if v.conc else None
        if isinstance(v, MSet):
            return list(v.items) if v.conc else None
        if isinstance(v, View):
            if v.kind in ("keys", "values", "items"):
                d = v.src[0]
                if not d.conc:
                    return None
                return [{"keys": k, "values": x, "items": (k, x)}[v.kind] for k, x in d.pairs]
            subs = [self.to_items(s) for s in v.src[: (1 if v.kind in ("enumerate", "map", "reversed") else None)]]
            if v.kind == "enumerate":
                if subs[0] is None:
                    return None
                st = v.src[1]
                return [(self.binop(ast.Add, st, i), x) for i, x in enumerate(subs[0])]
            if v.kind == "zip":
                if any(s is None for s in subs):
                    return None
                return [tuple(p) for p in zip(*subs)]
            if v.kind == "reversed":
                return None if subs[0] is None else list(reversed(subs[0]))
        if isinstance(v, RangeVal):
            lo, hi = v.lo, v.hi
            if isinstance(lo, Sym):
                lo = self.const_int(lo)
            if isinstance(hi, Sym):
                hi = self.const_int(hi)
            if isinstance(lo, int) and isinstance(hi, int):
                return list(range(lo, hi, v.step))
            return None
        if isinstance(v, GenVal):
            out = []

            def h(x):
                out.append(x)

            v.run(h)
            return out
        if isinstance(v, Sym):
            if v.k in ("str", "bytes"):
                n = self.const_int(Sym("int", z3.Length(v.t)))
                if n is not None:
                    return [self.getitem(v, i) for i in range(n)]
                return None
            if v.k != "any":
                self.throw(TypeError, "not iterable")
            return None
        if isinstance(v, SObj):
            f = self.class_attr(v.cls, "__iter__")
            if f is not None:
                return self.to_items(self.call(self.bind(f, v, v.cls), []))
        if isinstance(v, Noop):
            return []
        if self.is_conc(v):
            return list(self.native(iter, v))
        return None

    def const_int(self, v):
        if isinstance(v, int):
            return v
        t = z3.simplify(v.t)
        return t.as_long() if z3.is_int_value(t) else None

    def norm_index(self, i, n):
        """Python index -> non-negative index term, raising IndexError."""
        ti, tn = self.term(i, "int"), self.term(n, "int")
        if self.c.branch(ti < 0):
            ti = ti + tn
        if not self.c.branch(z3.And(ti >= 0, ti < tn)):
            self.throw(IndexError, "index out of range")
        return ti

    def slice_bounds(self, sl, n):
        lo, hi, st = sl
        if st is not None and st != 1:
            raise Unsupported("slice step")
        tn = self.term(n, "int")

        def clip(x, dflt):
            if x is None:
                return dflt
            t = self.term(x, "int")
            t = z3.If(t < 0, t + tn, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > tn, tn, t))

        a = clip(lo, z3.IntVal(0))
        b = clip(hi, tn)
        return z3.simplify(a), z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))

    def getitem(self, obj, key):
        obj = self.unlive(obj) if not isinstance(obj, (list, dict)) or not self.is_conc(key) else obj
        if isinstance(obj, (MList, tuple)) or (isinstance(obj, MBytes)) or (isinstance(obj, Sym) and obj.k in ("str", "bytes")) or (
            isinstance(obj, (str, bytes)) and not self.is_conc(key)
        ):
            if isinstance(key, tuple) and len(key) == 4 and key[0] == "slice":
                sl = key[1:]
                if isinstance(obj, tuple) and self.is_conc(sl):
                    return tuple(obj)[slice(*sl)]
                if isinstance(obj, MList) and obj.conc and self.is_conc(sl):
                    return MList(items=obj.items[slice(*sl)], cls=obj.cls)
                if isinstance(obj, MList) and obj.conc:
                    lo, hi = self.concretize_slice(sl, len(obj.items))
                    return MList(items=obj.items[lo:hi], cls=obj.cls)
                off, ln = self.slice_bounds(sl, self.length(obj))
                if isinstance(obj, MList):
                    return MList(seq=z3.Extract(obj.seq, off, ln), ty=obj.ty, cls=obj.cls)
                k = self.kind(obj)
                from . import models

                return Sym(k, models.cut(self.term(obj, k), off, ln))
            if self.kind(key) not in ("int", "bool"):
                self.throw(TypeError, "indices must be integers")
            if isinstance(obj, tuple) or (isinstance(obj, MList) and obj.conc):
                items = list(obj) if isinstance(obj, tuple) else obj.items
                if isinstance(key, int):
                    if not -len(items) <= key < len(items):
                        self.throw(IndexError, "index out of range")
                    return items[key]
                ti = self.norm_index(key, len(items))
                for j, x in enumerate(items[:-1]):
                    if self.c.branch(ti == j):
                        return x
                return items[-1]
            ti = self.norm_index(key, self.length(obj))
            if isinstance(obj, MList):
                return obj.ty.dec(self, obj.seq[ti])
            k = self.kind(obj)
            ch = z3.SubString(self.term(obj, k), ti, 1)
            if k == "bytes":
                r = self.byte_code(ch)
                return Sym("int", r)
            return Sym("str", ch)
        if isinstance(obj, AList):
            if isinstance(key, tuple):
                raise Unsupported("slice of an array list")
            return obj.ty.dec(self, obj.arr[self.norm_index(key, self.length(obj))])
        if isinstance(obj, MDict):
            f, v = self.dict_lookup(obj, key)
            if not f:
                if obj.cls is not dict and hasattr(obj, "factory"):
                    v = self.call(obj.factory, [])
                    self.dict_set(obj, key, v)
                    return v
                self.throw(KeyError, key)
            return v
        if isinstance(obj, (SObj, Ref)):
            cls = obj.cls if isinstance(obj, SObj) else obj.spec.cls
            f = self.class_attr(cls, "__getitem__")
            if f is not None:
                return self.call(self.bind(f, obj, cls), [key])
        if isinstance(obj, type):
            if issubclass(obj, enum.Enum):
                if self.is_conc(key):
                    return self.native(lambda: obj[key])
                for n, m in obj.__members__.items():
                    if self.c.branch(self.eq(key, n)):
                        return m
                self.throw(KeyError, key)
            return obj
        if self.is_conc(obj) and self.is_conc(key):
            if isinstance(key, tuple) and len(key) == 4 and key[0] == "slice":
                key = slice(*key[1:])
            return self.native(operator.getitem, obj, key)
        if isinstance(obj, RangeVal):
            raise Unsupported("range index")
        raise Unsupported(f"subscript of {obj!r}")

    def byte_code(self, ch):
        r = z3.StrToCode(ch)
        self.c.assume(z3.And(r >= 0, r <= 255))
        return r

    def concretize_slice(self, sl, n):
        out = []
        for x, d in zip(sl[:2], (0, n)):
            if x is None:
                out.append(d)
            elif isinstance(x, int):
                out.append(x)
            else:
                for j in range(-n, n + 1):
                    if self.c.branch(x.t == j):
                        out.append(j)
                        break
                else:
                    raise Unsupported("slice bound")
        return out

    def kind_or_none(self, v):
        try:
            return self.kind(v)
        except Unsupported:
            return None

    def key_eq(self, a, b):
        """Equality of two keys: objects are equal keys only if their hashes are."""
        if a is b:
            return True
        if isinstance(a, SObj) and isinstance(b, SObj):
            fa, fb = self.class_attr(a.cls, "__hash__"), self.class_attr(b.cls, "__hash__")
            if not isinstance(fa, types.FunctionType) and not isinstance(fb, types.FunctionType):
                return False if self.class_attr(a.cls, "__eq__") in (None, object.__eq__) else self.eq(a, b)
            if isinstance(fa, types.FunctionType) and isinstance(fb, types.FunctionType):
                if not self.c.branch(self.eq(self.call(Bound(fa, a), []), self.call(Bound(fb, b), []))):
                    return False
        return self.eq(a, b)

    def dict_lookup(self, d, key):
        """(found, value), forking on membership."""
        if d.conc:
            if isinstance(key, SObj):
                for k, v in d.pairs:
                    if k is key:
                        return True, v
            for k, v in d.pairs:
                if self.c.branch(self.key_eq(k, key)):
                    return True, v
            return False, None
        if d.kty is BOOL and self.kind_or_none(key) == "int":
            # 0 and 1 equal False and True as keys
            t = self.term(key, "int")
            if not self.c.branch(z3.Or(t == 0, t == 1)):
                return False, None
            key = Sym("bool", t == 1)
        if not self.compatible(d.kty, key):
            return False, None
        kt = d.kty.enc(self, key)
        if self.c.branch(d.dom[kt]):
            if getattr(d, "wf", None):
                d.wf(self, d, kt)
            return True, d.vty.dec(self, z3.simplify(d.val[kt]))
        return False, None

    def dict_set(self, d, key, value):
        self.touch(d)
        if d.conc:
            for p in d.pairs:
                if self.c.branch(self.key_eq(p[0], key)):
                    p[1] = value
                    return
            d.pairs.append([key, value])
            return
        kt = d.kty.enc(self, key)
        vt = d.vty.enc(self, value)
        if d.order is not None or d.size is not None:
            if not self.c.branch(d.dom[kt]):
                if d.order is not None:
                    o = d.order
                    d.order = Order(z3.Store(o.arr, o.n, kt), z3.simplify(o.n + 1), z3.Store(o.pos, kt, o.n))
                if d.size is not None:
                    d.size = d.size + 1
        d.dom = z3.Store(d.dom, kt, True)
        d.val = z3.Store(d.val, kt, vt)

    def dict_del(self, d, key):
        if d.conc:
            for i, p in enumerate(d.pairs):
                if self.c.branch(self.key_eq(p[0], key)):
                    self.touch(d)
                    del d.pairs[i]
                    return
            self.throw(KeyError, key)
        kt = d.kty.enc(self, key)
        if not self.c.branch(d.dom[kt]):
            self.throw(KeyError, key)
        self.touch(d)
        d.dom = z3.Store(d.dom, kt, False)
        if d.size is not None:
            d.size = d.size - 1
        if d.order is not None:
            o = d.order
            d.order = self.fresh_order(d.kty, d.dom, o.n - 1)
            x, y = z3.Const("ox", d.kty.sort), z3.Const("oy", d.kty.sort)
            self.c.assume(z3.ForAll([x, y], z3.Implies(z3.And(d.dom[x], d.dom[y], o.pos[x] < o.pos[y]), d.order.pos[x] < d.order.pos[y])))

    def fresh_order(self, kty, dom, n=None):
        """An arbitrary insertion order of exactly the keys in dom."""
        I = z3.IntSort()
        o = Order(self.c.fresh(z3.ArraySort(I, kty.sort), "order"), self.c.fresh(I, "count") if n is None else n, self.c.fresh(z3.ArraySort(kty.sort, I), "pos"))
        i, k = z3.Int("oi"), z3.Const("ok", kty.sort)
        self.c.assume(o.n >= 0)
        self.c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.n), z3.And(dom[o.arr[i]], o.pos[o.arr[i]] == i)), patterns=[o.arr[i]]))
        self.c.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(o.pos[k] >= 0, o.pos[k] < o.n, o.arr[o.pos[k]] == k)), patterns=[o.pos[k]]))
        return o

    def sym_dict(self, kty, vty, name, order=True):
        d = MDict(dom=self.c.fresh(z3.ArraySort(kty.sort, z3.BoolSort()), name + "_dom"), val=self.c.fresh(z3.ArraySort(kty.sort, vty.sort), name + "_val"), kty=kty, vty=vty)
        d.tag = name
        if order:
            d.order = self.fresh_order(kty, d.dom)
        return d

    def sym_alist(self, ty, name):
        I = z3.IntSort()
        l = AList(self.c.fresh(z3.ArraySort(I, ty.sort), name), self.c.fresh(I, name + "_n"), self.c.fresh(z3.ArraySort(ty.sort, z3.BoolSort()), name + "_mem"), ty)
        i = z3.Int("li")
        self.c.assume(l.n >= 0)
        self.c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l.n), l.mem[l.arr[i]]), patterns=[l.arr[i]]))
        return l

    def dict_update(self, d, src):
        src = self.unlive(src)
        if isinstance(src, MDict) and src.conc:
            for k, v in src.pairs:
                self.dict_set(d, k, v)
            return
        raise Unsupported("dict update")

    def dict_eq(self, a, b):
        if a.conc and b.conc:
            if len(a.pairs) != len(b.pairs):
                return False
            ts = []
            for k, v in a.pairs:
                f, w = self.dict_lookup(b, k)
                if not f:
                    return False
                ts.append(self.eq(v, w))
            return self.all_(ts)
        if not a.conc and not b.conc:
            x = self.c.fresh(a.kty.sort, "k")
            return z3.And(a.dom == b.dom, z3.ForAll([x], z3.Implies(a.dom[x], a.val[x] == b.val[x])))
        raise Unsupported("dict equality")

    def set_op(self, op, a, b, inplace):
        a, b = self.unlive(a), self.unlive(b)
        if isinstance(a, MSet) and isinstance(b, MSet) and a.conc and b.conc and all(map(self.is_conc, a.items + b.items)):
            r = list(self.BIN[op](set(a.items), set(b.items)))
            if inplace:
                self.touch(a)
                a.items = r
                return a
            return MSet(items=r)
        ty = a.ty if isinstance(a, MSet) and a.ty else b.ty
        if ty is None:
            for i in (*a.items, *b.items):
                ty = Scalar(self.kind(i))
                break
        ma, mb = self.set_mem(a, ty), self.set_mem(b, ty)
        x = z3.Const("set_x", ty.sort)
        body = {ast.Sub: z3.And(ma[x], z3.Not(mb[x])), ast.BitOr: z3.Or(ma[x], mb[x]), ast.BitAnd: z3.And(ma[x], mb[x])}[op]
        mem = z3.Lambda([x], body)
        if inplace:
            self.touch(a)
            a.mem, a.items, a.ty = mem, None, ty
            return a
        return MSet(mem=mem, ty=ty)

    def set_mem(self, s, ty):
        if not s.conc:
            return s.mem
        m = z3.K(ty.sort, False)
        for x in s.items:
            m = z3.Store(m, ty.enc(self, x), True)
        return m

    def setitem(self, obj, key, value):
        if isinstance(obj, MDict):
            return self.dict_set(obj, key, value)
        if isinstance(obj, AList):
            self.touch(obj)
            obj.arr = z3.Store(obj.arr, self.norm_index(key, self.length(obj)), obj.ty.enc(self, value))
            obj.mem = None
            return
        if isinstance(obj, MList):
            if isinstance(key, tuple):
                raise Unsupported("slice assignment")
            self.touch(obj)
            if obj.conc:
                if isinstance(key, int):
                    if not -len(obj.items) <= key < len(obj.items):
                        self.throw(IndexError, "assignment index out of range")
                    obj.items[key] = value
                    return
                ti = self.norm_index(key, len(obj.items))
                for j in range(len(obj.items)):
                    if self.c.branch(ti == j):
                        obj.items[j] = value
                        return
            else:
                ti = self.norm_index(key, self.length(obj))
                n = z3.Length(obj.seq)
                obj.seq = z3.Concat(
                    z3.Extract(obj.seq, z3.IntVal(0), ti), z3.Unit(obj.ty.enc(self, value)), z3.Extract(obj.seq, ti + 1, n - ti - 1)
                )
                return
        if isinstance(obj, SObj):
            f = self.class_attr(obj.cls, "__setitem__")
            if f is not None:
                return self.call(self.bind(f, obj, obj.cls), [key, value])
        raise Unsupported(f"item assignment on {obj!r}")

    # -------------------------------------------------------- frames / writes
    def touch(self, obj, field=None):
        """Check a write against the frames of enclosing cut loops."""
        for fr in self.c.frames:
            if obj.serial < fr["serial"] and (id(obj), field) not in fr["ok"] and (id(obj), None) not in fr["ok"]:
                raise Unsupported(f"loop writes outside its declared frame: {obj!r}.{field}")

    def touch_heap(self, key):
        for fr in self.c.frames:
            if key not in fr["ok"]:
                raise Unsupported(f"loop writes outside its declared frame: heap {key}")

    def allow(self, obj, field=None):
        """Called by a loop contract's havoc: the loop may write this."""
        if self.c.frames:
            self.c.frames[-1]["ok"].add((id(obj), field))

    def allow_heap(self, spec, field):
        self.c.frames[-1]["ok"].add((spec.name, field))

    # ------------------------------------------------------------------- heap
    def heap_arr(self, spec, field):
        key = (spec.name, field)
        if key not in self.c.heap:
            ty = spec.fields[field]
            self.c.heap[key] = z3.Const(f"H_{spec.name}_{field}", z3.ArraySort(z3.IntSort(), ty.sort))
        return self.c.heap[key]

    def heap_get(self, ref, field):
        ty = ref.spec.fields[field]
        return ty.dec(self, z3.simplify(self.heap_arr(ref.spec, field)[ref.t]))

    def heap_set(self, ref, field, value):
        ty = ref.spec.fields[field]
        self.touch_heap((ref.spec.name, field))
        arr = self.heap_arr(ref.spec, field)
        self.c.heap[(ref.spec.name, field)] = z3.Store(arr, ref.t, ty.enc(self, value))

    def new_ref(self, spec):
        """Allocate: distinct from every object that existed before."""
        if self.c.alloc0 is None:
            self.c.alloc0 = z3.Int("alloc0")
        t = self.c.alloc0 + self.c.allocs
        self.c.allocs += 1
        return Ref(spec, t)

    def old_ref(self, spec, name):
        """An arbitrary pre-existing object."""
        t = self.c.fresh(z3.IntSort(), name)
        if self.c.alloc0 is None:
            self.c.alloc0 = z3.Int("alloc0")
        self.c.assume(t < self.c.alloc0)
        return Ref(spec, t)

    def promote(self, obj, spec):
        """Move a concrete-identity object into the unbounded heap."""
        fwd = getattr(obj, "fwd", None)
        if fwd is not None:
            return fwd
        r = self.new_ref(spec)
        obj.fwd = r
        for f in spec.fields:
            if f in obj.attrs:
                self.heap_set(r, f, obj.attrs[f])
        return r

    # -------------------------------------------------------------- attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                if k is object:
                    return None
                return k.__dict__[name]
        return None

    def class_attr_owner(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k, k.__dict__[name]
        return None, None

    def bind(self, attr, obj, cls):
        """Descriptor protocol for a class attribute found statically."""
        if isinstance(attr, types.FunctionType):
            return Bound(attr, obj)
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, classmethod):
            return Bound(attr.__func__, cls)
        if isinstance(attr, property):
            return self.call(Bound(attr.fget, obj), [])
        if type(attr).__name__ == "cached_property":
            return self.call(Bound(attr.func, obj), [])
        return attr

    def getattr(self, obj, name):
        if id(obj) in self.cfg.overrides:
            obj = self.cfg.overrides[id(obj)]
        if isinstance(obj, SObj):
            if getattr(obj, "fwd", None) is not None and name in obj.fwd.spec.fields:
                return self.heap_get(obj.fwd, name)
            attr = self.class_attr(obj.cls, name)
            if isinstance(attr, property):
                key = ("prop", obj.cls, name)
                return self.bind(attr, obj, obj.cls)
            if name in obj.attrs:
                v = obj.attrs[name]
                if callable(v) and isinstance(v, _Lazy):
                    v = obj.attrs[name] = v(self)
                return v
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if attr is not None:
                return self.bind(attr, obj, obj.cls)
            f = self.class_attr(obj.cls, "__getattr__")
            if f is not None:
                return self.call(Bound(f, obj), [name])
            if obj.tag and getattr(obj, "open", False):
                raise Unsupported(f"attribute {name} of {obj!r} has no contract")
            self.throw(AttributeError, name)
        if isinstance(obj, Ref):
            if name in obj.spec.fields:
                return self.heap_get(obj, name)
            if name == "__class__":
                return obj.spec.cls
            attr = self.class_attr(obj.spec.cls, name)
            if attr is not None:
                return self.bind(attr, obj, obj.spec.cls)
            raise Unsupported(f"attribute {name} of {obj!r} has no contract")
        if isinstance(obj, Noop):
            return NOOP
        if isinstance(obj, NT):
            if name in obj.cls._fields:
                return obj[obj.cls._fields.index(name)]
            attr = self.class_attr(obj.cls, name)
            if attr is not None:
                return self.bind(attr, obj, obj.cls)
        if isinstance(obj, SuperVal):
            mro = obj.obj.cls.__mro__ if isinstance(obj.obj, SObj) else (
                obj.obj.__mro__ if isinstance(obj.obj, type) else (obj.obj.spec.cls if isinstance(obj.obj, Ref) else type(obj.obj)).__mro__)
            rest = mro[mro.index(obj.cls) + 1:]
            for k in rest:
                if name in k.__dict__:
                    a = k.__dict__[name]
                    if k is object or isinstance(a, (types.WrapperDescriptorType,)):
                        return Prim(lambda it, a, kw: None, f"object.{name}")
                    return self.bind(a, obj.obj, obj.obj.cls if isinstance(obj.obj, SObj) else obj.obj)
            self.throw(AttributeError, name)
        if isinstance(obj, Cell):
            if name == "value":
                return obj.value
        if isinstance(obj, ExcVal):
            if name == "args":
                return obj.args
            if name == "__class__":
                return obj.cls
            return NOOP
        if isinstance(obj, FuncVal) and name in ("__name__", "__qualname__"):
            return obj.name
        if isinstance(obj, Bound) and name == "__self__":
            return obj.self_
        from . import models

        m = models.method(self, obj, name)
        if m is not None:
            return m
        if isinstance(obj, INTERP_T):
            if isinstance(obj, Sym) and obj.k != "any":
                self.throw(AttributeError, name)
            raise Unsupported(f"attribute {name} of {obj!r}")
        if isinstance(obj, type):
            owner, attr = self.class_attr_owner(obj, name)
            if attr is not None and not isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                if isinstance(attr, (classmethod,)):
                    return Bound(attr.__func__, obj)
                if isinstance(attr, staticmethod):
                    return attr.__func__
                if isinstance(attr, (types.FunctionType, property)):
                    return attr
            v = self.native(getattr, obj, name)
            return self.cfg.overrides.get(id(v), v) if isinstance(v, (dict, list, set)) else v
        if isinstance(obj, types.ModuleType):
            return self.native(getattr, obj, name)
        # a live concrete object
        if isinstance(obj, enum.Enum) and name in ("value", "name"):
            return getattr(obj, name)
        attr = self.class_attr(type(obj), name)
        if isinstance(attr, (types.FunctionType, classmethod, staticmethod, property)):
            return self.bind(attr, obj, type(obj))
        return self.native(getattr, obj, name)

    def setattr(self, obj, name, value):
        if id(obj) in self.cfg.overrides:
            obj = self.cfg.overrides[id(obj)]
        if isinstance(obj, SObj):
            attr = self.class_attr(obj.cls, name)
            if isinstance(attr, property):
                if attr.fset is None:
                    self.throw(AttributeError, name)
                self.call(Bound(attr.fset, obj), [value])
                return
            if getattr(obj, "fwd", None) is not None and name in obj.fwd.spec.fields:
                self.heap_set(obj.fwd, name, value)
                return
            self.touch(obj, name)
            obj.attrs[name] = value
            return
        if isinstance(obj, Ref):
            if name in obj.spec.fields:
                self.heap_set(obj, name, value)
                return
            attr = self.class_attr(obj.spec.cls, name)
            if isinstance(attr, property) and attr.fset is not None:
                self.call(Bound(attr.fset, obj), [value])
                return
            raise Unsupported(f"write of {name} on {obj!r}")
        if isinstance(obj, Cell) and name == "value":
            from . import models

            self.touch(obj)
            obj.value = models.ctypes_coerce(self, obj.ctype, value)
            return
        if isinstance(obj, Noop):
            return
        raise Unsupported(f"attribute write {name} on {obj!r}")

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        self.c.eng.tick()
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Bound):
            f = fn.fn
            if isinstance(f, types.FunctionType):
                return self.call_real(f, [fn.self_] + list(args), kwargs)
            return self.call(f, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Prim):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, Noop):
            return None
        if isinstance(fn, Sym) and fn.k == "any":
            if self.cfg.call_any is None:
                raise Unsupported("call of an opaque value")
            return self.cfg.call_any(self, fn, args, kwargs)
        if isinstance(fn, (SObj, Ref)):
            cls = fn.cls if isinstance(fn, SObj) else fn.spec.cls
            f = self.class_attr(cls, "__call__")
            if f is None:
                self.throw(TypeError, "not callable")
            return self.call(self.bind(f, fn, cls), args, kwargs)
        if isinstance(fn, INTERP_T):
            raise Unsupported(f"call of {fn!r}")
        m = self.cfg.models.get(id(fn))
        if m is not None:
            return m.fn(self, list(args), kwargs)
        if isinstance(fn, types.FunctionType):
            return self.call_real(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call_real(fn.__func__, [fn.__self__] + list(args), kwargs)
        from . import models

        m = models.lookup(fn)
        if m is not None:
            return m(self, list(args), kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType, types.BuiltinMethodType, types.MethodWrapperType)):
            mod = getattr(fn, "__module__", None)
            slf = getattr(fn, "__self__", None)
            pure = mod in PURE_MODULES or (slf is not None and isinstance(slf, (str, bytes, int, float, tuple, enum.Enum, frozenset, dict, list)))
            if pure and isinstance(slf, (dict, list)) and fn.__name__ not in ("get", "items", "keys", "values", "index", "count", "copy"):
                pure = False
            if pure and all(self.is_conc(a) for a in args) and all(self.is_conc(a) for a in kwargs.values()):
                return self.native(fn, *args, **kwargs)
            if slf is not None and not isinstance(slf, types.ModuleType):
                m = models.method(self, self.unlive(slf), fn.__name__, force=True)
                if m is not None:
                    return self.call(m, args, kwargs)
        slf = getattr(fn, "__self__", None)
        if isinstance(slf, re.Pattern):
            if all(map(self.is_conc, args)) and not kwargs:
                return self.native(fn, *args)
            if len(args) == 1 and self.kind(args[0]) == "str" and fn.__name__ in ("fullmatch", "match", "search"):
                pred = z3.Function(f"re_{fn.__name__}_{slf.pattern}", z3.StringSort(), z3.BoolSort())
                m = pred(self.term(args[0], "str"))
                if not self.c.branch(m):
                    return None
                r = Sym("any", self.c.fresh(U, "match"))
                self.c.assume(r.t != self.box(None))
                return r
        if isinstance(getattr(fn, "__module__", None), str) and fn.__module__ in ("re",) and self.is_conc(tuple(args)):
            return self.native(fn, *args, **kwargs)
        if callable(fn) and not isinstance(fn, type):
            f = self.class_attr(type(fn), "__call__")
            if isinstance(f, types.FunctionType):
                return self.call_real(f, [fn] + list(args), kwargs)
        raise Unsupported(f"call of {fn!r}")

    def call_real(self, f, args, kwargs):
        m = self.cfg.models.get(id(f))
        if m is not None:
            return m.fn(self, list(args), kwargs)
        from . import models

        m = models.lookup(f)
        if m is not None:
            return m(self, list(args), kwargs)
        s = self.cfg.summaries.get(id(f))
        if s is not None:
            return s.apply(self, list(args), kwargs)
        if f.__module__ == "logging" and f.__qualname__ in LOGGING:
            return None
        w = getattr(f, "__wrapped__", None)
        if w is not None and "contextlib" in f.__code__.co_filename:
            g = self.call_real(w, args, kwargs)
            g.ctxmgr = True
            return g
        fn = self.func_of(f)
        if fn is None:
            if all(map(self.is_conc, args)) and all(map(self.is_conc, kwargs.values())) and f.__module__ in PURE_MODULES:
                return self.native(f, *args, **kwargs)
            raise Unsupported(f"no contract or source for {f.__module__}.{f.__qualname__}")
        return self.call_func(fn, args, kwargs)

    _fn_cache = {}

    def func_of(self, f):
        if f in self._fn_cache:
            return self._fn_cache[f]
        path = f.__code__.co_filename
        r = None
        if any(s in path for s in SRC_OK) and path.endswith(".py"):
            node = _index(path).get((f.__code__.co_firstlineno, f.__name__ if f.__name__ != "<lambda>" else "<lambda>"))
            if node is None:
                node = _index(path).get((f.__code__.co_firstlineno, f.__code__.co_name))
            if node is not None:
                r = FuncVal(node, f.__globals__, f"{f.__module__}:{f.__qualname__}", None, f.__defaults__ or (), f.__kwdefaults__, real=f)
        self._fn_cache[f] = r
        return r

    def call_func(self, fn, args, kwargs):
        node = fn.node
        env = Env(fn, fn.parent)
        self.bind_args(fn, env, list(args), dict(kwargs))
        self.c.eng.used.add(fn.name)
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(node.body, env)
            finally:
                self.depth -= 1
        is_async = isinstance(node, ast.AsyncFunctionDef)
        if has_yield(node):
            def run(handler):
                env.handler = handler
                self.run_body(node, env)

            return GenVal(run, fn.name)
        if is_async:
            return CoroVal(lambda: self.run_body(node, env), fn.name)
        return self.run_body(node, env)

    def run_body(self, node, env):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion depth")
        try:
            self.block(node.body, env)
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    def bind_args(self, fn, env, args, kwargs):
        a = fn.node.args
        params = list(a.posonlyargs) + list(a.args)
        names = [p.arg for p in params]
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    self.throw(TypeError, f"multiple values for {n}")
                env.vars[n] = args[i]
            elif n in kwargs:
                env.vars[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                env.vars[n] = fn.defaults[i - (len(names) - nd)]
            else:
                self.throw(TypeError, f"missing argument {n}")
        rest = args[len(names):]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(rest)
        elif rest:
            self.throw(TypeError, "too many arguments")
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env.vars[p.arg] = kwargs.pop(p.arg)
            elif p.arg in fn.kwdefaults:
                env.vars[p.arg] = fn.kwdefaults[p.arg]
            else:
                self.throw(TypeError, f"missing argument {p.arg}")
        if a.kwarg:
            env.vars[a.kwarg.arg] = MDict(pairs=[[k, v] for k, v in kwargs.items()])
        elif kwargs:
            self.throw(TypeError, f"unexpected keyword {sorted(kwargs)}")

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if issubclass(cls, enum.Enum):
            if self.is_conc(args[0]):
                return self.native(cls, *args)
            a = args[0]
            for m in cls:
                if self.c.branch(self.eq(a, m.value)):
                    return m
            self.throw(ValueError, "not a valid member")
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            vals = []
            for i, f in enumerate(cls._fields):
                if i < len(args):
                    vals.append(args[i])
                elif f in kwargs:
                    vals.append(kwargs[f])
                elif f in cls._field_defaults:
                    vals.append(cls._field_defaults[f])
                else:
                    self.throw(TypeError, f"missing {f}")
            if all(map(self.is_conc, vals)):
                return cls(*vals)
            return NT.make(cls, vals)
        import ctypes

        if issubclass(cls, ctypes._SimpleCData):
            from . import models

            return Cell(cls, models.ctypes_coerce(self, cls, args[0] if args else (0.0 if cls in (ctypes.c_float, ctypes.c_double) else False if cls is ctypes.c_bool else 0)))
        import functools

        if cls is functools.partial:
            f, rest = args[0], list(args[1:])
            return Prim(lambda it, a, kw: it.call(f, [*rest, *a], {**kwargs, **kw}), "functools.partial")
        owner, new = self.class_attr_owner(cls, "__new__")
        if owner is not object and owner is not typing.Generic and not isinstance(new, staticmethod):
            raise Unsupported(f"constructor of {cls!r}")
        obj = SObj(cls)
        import dataclasses

        if dataclasses.is_dataclass(cls):
            fs = [f for f in dataclasses.fields(cls)]
            pos = [f for f in fs if f.init]
            for i, f in enumerate(pos):
                if i < len(args):
                    obj.attrs[f.name] = args[i]
                elif f.name in kwargs:
                    obj.attrs[f.name] = kwargs[f.name]
                elif f.default is not dataclasses.MISSING:
                    obj.attrs[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    obj.attrs[f.name] = self.call(f.default_factory, [])
                else:
                    self.throw(TypeError, f"missing {f.name}")
            pi = self.class_attr(cls, "__post_init__")
            if pi is not None:
                self.call(Bound(pi, obj), [])
            return obj
        k, init = self.class_attr_owner(cls, "__init__")
        if init is not None and k is not object:
            if not isinstance(init, types.FunctionType):
                raise Unsupported(f"constructor of {cls!r}")
            path = init.__code__.co_filename
            if not any(s in path for s in SRC_OK) and id(init) not in self.cfg.models:
                raise Unsupported(f"constructor of {cls!r}")
            self.call(Bound(init, obj), args, kwargs)
        elif not any(s in (getattr(sys.modules.get(cls.__module__), "__file__", "") or "") for s in SRC_OK):
            raise Unsupported(f"constructor of {cls!r}")
        return obj

    # ------------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        if name in env.globals_:
            return self.global_(env.fn, name)
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            real = e.fn.real if e.fn else None
            if real is not None and real.__closure__ and name in real.__code__.co_freevars:
                return real.__closure__[real.__code__.co_freevars.index(name)].cell_contents
            e = e.parent
        # an unassigned local?
        return self.global_(env.fn, name)

    def global_(self, fn, name):
        if name in fn.glob:
            v = fn.glob[name]
            return self.cfg.overrides.get(id(v), v) if not isinstance(v, (int, str)) else v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError if True else UnboundLocalError, name)

    def store(self, env, name, value):
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = value
                    return
                e = e.parent
            raise Unsupported(f"nonlocal {name}")
        if name in env.globals_:
            raise Unsupported("global write")
        env.vars[name] = value

    def assign(self, target, value, env):
        if isinstance(target, ast.Name):
            self.store(env, target.id, value)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, env), target.attr, value)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, env)
            self.setitem(o, self.ev_slice(target.slice, env), value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.to_items(value)
            n = len(target.elts)
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            if items is None and isinstance(value, MList):
                if star:
                    raise Unsupported("starred unpack of a symbolic sequence")
                if not self.c.branch(z3.Length(value.seq) == n):
                    self.throw(ValueError, "unpack")
                items = [value.ty.dec(self, value.seq[i]) for i in range(n)]
            if items is None:
                raise Unsupported("unpacking")
            if star:
                i = star[0]
                if len(items) < n - 1:
                    self.throw(ValueError, "unpack")
                tail = n - 1 - i
                items = items[:i] + [MList(items=items[i:len(items) - tail])] + items[len(items) - tail:]
            elif len(items) != n:
                self.throw(ValueError, "unpack")
            for t, v in zip(target.elts, items):
                self.assign(t.value if isinstance(t, ast.Starred) else t, v, env)
        else:
            raise Unsupported(f"assignment target {type(target).__name__}")

    # ------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            if isinstance(cur, Mut):
                self.touch(cur)
            self.store(env, t.id, self.binop(type(s.op), cur, self.ev(s.value, env), inplace=True))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(type(s.op), cur, self.ev(s.value, env), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(type(s.op), cur, self.ev(s.value, env), inplace=True))
        else:
            raise Unsupported("augmented assignment")

    def s_If(self, s, env):
        self.block(s.body if self.test(self.ev(s.test, env)) else s.orelse, env)

    def s_Return(self, s, env):
        raise ReturnEx(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise BreakEx()

    def s_Continue(self, s, env):
        raise ContinueEx()

    def s_Assert(self, s, env):
        if not self.test(self.ev(s.test, env)):
            self.throw(AssertionError, "assertion")

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, "handling", None)
            if cur is None:
                raise Unsupported("re-raise")
            raise PyExc(cur)
        e = self.ev(s.exc, env)
        if e is NotImplementedError and str(env.fn.glob.get("__name__", "")).startswith("contracts."):
            raise Unsupported(f"{env.fn.name} of a contract's object has no contract")
        if isinstance(e, type):
            e = ExcVal(e, ())
        if not isinstance(e, ExcVal):
            raise Unsupported(f"raise {e!r}")
        raise PyExc(e)

    def s_FunctionDef(self, s, env):
        if not hasattr(s, "_loops_done"):
            _number_loops(s)
            s._loops_done = True
        d = tuple(self.ev(x, env) for x in s.args.defaults)
        kd = {a.arg: self.ev(x, env) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        fn = FuncVal(s, env.fn.glob, f"{env.fn.name}.{s.name}", env, d, kd)
        v = fn
        for dec in reversed(s.decorator_list):
            dv = self.ev(dec, env)
            if getattr(dv, "__name__", "") in ("contextmanager", "asynccontextmanager"):
                inner = v

                def mk(it, a, kw, inner=inner):
                    g = it.call(inner, a, kw)
                    g.ctxmgr = True
                    return g

                v = Prim(mk, s.name)
            else:
                raise Unsupported("decorator")
        self.store(env, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Global(self, s, env):
        env.globals_.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.native(__import__, a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
            self.store(env, a.asname or a.name.split(".")[0], m)

    def s_ImportFrom(self, s, env):
        m = self.native(__import__, s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            self.store(env, a.asname or a.name, getattr(m, a.name))

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_slice(t.slice, env)
                if isinstance(o, MDict):
                    self.dict_del(o, k)
                elif isinstance(o, MList) and o.conc and isinstance(k, int):
                    self.touch(o)
                    del o.items[k]
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, SObj):
                    self.touch(o, t.attr)
                    o.attrs.pop(t.attr)
                else:
                    raise Unsupported("del attribute")

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if self.exc_match(e.exc, h.type, env):
                        if h.name:
                            env.vars[h.name] = e.exc
                        prev = getattr(env, "handling", None)
                        env.handling = e.exc
                        try:
                            self.block(h.body, env)
                        finally:
                            env.handling = prev
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PathEnd, Unsupported, Undecided):
            raise
        except BaseException:
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def exc_match(self, exc, typ, env):
        if typ is None:
            return True
        t = self.ev(typ, env)
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(exc.cls, k) for k in ts)

    def s_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    s_AsyncWith = s_With

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it0, rest = items[0], items[1:]
        cm = self.ev(it0.context_expr, env)

        def inner(value):
            if it0.optional_vars is not None:
                self.assign(it0.optional_vars, value, env)
            self.with_items(rest, body, env)

        self.run_with(cm, inner)

    def run_with(self, cm, inner):
        if isinstance(cm, GenVal) and cm.ctxmgr:
            saved = []
            entered = []

            def h(value):
                if entered:
                    raise Unsupported("context manager yields twice")
                entered.append(1)
                try:
                    inner(value)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    saved.append(e)
                return None

            cm.run(h)
            if saved:
                raise saved[0]
            return
        if isinstance(cm, Prim) and hasattr(cm, "suppress"):
            try:
                inner(None)
            except PyExc as e:
                if not any(issubclass(e.exc.cls, k) for k in cm.suppress):
                    raise
            return
        if isinstance(cm, Prim) and hasattr(cm, "with_"):
            return cm.with_(self, inner)
        if isinstance(cm, SObj) and hasattr(cm, "frames"):
            from . import models
            return models.run_exitstack(self, cm, inner)
        if isinstance(cm, SObj):
            ent = self.class_attr(cm.cls, "__enter__") or self.class_attr(cm.cls, "__aenter__")
            ext = self.class_attr(cm.cls, "__exit__") or self.class_attr(cm.cls, "__aexit__")
            if ent is not None and ext is not None:
                v = self.await_(self.call(Bound(ent, cm), []))
                try:
                    inner(v)
                except PyExc as e:
                    r = self.await_(self.call(Bound(ext, cm), [e.exc.cls, e.exc, NOOP]))
                    if not self.test(r):
                        raise
                    return
                except (ReturnEx, BreakEx, ContinueEx, BodyExit):
                    self.await_(self.call(Bound(ext, cm), [None, None, None]))
                    raise
                self.await_(self.call(Bound(ext, cm), [None, None, None]))
                return
        if isinstance(cm, (Noop,)):
            inner(NOOP)
            return
        if isinstance(cm, Stream):
            inner(cm)
            return
        raise Unsupported(f"context manager {cm!r}")

    def await_(self, v):
        if isinstance(v, SObj) and "__await__" in v.attrs:
            v = self.call(v.attrs["__await__"], [])
        return v.run() if isinstance(v, CoroVal) else v

    # ------------------------------------------------------------------ loops
    def s_For(self, s, env):
        src = self.ev(s.iter, env)

        def body(x):
            self.assign(s.target, x, env)
            self.block(s.body, env)

        self.iterate(src, body, s, env)

    s_AsyncFor = s_For

    def iterate(self, src, body, s, env):
        """Run `body` for each element; handles break/continue/else."""
        orelse = getattr(s, "orelse", [])
        src = self.unlive(src)
        if isinstance(src, SObj):
            f = self.class_attr(src.cls, "__iter__") or self.class_attr(src.cls, "__aiter__")
            if f is not None:
                src = self.call(self.bind(f, src, src.cls), [])
        if isinstance(src, GenVal):
            if getattr(src, "consumed", False):
                raise Unsupported("a generator that was consumed in part")
            token = object()
            brk = []

            outer = self.bodies
            entry = (env, s)

            def h(x):
                inner, self.bodies = self.bodies, outer
                try:
                    body(x)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx, PyExc, BodyExit) as e:
                    b = BodyExit(e)
                    b.token = token
                    raise b from None
                finally:
                    self.bodies = inner
                return None

            self.bodies = outer + [entry]
            try:
                src.run(h)
            except BodyExit as b:
                if getattr(b, "token", None) is not token:
                    raise
                if not isinstance(b.inner, BreakEx):
                    raise b.inner from None
                brk.append(1)
            finally:
                self.bodies = outer
            if not brk:
                self.block(orelse, env)
            return
        spec = self.loop_spec(s, env)
        items = None
        if spec is None or not self.symbolic_iter(src):
            items = self.to_items(src)
        if items is not None:
            for x in items:
                try:
                    body(x)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(orelse, env)
            return
        if spec is None:
            raise Unsupported(f"loop without contract in {env.fn.name} over {src!r}")
        self.cut_for(src, body, s, env, spec, orelse)

    def symbolic_iter(self, v):
        if isinstance(v, AList):
            return True
        if isinstance(v, MList):
            return not v.conc
        if isinstance(v, (MDict, MSet)):
            return not v.conc
        if isinstance(v, View):
            return any(self.symbolic_iter(x) for x in v.src if not isinstance(x, (int, Prim, FuncVal)))
        if isinstance(v, RangeVal):
            return isinstance(v.lo, Sym) or isinstance(v.hi, Sym)
        return isinstance(v, Sym)

    def loop_spec(self, s, env):
        o = getattr(s, "_ord", None)
        return self.cfg.loops.get((env.fn.name, o))

    def seq_view(self, v):
        """(length term, element function) of a symbolic iterable."""
        if isinstance(v, MList):
            if v.conc:
                return z3.IntVal(len(v.items)), lambda i: self.getitem(v, Sym("int", i))
            return z3.Length(v.seq), lambda i: v.ty.dec(self, v.seq[i])
        if isinstance(v, tuple):
            return z3.IntVal(len(v)), lambda i: self.getitem(v, Sym("int", i))
        if isinstance(v, RangeVal):
            lo, hi = self.term(v.lo, "int"), self.term(v.hi, "int")
            if v.step == 1:
                return z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: Sym("int", z3.simplify(lo + i))
            if v.step > 1:
                return z3.If(hi > lo, (hi - lo + v.step - 1) / v.step, z3.IntVal(0)), lambda i: Sym("int", z3.simplify(lo + i * v.step))
        if isinstance(v, AList):
            return v.n, lambda i: v.ty.dec(self, v.arr[i])
        if isinstance(v, MDict) and v.order is not None:
            return v.order.n, lambda i: self._okey(v, i)
        if isinstance(v, View):
            if v.kind == "enumerate":
                n, e = self.seq_view(v.src[0])
                st = v.src[1]
                return n, lambda i: (self.binop(ast.Add, st, Sym("int", i)), e(i))
            if v.kind == "zip":
                ps = [self.seq_view(x) for x in v.src]
                n = ps[0][0]
                for p in ps[1:]:
                    n = z3.If(p[0] < n, p[0], n)
                return n, lambda i: tuple(p[1](i) for p in ps)
            if v.kind == "reversed":
                n, e = self.seq_view(v.src[0])
                return n, lambda i: e(n - 1 - i)
            d = v.src[0]
            if v.kind in ("keys", "values", "items") and isinstance(d, MDict) and d.order is not None:
                dom, val, order = d.dom, d.val, d.order

                def el(i):
                    kt = order.arr[i]
                    self.c.assume(z3.And(dom[kt], order.pos[kt] == i))
                    k = d.kty.dec(self, kt)
                    if v.kind == "keys":
                        return k
                    x = d.vty.dec(self, z3.simplify(val[d.kty.enc(self, k)]))
                    return x if v.kind == "values" else (k, x)

                return order.n, el
        if isinstance(v, Sym) and v.k in ("str", "bytes"):
            return z3.Length(v.t), lambda i: self.getitem(v, Sym("int", i))
        if isinstance(v, MBytes):
            return self.seq_view(Sym("bytes", v.t))
        raise Unsupported(f"iteration over {v!r}")

    def _okey(self, d, i):
        kt = d.order.arr[i]
        self.c.assume(d.dom[kt])
        return d.kty.dec(self, kt)

    def havoc_locals(self, s, env, spec):
        self.havoc_env(s, env, spec)
        for benv, bs in self.bodies:  # locals written by the consumers of this generator
            if isinstance(bs, ast.For) and hasattr(bs, "body"):
                self.havoc_env(bs, benv, LoopSpec(None))
            else:
                raise Unsupported("comprehension over a generator with a cut loop")

    def havoc_env(self, s, env, spec):
        names = assigned_names(s.body + ([ast.Expr(s.target)] if hasattr(s, "target") else []))
        for n in sorted(names):
            if n in env.nonlocals:
                raise Unsupported("nonlocal write in a cut loop")
            if n in spec.locals_:
                env.vars[n] = spec.locals_[n](self)
                continue
            if n not in env.vars:
                continue  # first assigned inside: undefined at the head
            v = env.vars[n]
            k = self.kind(v)
            if k in ("int", "bool", "real", "str", "bytes") and not isinstance(v, MBytes):
                env.vars[n] = Sym(k, self.c.fresh(SORTS[k], n))
            else:
                env.vars[n] = _Stale(n)

    def push_frame(self, spec, env):
        fr = {"serial": Mut._serial + 1, "ok": set()}
        self.c.frames.append(fr)
        if spec.havoc:
            spec.havoc(self, env)
        return fr

    def inv_check(self, spec, label, *a):
        for name, t in spec.inv(self, *a):
            self.c.check(f"{label}: {name}", t)

    def inv_assume(self, spec, *a):
        for _, t in spec.inv(self, *a):
            self.c.assume(t)

    def cut_for(self, src, body, s, env, spec, orelse):
        where = f"{env.fn.name} loop{s._ord}"
        if spec.members and isinstance(src, (AList, MList, MDict, View)):
            return self.cut_for_set(src, body, s, env, spec, orelse, where)
        if isinstance(src, MSet) or (isinstance(src, MDict) and src.order is None) or (
            isinstance(src, View) and src.kind in ("keys", "values", "items") and src.src[0].order is None):
            return self.cut_for_set(src, body, s, env, spec, orelse, where)
        n, elem = self.seq_view(src)
        self.inv_check(spec, f"{where} invariant on entry", env, z3.IntVal(0), n)
        i = self.c.fresh(z3.IntSort(), "iter")
        which = self.c.choose(2)
        self.havoc_locals(s, env, spec)
        self.push_frame(spec, env)
        if which == 0:
            self.c.assume(z3.And(i >= 0, i < n))
            self.inv_assume(spec, env, i, n)
            try:
                body(elem(i))
            except ContinueEx:
                pass
            except BreakEx:
                self.c.frames.pop()
                return
            self.inv_check(spec, f"{where} invariant preserved", env, i + 1, n)
            self.c.eng.cuts = getattr(self.c.eng, "cuts", 0) + 1
            raise PathEnd()
        self.c.frames.pop()
        self.c.assume(i == n)
        self.inv_assume(spec, env, i, n)
        if spec.after:
            spec.after(self, env)
        self.block(orelse, env)

    def cut_for_set(self, src, body, s, env, spec, orelse, where):
        d = src.src[0] if isinstance(src, View) else src
        multi = isinstance(d, (AList, MList))
        if isinstance(d, MList):
            if not d.conc or not d.ty:
                raise Unsupported("members of this list")
        mem = d.dom if isinstance(d, MDict) else d.mem
        kty = d.kty if isinstance(d, MDict) else d.ty
        if mem is None:
            raise Unsupported("members of a rewritten list")
        none = z3.K(kty.sort, False)
        self.inv_check(spec, f"{where} invariant on entry", env, none, mem)
        which = self.c.choose(2)
        self.havoc_locals(s, env, spec)
        self.push_frame(spec, env)
        if which == 0:
            vis = self.c.fresh(z3.ArraySort(kty.sort, z3.BoolSort()), "visited")
            x = self.c.fresh(kty.sort, "elem")
            self.c.assume(mem[x] if multi else z3.And(mem[x], z3.Not(vis[x])))
            y = z3.Const("vis_y", kty.sort)
            self.c.assume(z3.ForAll([y], z3.Implies(vis[y], mem[y])))
            self.inv_assume(spec, env, vis, mem)
            k = kty.dec(self, x)
            if isinstance(src, View) and src.kind != "keys":
                v = d.vty.dec(self, d.val[x])
                el = v if src.kind == "values" else (k, v)
            else:
                el = k
            try:
                body(el)
            except ContinueEx:
                pass
            except BreakEx:
                self.c.frames.pop()
                return
            self.inv_check(spec, f"{where} invariant preserved", env, z3.Store(vis, x, True), mem)
            raise PathEnd()
        self.c.frames.pop()
        self.inv_assume(spec, env, mem, mem)
        if spec.after:
            spec.after(self, env)
        self.block(orelse, env)

    def s_While(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is None:
            for _ in range(400):
                if not self.test(self.ev(s.test, env)):
                    self.block(s.orelse, env)
                    return
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
                env.loops += 1
                if env.loops > 60:
                    raise Unsupported(f"while loop without contract in {env.fn.name}")
            raise Unsupported("while loop without contract")
        where = f"{env.fn.name} loop{s._ord}"
        self.inv_check(spec, f"{where} invariant on entry", env)
        self.havoc_locals(s, env, spec)
        fr = self.push_frame(spec, env)
        self.inv_assume(spec, env)
        d0 = spec.decreases(self, env) if spec.decreases else None
        if self.test(self.ev(s.test, env)):
            try:
                self.block(s.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                self.c.frames.remove(fr)
                return
            self.inv_check(spec, f"{where} invariant preserved", env)
            if d0 is not None:
                d1 = spec.decreases(self, env)
                self.c.check(f"{where} terminates", z3.And(d0 >= 0, d1 < d0))
            raise PathEnd()
        self.c.frames.remove(fr)
        if spec.after:
            spec.after(self, env)
        self.block(s.orelse, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = self.lookup(env, e.id)
        if isinstance(v, _Stale):
            raise Unsupported(f"local {v.name} at a loop head has no contract")
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_slice(self, sl, env):
        if isinstance(sl, ast.Slice):
            return ("slice",) + tuple(None if x is None else self.ev(x, env) for x in (sl.lower, sl.upper, sl.step))
        return self.ev(sl, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_slice(e.slice, env)
        return self.getitem(o, k)

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        return self.unop(e.op, self.ev(e.operand, env))

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            t = self.compare(op, left, right)
            if len(e.ops) == 1:
                return t if isinstance(t, bool) else Sym("bool", t)
            if not self.c.branch(t):
                return False
            left = right
        return True

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.test(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(env, e.target.id, v)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return MList(items=self.elts(e.elts, env))

    def e_Set(self, e, env):
        return MSet(items=self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = MDict(pairs=[])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                items = self.to_items(self.ev(x.value, env))
                if items is None:
                    raise Unsupported("star of a symbolic sequence")
                out.extend(items)
            else:
                out.append(self.ev(x, env))
        return out

    def e_Lambda(self, e, env):
        d = tuple(self.ev(x, env) for x in e.args.defaults)
        return FuncVal(e, env.fn.glob, f"{env.fn.name}.<lambda>", env, d)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                if v.conversion == -1 and spec is None:
                    parts.append(self.to_str(x))
                elif self.is_conc(x) and self.is_conc(spec):
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    parts.append(self.native(format, x, spec or ""))
                else:
                    parts.append(self.opaque_str("fmt", [x, spec if spec is not None else ""]))
        return self.str_concat(parts)

    def str_concat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        ts = [self.term(p, "str") for p in parts if p != ""]
        return Sym("str", ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def to_str(self, x):
        if isinstance(x, Sym) and x.k == "str":
            return x
        if isinstance(x, (SObj, Ref)):
            cls = x.cls if isinstance(x, SObj) else x.spec.cls
            f = self.class_attr(cls, "__str__")
            if isinstance(f, types.FunctionType):
                return self.call(self.bind(f, x, cls), [])
            return self.opaque_str("str", [])
        if isinstance(x, Sym) and x.k == "int":
            n = self.const_int(x)
            if n is not None:
                return str(n)
            if self.c.branch(x.t >= 0):
                return Sym("str", z3.IntToStr(x.t))
            return Sym("str", z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.t)))
        if isinstance(x, Sym) and x.k == "bool":
            return "True" if self.c.branch(x.t) else "False"
        if isinstance(x, NT):
            f = self.class_attr(x.cls, "__str__")
            if isinstance(f, types.FunctionType):
                return self.call(Bound(f, x), [])
        if self.is_conc(x):
            f = self.class_attr(type(x), "__str__")
            if isinstance(f, types.FunctionType) and any(s in f.__code__.co_filename for s in SRC_OK):
                return self.call(Bound(f, x), [])
            return self.native(str, x)
        return self.opaque_str("str", [x])

    def opaque_str(self, what, args):
        """Text whose exact form no contract depends on."""
        try:
            ts = [self.term(a, "any") for a in args]
            f = z3.Function(f"text_{what}_{len(ts)}", *[U] * len(ts), z3.StringSort())
            return Sym("str", f(*ts) if ts else self.c.fresh(z3.StringSort(), "text"))
        except Unsupported:
            return Sym("str", self.c.fresh(z3.StringSort(), "text"))

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        fn = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.unlive(self.ev(k.value, env))
                if not isinstance(d, MDict) or not d.conc:
                    if isinstance(d, Noop):
                        continue
                    raise Unsupported("symbolic keyword arguments")
                for kk, vv in d.pairs:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(fn, args, kwargs)

    def make_super(self, env):
        e = env
        while e is not None and (e.fn.real is None):
            e = e.parent
        if e is None:
            raise Unsupported("super()")
        real = e.fn.real
        cls = real.__closure__[real.__code__.co_freevars.index("__class__")].cell_contents
        first = e.fn.node.args.args[0].arg
        return SuperVal(cls, e.vars[first])

    def e_Await(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(v, CoroVal):
            return v.run()
        if isinstance(v, Noop):
            return None
        if isinstance(v, SObj) and "__await__" in v.attrs:
            return self.await_(self.call(v.attrs["__await__"], []))
        raise Unsupported(f"await {v!r}")

    def e_Yield(self, e, env):
        v = None if e.value is None else self.ev(e.value, env)
        en = env
        return en.handler(v)

    def e_YieldFrom(self, e, env):
        src = self.ev(e.value, env)
        if isinstance(src, GenVal):
            src.run(env.handler)
            return None
        items = self.to_items(src)
        if items is None:
            n, elem = self.seq_view(self.unlive(src))
            yf = getattr(self.cfg, "yield_from", None)
            if yf is None:
                raise Unsupported("yield from a symbolic sequence")
            return yf(self, env, src)
        for x in items:
            env.handler(x)
        return None

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_ListComp(self, e, env):
        out = []
        r = self.comp(e, env, lambda en: out.append(self.ev(e.elt, en)))
        return r if r is not None else MList(items=out)

    def e_SetComp(self, e, env):
        out = MSet(items=[])
        r = self.comp(e, env, lambda en: out.items.append(self.ev(e.elt, en)))
        return r if r is not None else self._dedup(out)

    def _dedup(self, s):
        items = []
        for x in s.items:
            if not self.c.branch(self.any_([self.eq(x, y) for y in items])):
                items.append(x)
        return MSet(items=items)

    def e_DictComp(self, e, env):
        d = MDict(pairs=[])
        r = self.comp(e, env, lambda en: self.dict_set(d, self.ev(e.key, en), self.ev(e.value, en)))
        return r if r is not None else d

    def e_GeneratorExp(self, e, env):
        # evaluated lazily and inline, like a generator function
        first = self.ev(e.generators[0].iter, env)
        spec = self.cfg.loops.get((env.fn.name, getattr(e, "_ord", None)))
        if spec is not None and self.symbolic_iter(self.unlive(first)):
            return spec(self, env, first, e)

        def run(handler):
            sub = Env(env.fn, env)
            sub.handler = handler
            self.comp_gens(e.generators, 0, sub, lambda en: handler(self.ev(e.elt, en)), first)

        return GenVal(run, "genexp")

    def comp(self, e, env, emit):
        spec = self.cfg.loops.get((env.fn.name, getattr(e, "_ord", None)))
        first = self.ev(e.generators[0].iter, env)
        if spec is not None and self.symbolic_iter(self.unlive(first)):
            return spec(self, env, first, e)
        sub = Env(env.fn, env)
        self.comp_gens(e.generators, 0, sub, emit, first)
        return None

    def comp_gens(self, gens, i, env, emit, first=None):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        src = first if i == 0 else self.ev(g.iter, env)

        def body(x):
            self.assign(g.target, x, env)
            for cond in g.ifs:
                if not self.test(self.ev(cond, env)):
                    return
            self.comp_gens(gens, i + 1, env, emit)

        fake = ast.For()
        fake._ord = None
        fake.orelse = []
        self.iterate(src, body, fake, env)

    def e_Slice(self, e, env):
        return self.ev_slice(e, env)


class _Lazy:
    """An attribute computed on first use."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, it):
        return self.fn(it)


class _Stale:
    """A local the loop rewrites and the loop contract says nothing about."""

    def __init__(self, name):
        self.name = name
