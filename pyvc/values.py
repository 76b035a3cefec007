"""Value domain of the symbolic interpreter.

Concrete Python objects stand for themselves.  Everything symbolic is one of
the classes below.  z3 terms are mathematical: ints are unbounded (as Python's
are), floats are reals (an assumption reported in the evidence), text and byte
strings are z3 strings (bytes are the code points 0..255).
"""
from __future__ import annotations
import z3

U = z3.DeclareSort("U")  # opaque values
SORTS = {
    "int": z3.IntSort(),
    "bool": z3.BoolSort(),
    "real": z3.RealSort(),
    "str": z3.StringSort(),
    "bytes": z3.StringSort(),
    "any": U,
    "bv": z3.BitVecSort(192),  # Python ints of magnitude below 2**190, for bit arithmetic
}
BVW = 192


class Sym:
    """A symbolic immutable scalar (or text) value."""

    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return f"<{self.k}:{self.t}>"

    def __hash__(self):
        return hash((self.k, self.t.get_id()))

    def __eq__(self, other):
        return isinstance(other, Sym) and self.k == other.k and self.t.eq(other.t)

    def __bool__(self):
        raise TypeError("symbolic value used as a native bool")


def SInt(t):
    return Sym("int", t)


def SBool(t):
    return Sym("bool", t)


def SReal(t):
    return Sym("real", t)


def SStr(t):
    return Sym("str", t)


def SBytes(t):
    return Sym("bytes", t)


class Mut:
    """Base of interpreter-level mutable objects."""

    _serial = 0

    def __init__(self):
        Mut._serial += 1
        self.serial = Mut._serial
        self.tag = None


class SObj(Mut):
    """An instance of a (real) class with interpreter-managed attributes."""

    def __init__(self, cls, attrs=None, tag=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.tag = tag

    def __repr__(self):
        return f"<{self.cls.__name__}{'#' + self.tag if self.tag else ''}>"


class MList(Mut):
    """A list (or symbolic tuple). Concrete spine or a z3 sequence."""

    def __init__(self, items=None, seq=None, ty=None, cls=list):
        super().__init__()
        self.items = items
        self.seq = seq
        self.ty = ty
        self.cls = cls

    @property
    def conc(self):
        return self.items is not None

    def __repr__(self):
        return f"MList({self.items if self.conc else self.seq})"


class AList(Mut):
    """A list as array, length and membership (good under quantifiers)."""

    def __init__(self, arr, n, mem, ty):
        super().__init__()
        self.arr, self.n, self.mem, self.ty = arr, n, mem, ty

    def __repr__(self):
        return f"AList({self.arr})"


class Order:
    """Insertion order of a dict: arr[0..n), and its inverse pos."""

    def __init__(self, arr, n, pos):
        self.arr, self.n, self.pos = arr, n, pos


class MDict(Mut):
    """A dict. Concrete spine (list of pairs) or domain/value arrays."""

    def __init__(self, pairs=None, dom=None, val=None, kty=None, vty=None, order=None, size=None, cls=dict):
        super().__init__()
        self.pairs = pairs
        self.dom = dom
        self.val = val
        self.kty = kty
        self.vty = vty
        self.order = order  # Order, insertion order (optional)
        self.size = size
        self.cls = cls

    @property
    def conc(self):
        return self.pairs is not None

    def __repr__(self):
        return f"MDict({self.pairs if self.conc else self.dom})"


class MSet(Mut):
    """A set. Concrete spine or a membership array."""

    def __init__(self, items=None, mem=None, ty=None):
        super().__init__()
        self.items = items
        self.mem = mem
        self.ty = ty

    @property
    def conc(self):
        return self.items is not None


class MBytes(Mut):
    """A bytearray / BytesIO-like byte container: one string term."""

    def __init__(self, t, cls=bytearray):
        super().__init__()
        self.t = t
        self.cls = cls


class Stream(Mut):
    """io.BytesIO / io.StringIO: content written at the end, read position `pos`."""

    def __init__(self, data, pos=None, k="bytes"):
        super().__init__()
        self.k = k
        self.data = data
        self.pos = z3.IntVal(0) if pos is None else pos


class Cell(Mut):
    """A ctypes scalar; assignment coerces as ctypes does."""

    def __init__(self, ctype, value):
        super().__init__()
        self.ctype = ctype
        self.value = value


class Ref:
    """A reference to an object of an unbounded heap (Burstall arrays)."""

    __slots__ = ("spec", "t")

    def __init__(self, spec, t):
        self.spec = spec
        self.t = t

    def __repr__(self):
        return f"<ref {self.spec.name}:{self.t}>"


class NT(tuple):
    """An instance of a NamedTuple class holding symbolic parts."""

    cls = None

    @classmethod
    def make(cls, ntcls, values):
        r = cls(values)
        r.cls = ntcls
        return r


class Noop:
    """Absorbs logging and other calls without relevant effect."""

    def __repr__(self):
        return "Noop"


NOOP = Noop()


class FuncVal:
    """A function known by its AST (repository or third-party source)."""

    def __init__(self, node, glob, name, parent=None, defaults=(), kwdefaults=None, real=None, defcls=None):
        self.node = node
        self.glob = glob
        self.name = name
        self.parent = parent
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.real = real
        self.defcls = defcls

    def __repr__(self):
        return f"<fn {self.name}>"


class Bound:
    """A bound method."""

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class Prim:
    """A modelled callable: fn(interp, args, kwargs)."""

    def __init__(self, fn, name="prim"):
        self.fn = fn
        self.name = name

    def __repr__(self):
        return f"<prim {self.name}>"


class GenVal:
    """A generator, run inline with a yield handler."""

    def __init__(self, run, name):
        self.run = run
        self.name = name
        self.ctxmgr = False


class CoroVal:
    """A coroutine, run inline when awaited."""

    def __init__(self, run, name):
        self.run = run
        self.name = name


class RangeVal:
    """range(lo, hi, step) with symbolic bounds (step concrete)."""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class View:
    """dict.items()/keys()/values(), enumerate, zip, reversed, map."""

    def __init__(self, kind, *src):
        self.kind = kind
        self.src = src


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ExcVal:
    """A raised exception instance."""

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)

    def __repr__(self):
        return f"{self.cls.__name__}{self.args!r}"


# ---- control flow -------------------------------------------------------
class PyExc(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class BodyExit(BaseException):
    """Carries control flow of a loop body out through a generator frame."""

    def __init__(self, inner):
        self.inner = inner


class PathEnd(BaseException):
    """This path is finished (cut at a loop head, or infeasible)."""


class Unsupported(BaseException):
    """The verifier cannot translate this code: undecided, never an alarm."""


class Undecided(BaseException):
    """Resource limit or solver unknown."""


# ---- types for symbolic containers -----------------------------------------
class Ty:
    pass


class Scalar(Ty):
    def __init__(self, k):
        self.k = k
        self.sort = SORTS[k]

    def enc(self, it, v):
        return it.term(v, self.k)

    def dec(self, it, t):
        return Sym(self.k, t)


class Tup(Ty):
    _n = {}

    def __init__(self, *tys, nt=None):
        self.tys = tys
        self.nt = nt
        name = "Tup_" + "_".join(str(t.sort) for t in tys)
        name = "".join(ch if ch.isalnum() else "_" for ch in name)
        if name not in Tup._n:
            Tup._n[name] = z3.TupleSort(name, [t.sort for t in tys])
        self.sort, self.mk, self.acc = Tup._n[name]

    def enc(self, it, v):
        if isinstance(v, MList) and v.conc:
            v = v.items
        return self.mk(*[ty.enc(it, x) for ty, x in zip(self.tys, v)])

    def dec(self, it, t):
        vals = [ty.dec(it, z3.simplify(a(t))) for ty, a in zip(self.tys, self.acc)]
        return NT.make(self.nt, vals) if self.nt else tuple(vals)


class Opt(Ty):
    _n = {}

    def __init__(self, ty):
        self.ty = ty
        name = "Opt_" + "".join(ch if ch.isalnum() else "_" for ch in str(ty.sort))
        if name not in Opt._n:
            d = z3.Datatype(name)
            d.declare("none_" + name)
            d.declare("some_" + name, ("get_" + name, ty.sort))
            d = d.create()
            Opt._n[name] = (d, d.constructor(0)(), d.constructor(1), d.recognizer(0), d.accessor(1, 0))
        self.sort, self.none, self.some, self.is_none, self.get = Opt._n[name]

    def enc(self, it, v):
        if v is None:
            return self.none
        return self.some(self.ty.enc(it, v))

    def dec(self, it, t):
        if it.c.branch(self.is_none(t)):
            return None
        return self.ty.dec(it, self.get(t))


class RefTy(Ty):
    """References to objects described by a ClassSpec."""

    sort = z3.IntSort()

    def __init__(self, spec):
        self.spec = spec

    def enc(self, it, v):
        if isinstance(v, Ref):
            return v.t
        if isinstance(v, SObj):
            return it.promote(v, self.spec).t
        raise Unsupported(f"not a {self.spec.name} reference: {v!r}")

    def dec(self, it, t):
        return Ref(self.spec, t)


class Choice(Ty):
    """One of finitely many concrete Python objects (coded by index)."""

    sort = z3.IntSort()

    def __init__(self, objs):
        self.objs = list(objs)

    def enc(self, it, v):
        for i, o in enumerate(self.objs):
            if o is v:
                return z3.IntVal(i)
        raise Unsupported(f"value {v!r} outside a finite choice")

    def dec(self, it, t):
        for i, o in enumerate(self.objs[:-1]):
            if it.c.branch(t == i):
                return o
        it.c.assume(t == len(self.objs) - 1)
        return self.objs[-1]


INT, BOOL, REAL, STR, BYTES, ANY, BV = (Scalar(k) for k in ("int", "bool", "real", "str", "bytes", "any", "bv"))


class ClassSpec:
    """Shape of heap objects reached through Ref."""

    def __init__(self, name, cls, fields):
        self.name = name
        self.cls = cls
        self.fields = fields
