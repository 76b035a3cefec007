"""C02: integer bounds, clamping and scaled values."""
from contracts.common import *
from runtimepy.primitives import scaling as S
from runtimepy.primitives import int as PI
from runtimepy.primitives import float as PF
from runtimepy.primitives.types.bounds import IntegerBounds
from runtimepy.primitives.types import int as TI

INTS = [TI.Int8, TI.Int16, TI.Int32, TI.Int64, TI.Uint8, TI.Uint16, TI.Uint32, TI.Uint64]
PINTS = [PI.Int8, PI.Int16, PI.Int32, PI.Int64, PI.Uint8, PI.Uint16, PI.Uint32, PI.Uint64]


def rng(size, signed):
    w = 8 * size
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


def bounds_of(it, b):
    return it.term(it.getattr(b, "min"), "int"), it.term(it.getattr(b, "max"), "int")


def v_create(it):
    for t in INTS:
        for signed in (True, False):
            o = call(it, IntegerBounds.create, t.size, signed)
            lo, hi = rng(t.size, signed)
            a, b = bounds_of(it, o.value)
            it.c.check("create: bounds are the representable range", z3.And(a == lo, b == hi))
    for t in INTS:
        lo, hi = rng(t.size, t.name.startswith("i"))
        it.c.check("kinds: the declared width is that of the name", t.size * 8 == int(t.name.lstrip("uint")))
        a, b = bounds_of(it, t.int_bounds)
        it.c.check("kinds: declared bounds match the signedness and width", z3.And(a == lo, b == hi))
    cover(it, "return")


def v_clamp(it, k):
    lo, hi = it.c.sym("int", "lo"), it.c.sym("int", "hi")
    it.c.assume(lo.t <= hi.t)
    b = call(it, IntegerBounds, lo, hi).value
    v = it.c.sym(k, "v")
    vt = v.t
    o = call(it, it.getattr(b, "clamp"), v)
    it.c.check("clamp returns", o.ok)
    r = it.term(o.value, k)
    L, Hh = it.term(lo, k), it.term(hi, k)
    it.c.check("clamp: result in bounds", z3.And(r >= L, r <= Hh))
    it.c.check("clamp: value in bounds kept", z3.Implies(z3.And(vt >= L, vt <= Hh), r == vt))
    it.c.check("clamp: below the minimum saturates", z3.Implies(vt < L, r == L))
    it.c.check("clamp: above the maximum saturates", z3.Implies(vt > Hh, r == Hh))
    o = call(it, it.getattr(b, "validate"), v)
    it.c.check("validate: exact membership", eqv(it, o.value, Sym("bool", z3.And(vt >= L, vt <= Hh))))
    cover(it, "return")


# ghost functions of the polynomial: P(i) = v**i, V(i) = sum of the first i terms
P = z3.Function("poly_pow", z3.IntSort(), z3.RealSort())
V = z3.Function("poly_sum", z3.IntSort(), z3.RealSort())


def v_apply_cfg(cfg):
    def inv(it, env, i, n):
        v = it.term(env.vars["value"], "real")
        c = it.c.ghost["coef"]
        ax = z3.And(P(0) == 1, V(0) == 0, z3.Implies(z3.And(i >= 1, i <= n), z3.And(P(i) == P(i - 1) * v, V(i) == V(i - 1) + c.seq[i - 1] * P(i - 1))))
        it.c.assume(ax)  # definition of the ghost functions, unfolded at i
        return [("partial sum of the polynomial", it.term(env.vars["result"], "real") == V(i)), ("next power", it.term(env.vars["poly_index_val"], "real") == P(i))]

    cfg.loop(S.apply, 0, LoopSpec(inv))


def v_apply(it, k):
    v = it.c.sym(k, "v")
    c = it.c.ghost["coef"] = sym_list(it, REAL, "coef")
    n = z3.Length(c.seq)
    it.c.assume(n > 0)
    fr = Frame(it, c)
    o = call(it, S.apply, v, c)
    it.c.check("apply: the sum over all terms", it.term(o.value, "real") == V(n))
    fr.check("apply")
    cover(it, "return")


def v_apply_small(it):
    """Concrete spines: the value in closed form, up to four terms."""
    v = it.c.sym("real", "v")
    for none in (None, MList(items=[])):
        o = call(it, S.apply, v, none)
        it.c.check("apply: no scaling is the identity", eqv(it, o.value, v))
    for n in range(1, 5):
        c = [it.c.sym("real", f"c{i}") for i in range(n)]
        o = call(it, S.apply, v, MList(items=list(c)))
        want = c[0].t
        p = z3.RealVal(1)
        for x in c[1:]:
            p = p * v.t
            want = want + x.t * p
        it.c.check("apply: polynomial of the value", it.term(o.value, "real") == want)
    cover(it, "return")


def v_invert(it, n):
    v = it.c.sym("real", "v")
    c = [it.c.sym("real", f"c{i}") for i in range(n)]
    if n == 2:
        it.c.assume(c[1].t != 0)
    lst = MList(items=list(c)) if n else None
    o = call(it, S.invert, v, lst)
    if n > 2:
        it.c.check("invert: a non-linear polynomial is refused", o.raised(AssertionError))
        cover(it, "return")
        return
    r = it.term(o.value, "real")
    it.c.check("invert: exact inverse of the line", r * (c[1].t if n == 2 else 1) + (c[0].t if n else 0) == v.t)
    back = call(it, S.apply, o.value, lst)
    it.c.check("apply after invert is the identity", it.term(back.value, "real") == v.t)
    raw = it.c.sym("real", "raw")
    o2 = call(it, S.invert, call(it, S.apply, raw, lst).value, lst)
    it.c.check("invert after apply is the identity", it.term(o2.value, "real") == raw.t)
    o3 = call(it, S.invert, v, lst, True)
    r3 = it.term(o3.value, "int")
    d = z3.ToReal(r3) - r
    it.c.check("invert: rounding is to the nearest integer", z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2)))
    rawi = it.c.sym("int", "rawi")
    o4 = call(it, S.invert, call(it, S.apply, rawi, lst).value, lst, True)
    it.c.check("invert after apply returns the same integer", it.term(o4.value, "int") == rawi.t)
    cover(it, "return")


def v_scaled(it, n):
    """Assigning a scaled value stores the saturated nearest raw value."""
    i = it.c.choose(len(PINTS))
    cls = PINTS[i]
    lo, hi = rng(cls.kind.size, cls.kind.name.startswith("i"))
    c = [it.c.sym("real", f"c{j}") for j in range(n)]
    if n == 2:
        it.c.assume(c[1].t != 0)
    lst = MList(items=list(c)) if n else None
    p = call(it, cls, scaling=lst).value
    v = it.c.sym("real", "v")
    want = (v.t - (c[0].t if n else 0)) / (c[1].t if n == 2 else 1)
    try:
        it.setattr(p, "scaled", v)
        exc = None
    except PyExc as e:
        exc = e.exc
    it.c.check("assigning a scaled value succeeds", exc is None)
    raw = it.term(it.getattr(p, "value"), "int")
    it.c.check("stored raw value is representable", z3.And(raw >= lo, raw <= hi))
    d = z3.ToReal(raw) - want
    half = z3.Q(1, 2)
    it.c.check("stored raw value is the nearest, unless saturated", z3.Or(
        z3.And(d <= half, d >= -half), z3.And(raw == lo, want < lo), z3.And(raw == hi, want > hi)))
    back = it.term(it.getattr(p, "scaled"), "real")
    it.c.check("scaled value read back is the line through the raw value",
               back == z3.ToReal(raw) * (c[1].t if n == 2 else 1) + (c[0].t if n else 0))
    cover(it, "return")


def v_scaled_float(it, n):
    cls = [PF.Float, PF.Double][1]
    c = [it.c.sym("real", f"c{j}") for j in range(n)]
    if n == 2:
        it.c.assume(c[1].t != 0)
    lst = MList(items=list(c)) if n else None
    p = call(it, cls, scaling=lst).value
    v = it.c.sym("real", "v")
    it.setattr(p, "scaled", v)
    if True:
        it.c.check("a scaled floating-point value reads back", it.term(it.getattr(p, "scaled"), "real") == v.t)
    cover(it, "return")


CONTRACTS = [
    Unit("bounds.create", "runtimepy.primitives.types.bounds:IntegerBounds.create", v_create),
    Unit("bounds.clamp[int]", "runtimepy.primitives.types.bounds:IntegerBounds.clamp", lambda it: v_clamp(it, "int")),
    Unit("bounds.clamp[real]", "runtimepy.primitives.types.bounds:IntegerBounds.clamp", lambda it: v_clamp(it, "real")),
    Unit("scaling.apply[real]", "runtimepy.primitives.scaling:apply", lambda it: v_apply(it, "real"), v_apply_cfg),
    Unit("scaling.apply[int]", "runtimepy.primitives.scaling:apply", lambda it: v_apply(it, "int"), v_apply_cfg),
    Unit("scaling.apply[closed form]", "runtimepy.primitives.scaling:apply", v_apply_small),
] + [
    Unit(f"scaling.invert[{n} terms]", "runtimepy.primitives.scaling:invert", lambda it, n=n: v_invert(it, n)) for n in (0, 2, 3)
] + [
    Unit(f"Primitive.scaled[{n} terms]", "runtimepy.primitives.base:Primitive.scaled", lambda it, n=n: v_scaled(it, n), base_cfg) for n in (0, 2)
] + [
    Unit(f"Primitive.scaled[float, {n} terms]", "runtimepy.primitives.base:Primitive.scaled", lambda it, n=n: v_scaled_float(it, n), base_cfg) for n in (0, 2)
]
