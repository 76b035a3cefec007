from fractions import Fraction as F
from harness.lib import *
from runtimepy.primitives import Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64, Float, Double, create
from runtimepy.primitives.scaling import apply, invert
from runtimepy.primitives.types.bounds import IntegerBounds

h = H()
INTS = [Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64]


def rng_of(cls):
    name = cls.kind.name
    w = int(name.replace("uint", "").replace("int", ""))
    return (0, 2**w - 1) if name.startswith("u") else (-(2 ** (w - 1)), 2 ** (w - 1) - 1)


@h.case
def bounds(h):
    for cls in INTS:
        lo, hi = rng_of(cls)
        b = cls.kind.int_bounds
        h.check((b.min, b.max) == (lo, hi), "integer kinds declare their representable range", kind=cls.kind.name, got=b)
        c = IntegerBounds.create(cls.kind.size, cls.kind.name[0] == "i")
        h.check((c.min, c.max) == (lo, hi), "bounds from width and signedness are the representable range", kind=cls.kind.name, got=c)
        h.ev(cls.kind.name)
        vals = [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, -1, 1] + h.ints() + [h.rng.randint(2 * lo - 5, 2 * hi + 5) for _ in range(h.n(40))]
        vals += [lo - 0.5, hi + 0.5, 0.25, float("inf"), float("-inf")]
        for v in vals:
            r = b.clamp(v)
            want = lo if v < lo else hi if v > hi else v
            h.check(r == want, "clamping saturates out of range and keeps in range", bounds=(lo, hi), value=v, got=r)
            h.check(b.validate(v) == (lo <= v <= hi), "validation is exact range membership", bounds=(lo, hi), value=v)
            h.ev((cls.kind.name, v))


def scalings(h):
    out = [None, [], [0.0, 1.0], [0, 1], [5, 2], [-3.5, 0.25], [100, -0.5], [0.1, 0.3], [-40.0, 1.8], [0.0, -1.0], [1e6, 1e-3], [0, 65536], [1, 1e-9]]
    for _ in range(h.n(30)):
        out.append([h.rng.choice([h.rng.uniform(-1e3, 1e3), h.rng.randint(-50, 50), h.rng.randint(-64, 64) / 8]),
                    h.rng.choice([h.rng.uniform(0.001, 50), -h.rng.uniform(0.001, 50), 2.0 ** h.rng.randint(-6, 6), h.rng.choice([-1, 1]) * h.rng.randint(1, 9)])])
    return out


@h.case
def polynomial(h):
    for n in range(0, 7):
        for _ in range(h.n(40)):
            c = [h.rng.choice([h.rng.randint(-9, 9), h.rng.randint(-64, 64) / 16]) for _ in range(n)]
            v = h.rng.choice([h.rng.randint(-12, 12), h.rng.randint(-40, 40) / 4, 0, 1, -1])
            keep = list(c)
            got = apply(v, c or None) if h.rng.random() < 0.5 else apply(v, scaling=c)
            want = sum((F(x) * F(v) ** i for i, x in enumerate(c)), F(0)) if c else F(v)
            h.check(abs(F(got) - want) <= F(1, 10**9) * (1 + sum(abs(F(x) * F(v) ** i) for i, x in enumerate(c))), "the scaled value is the polynomial of the raw value", coefficients=c, raw=v, got=got, want=float(want))
            h.check(c == keep, "scaling coefficients are not modified", coefficients=keep, got=c)
            h.ev((tuple(c), v))
    for n in (3, 4, 5):
        h.check(raises(lambda: invert(1.0, scaling=[1.0] * n)), "a polynomial above first order is refused by inversion", terms=n)


@h.case
def set_scaled(h):
    for sc in scalings(h):
        a, b = (F(sc[0]), F(sc[1])) if sc else (F(0), F(1))
        for cls in INTS:
            lo, hi = rng_of(cls)
            raws = [lo, hi, 0, 1, hi // 2, lo + 1, h.rng.randint(lo, hi), h.rng.randint(-100, 100), h.rng.randint(lo, hi)]
            for raw in raws:
                d = h.rng.choice([F(0), F(1, 4), F(-3, 8), F(0), F(hi - lo), F(lo - hi), F(3), F(1, 2)])
                v = float(a + b * (raw + d))
                p = cls(scaling=sc)
                try:
                    p.scaled = v
                except Exception as e:
                    h.fail("assigning a finite scaled value must succeed", kind=cls.kind.name, scaling=sc, value=v, error=repr(e))
                    continue
                got = p.value
                want = (F(v) - a) / b
                # floating-point slack of one subtraction and one division
                slack = (abs(F(v)) + abs(a)) / abs(b) * F(1, 2**50) + F(1, 2**40)
                near = abs(got - want) <= F(1, 2) + slack
                sat = (got == lo and want < lo + slack + 1) or (got == hi and want > hi - slack - 1)
                h.check(lo <= got <= hi and (near or sat), "a scaled assignment stores the nearest representable raw value, saturating", kind=cls.kind.name, scaling=sc, value=v, got=got, want=float(want))
                h.ev((cls.kind.name, str(sc), v))
                back = F(p.scaled)
                exp = a + b * got
                h.check(abs(back - exp) <= (abs(a) + abs(b * got)) * F(1, 2**48) + F(1, 2**60), "the scaled reading is the polynomial of the raw value", kind=cls.kind.name, scaling=sc, raw=got, got=float(back), want=float(exp))


@h.case
def int_roundtrip(h):
    for sc in scalings(h):
        for cls in INTS[:3] + INTS[4:7]:
            lo, hi = rng_of(cls)
            for raw in [lo, hi, 0, 1, h.rng.randint(lo, hi), h.rng.randint(lo, hi)]:
                p = cls(value=raw, scaling=sc)
                s = p.scaled
                if sc and abs(sc[0]) / abs(sc[1]) > 2**40:
                    continue
                p.value = 0
                p.scaled = s
                h.check(p.value == raw, "writing back a scaled reading keeps the raw value", kind=cls.kind.name, scaling=sc, raw=raw, got=p.value, scaled=s)
                h.ev((cls.kind.name, str(sc), raw))


@h.case
def floats(h):
    for sc in scalings(h):
        for cls, tol in ((Double, 2.0**-44), (Float, 2.0**-20)):
            for _ in range(4):
                v = h.rng.choice([h.rng.uniform(-100, 100), h.rng.uniform(-1e5, 1e5), 0.0, 1.5])
                p = cls(scaling=sc)
                p.scaled = v
                off = abs(sc[0]) if sc else 0
                h.check(abs(p.scaled - v) <= tol * (abs(v) + off + 1e-6) * 4, "a scaled floating-point value reads back", kind=cls.kind.name, scaling=sc, value=v, got=p.scaled)
                h.ev((cls.kind.name, str(sc), v))


h.done()
