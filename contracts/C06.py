"""C06: bit fields: isolation and allocation."""
from contracts.common import *
from runtimepy import primitives as RP
from runtimepy.primitives.field import BitField, BitFieldBase, BitFlag
from runtimepy.primitives.field.fields import BitFields

KINDS = [(RP.Uint8, 8), (RP.Uint16, 16), (RP.Uint32, 32), (RP.Uint64, 64)]
W = 192


def bvv(n):
    return z3.BitVecVal(n, W)


def raw(it, k):
    cls, bits = KINDS[k]
    p = call(it, cls).value
    r = it.c.sym("bv", "raw")
    it.c.assume(z3.And(r.t >= 0, r.t < bvv(1 << bits)))
    it.getattr(p, "raw").value = r
    return p, r.t, bits


def field(it, p, bits, base=False):
    """A field at any position and of any width within the primitive."""
    i, w = it.c.sym("bv", "index"), it.c.sym("bv", "width")
    it.c.assume(z3.And(i.t >= 0, i.t < bits, w.t >= 1, w.t <= bits, i.t + w.t <= bits))
    o = call(it, BitFieldBase, p, i, w) if base else call(it, BitField, "field", p, i, w)
    it.c.check("a field within its primitive can be created", o.ok)
    return o.value, i.t, w.t


def now(it, p):
    return it.term(it.getattr(p, "value"), "bv")


def mask(w):
    return (bvv(1) << w) - 1


def v_call(it):
    p, r, bits = raw(it, it.c.choose(4))
    f, i, w = field(it, p, bits, it.c.choose(2) == 1)
    fr = Frame(it, p, f)
    o = call(it, f)
    it.c.check("reading gives the field's bits of the primitive", o.ok and it.term(o.value, "bv") == ((r >> i) & mask(w)))
    it.c.check("reading changes nothing", now(it, p) == r)
    fr.check("read")
    v = it.c.sym("bv", "value")
    it.c.assume(z3.And(v.t > -bvv(1 << 100), v.t < bvv(1 << 100)))
    o = call(it, f, v)
    n = now(it, p)
    it.c.check("writing returns the value truncated to the width", o.ok and it.term(o.value, "bv") == (v.t & mask(w)))
    it.c.check("bits outside the field are unchanged", (n & ~(mask(w) << i)) == (r & ~(mask(w) << i)))
    it.c.check("the field's bits hold the value", ((n >> i) & mask(w)) == (v.t & mask(w)))
    it.c.check("the primitive stays in range", z3.And(n >= 0, n < bvv(1 << bits)))
    o = call(it, f)
    it.c.check("a value written is read back", it.term(o.value, "bv") == (v.t & mask(w)))
    cover(it, "return")


def v_invert(it):
    p, r, bits = raw(it, it.c.choose(4))
    f, i, w = field(it, p, bits)
    o = call(it, method(f, "invert"))
    it.c.check("inverting flips exactly the field's bits", now(it, p) == r ^ (mask(w) << i))
    it.c.check("inverting returns the new value", it.term(o.value, "bv") == ((~r >> i) & mask(w)))
    cover(it, "return")


def v_flag(it):
    p, r, bits = raw(it, it.c.choose(4))
    i = it.c.sym("bv", "index")
    it.c.assume(z3.And(i.t >= 0, i.t < bits))
    o = call(it, BitFlag, "flag", p, i)
    it.c.check("a flag within its primitive can be created", o.ok)
    f = o.value
    how = it.c.choose(4)
    name = ["set", "clear", "set", "get"][how]
    o = call(it, method(f, name), *([it.c.sym("bool", "state")] if how == 2 else []))
    n = now(it, p)
    bit = bvv(1) << i.t
    if how == 3:
        it.c.check("a flag reads its bit", tm(it, o.value, "bool") == ((r & bit) != 0))
        it.c.check("reading a flag changes nothing", n == r)
    else:
        if how == 2:
            it.c.check("a flag changes no other bit", (n & ~bit) == (r & ~bit))
        else:
            it.c.check("set and clear change exactly the flag's bit", n == [r | bit, r & ~bit][how])
    cover(it, "return")


def v_flag_set(it):
    p, r, bits = raw(it, it.c.choose(4))
    i = it.c.sym("bv", "index")
    it.c.assume(z3.And(i.t >= 0, i.t < bits))
    f = call(it, BitFlag, "flag", p, i).value
    s = it.c.sym("bool", "state")
    o = call(it, method(f, "set"), s)
    bit = bvv(1) << i.t
    it.c.check("a flag set to a state holds it, no other bit changes", o.ok and now(it, p) == z3.If(s.t, r | bit, r & ~bit))
    it.c.check("a flag set to a state reads it back", tm(it, call(it, method(f, "get")).value, "bool") == s.t)
    cover(it, "return")


def v_create(it):
    """A field is created exactly when it lies within its primitive."""
    k = it.c.choose(4)
    cls, bits = KINDS[k]
    p = call(it, cls).value
    i, w = it.c.sym("int", "index"), 1 + it.c.choose(bits + 2)
    it.c.assume(i.t >= 0)
    o = call(it, BitField, "field", p, i, w)
    if o.ok:
        it.c.check("no field extends past its primitive", i.t + w <= bits)
        cover(it, "created")
    else:
        it.c.check("only a field past its primitive is refused", z3.And(o.raised(AssertionError), i.t + w > bits))
        cover(it, "refused")


def v_name(it):
    p = call(it, RP.Uint8).value
    for name, ok in (("a", True), ("A.b-c_9", True), ("", False), ("a b", False), ("a/b", False), ("ü", False), ("a\n", False)):
        o = call(it, BitField, name, p, 0, 1)
        it.c.check("field names are checked", o.ok == ok)
    cover(it, "return")


# -- allocation from an arbitrary set of free bits
def fields_obj(it, k):
    cls, bits = KINDS[k]
    p = call(it, cls).value
    cur = it.c.sym("int", "curr_index")
    avail = MSet(mem=it.c.fresh(z3.ArraySort(z3.IntSort(), z3.BoolSort()), "free"), ty=INT)
    x = z3.Int("x")
    it.c.assume(And(cur.t >= 0, z3.ForAll([x], z3.Implies(avail.mem[x], z3.And(x >= 0, x < bits)))))
    # type invariant: every bit at or after the current index is free
    it.c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= cur.t, x < bits), avail.mem[x])))
    # ... and the bit before it is taken
    it.c.assume(z3.Or(cur.t == 0, z3.Not(avail.mem[cur.t - 1])))
    f = new(it, BitFields, raw=p, curr_index=cur, bits_available=avail, fields=MDict([]), by_index=MDict([]), _finalized=it.c.choose(2) == 1)
    return f, avail, cur, bits


def inv_after(it, f, bits):
    x = z3.Int("x")
    mem = it.set_mem(it.getattr(f, "bits_available"), INT)
    cur = tm(it, it.getattr(f, "curr_index"), "int")
    it.c.check("bits from the current index on stay free", z3.ForAll([x], z3.Implies(z3.And(x >= cur, x < bits), mem[x])))
    it.c.check("the bit before the current index is taken", z3.Or(cur == 0, z3.Not(mem[cur - 1])))
    return mem


def v_claim(it, k, how):
    f, avail, cur, bits = fields_obj(it, k)
    fin = f.attrs["_finalized"]
    m0, c0 = avail.mem, cur.t
    w = 1 + it.c.choose(bits + 1) if bits <= 8 else [1, 2, bits // 2, bits, bits + 1][it.c.choose(5)]
    auto = it.c.choose(2) == 1
    idx = it.c.sym("int", "index")
    it.c.assume(idx.t >= 0)
    start = c0 if auto else idx.t
    kw = {} if auto else {"index": idx}
    if how == "pad":
        o = call(it, method(f, "pad"), w, **kw)
    elif how == "field":
        if w == 1:
            o = call(it, method(f, "flag"), "name", **kw)
        else:
            o = call(it, method(f, "field"), "name", w, **kw)
    free = And(*[m0[start + b] for b in range(w)])
    if o.ok:
        it.c.check("bits are given out only while not finalized", not fin)
        it.c.check("only free bits are given out", free)
        mem = inv_after(it, f, bits)
        x = z3.Int("x")
        it.c.check("the bits given out are free no more, the others stay", z3.ForAll([x], mem[x] == z3.And(m0[x], z3.Not(z3.And(x >= start, x < start + w)))))
        by = it.getattr(f, "by_index")
        at = call(it, it.getattr(by, "get"), Sym("int", start) if not auto else cur).value
        if how == "pad":
            it.c.check("padding is placed where asked, else after the last field", eqv(it, o.value, Sym("int", start)))
            it.c.check("padding is recorded", isinstance(at, tuple) and eqv(it, at[0], w))
        else:
            fl = o.value
            it.c.check("a field is placed where asked, else after the last field", And(eqv(it, it.getattr(fl, "index"), Sym("int", start)), eqv(it, it.getattr(fl, "width"), w)))
            it.c.check("a field is found by name and by index", call(it, method(f, "get_field"), "name").value is fl and at is fl)
            if bits > 16:
                cover(it, "return")
                return
            o = call(it, method(f, "field"), "name", 2)
            it.c.check("a name is used once", o.raised(AssertionError))
            o = call(it, method(f, "flag"), "name")
            it.c.check("a flag's name is used once", o.raised(AssertionError) and call(it, method(f, "get_field"), "name").value is fl)
        cover(it, "return")
    else:
        it.c.check("only taken bits, bits past the primitive or finalized fields are refused", z3.And(o.raised(AssertionError), z3.Or(z3.BoolVal(fin), z3.Not(free))))
        if True:
            it.c.check("a refusal takes no bits", it.set_mem(it.getattr(f, "bits_available"), INT) == m0)
            it.c.check("a refusal records nothing", call(it, method(f, "get_field"), "name").value is None)
        cover(it, "refused")


def v_finalize(it):
    f, avail, cur, bits = fields_obj(it, it.c.choose(4))
    call(it, method(f, "finalize"))
    for o in (call(it, method(f, "flag"), "a"), call(it, method(f, "field"), "b", 2), call(it, method(f, "pad"))):
        it.c.check("finalized fields take no additions", o.raised(AssertionError))
    it.c.check("finalized fields keep their bits", it.getattr(f, "bits_available").mem == avail.mem)
    cover(it, "return")


F = "runtimepy.primitives.field:"
B = "runtimepy.primitives.field.fields:BitFields"
CONTRACTS = [
    Unit("field read and write", F + "BitFieldBase.__call__", v_call, base_cfg),
    Unit("field invert", F + "BitFieldBase.invert", v_invert, base_cfg),
    Unit("flag", F + "BitFlag", v_flag, base_cfg),
    Unit("flag set to a state", F + "BitFlag.set", v_flag_set, base_cfg),
    Unit("field creation", F + "BitField.__init__", v_create, base_cfg, covers=("created", "refused")),
    Unit("field names", F + "BitField.__init__", v_name, base_cfg),
] + [Unit(f"{how} allocation[{KINDS[k][0].__name__}]" + (" (widths: 1,2,half,full)" if k > 0 else ""), B + "._claim_bits", lambda it, k=k, how=how: v_claim(it, k, how), base_cfg, covers=("return", "refused")) for k in range(4) for how in ("field", "pad")] + [
    Unit("finalize", B + ".finalize", v_finalize, base_cfg),
]
