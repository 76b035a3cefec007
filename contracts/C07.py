"""C07: named bit fields: set and get through a manager, export and import."""
from contracts.C09 import *
from runtimepy.primitives.field import BitField, BitFieldBase, BitFlag
from runtimepy.primitives.field.fields import BitFields
from runtimepy.primitives.field.manager import BitFieldsManager


def fld(it, cls, name, index, width, raw, enum=None, val=None, desc=None, cmd=False):
    f = new(it, cls, name=name, raw=raw, index=index, width=width, commandable=cmd, description=desc, _enum=enum)
    f.val = val
    return f


def field_call(it, a, kw):
    """The contract of BitFieldBase.__call__ (proved in C06), over integers:
    the field holds an integer in [0, 2^width); writing stores the value
    modulo 2^width; other fields keep theirs."""
    it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"field read and write (C06)"}
    f = a[0]
    v = a[1] if len(a) > 1 else kw.get("val")
    cells = it.c.ghost["cells"]
    if v is not None:
        x = tm(it, v, "int")
        w = it.getattr(f, "width")
        m = z3.IntVal(2 ** w) if isinstance(w, int) else it.pow2(w.t)
        q, r = it.c.fresh(I, "q"), it.c.fresh(I, "stored")
        it.c.assume(z3.And(x == q * m + r, r >= 0, r < m))
        cells[id(f)] = r
    return Sym("int", cells[id(f)])


def cfg_mgr(cfg):
    cfg_reg(cfg)
    cfg.model(BitFieldBase.__call__, field_call, "BitFieldBase.__call__")


NAMES = ("flag", "three", "eight")
WIDTHS = (1, 3, 8)


def mgr(it, which):
    """A manager of three fields (1, 3 and 8 bits) in two primitives."""
    it.c.ghost["cells"] = cells = {}
    reg, s0 = mk(it, NameRegistry)
    it.c.ghost["cur0"] = reg.attrs["_current"].t
    for n in NAMES:
        it.c.assume(s0.rd[z3.StringVal(n)])
    enums = {}
    kinds = [it.c.choose(3) if n == which else 0 for n in NAMES]  # none, int, bool
    fs, look = {}, {}
    for n, w, k in zip(NAMES, WIDTHS, kinds):
        e = None
        if k:
            e, _, st = enum(it, INT if k == 1 else BOOL)
            enums[n] = e
        f = fld(it, BitFlag if w == 1 else BitField, n, 0, w, new(it, object), enum=n + "_enum" if k else None)
        cells[id(f)] = v = it.c.sym("int", n).t
        it.c.assume(z3.And(v >= 0, v < 2 ** w))
        fs[n] = f
    g1 = new(it, BitFields, fields=MDict([(n, fs[n]) for n in NAMES[:2]]), by_index=MDict([]), _finalized=True)
    g2 = new(it, BitFields, fields=MDict([(NAMES[2], fs[NAMES[2]])]), by_index=MDict([]), _finalized=True)
    m = new(it, BitFieldsManager, registry=reg, enums=it.c.sym("any", "enums", inp=False), fields=MList([g1, g2]), by_primitive=MDict([]),
            lookup=MDict([(NAMES[0], 0), (NAMES[1], 0), (NAMES[2], 1)]), enum_lookup=MDict([(n, e) for n, e in enums.items()]))
    return m, fs, cells, s0, kinds, enums


def key_of(it, s0, which):
    """The field's name, or its identifier."""
    if it.c.choose(2):
        return which
    return Sym("int", s0.rv[z3.StringVal(which)])


def v_set(it, which):
    m, fs, cells, s0, kinds, enums = mgr(it, which)
    i = NAMES.index(which)
    old = dict(cells)
    f = fs[which]
    m2 = 2 ** WIDTHS[i]
    text = it.c.choose(2) == 1
    v = it.c.sym("str" if text else "int", "value")
    key = key_of(it, s0, which)
    o = call(it, method(m, "set"), key, v)
    for n in NAMES:
        if n != which:
            it.c.check("no other field changes", cells[id(fs[n])] == old[id(fs[n])])
    now = cells[id(f)]
    if not text:
        it.c.check("an integer is stored modulo the width", And(o.ok, (v.t - now) % m2 == 0, now >= 0, now < m2))
    elif kinds[i]:
        e = enums[which]
        w = call(it, method(e, "get_int"), v)
        if w.ok:
            it.c.check("a name is stored as its enumeration value", And(o.ok, (tm(it, w.value, "int") - now) % m2 == 0))
            cover(it, "enum")
        else:
            it.c.check("an unknown name is a key error and stores nothing", And(o.raised(KeyError), now == old[id(f)]))
            cover(it, "unknown")
    else:
        lo = lower(it, v)
        ok, num = intok(v.t)
        t, fa = lo == z3.StringVal("true"), lo == z3.StringVal("false")
        if o.ok:
            want = z3.If(t, z3.IntVal(1), z3.If(fa, z3.IntVal(0), num))
            it.c.check("text is stored as the boolean or number it spells", z3.And(z3.Or(t, fa, ok), (want - now) % m2 == 0))
            cover(it, "text")
        else:
            it.c.check("text that spells nothing is a value error and stores nothing", And(o.raised(ValueError), z3.Not(z3.Or(t, fa, ok)), now == old[id(f)]))
    cover(it, "return")


def v_get(it, which):
    m, fs, cells, s0, kinds, enums = mgr(it, which)
    i = NAMES.index(which)
    old = dict(cells)
    now = cells[id(fs[which])]
    resolve = it.c.choose(2) == 1
    key = key_of(it, s0, which)
    o = call(it, method(m, "get"), key, resolve_enum=resolve)
    it.c.check("reading changes no field", cells == old)
    if kinds[i] and resolve:
        e = enums[which]
        val = Sym("int", now)
        w = call(it, method(e, "get_str"), val)
        if w.ok:
            it.c.check("an enumerated field reads as its value's name", And(o.ok, eqv(it, o.value, w.value)))
        else:
            it.c.check("a value without a name is a key error", o.raised(KeyError))
    elif WIDTHS[i] == 1:
        it.c.check("a flag reads as a boolean", And(o.ok, tm(it, o.value, "bool") == (now != 0)))
    else:
        it.c.check("a field reads as its value", And(o.ok, tm(it, o.value, "int") == now))
    cover(it, "return")


def v_find(it):
    m, fs, cells, s0, kinds, enums = mgr(it, None)
    fr = Frame(it, m)
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "int", "key")
    nm = key.t if by_name else s0.mv[key.t]
    known = s0.rd[nm] if by_name else s0.md[key.t]
    isf = z3.And(known, z3.Or(*[nm == z3.StringVal(n) for n in NAMES]))
    it.c.check("a key is a field exactly when it names one", it.truth(call(it, method(m, "has_field"), key).value) == isf)
    o = call(it, it.getattr(m, "__getitem__"), key)
    if o.ok:
        it.c.check("a field is found under its name or identifier", z3.And(isf, nm == z3.StringVal(it.getattr(o.value, "name"))))
        cover(it, "found")
    else:
        it.c.check("a key that names no field is a key error", And(o.raised(KeyError), z3.Not(isf)))
        cover(it, "missing")
    o = call(it, method(m, "get_flag"), key)
    if o.ok:
        it.c.check("only flags are given as flags", nm == z3.StringVal("flag"))
    else:
        it.c.check("a key that names no flag is a key error", And(o.raised(KeyError), nm != z3.StringVal("flag")) if not it.c.branch(z3.Not(isf)) else o.raised(KeyError))
    fr.check("lookup")


# -- export and import of one primitive's fields
def raw_kind(it, k):
    from runtimepy import primitives as RP
    return call(it, [RP.Uint8, RP.Uint16, RP.Uint32, RP.Uint64][k]).value


KN = ("uint8", "uint16", "uint32", "uint64")


def v_round_trip(it, n):
    """Any n fields (pads, flags, fields) at any free positions: export,
    import into a new object, compare and export again."""
    it.c.ghost["cells"] = cells = {}
    k = it.c.choose(2) * 2
    bits = 8 << k
    raw = raw_kind(it, k)
    fields, by = [], []
    pos = z3.IntVal(0)
    spec = []
    for j in range(n):
        kind = it.c.choose(3)
        ix = it.c.sym("int", f"index{j}")
        w = 1 if kind == 1 else 3
        it.c.assume(z3.And(ix.t >= pos, ix.t + w <= bits))
        pos = ix.t + w
        if kind == 0:
            by.append((ix, (w, 0)))
            spec.append((kind, ix, w, None))
            continue
        name = f"n{j}"
        v = it.c.sym("int", f"value{j}")
        it.c.assume(z3.And(v.t >= 0, v.t < 2 ** w))
        extra = it.c.choose(2) == 1
        f = fld(it, BitFlag if kind == 1 else BitField, name, ix, w, raw, enum="e" if extra else None, desc="text" if extra else None, cmd=extra)
        cells[id(f)] = v.t
        fields.append((name, f))
        by.append((ix, f))
        spec.append((kind, ix, w, (name, v, extra)))
    fin = it.c.choose(2) == 1
    src = new(it, BitFields, raw=raw, curr_index=Sym("int", pos), fields=MDict(fields), by_index=MDict(by), _finalized=fin)
    d = call(it, method(src, "asdict")).value
    dst = new(it, BitFields)
    o = call(it, method(dst, "init"), d)
    it.c.check("an exported collection can be imported", o.ok)
    it.c.check("importing keeps whether it is finalized", it.getattr(dst, "_finalized") is fin)
    for kind, ix, w, rest in spec:
        at = call(it, it.getattr(it.getattr(dst, "by_index"), "get"), ix).value
        if kind == 0:
            it.c.check("padding is kept", isinstance(at, tuple) and eqv(it, at[0], w))
        else:
            name, v, extra = rest
            f = call(it, method(dst, "get_field"), name).value
            it.c.check("a field keeps its place and width", And(f is not None, eqv(it, it.getattr(f, "index"), ix), eqv(it, it.getattr(f, "width"), w)))
            it.c.check("a field keeps its value", cells[id(f)] == v.t)
            it.c.check("a field keeps its enumeration, description and commandability", And(eqv(it, it.getattr(f, "_enum"), "e" if extra else None), eqv(it, it.getattr(f, "description"), "text" if extra else None), eqv(it, it.getattr(f, "commandable"), extra)))
            it.c.check("single bits stay flags", (f.cls is BitFlag) == (kind == 1))
    x = z3.Int("x")
    avail = it.set_mem(it.getattr(dst, "bits_available"), INT)
    used = z3.Or(*[z3.And(x >= ix.t, x < ix.t + w) for _, ix, w, _ in spec]) if spec else z3.BoolVal(False)
    it.c.check("exactly the other bits are free", z3.ForAll([x], avail[x] == z3.And(x >= 0, x < bits, z3.Not(used))))
    it.c.check("later fields are placed after the furthest one", eqv(it, it.getattr(dst, "curr_index"), Sym("int", pos)))
    d2 = call(it, method(dst, "asdict")).value
    it.c.check("the imported collection exports the same", eqv(it, d, d2))
    cover(it, "return")


MB = "runtimepy.primitives.field.manager.base:BitFieldsManagerBase"
CONTRACTS = [Unit(f"set a named field[{n}]", MB + ".set", lambda it, n=n: v_set(it, n), cfg_mgr, covers=("return", "text", "enum", "unknown"), branch_ms=300) for n in NAMES] + [
    Unit(f"get a named field[{n}]", MB + ".get", lambda it, n=n: v_get(it, n), cfg_mgr, branch_ms=300) for n in NAMES] + [
    Unit("find a field", MB + ".__getitem__", v_find, cfg_mgr, covers=("found", "missing"), branch_ms=300),
] + [Unit(f"export and import of fields ({n} entries)", "runtimepy.primitives.field.fields:BitFields.init", lambda it, n=n: v_round_trip(it, n), cfg_mgr, branch_ms=300) for n in (0, 1, 2, 3)]
