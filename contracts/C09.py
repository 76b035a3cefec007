"""C09: runtime enumerations resolve names and values consistently."""
from contracts.C08 import *
from runtimepy.enum import RuntimeEnum
from runtimepy.enum.types import EnumType


def enum(it, kty):
    n, s0 = mk(it, NameRegistry if kty is INT else BooleanRegistry, kty)
    if kty is INT:
        it.c.ghost["cur0"] = n.attrs["_current"].t
    e = new(it, RuntimeEnum, id=it.c.sym("int", "id"), type=EnumType.INT if kty is INT else EnumType.BOOL, primitive="uint8", _ints=n if kty is INT else None, _bools=None if kty is INT else n)
    return e, n, s0


def intok(t):
    return z3.Function("int_ok_str_10", S, B)(t), z3.Function("int_of_str_10", S, I)(t)


def lower(it, s):
    return tm(it, it.call(it.getattr(s, "lower"), []), "str")


def v_str(it, kty):
    """Value or name to name."""
    e, n, s0 = enum(it, kty)
    f = Frame(it, e)
    get = it.c.choose(2) == 1
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else kty.k, "value")
    known = s0.rd[key.t] if by_name else s0.md[key.t]
    want = key.t if by_name else s0.mv[key.t]
    o = call(it, method(e, "get_str" if get else "as_str"), key)
    if o.ok and o.value is not None:
        it.c.check("a value's name is the one registered for it", z3.And(known, tm(it, o.value, "str") == want))
        back = call(it, method(e, "get_int" if kty is INT else "get_bool"), o.value)
        if not by_name:
            it.c.check("a value's name resolves back to the value", And(back.ok, tm(it, back.value, kty.k) == key.t) if back.ok else False)
        cover(it, "known")
    else:
        it.c.check("only unknown values have no name", z3.Not(known))
        it.c.check("an unknown value is a key error or nothing", o.raised(KeyError) if get else o.ok)
        cover(it, "unknown")
    f.check("lookup")


def v_int(it):
    e, n, s0 = enum(it, INT)
    f = Frame(it, e)
    get = it.c.choose(2) == 1
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "int", "value")
    if by_name:
        ok, num = intok(key.t)
        known = z3.Or(s0.rd[key.t], z3.And(ok, s0.md[num]))
        want = z3.If(s0.rd[key.t], s0.rv[key.t], num)
    else:
        known, want = s0.md[key.t], key.t
    o = call(it, method(e, "get_int" if get else "as_int"), key)
    if o.ok and o.value is not None:
        it.c.check("a name resolves to its value, otherwise a known number in text to itself", z3.And(known, tm(it, o.value, "int") == want))
        it.c.check("a resolved value has a name", s0.md[tm(it, o.value, "int")])
        cover(it, "known")
    else:
        it.c.check("only unknown names and values are refused", z3.Not(known))
        it.c.check("an unknown name is a key error or nothing", o.raised(KeyError) if get else o.ok)
        cover(it, "unknown")
    f.check("lookup")


def v_bool_get(it):
    e, n, s0 = enum(it, BOOL)
    f = Frame(it, e)
    how = it.c.choose(3)
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "bool", "value")
    if by_name:
        lo = lower(it, key)
        is_t, is_f = lo == z3.StringVal("true"), lo == z3.StringVal("false")
        known = z3.Or(s0.rd[key.t], is_t, is_f)
        want = z3.If(s0.rd[key.t], s0.rv[key.t], is_t)
    else:
        known, want = s0.md[key.t], key.t
    o = call(it, method(e, ["as_bool", "get_bool", "get_int"][how]), key)
    if o.ok and o.value is not None:
        got = tm(it, o.value, "bool") if how < 2 else tm(it, o.value, "int")
        it.c.check("a name resolves to its boolean, otherwise true and false to themselves", z3.And(known, got == (want if how < 2 else z3.If(want, z3.IntVal(1), z3.IntVal(0)))))
        cover(it, "known")
    else:
        it.c.check("only unknown names and booleans are refused", z3.Not(known))
        it.c.check("an unknown name is a key error or nothing", o.raised(KeyError) if how else o.ok)
        cover(it, "unknown")
    f.check("lookup")


def v_register_entry(it):
    e, n, s0 = enum(it, INT)
    name = it.c.sym("str", "name")
    o = call(it, method(e, "register_int"), name)
    s1 = check_inv(it, n, INT)
    k, a = z3.Int("k"), z3.Const("a", S)
    it.c.check("registering an entry never fails", o.ok)
    it.c.check("known entries resolve as before", z3.And(
        z3.ForAll([a], z3.Implies(s0.rd[a], z3.And(s1.rd[a], s1.rv[a] == s0.rv[a]))), z3.ForAll([k], z3.Implies(s0.md[k], z3.And(s1.md[k], s1.mv[k] == s0.mv[k])))))
    if o.value is not None:
        g = call(it, method(e, "get_int"), name)
        it.c.check("a registered entry resolves", And(g.ok, tm(it, g.value, "int") == tm(it, o.value, "int")))
        cover(it, "new")


def v_kind(it):
    for kty in (INT, BOOL):
        e, n, s0 = enum(it, kty)
        it.c.check("an enumeration is integer or boolean, not both", tm(it, it.getattr(e, "is_integer"), "bool") == (kty is INT))
        it.c.check("an enumeration is boolean or integer, not both", tm(it, it.getattr(e, "is_boolean"), "bool") == (kty is BOOL))
        for attr, fine in (("ints", kty is INT), ("bools", kty is BOOL)):
            try:
                v = it.getattr(e, attr)
                it.c.check("only the right kind of entries is given", fine and v is n)
            except PyExc as x:
                it.c.check("the wrong kind of entries is refused", not fine)
    cover(it, "return")


E = "runtimepy.enum:RuntimeEnum"
CONTRACTS = [
    Unit("name of a value[int]", E + ".get_str", lambda it: v_str(it, INT), cfg_reg, covers=("known", "unknown"), branch_ms=500),
    Unit("name of a value[bool]", E + ".get_str", lambda it: v_str(it, BOOL), cfg_reg, covers=("known", "unknown"), branch_ms=500),
    Unit("integer of a name", E + ".get_int", v_int, cfg_reg, covers=("known", "unknown"), branch_ms=500),
    Unit("boolean of a name", E + ".get_bool", v_bool_get, cfg_reg, covers=("known", "unknown"), branch_ms=500),
    Unit("register an entry", E + ".register_int", v_register_entry, cfg_reg, covers=("new",), branch_ms=500),
    Unit("kinds", E, v_kind, cfg_reg),
]
