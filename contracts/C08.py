"""C08: names and identifiers stay a bijection."""
import logging

from contracts.common import *
from runtimepy.mapping import TwoWayNameMapping
from runtimepy.registry import Registry
from runtimepy.registry.bool import BooleanRegistry
from runtimepy.registry.name import NameRegistry

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()


class Log:
    """A logger that has no effect on the state under contract."""

    def warning(self, *args):
        pass


def okp(it):
    """The name pattern, a predicate over names left uninterpreted."""
    return z3.Function(f"re_fullmatch_{NameRegistry.name_regex.pattern}", S, B)


def mk(it, cls, kty=INT, sym_current=True):
    """Any mapping that satisfies the type invariant."""
    m = it.sym_dict(kty, STR, "mapping")
    r = it.sym_dict(STR, kty, "reverse")
    o = it.sym_alist(STR, "registered")
    attrs = dict(_mapping=m, _reverse=r, registered_order=o, logger=new(it, Log))
    if cls is NameRegistry:
        attrs["_current"] = it.c.sym("int", "current")
    n = new(it, cls, **attrs)
    st = state(it, n)
    for _, t in inv(it, st, kty):
        it.c.assume(t)
    if cls is NameRegistry:
        # dicts are finite
        ub = it.c.fresh(I, "largest")
        k = z3.Int("k")
        it.c.assume(z3.ForAll([k], z3.Implies(m.dom[k], k <= ub), patterns=[m.dom[k]]))
        it.c.ghost["ub"] = ub
        it.c.ghost["m"] = n
    return n, st


class St:
    pass


def state(it, n):
    s = St()
    m, r, o = (it.getattr(n, a) for a in ("_mapping", "_reverse", "registered_order"))
    s.md, s.mv, s.rd, s.rv, s.arr, s.n, s.mem = m.dom, m.val, r.dom, r.val, o.arr, o.n, o.mem
    return s


def inv(it, s, kty, prefix=""):
    k, a, i = z3.Const("k", kty.sort), z3.Const("a", S), z3.Int("i")
    ok = okp(it)
    return [
        (prefix + "every identifier's name resolves back to it", z3.ForAll([k], z3.Implies(s.md[k], z3.And(s.rd[s.mv[k]], s.rv[s.mv[k]] == k)), patterns=[s.md[k]])),
        (prefix + "every name's identifier resolves back to it", z3.ForAll([a], z3.Implies(s.rd[a], z3.And(s.md[s.rv[a]], s.mv[s.rv[a]] == a)), patterns=[s.rd[a]])),
        (prefix + "every name is valid", z3.ForAll([a], z3.Implies(s.rd[a], ok(a)), patterns=[s.rd[a]])),
        (prefix + "the registration order holds exactly the names", z3.ForAll([a], s.mem[a] == s.rd[a], patterns=[s.mem[a]])),
    ]


def check_inv(it, n, kty):
    s = state(it, n)
    for l, t in inv(it, s, kty):
        it.c.check(l, t)
    return s


def unchanged(it, s0, s1, what="a refusal changes nothing"):
    it.c.check(what, z3.And(s1.md == s0.md, s1.mv == s0.mv, s1.rd == s0.rd, s1.rv == s0.rv, s1.n == s0.n, s1.arr == s0.arr))


def added(it, s0, s1, key, name):
    """Exactly one pair was added, everything else is as before."""
    k, a, i = z3.Const("k", key.sort()), z3.Const("a", S), z3.Int("i")
    it.c.check("the pair resolves both ways", z3.And(s1.md[key], s1.mv[key] == name, s1.rd[name], s1.rv[name] == key))
    it.c.check("other identifiers resolve as before", z3.ForAll([k], z3.Implies(k != key, z3.And(s1.md[k] == s0.md[k], z3.Implies(s0.md[k], s1.mv[k] == s0.mv[k])))))
    it.c.check("other names resolve as before", z3.ForAll([a], z3.Implies(a != name, z3.And(s1.rd[a] == s0.rd[a], z3.Implies(s0.rd[a], s1.rv[a] == s0.rv[a])))))
    it.c.check("the name is appended to the registration order", z3.And(s1.n == s0.n + 1, s1.arr[s0.n] == name, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s0.n), s1.arr[i] == s0.arr[i]))))


def cfg_reg(cfg):
    base_cfg(cfg)

    def winv(it, env):
        g = it.c.ghost
        return []

    def whavoc(it, env):
        m = it.c.ghost["m"]
        m.attrs["_current"] = it.c.sym("int", "current", inp=False)
        it.c.assume(it.c.ghost["cur0"] <= m.attrs["_current"].t)
        it.allow(m, "_current")

    def winv2(it, env):
        g = it.c.ghost
        k = z3.Int("k")
        m = it.getattr(g["m"], "_mapping")
        cur = tm(it, g["m"].attrs["_current"], "int")
        return [
            ("identifiers below the candidate are taken or were passed before", z3.ForAll([k], z3.Implies(z3.And(k >= g["cur0"], k < cur), m.dom[k]), patterns=[m.dom[k]])),
            ("the candidate only grows", cur >= g["cur0"]),
        ]

    def dec(it, env):
        g = it.c.ghost
        return g["ub"] + 1 - tm(it, g["m"].attrs["_current"], "int")

    cfg.loop(getattr(NameRegistry, "next_identifier", NameRegistry.register_name), 0, LoopSpec(winv2, whavoc, decreases=dec))
    cfg.call_any = lambda it, f, a, kw: None


def v_register(it, given):
    n, s0 = mk(it, NameRegistry)
    it.c.ghost["cur0"] = cur0 = n.attrs["_current"].t
    name = it.c.sym("str", "name")
    ident = it.c.sym("int", "identifier")
    known = s0.rd[name.t]
    ok = okp(it)(name.t)
    o = call(it, method(n, "register_name"), name, **({"identifier": ident} if given else {}))
    s1 = check_inv(it, n, INT)
    if not o.ok:
        it.c.check("only a known name with another identifier is an error", And(o.raised(AssertionError), given, known, s0.rv[name.t] != ident.t))
        unchanged(it, s0, s1)
        cover(it, "error") if given else None
    elif o.value is None:
        it.c.check("only invalid names and taken identifiers are refused", z3.And(z3.Not(known), z3.Or(z3.Not(ok), And(given, s0.md[ident.t]))))
        unchanged(it, s0, s1)
        cover(it, "refused")
    else:
        r = tm(it, o.value, "int")
        if it.c.branch(known):
            it.c.check("a known name keeps its identifier", r == s0.rv[name.t])
            unchanged(it, s0, s1, "registering a known name changes nothing")
            cover(it, "known")
        else:
            it.c.check("a new name is only registered when valid", z3.And(z3.Not(known), ok))
            it.c.check("an identifier in use is never given again", z3.Not(s0.md[r]))
            if given:
                it.c.check("the identifier asked for is given", r == ident.t)
            else:
                it.c.check("identifiers are given in increasing order", r >= cur0)
            added(it, s0, s1, r, name.t)
            cover(it, "new")


# -- loading whole dictionaries
def as_sym(it, d, kty, vty):
    """Domain and value arrays of a dict, however it is represented."""
    if not d.conc:
        return d.dom, d.val
    dom, val = z3.K(kty.sort, False), it.c.fresh(z3.ArraySort(kty.sort, vty.sort), "v")
    for k, v in d.pairs:
        dom, val = z3.Store(dom, it.term(k), True), z3.Store(val, it.term(k), it.term(v))
    return dom, val


def dstate(it, n, kty):
    s = St()
    s.md, s.mv = as_sym(it, it.getattr(n, "_mapping"), kty, STR)
    s.rd, s.rv = as_sym(it, it.getattr(n, "_reverse"), STR, kty)
    return s


def bij(it, s, kty):
    k, a = z3.Const("k", kty.sort), z3.Const("a", S)
    ok = okp(it)
    return [
        ("every identifier's name resolves back to it", z3.ForAll([k], z3.Implies(s.md[k], z3.And(s.rd[s.mv[k]], s.rv[s.mv[k]] == k)))),
        ("every name's identifier resolves back to it", z3.ForAll([a], z3.Implies(s.rd[a], z3.And(s.md[s.rv[a]], s.mv[s.rv[a]] == a)))),
        ("every name is valid", z3.ForAll([a], z3.Implies(s.rd[a], ok(a)))),
    ]


def cfg_load(kty):
    def cfg(cfg):
        cfg_reg(cfg)
        cfg.model(logging.getLogger, lambda it, a, kw: new(it, Log), "logging.getLogger")

        def inv(by_name):
            def f(it, env, i, n):
                g = it.c.ghost
                s = dstate(it, env.vars["self"], kty)
                gd, s0, o = g["given"], g["s0"], g["given"].order
                out = bij(it, s, kty)
                if by_name:
                    a = z3.Const("a", S)
                    out.append(("loaded so far: the earlier names and the entries visited", z3.ForAll([a], s.rd[a] == z3.Or(s0.rd[a], z3.And(gd.dom[a], o.pos[a] < i)))))
                    out.append(("visited entries resolve as given", z3.ForAll([a], z3.Implies(z3.And(gd.dom[a], o.pos[a] < i), s.rv[a] == gd.val[a]))))
                    out.append(("earlier names resolve as before", z3.ForAll([a], z3.Implies(s0.rd[a], s.rv[a] == s0.rv[a]))))
                else:
                    k = z3.Const("k", kty.sort)
                    out.append(("loaded so far: the earlier identifiers and the entries visited", z3.ForAll([k], s.md[k] == z3.Or(s0.md[k], z3.And(gd.dom[k], o.pos[k] < i)))))
                    out.append(("visited entries resolve as given", z3.ForAll([k], z3.Implies(z3.And(gd.dom[k], o.pos[k] < i), s.mv[k] == gd.val[k]))))
                    out.append(("earlier identifiers resolve as before", z3.ForAll([k], z3.Implies(s0.md[k], s.mv[k] == s0.mv[k]))))
                return out
            return f

        def havoc(it, env):
            n = env.vars["self"]
            for x, (kt, vt) in (("_mapping", (kty, STR)), ("_reverse", (STR, kty))):
                n.attrs[x] = d = it.sym_dict(kt, vt, x)
                it.allow(n, x)
                it.allow(d)
            n.attrs["registered_order"] = o = it.sym_alist(STR, "registered")
            it.allow(n, "registered_order")
            it.allow(o)

        cfg.loop(TwoWayNameMapping.load_name_to_key, 0, LoopSpec(inv(True), havoc))
        cfg.loop(TwoWayNameMapping.load_key_to_name, 0, LoopSpec(inv(False), havoc))
    return cfg


def empty_state(kty):
    s = St()
    s.md, s.rd = z3.K(kty.sort, False), z3.K(S, False)
    s.mv, s.rv = z3.K(kty.sort, z3.StringVal("")), z3.K(S, z3.IntVal(0) if kty is INT else z3.BoolVal(False))
    return s


def v_load(it, kty):
    """Loading an arbitrary dictionary into an arbitrary or a new mapping."""
    g = it.c.ghost
    by_name = it.c.choose(2) == 1
    g["given"] = d = it.sym_dict(*((STR, kty) if by_name else (kty, STR)), "given")
    fresh = it.c.choose(2) == 1
    if fresh:
        g["s0"] = empty_state(kty)
        o = call(it, TwoWayNameMapping, **{"reverse" if by_name else "mapping": d})
        n = o.value
    else:
        n, g["s0"] = mk(it, TwoWayNameMapping, kty)
        o = call(it, method(n, "load_name_to_key" if by_name else "load_key_to_name"), d)
    if o.ok:
        s, s0 = dstate(it, n, kty), g["s0"]
        for l, t in bij(it, s, kty):
            it.c.check(l, t)
        k, a = z3.Const("k", kty.sort), z3.Const("a", S)
        if by_name:
            it.c.check("exactly the earlier and the loaded names are known", z3.ForAll([a], s.rd[a] == z3.Or(s0.rd[a], d.dom[a])))
            it.c.check("loaded names resolve as given", z3.ForAll([a], z3.Implies(d.dom[a], s.rv[a] == d.val[a])))
        else:
            it.c.check("exactly the earlier and the loaded identifiers are known", z3.ForAll([k], s.md[k] == z3.Or(s0.md[k], d.dom[k])))
            it.c.check("loaded identifiers resolve as given", z3.ForAll([k], z3.Implies(d.dom[k], s.mv[k] == d.val[k])))
        cover(it, "return")
    else:
        it.c.check("loading fails only for invalid or conflicting entries", o.raised(AssertionError))
        cover(it, "refused")


def cfg_init(cfg):
    cfg_load(INT)(cfg)

    def inv(it, env, i, n):
        m = it.getattr(env.vars["self"], "_mapping")
        cur = tm(it, it.getattr(env.vars["self"], "_current"), "int")
        k = z3.Int("k")
        return [("the next identifier is past those visited", z3.And(cur >= 1, z3.ForAll([k], z3.Implies(z3.And(m.dom[k], m.order.pos[k] < i), k < cur))))]

    def havoc(it, env):
        env.vars["self"].attrs["_current"] = it.c.sym("int", "current", inp=False)
        it.allow(env.vars["self"], "_current")

    cfg.loop(NameRegistry.__init__, 0, LoopSpec(inv, havoc))


def v_init(it):
    g = it.c.ghost
    by_name = it.c.choose(2) == 1
    g["given"] = d = it.sym_dict(*((STR, INT) if by_name else (INT, STR)), "given")
    g["s0"] = empty_state(INT)
    o = call(it, NameRegistry, **{"reverse" if by_name else "mapping": d})
    if o.ok:
        s = dstate(it, o.value, INT)
        cur = tm(it, it.getattr(o.value, "_current"), "int")
        k = z3.Int("k")
        it.c.check("new identifiers start past the loaded ones", z3.And(cur >= 1, z3.ForAll([k], z3.Implies(s.md[k], k < cur))))
        cover(it, "return")


def v_set(it, kty):
    """The single writer of both maps."""
    n, s0 = mk(it, TwoWayNameMapping, kty)
    key = it.c.sym("bool" if kty is BOOL else "int", "key")
    name = it.c.sym("str", "name")
    ok = okp(it)(name.t)
    o = call(it, method(n, "load_name_to_key"), mdict(it, [(name, key)])) if it.c.choose(2) else call(it, method(n, "load_key_to_name"), mdict(it, [(key, name)]))
    s1 = check_inv(it, n, kty)
    conflict = z3.Or(z3.And(s0.md[key.t], s0.mv[key.t] != name.t), z3.And(s0.rd[name.t], s0.rv[name.t] != key.t))
    if o.ok:
        it.c.check("conflicting or invalid entries are not loaded", z3.And(z3.Not(conflict), ok))
        if it.c.branch(s0.rd[name.t]):
            unchanged(it, s0, s1, "loading a known pair changes nothing")
            cover(it, "known")
        else:
            added(it, s0, s1, key.t, name.t)
            cover(it, "new")
    else:
        it.c.check("only conflicting or invalid entries are refused", And(o.raised(AssertionError), z3.Or(conflict, z3.Not(ok))))
        unchanged(it, s0, s1)
        cover(it, "refused")


def mdict(it, pairs):
    return MDict(list(pairs))


def v_lookup(it, kty):
    n, s0 = mk(it, TwoWayNameMapping, kty)
    f = Frame(it, n)
    name = it.c.sym("str", "name")
    key = it.c.sym("bool" if kty is BOOL else "int", "key")
    what = it.c.choose(4)
    if what == 0:
        o = call(it, method(n, "identifier"), name).value
        it.c.check("a name resolves to its identifier or to nothing", z3.Not(s0.rd[name.t]) if o is None else z3.And(s0.rd[name.t], tm(it, o) == s0.rv[name.t]))
    elif what == 1:
        o = call(it, method(n, "identifier"), key).value
        it.c.check("a known identifier resolves to itself", z3.Not(s0.md[key.t]) if o is None else z3.And(s0.md[key.t], tm(it, o) == key.t))
    elif what == 2:
        o = call(it, method(n, "name"), name).value
        it.c.check("a known name resolves to itself", z3.Not(s0.rd[name.t]) if o is None else z3.And(s0.rd[name.t], tm(it, o, "str") == name.t))
    else:
        o = call(it, method(n, "name"), key).value
        it.c.check("an identifier resolves to its name or to nothing", z3.Not(s0.md[key.t]) if o is None else z3.And(s0.md[key.t], tm(it, o, "str") == s0.mv[key.t]))
    f.check("lookup")
    cover(it, "return")


def v_bool(it):
    n, s0 = mk(it, BooleanRegistry, BOOL)
    name, val = it.c.sym("str", "name"), it.c.sym("bool", "value")
    ok = okp(it)(name.t)
    o = call(it, method(n, "register"), name, val)
    s1 = check_inv(it, n, BOOL)
    can = z3.And(ok, z3.Not(s0.rd[name.t]), z3.Not(s0.md[val.t]))
    it.c.check("registering a boolean name never fails", o.ok)
    if it.c.branch(it.truth(o.value)):
        it.c.check("a boolean is registered only with a free valid name and value", can)
        added(it, s0, s1, val.t, name.t)
        cover(it, "new")
    else:
        it.c.check("a boolean is refused only for a taken or invalid one", z3.Not(can))
        unchanged(it, s0, s1)
        cover(it, "refused")


# -- items behind the names
class Items(Registry):
    """A concrete registry of opaque items."""

    kind = None


def mk_items(it):
    n, s0 = mk(it, NameRegistry)
    it.c.ghost["cur0"] = n.attrs["_current"].t
    d = it.sym_dict(STR, ANY, "items")
    idf = z3.Function("attr_id", U, I)
    a = z3.Const("a", S)
    # type invariant: each item is registered under its own identifier
    it.c.assume(z3.ForAll([a], z3.Implies(d.dom[a], z3.And(s0.rd[a], s0.rv[a] == idf(d.val[a]), d.val[a] != it.box(None))), patterns=[d.dom[a]]))
    reg = new(it, Items, names=n, items=d)
    return reg, n, s0, d, idf


def v_item_get(it):
    reg, n, s0, d, idf = mk_items(it)
    f = Frame(it, reg)
    by_name = it.c.choose(2) == 1
    key = it.c.sym("str" if by_name else "int", "key")
    nm = key.t if by_name else s0.mv[key.t]
    known = z3.And(s0.rd[nm] if by_name else s0.md[key.t], d.dom[nm])
    if it.c.choose(2):
        o = call(it, method(reg, "get"), key)
        it.c.check("looking an item up never fails", o.ok)
        it.c.check("an item is found by its name or identifier", z3.Not(known) if o.value is None else z3.And(known, tm(it, o.value, "any") == d.val[nm]))
    else:
        o = call(it, it.getattr(reg, "__getitem__"), key)
        if o.ok:
            it.c.check("an item is found by its name or identifier", z3.And(known, tm(it, o.value, "any") == d.val[nm]))
            cover(it, "found")
        else:
            it.c.check("an unknown item is a key error", And(o.raised(KeyError), z3.Not(known)))
            cover(it, "missing")
    f.check("lookup")


def v_item_register(it):
    reg, n, s0, d, idf = mk_items(it)
    d0, v0 = d.dom, d.val
    name = it.c.sym("str", "name")
    ident = it.c.sym("int", "id")
    item = new(it, object, id=ident)
    o = call(it, method(reg, "register"), name, item)
    s1 = check_inv(it, n, INT)
    d = it.getattr(reg, "items")
    a = z3.Const("a", S)
    if not o.ok:
        it.c.check("only a known name with another identifier is an error", And(o.raised(AssertionError), s0.rd[name.t], s0.rv[name.t] != ident.t))
        unchanged(it, s0, s1)
        it.c.check("an error changes no item", z3.And(d.dom == d0, d.val == v0))
        cover(it, "error")
        return
    if it.c.branch(it.truth(o.value)):
        it.c.check("an item is registered only under a free name", z3.Not(d0[name.t]))
        it.c.check("a registered item is found under its name", z3.And(d.dom[name.t], d.val[name.t] == it.box(item)))
        it.c.check("its identifier is its name's", z3.And(s1.rd[name.t], s1.rv[name.t] == ident.t))
        it.c.check("other items are unchanged", z3.ForAll([a], z3.Implies(a != name.t, z3.And(d.dom[a] == d0[a], z3.Implies(d0[a], d.val[a] == v0[a])))))
        cover(it, "new")
    else:
        it.c.check("a refused item changes no item", z3.And(d.dom == d0, d.val == v0))
        it.c.check("an item is refused only for a taken name or identifier or an invalid name", z3.Or(d0[name.t], z3.And(z3.Not(s0.rd[name.t]), z3.Or(s0.md[ident.t], z3.Not(okp(it)(name.t))))))
        cover(it, "refused")
    k = z3.Int("k")
    it.c.check("known names and identifiers resolve as before", z3.And(
        z3.ForAll([a], z3.Implies(s0.rd[a], z3.And(s1.rd[a], s1.rv[a] == s0.rv[a]))), z3.ForAll([k], z3.Implies(s0.md[k], z3.And(s1.md[k], s1.mv[k] == s0.mv[k])))))


class Made:
    """An item made from data, when the data is acceptable."""

    def __init__(self, data):
        if not data["good"]:
            raise ValueError
        self.id = data["id"]


def v_item_dict(it, given):
    """Items from dictionary data: the name is claimed only by an item that exists."""
    reg, n, s0, d, idf = mk_items(it)
    reg.attrs["kind"] = Made
    d0, v0 = d.dom, d.val
    name = it.c.sym("str", "name")
    good = it.c.sym("bool", "good")
    ident = it.c.sym("int", "id")
    o = call(it, method(reg, "register_dict"), name, MDict([("good", good)] + ([("id", ident)] if given else [])))
    s1 = check_inv(it, n, INT)
    d = it.getattr(reg, "items")
    a, k = z3.Const("a", S), z3.Int("k")
    ok, known = okp(it)(name.t), s0.rd[name.t]
    if not o.ok:
        other = And(o.raised(AssertionError), given, known, s0.rv[name.t] != ident.t)
        it.c.check("only unacceptable data or a known name with another identifier is an error", z3.Or(And(o.raised(ValueError), z3.Not(good.t)), other))
        unchanged(it, s0, s1)
        it.c.check("an error changes no item", z3.And(d.dom == d0, d.val == v0))
        cover(it, "error")
        return
    if o.value is None:
        it.c.check("an item is refused only for a taken name or identifier or an invalid name", z3.Or(d0[name.t], z3.And(z3.Not(known), z3.Or(z3.Not(ok), And(given, s0.md[ident.t])))))
        unchanged(it, s0, s1)
        it.c.check("a refused item changes no item", z3.And(d.dom == d0, d.val == v0))
        cover(it, "refused")
        return
    r = tm(it, it.getattr(o.value, "id"), "int")
    it.c.check("an item is registered only under a free valid name, from acceptable data", z3.And(z3.Not(d0[name.t]), good.t, z3.Or(known, ok)))
    it.c.check("a registered item is found under its name", z3.And(d.dom[name.t], d.val[name.t] == it.box(o.value)))
    it.c.check("its identifier is its name's", z3.And(s1.rd[name.t], s1.rv[name.t] == r))
    it.c.check("a known name keeps its identifier, a new one gets a free one", z3.If(known, r == s0.rv[name.t], z3.Not(s0.md[r])))
    if given:
        it.c.check("the identifier asked for is given", r == ident.t)
    it.c.check("other items are unchanged", z3.ForAll([a], z3.Implies(a != name.t, z3.And(d.dom[a] == d0[a], z3.Implies(d0[a], d.val[a] == v0[a])))))
    it.c.check("known names and identifiers resolve as before", z3.And(
        z3.ForAll([a], z3.Implies(s0.rd[a], z3.And(s1.rd[a], s1.rv[a] == s0.rv[a]))), z3.ForAll([k], z3.Implies(s0.md[k], z3.And(s1.md[k], s1.mv[k] == s0.mv[k])))))
    cover(it, "new")


M, N = "runtimepy.mapping:TwoWayNameMapping", "runtimepy.registry.name:NameRegistry"
CONTRACTS = [
    Unit("register a name", N + ".register_name", lambda it: v_register(it, False), cfg_reg, covers=("refused", "known", "new"), branch_ms=500),
    Unit("register a name with an identifier", N + ".register_name", lambda it: v_register(it, True), cfg_reg, covers=("error", "refused", "known", "new"), branch_ms=500),
    Unit("load an entry[int]", M + "._set", lambda it: v_set(it, INT), cfg_reg, covers=("refused", "known", "new"), branch_ms=500),
    Unit("load an entry[bool]", M + "._set", lambda it: v_set(it, BOOL), cfg_reg, covers=("refused", "known", "new"), branch_ms=500),
    Unit("load a dictionary[int]", M + ".load_name_to_key", lambda it: v_load(it, INT), cfg_load(INT), covers=("return", "refused"), branch_ms=500),
    Unit("load a dictionary[bool]", M + ".load_name_to_key", lambda it: v_load(it, BOOL), cfg_load(BOOL), covers=("return", "refused"), branch_ms=500),
    Unit("start from a dictionary", N + ".__init__", v_init, cfg_init, branch_ms=500),
    Unit("lookups[int]", M + ".identifier", lambda it: v_lookup(it, INT), cfg_reg, branch_ms=500),
    Unit("lookups[bool]", M + ".identifier", lambda it: v_lookup(it, BOOL), cfg_reg, branch_ms=500),
    Unit("register a boolean", "runtimepy.registry.bool:BooleanRegistry.register", v_bool, cfg_reg, covers=("new", "refused"), branch_ms=500),
    Unit("find an item", "runtimepy.registry:Registry.get", v_item_get, cfg_reg, covers=("found", "missing"), branch_ms=500),
    Unit("register an item", "runtimepy.registry:Registry.register", v_item_register, cfg_reg, covers=("error", "new", "refused"), branch_ms=500),
    Unit("item from data", "runtimepy.registry:Registry.register_dict", lambda it: v_item_dict(it, False), cfg_reg, covers=("error", "new", "refused"), branch_ms=500),
    Unit("item from data with an identifier", "runtimepy.registry:Registry.register_dict", lambda it: v_item_dict(it, True), cfg_reg, covers=("error", "new", "refused"), branch_ms=500),
]
