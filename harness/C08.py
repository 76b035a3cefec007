from harness.lib import *
from runtimepy.registry.name import NameRegistry
from runtimepy.registry.bool import BooleanRegistry
from runtimepy.mapping import TwoWayNameMapping
from runtimepy.channel.registry import ChannelRegistry, ChannelNameRegistry
from runtimepy.enum.registry import EnumRegistry
import re

h = H()
GOOD = ["a", "b", "A", "x.y", "n-1", "p/q", "k:v", "_", "é", "0", "zz", "long.name-with_all:parts/here"]
BAD = ["", " ", "a b", "a\n", "a*", "\t", "a,b", "#"]
CHAN_GOOD = ["a", "B", "x.y", "n-1", "_", "0"]
CHAN_BAD = ["", "a/b", "a:b", "é", "a\n", " "]


def consistent(h, m, names, order, hist, also=()):
    """The object answers like the reference dict names -> key."""
    inv = {v: k for k, v in names.items()}
    h.check(len(inv) == len(names), "reference is a bijection", ref=names)
    for n in list(names) + GOOD + BAD:
        want = names.get(n)
        h.check(m.identifier(n) == want and type(m.identifier(n)) is type(want), "a name resolves to its identifier or to nothing", name=n, got=m.identifier(n), want=want, history=hist)
        h.check(m.name(n) == (n if n in names else None), "a known name resolves to itself", name=n, got=m.name(n), history=hist)
    for k in list(inv) + list(also):
        h.check(m.name(k) == inv.get(k), "an identifier resolves to its name or to nothing", key=k, got=m.name(k), want=inv.get(k), history=hist)
        h.check((m.identifier(k) is None) == (k not in inv), "a known identifier resolves to itself", key=k, history=hist)
    h.check(list(m.names) == order and list(m.registered_order) == order, "names are listed in registration order", got=(list(m.names), list(m.registered_order)), want=order, history=hist)
    h.check(m.asdict() == names, "the dictionary form holds exactly the pairs", got=m.asdict(), want=names, history=hist)


@h.case
def name_histories(h):
    for t in range(h.n(400)):
        cls = h.rng.choice([NameRegistry, ChannelNameRegistry])
        good, bad = (GOOD, BAD) if cls is NameRegistry else (CHAN_GOOD, CHAN_BAD)
        start = {n: i for n, i in zip(h.rng.sample(good, h.rng.randint(0, 3)), h.rng.sample(range(-3, 20), 3))}
        how = h.rng.choice(["reverse", "mapping", "both", "dict"])
        if how == "reverse":
            m = cls(reverse=dict(start))
        elif how == "mapping":
            m = cls(mapping={v: k for k, v in start.items()})
        elif how == "both":
            m = cls(mapping={v: k for k, v in start.items()}, reverse=dict(start))
        else:
            mix = {}
            for n, i in start.items():
                if h.rng.random() < 0.5:
                    mix[n] = i
                else:
                    mix[i] = n
            m = cls.int_from_dict(mix)
        names, hist = dict(start), [("start", how, dict(start))]
        order = list(m.names)
        h.check(sorted(order) == sorted(start), "loaded names are known", got=order, history=hist)
        if how != "dict":
            h.check(order == list(start), "loaded names keep their order", got=order, want=list(start), history=hist)
        else:
            for kind in (int, str):
                want = [n for n, k in ((k, k) if isinstance(k, str) else (v, k) for k, v in mix.items()) if isinstance(k, kind)]
                h.check([n for n in order if n in want] == want, "loaded names keep their order", got=order, want=want, history=hist)
        if h.rng.random() < 0.3:
            more = {n: 100 + h.rng.randint(0, 9) * 10 + i for i, n in enumerate(h.rng.sample([g for g in good if g not in start], 2))}
            (m.load_name_to_key if h.rng.random() < 0.5 else lambda d: m.load_key_to_name({v: k for k, v in d.items()}))(more)
            start.update(more)
            names.update(more)
            order += list(more)
            hist.append(("load", dict(more)))
        given = set(start.values())
        for step in range(h.rng.randint(1, 25)):
            n = h.rng.choice(good + bad[:3])
            ident = None if h.rng.random() < 0.55 else h.rng.choice([h.rng.randint(-2, 12), names.get(n, 3)])
            if h.rng.random() < 0.15:
                # a conflicting or repeated bulk load
                extra = {n: h.rng.randint(-2, 14)}
                conflict = n in bad or (n in names and names[n] != extra[n]) or (n not in names and extra[n] in names.values())
                hist.append(("load", extra))
                r = outcome(lambda: m.load_name_to_key(extra) if h.rng.random() < 0.5 else m.load_key_to_name({v: k for k, v in extra.items()}))
                h.check((r[0] == "exc") == conflict, "conflicting or invalid entries are refused, others load", entry=extra, got=r, known=names, history=hist)
                if r[0] == "ok" and n not in names:
                    names[n] = extra[n]
                    order.append(n)
                    given.add(extra[n])
                if (r[0] == "exc") != conflict:
                    break
                continue
            hist.append(("register", n, ident))
            r = outcome(lambda: m.register_name(n, identifier=ident))
            if n in names:
                want = ("ok", names[n]) if ident in (None, names[n]) else ("exc", "AssertionError")
                h.check(r == want, "a known name keeps its identifier", name=n, asked=ident, got=r, want=want, history=hist)
            elif n in bad:
                h.check(r == ("ok", None), "an invalid name is refused", name=n, got=r, history=hist)
            elif ident is not None:
                want = ("ok", None if ident in names.values() else ident)
                h.check(r == want, "the identifier asked for is given unless taken", asked=ident, got=r, want=want, history=hist)
            else:
                h.check(r[0] == "ok" and isinstance(r[1], int) and r[1] >= 1 and r[1] not in names.values(), "a new name gets an unused identifier", name=n, got=r, known=names, history=hist)
            if n not in names and r[0] == "ok" and r[1] is not None:
                names[n] = r[1]
                order.append(n)
            consistent(h, m, names, order, hist, also=(-5, 0, 1, 99))
        c = cls(reverse=m.asdict())
        h.check(c.asdict() == names, "a registry is rebuilt from its dictionary form", got=c.asdict(), want=names)
        for pat, exact in ((".*", False), ("a", False), ("a", True), ("x", False)):
            got = list(m.search(pat, exact=exact))
            want = [n for n in order if re.search(pat, n) and (not exact or n == pat)]
            h.check(got == want, "search lists exactly the matching names, in order", pattern=pat, exact=exact, got=got, want=want)
        h.ev(tuple(map(str, hist)))


@h.case
def boolean_histories(h):
    for t in range(h.n(300)):
        m = BooleanRegistry()
        names, order, hist = {}, [], []
        for step in range(8):
            n, v = h.rng.choice(GOOD[:4] + BAD[:2]), h.rng.random() < 0.5
            hist.append((n, v))
            r = outcome(lambda: m.register(n, v))
            can = n in GOOD and n not in names and v not in names.values()
            h.check(r == ("ok", can), "a boolean name is registered exactly when name and value are free and valid", name=n, value=v, got=r, want=can, known=names, history=hist)
            if r == ("ok", True):
                names[n] = v
                order.append(n)
            for k in (True, False):
                inv = {b: a for a, b in names.items()}
                h.check(m.name(k) == inv.get(k), "a boolean resolves to its name", value=k, got=m.name(k), history=hist)
            for k in GOOD[:4] + BAD[:2]:
                h.check(m.identifier(k) is names.get(k), "a name resolves to its boolean", name=k, got=m.identifier(k), history=hist)
            h.check(m.asdict() == names and list(m.registered_order) == order, "the dictionary form holds exactly the pairs, in order", got=m.asdict(), want=names, history=hist)
        mix = {}
        for n, v in names.items():
            if h.rng.random() < 0.5:
                mix[n] = v
            else:
                mix[v] = n
        c = BooleanRegistry.bool_from_dict(mix)
        h.check(c.asdict() == names, "a boolean registry is rebuilt from mixed data", data=mix, got=c.asdict())
        h.ev(tuple(hist))


@h.case
def mixed_dicts(h):
    for t in range(h.n(200)):
        data = {}
        for _ in range(h.rng.randint(0, 5)):
            n, i = h.rng.choice(GOOD[:5]), h.rng.randint(1, 4)
            if h.rng.random() < 0.5:
                data[n] = i
            else:
                data[i] = n
        names, keys, ok = {}, {}, True
        for k, v in [(k, v) for k, v in data.items() if isinstance(k, int)] + [(v, k) for k, v in data.items() if isinstance(k, str)]:
            if keys.get(k, v) != v or names.get(v, k) != k:
                ok = False
            keys[k], names[v] = v, k
        r = outcome(lambda: NameRegistry.int_from_dict(dict(data)))
        h.check((r[0] == "ok") == ok, "conflicting data is refused, consistent data loads", data=data, got=r)
        if r[0] == "ok":
            h.check(r[1].asdict() == names, "consistent data loads completely", data=data, got=r[1].asdict(), want=names)
        h.ev(tuple(sorted(data.items(), key=str)))


@h.case
def items(h):
    """Registries of channels and enumerations: items stay under their name and identifier."""
    for t in range(h.n(120)):
        chan = h.rng.random() < 0.5
        reg = (ChannelRegistry if chan else EnumRegistry).create({})
        known, hist = {}, []
        for step in range(h.rng.randint(1, 12)):
            n = h.rng.choice(CHAN_GOOD[:4] + ["", "a b"])
            ident = h.rng.choice([None, None, h.rng.randint(1, 6)])
            hist.append((n, ident))
            kw = {} if ident is None else {"id": ident}
            def add():
                if chan:
                    return reg.channel(n, h.rng.choice(["uint8", "float", "bool"]), **kw)
                d = {"type": "int", "items": {"x": 1}, "primitive": "uint8", **kw}
                return reg.register_dict(n, d)
            r = outcome(add)
            valid = n in CHAN_GOOD
            taken = ident is not None and any(i.id == ident for i in known.values())
            if r[0] == "ok" and r[1] is not None:
                h.check(valid and n not in known and not taken, "an item is registered only under a free valid name and a free identifier", name=n, id=ident, history=hist)
                h.check(ident is None or r[1].id == ident, "the identifier asked for is given", history=hist)
                h.check(all(i.id != r[1].id for i in known.values()), "identifiers are unique", history=hist)
                known[n] = r[1]
            else:
                h.check(not valid or n in known or taken, "an item is refused only for a taken or invalid name or identifier", name=n, id=ident, got=r, history=hist)
            for m, it in known.items():
                h.check(reg[m] is it and reg[it.id] is it and reg.get(m) is it, "items are found by name and by identifier", name=m, history=hist)
                h.check(reg.names.identifier(m) == it.id and reg.names.name(it.id) == m, "an item's identifier is its name's", name=m, history=hist)
            for m in CHAN_GOOD + ["nope"]:
                if m not in known:
                    h.check(reg.get(m) is None and raises(lambda: reg[m], KeyError), "an unknown item is a key error", name=m, history=hist)
            h.check(set(reg.asdict()) == set(known), "the dictionary form holds exactly the items", got=sorted(reg.asdict()), want=sorted(known), history=hist)
            pat, ex = h.rng.choice([(".*", False), ("a", True), ("x", False)])
            got = list(reg.search(pat, exact=ex))
            h.check(got == [(m, known[m]) for m in reg.names.names if m in known and re.search(pat, m) and (not ex or m == pat)], "search gives the matching items", pattern=pat, got=[g[0] for g in got], history=hist)
        low = {m: d for m, d in reg.asdict().items()}
        r = outcome(lambda: type(reg).create({m: dict(d) for m, d in low.items() if m.islower() or not chan}))
        if r[0] == "ok":
            for m in low:
                if m.islower() or not chan:
                    h.check(r[1][m].id == known[m].id and r[1][known[m].id] is r[1][m] and r[1].asdict()[m] == low[m], "a registry is rebuilt from its dictionary form", name=m, got=r[1].asdict())
        else:
            h.fail("a registry can be rebuilt from its dictionary form", data=low, got=r)
        h.ev(tuple(map(str, hist)))


@h.case
def refused_data(h):
    """Data that makes no item doesn't claim the name."""
    for bad in ({"type": "uint8", "commandable": False, "default": 1.5}, {"type": "nope", "commandable": False}, {"commandable": True}, {"type": "bool", "commandable": 3}):
        reg = ChannelRegistry.create({})
        a = reg.channel("a", "uint8")
        h.check(outcome(lambda: reg.register_dict("b", dict(bad)))[0] == "exc", "unacceptable data is refused", data=bad)
        h.check(list(reg.names.names) == ["a"] and reg.names.identifier("b") is None and reg.get("b") is None, "refused data registers no name", data=bad, got=list(reg.names.names))
        c = reg.channel("b", "int16")
        h.check(c is not None and reg["b"] is c and c.id != a.id and reg["a"] is a, "the name is still free", data=bad)
        h.ev(str(bad))


h.done()
