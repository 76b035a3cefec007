"""C30: arrays of channels and bit-fields."""
from contracts.C11 import *
from contracts.C15 import zb
from runtimepy.channel.environment.array import ArrayChannelEnvironment, ChannelArray
from runtimepy.primitives.byte_order import ByteOrder

IDS = {"a.One": 3, "fl": 2, "three": 9, "b": 1, "other": 12}
GROUPS = {"fl": 0, "three": 0, "other": 1}
KEYS = ["a.One", 3, "b", "fl", 9, "three", "other", 12, "nope", 77]


def environment(it, order, p="uint8", q="double"):
    """Two channels and two groups of bit-fields, registered in any order."""
    it.c.ghost["cells"] = {}
    it.c.ghost["cur0"] = z3.IntVal(1)
    reg = call(it, ChannelNameRegistry, reverse=MDict([(n, IDS[n]) for n in order])).value
    prims, chans = {}, {}
    for n, k in (("a.One", p), ("b", q)):
        prims[n], _ = prim(it, k, None, "value_" + n)
        chans[n] = chan(it, IDS[n], prims[n])
    creg = new(it, ChannelRegistry, names=reg, items=MDict([(n, chans[n]) for n in order if n in chans]))
    env = call(it, ChannelEnvironment, channels=creg).value
    for k, names in ((0, ("fl", "three")), (1, ("other",))):
        raw = raw_kind(it, k)
        fs = {n: fld(it, BitFlag if n == "fl" else BitField, n, i, 1 if n == "fl" else 3, raw) for i, n in enumerate(names)}
        for n in names:
            prims[n] = raw
        b = new(it, BitFields, raw=raw, curr_index=5, fields=MDict(list(fs.items())), by_index=MDict([]), _finalized=False)
        o = call(it, method(it.getattr(env, "fields"), "add"), b)
        it.c.check("fields can be added", o.ok)
    return env, prims


def expected(keys):
    """What an array of these keys consists of, or None if they are refused."""
    names, out, at, closed = [], [], None, set()
    for k in keys:
        n = next((m for m, i in IDS.items() if k in (m, i)), None)
        if n is None or n in names:
            return None
        names.append(n)
        g = GROUPS.get(n)
        if g is None or g != at:
            if at is not None:
                closed.add(at)
            if g is not None and g in closed:
                return None
            out.append(n)
        at = g
    return names, out


def is_layout(it, o, want, prims, order):
    names, out = want
    arr = it.getattr(o.value, "array")
    got = it.to_items(arr.attrs["_primitives"])
    it.c.check("the names are those given, in order", list(it.to_items(it.getattr(o.value, "names"))) == names)
    it.c.check("the storage of each is there exactly once, in order", len(got) == len(out) and all(x is prims[n] for x, n in zip(got, out)))
    it.c.check("its size is the sum of theirs", zb(it.eq(it.getattr(arr, "size"), sum(it.getattr(prims[n], "size") for n in out))))
    it.c.check("it has the byte order asked for", it.getattr(arr, "byte_order") is order)


def v_keys(it, most):
    env, prims = environment(it, list(IDS))
    keys = [KEYS[it.c.choose(len(KEYS))] for _ in range(it.c.choose(most) + 1)]
    order = [ByteOrder.LITTLE_ENDIAN, ByteOrder.BIG_ENDIAN][it.c.choose(2)]
    before = [list(it.to_items(it.getattr(env, "names")))]
    o = call(it, method(env, "array"), MList(list(keys)), byte_order=order)
    want = expected(keys)
    if want is None:
        it.c.check("unknown and repeated names, and fields apart from others of theirs, are refused", o.raised(AssertionError))
        cover(it, "refused")
    else:
        it.c.check("anything else is not", o.ok)
        is_layout(it, o, want, prims, order)
        cover(it, "return")
    it.c.check("the environment keeps its names", before == [list(it.to_items(it.getattr(env, "names")))])


def v_all(it):
    import itertools
    orders = [list(x) for x in itertools.permutations(IDS)]
    order = orders[it.c.choose(len(orders))]
    env, prims = environment(it, order, *[("uint8", "double"), ("bool", "int64")][it.c.choose(2)])
    o = call(it, method(env, "array"))
    want = expected(order)
    if want is None:
        it.c.check("fields registered apart from others of theirs are refused", o.raised(AssertionError))
    else:
        it.c.check("an environment has an array", o.ok)
        is_layout(it, o, want, prims, it.getattr(it.getattr(o.value, "array"), "byte_order"))
        a = call(it, method(env, "array")).value
        it.c.check("and another one of the same layout, apart from it", And(a.attrs["array"] is not o.value.attrs["array"] if isinstance(a, SObj) and "array" in a.attrs else it.getattr(a, "array") is not it.getattr(o.value, "array")))
        is_layout(it, Run(a), want, prims, it.getattr(it.getattr(a, "array"), "byte_order"))
    cover(it, "return")


class Run:
    def __init__(self, v):
        self.value = v


K30 = dict(covers=["return"], max_paths=30000, budget_s=400)
CONTRACTS = [
    Unit("keys given", ArrayChannelEnvironment.array, lambda it: v_keys(it, 3), cfg_io, covers=["return", "refused"], max_paths=30000, budget_s=400),
    Unit("the whole environment", ArrayChannelEnvironment.array, v_all, cfg_io, **K30),
]
