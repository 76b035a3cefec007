"""C11: an exported environment loads as the same environment."""
import asyncio

from contracts.C10 import *
from vcorelib.dict.codec import DictCodec
from vcorelib.io.fifo import ByteFifo
from runtimepy.channel.event.header import PrimitiveEventHeader
from runtimepy.codec.protocol import ProtocolFactory
from runtimepy.channel.environment import file as FE
from runtimepy.enum.registry import EnumRegistry
from runtimepy.channel.registry import ChannelNameRegistry


class Event:
    """asyncio.Event without a running loop (waiting is not used here)."""

    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag


def codec_init(it, a, kw):
    """DictCodec.__init__ with schema validation assumed to accept and keep
    the data: initializes from the data and insists on the round trip."""
    self = a[0]
    data = a[1] if len(a) > 1 else kw.get("data")
    if data is None:
        data = MDict([])
    it.setattr(self, "data", data)
    it.call(it.getattr(self, "init"), [data])
    if kw.get("verify", True):
        d = it.call(it.getattr(self, "asdict"), [])
        r = it.eq(d, data)
        it.c.check("what was loaded exports as the data it was loaded from", r)
    return None


def cfg_io(cfg):
    cfg_mgr(cfg)
    cfg.model(DictCodec.__init__, codec_init, "vcorelib.dict.codec:DictCodec.__init__ (schemas assumed to accept)")
    cfg.model(ProtocolFactory.__dict__["instance"].__func__, lambda it, a, kw: new(it, object), "PrimitiveEventHeader.instance")
    cfg.model(PrimitiveEventHeader.__dict__["init_header"].__func__, lambda it, a, kw: None, "PrimitiveEventHeader.init_header")
    cfg.model(ByteFifo, lambda it, a, kw: new(it, object), "ByteFifo")
    cfg.model(logging.getLogger, lambda it, a, kw: new(it, Log), "logging.getLogger")
    cfg.model(asyncio.Event, lambda it, a, kw: it.call(Event, []), "asyncio.Event")


# -- a single channel
def any_channel(it, p, tag=""):
    ident = it.c.sym("int", "id" + tag)
    it.c.assume(ident.t >= 1)
    nsc = it.c.choose(2) * 2 if KIND(p) != "bool" else 0
    raw, v = prim(it, p, MList(items=[it.c.sym("real", f"c{j}{tag}") for j in range(nsc)]) if nsc else None)
    en = None
    default = None
    if it.c.choose(2):
        default = it.c.sym(KIND(p), "default" + tag)
        if KIND(p) == "int":
            lo, hi = bounds(p)
            it.c.assume(z3.And(default.t >= lo, default.t <= hi))
    c = chan(it, ident, raw, "e" if it.c.choose(2) else None, it.c.sym("bool", "commandable" + tag), default)
    if it.c.choose(2):
        d = it.c.sym("str", "description" + tag)
        it.c.assume(d.t != z3.StringVal(""))
        c.attrs["description"] = d
    if it.c.choose(2):
        c.attrs["controls"] = MDict([("slider", MDict([("min", it.c.sym("int", "min")), ("max", 5), ("step", 1)]))])
    return c, v


SAME = ("id", "_enum", "commandable", "description", "default", "controls")


def v_channel(it, p):
    c, v = any_channel(it, p)
    fr = Frame(it, c)
    d = call(it, method(c, "asdict")).value
    fr.check("exporting")
    o = call(it, Channel, d)
    it.c.check("an exported channel can be loaded", o.ok)
    e = o.value
    for a in SAME:
        it.c.check("a loaded channel has the exported attributes", eqv(it, it.getattr(e, a), c.attrs[a]))
    it.c.check("a loaded channel has the exported type", it.getattr(e, "type") is it.getattr(c, "type"))
    sc = it.getattr(c.attrs["raw"], "scaling")
    it.c.check("a loaded channel has the exported scaling", eqv(it, it.getattr(it.getattr(e, "raw"), "scaling"), sc))
    now = it.getattr(it.getattr(e, "raw"), "value")
    dflt = c.attrs["default"]
    it.c.check("a loaded channel starts at its default", eqv(it, now, {"bool": False, "int": 0, "real": 0.0}[KIND(p)] if dflt is None else dflt))
    cover(it, "return")


def v_channel_default(it):
    """The default of the controls applies when there is none of its own."""
    x = it.c.sym("int", "x")
    it.c.assume(z3.And(x.t >= 0, x.t < 256))
    o = call(it, Channel, MDict([("id", 1), ("type", "uint8"), ("commandable", False), ("controls", MDict([("default", x)]))]), verify=False)
    it.c.check("the default of the controls is the channel's", And(o.ok, eqv(it, it.getattr(o.value, "default"), x), eqv(it, it.getattr(it.getattr(o.value, "raw"), "value"), x)))
    d = call(it, method(o.value, "asdict")).value
    o = call(it, Channel, d)
    it.c.check("and it survives an export", And(o.ok, eqv(it, it.getattr(o.value, "default"), x)))
    cover(it, "return")


# -- values written back
def v_write_back(it, p, nsc, en):
    """Setting a channel to what it reads as keeps its raw value."""
    e = E(it, p, nsc, en)
    resolve = it.c.choose(2) == 1
    o = call(it, method(e.env, "value"), "chan", resolve_enum=resolve)
    if o.ok:
        s = call(it, method(e.env, "set"), "chan", o.value)
        it.c.check("a channel takes the value it reads as", s.ok)
        e.kept("a channel set to its own reading keeps its raw value")
        e.others_kept()
        cover(it, "return")


# -- whole environments
def mk_env(it, p, q, use_enum):
    """Two channels, an enumeration and two fields; all contents arbitrary."""
    cells = it.c.ghost["cells"] = {}
    a, va = any_channel(it, p, "0") if False else (None, None)
    names = MDict([("a.One", 3), ("b", 1), ("fl", 2), ("three", 9), ("gone", 5)])
    it.c.ghost["cur0"] = z3.IntVal(1)
    reg = call(it, ChannelNameRegistry, reverse=names).value
    x, y = it.c.sym("int", "x"), it.c.sym("int", "y")
    it.c.assume(z3.And(x.t >= 0, y.t >= 0, x.t < 128, y.t < 128, x.t != y.t))
    ereg = call(it, EnumRegistry, MDict([("e", MDict([("id", 4), ("type", "int"), ("primitive", "uint8"), ("items", MDict([("on", x), ("off", y)]))]))])).value
    chans = {}
    for n, i, k in (("a.One", 3, p), ("b", 1, q)):
        en = "e" if use_enum and n == "b" else None
        nsc = 2 if KIND(k) != "bool" and not en and n == "b" else 0
        raw, v = prim(it, k, MList(items=[it.c.sym("real", "c0"), it.c.sym("real", "c1")]) if nsc else None, "value_" + n)
        if nsc:
            it.c.assume(it.getattr(raw, "scaling").items[1].t != 0)
        if en:
            it.c.assume(z3.Or(v.t == x.t, v.t == y.t))
        chans[n] = (chan(it, i, raw, en, it.c.choose(2) == 1 if n == "b" else False), v)
    creg = new(it, ChannelRegistry, names=reg, items=MDict([(n, c) for n, (c, _) in chans.items()]))
    env = call(it, ChannelEnvironment, channels=creg, enums=ereg).value
    fraw = raw_kind(it, 0)
    vals = {}
    fs = {}
    for n, ix, w in (("fl", 0, 1), ("three", 2, 3)):
        f = fld(it, BitFlag if w == 1 else BitField, n, ix, w, fraw)
        vals[n] = it.c.sym("int", "value_" + n)
        it.c.assume(z3.And(vals[n].t >= 0, vals[n].t < 2 ** w))
        cells[id(f)] = vals[n].t
        fs[n] = f
    b = new(it, BitFields, raw=fraw, curr_index=5, fields=MDict([(n, f) for n, f in fs.items()]), by_index=MDict([(0, fs["fl"]), (1, (1, 0)), (2, fs["three"])]), _finalized=False)
    return env, b, chans, fs, vals, cells, (x, y), reg


class Where:
    """A path: nothing but a key of the files written."""


def where(it, k):
    files = it.c.ghost["files"]
    return new(it, Where, k=k, parent=None, joinpath=Prim(lambda it, a, kw: where(it, "/".join([k, *map(str, a)])), "joinpath"),
               __truediv__=Prim(lambda it, a, kw: where(it, "/".join([k, *map(str, a)])), "/"),
               mkdir=Prim(lambda it, a, kw: None, "mkdir"), is_dir=Prim(lambda it, a, kw: True, "is_dir"), is_file=Prim(lambda it, a, kw: k in files, "is_file"))


class Decoded:
    """What a file holds."""


def disk(it):
    """A file system that keeps what is written (JSON is assumed to keep it)."""
    files = it.c.ghost["files"] = {}

    def key(p):
        return p if isinstance(p, str) else p.attrs["k"]

    def write(it, a, kw):
        files[key(a[1])] = a[2]
        return (True, 0)

    def read(it, a, kw):
        k = key(a[1])
        it.c.check("only files written are read", k in files)
        return new(it, Decoded, data=files[k], success=True)

    it.cfg.model(type(FE._ARBITER).encode, write, "vcorelib.io:ARBITER.encode")
    it.cfg.model(type(FE._ARBITER).decode, read, "vcorelib.io:ARBITER.decode")
    it.cfg.model(FE._normalize, lambda it, a, kw: a[0] if isinstance(a[0], SObj) else where(it, a[0]), "vcorelib.paths:normalize")
    return files


def v_files(it, p, q, use_enum, pending, resolve):
    """What a directory has is what JSON has; it loads as the environment."""
    env, b, chans, fs, vals, cells, (x, y), reg = mk_env(it, p, q, use_enum)
    if pending:
        it.getattr(env, "to_add").items.append(b)
    else:
        call(it, method(it.getattr(env, "fields"), "add"), b)
    del_name(it, reg, "gone")
    call(it, method(it.getattr(env, "enums").attrs["names"], "load_name_to_key"), MDict([("reserved", 9)]))
    files = disk(it)
    o = call(it, method(env, "export_directory"), "out", resolve_enum=resolve)
    it.c.check("an environment can be exported to a directory", o.ok)
    it.c.check("exporting finalizes", it.truth(it.getattr(env, "finalized")))
    j = call(it, method(env, "export_json"), resolve_enum=resolve)
    it.c.check("the files are the parts of the JSON", sorted(files) == sorted(f"out/{k}.json" for k, _ in j.value.pairs))
    for k, v in j.value.pairs:
        it.c.check("what they hold is what the JSON holds", it.eq(v, files.get(f"out/{k}.json")))
    r = call(it, it.getattr(ChannelEnvironment, "load_directory"), "out")
    it.c.check("a directory exported can be loaded", r.ok)
    e2 = r.value
    it.c.check("a loaded environment is final", it.truth(it.getattr(e2, "finalized")))
    it.c.check("it equals the original", it.truth(call(it, it.getattr(e2, "__eq__"), env).value))
    for part in ("channels", "enums"):
        n1, n2 = it.getattr(it.getattr(env, part), "names"), it.getattr(it.getattr(e2, part), "names")
        for n in ("a.One", "b", "fl", "three") if part == "channels" else ("e", "reserved"):
            it.c.check("every name keeps its identifier", eqv(it, call(it, method(n1, "identifier"), n).value, call(it, method(n2, "identifier"), n).value))
    o2 = call(it, method(e2, "export_json"), resolve_enum=resolve)
    for k, v in j.value.pairs:
        f, w = it.dict_lookup(o2.value, k)
        it.c.check("the loaded environment exports the same", And(f, it.eq(v, w)))
    cover(it, "return")


def v_load(it, p, q, use_enum, pending, resolve):
    env, b, chans, fs, vals, cells, (x, y), reg = mk_env(it, p, q, use_enum)
    if pending:
        it.getattr(env, "to_add").items.append(b)
    else:
        call(it, method(it.getattr(env, "fields"), "add"), b)
    it.getattr(it.getattr(env, "channels"), "names")
    # only names in use are listed by values()
    del_name(it, reg, "gone")
    o = call(it, method(env, "export_json"), resolve_enum=resolve)
    it.c.check("an environment can be exported", o.ok)
    it.c.check("exporting finalizes", it.truth(it.getattr(env, "finalized")))
    r = call(it, it.getattr(ChannelEnvironment, "load_json"), o.value)
    it.c.check("an exported environment can be loaded", r.ok)
    e2 = r.value
    it.c.check("a loaded environment is final", it.truth(it.getattr(e2, "finalized")))
    it.c.check("it equals the original", it.truth(call(it, it.getattr(e2, "__eq__"), env).value))
    for n, (c, v) in chans.items():
        c2 = call(it, it.getattr(e2, "__getitem__"), n).value[0]
        it.c.check("every channel keeps its raw value", eqv(it, it.getattr(it.getattr(c2, "raw"), "value"), v))
        for a in SAME:
            it.c.check("every channel keeps its attributes", eqv(it, it.getattr(c2, a), c.attrs[a]))
        kind = KIND(p if n == "a.One" else q)
        for s, k in (("ints", "int"), ("bools", "bool"), ("floats", "real")):
            it.c.check("channels are sorted by type", it.contains(it.getattr(e2, s), c2) == (k == kind))
        enums2 = call(it, it.getattr(e2, "__getitem__"), n).value[1]
        it.c.check("enumerated channels find their enumeration", (enums2 is not None) == (c.attrs["_enum"] is not None))
    m2 = it.getattr(e2, "fields")
    for n, f in fs.items():
        f2 = call(it, it.getattr(m2, "__getitem__"), n).value
        it.c.check("every field keeps its place and value", And(eqv(it, it.getattr(f2, "index"), f.attrs["index"]), eqv(it, it.getattr(f2, "width"), f.attrs["width"]), cells[id(f2)] == vals[n].t))
    n1, n2 = it.getattr(it.getattr(env, "channels"), "names"), it.getattr(it.getattr(e2, "channels"), "names")
    for n in ("a.One", "b", "fl", "three"):
        it.c.check("every name keeps its identifier", eqv(it, call(it, method(n1, "identifier"), n).value, call(it, method(n2, "identifier"), n).value))
    o2 = call(it, method(e2, "export_json"), resolve_enum=resolve)
    for k, v in o.value.pairs:
        f, w = it.dict_lookup(o2.value, k)
        if k == "values":
            continue
        it.c.check("the loaded environment exports the same", And(f, it.dict_eq(v, w)))
    vv, vw = it.dict_lookup(o.value, "values")[1], it.dict_lookup(o2.value, "values")[1]
    it.c.check("and the same values", it.dict_eq(vv, vw))
    cover(it, "return")


def del_name(it, reg, n):
    """An identifier that is known but has neither channel nor field is not
    part of this environment."""
    for a in ("_mapping", "_reverse"):
        d = reg.attrs[a]
        d.pairs = [p for p in d.pairs if n not in p]
    reg.attrs["registered_order"].items = [x for x in reg.attrs["registered_order"].items if x != n]


def v_finalize(it, strict):
    """Pending bit fields are added once, however often it is finalized."""
    env, b, chans, fs, vals, cells, _, reg = mk_env(it, "uint8", "bool", False)
    first = call(it, method(env, "add_field"), fs["fl"])
    second = call(it, method(env, "add_field"), fs["three"])
    it.c.check("fields can be added before finalizing", And(first.ok, second.ok))
    m = it.getattr(env, "fields")
    o = call(it, method(env, "finalize"), strict)
    it.c.check("an environment can be finalized", And(o.ok, it.truth(it.getattr(env, "finalized"))))
    for n in fs:
        it.c.check("every added field is found", call(it, it.getattr(m, "__getitem__"), n).value is fs[n])
    k = len(it.getattr(m, "fields").items)
    it.c.check("fields of one primitive share one collection", k == 1)
    o = call(it, method(env, "finalize"), False)
    it.c.check("finalizing again adds nothing", And(o.ok, len(it.getattr(m, "fields").items) == k))
    o = call(it, method(env, "finalize"))
    it.c.check("a strict second finalization is refused and adds nothing", And(o.raised(AssertionError), len(it.getattr(m, "fields").items) == k))
    o = call(it, method(env, "channel"), "late", "uint8")
    it.c.check("a finalized environment takes no channel", And(o.raised(AssertionError), call(it, method(env, "get"), "late").value is None))
    cover(it, "return")


def v_item_eq(it):
    a, b = it.c.sym("int", "a"), it.c.sym("int", "b")
    x, y = new(it, Channel, id=a), new(it, RuntimeEnum, id=b)
    for other in (y, MDict([("id", b)])):
        o = call(it, it.getattr(x, "__eq__"), other)
        it.c.check("items are compared by identifier", And(o.ok, tm(it, o.value, "bool") == (a.t == b.t)))
    cover(it, "return")


F = "runtimepy.channel.environment.file:FileChannelEnvironment"
CONTRACTS = [
    Unit(f"channel round trip[{p}]", "runtimepy.channel:Channel.init", lambda it, p=p: v_channel(it, p), cfg_io, **K) for p in PRIMS
] + [
    Unit("channel default from its controls", "runtimepy.channel:Channel.init", v_channel_default, cfg_io, **K),
    Unit("items compare by identifier", "runtimepy.registry.item:RegistryItem.__eq__", v_item_eq, cfg_io, **K),
] + [
    Unit(f"writing a reading back[{p}, {n} terms{', enumerated' if en else ''}]", "runtimepy.channel.environment.base:BaseChannelEnvironment.set", lambda it, p=p, n=n, en=en: v_write_back(it, p, n, en), cfg_io, **K)
    for p, n, en in [(p, 2, None) for p in INTP] + [(p, 0, None) for p in INTP] + [("double", 2, None), ("bool", 0, None), ("uint8", 0, INT), ("int32", 0, INT), ("bool", 0, BOOL)]
] + [
    Unit(f"export and load[{p}, {q}{', enumerated' if e else ''}{', pending fields' if pend else ''}{'' if res else ', raw values'}]", F + ".load_json", lambda it, p=p, q=q, e=e, pend=pend, res=res: v_load(it, p, q, e, pend, res), cfg_io, **K)
    for p, q, e, pend, res in (("uint8", "int16", False, False, True), ("double", "bool", False, True, True), ("bool", "double", False, False, False), ("int64", "uint8", True, False, True), ("bool", "uint8", True, True, False))
] + [
    Unit(f"directory[{p}, {q}{', enumerated' if e else ''}{', pending fields' if pend else ''}{'' if res else ', raw values'}]", F + ".load", lambda it, p=p, q=q, e=e, pend=pend, res=res: v_files(it, p, q, e, pend, res), cfg_io, **K)
    for p, q, e, pend, res in (("uint8", "int16", False, False, True), ("double", "bool", False, True, True), ("int64", "uint8", True, False, True), ("bool", "uint8", True, True, False))
] + [
    Unit(f"finalize[{'strict' if s else 'not strict'}]", "runtimepy.channel.environment.base:BaseChannelEnvironment.finalize", lambda it, s=s: v_finalize(it, s), cfg_io, **K) for s in (True, False)]
