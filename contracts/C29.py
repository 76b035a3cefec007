"""C29: what a request to the web server is answered with."""
from contracts.common import *
import http
import io
import pathlib
from contracts.C15 import Log, zb
from runtimepy.net import server as SRV
from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.request_target import RequestTarget
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.server import html as HT
from runtimepy.net.server import json as JS
from runtimepy import util as UT

S = z3.StringSort()
PATH = z3.Function("path_of_text", S, S)  # a path, whatever way it's written
ABS = z3.Function("path_resolved", S, S)
ROOTED = z3.Function("path_rooted", S, S)
JSON = z3.Function("json_text", z3.IntSort(), S)


class GPath:
    """A path, known by its text."""

    def __eq__(self, other):
        return self.eq(other)

    def __hash__(self):
        return 0

    def __str__(self):
        return self.text


class Other:
    """Any value that isn't a dictionary or callable."""

    def __str__(self):
        return "x"


class Page:
    """An HTML document."""


class Result:
    """What a command returns."""

    def __str__(self):
        return self.text


class Proc:
    """A command processor: contract (C12)."""


def mkpath(it, t):
    p = new(it, GPath)
    p.attrs["t"] = p.attrs["text"] = Sym("str", t)
    p.attrs["eq"] = Prim(lambda it, a, kw: Sym("bool", a[0].attrs["t"].t == t) if getattr(a[0], "attrs", {}).get("t") is not None else False, "__eq__")
    p.attrs["resolve"] = Prim(lambda it, a, kw: mkpath(it, ABS(t)), "resolve")
    p.attrs["is_absolute"] = Prim(lambda it, a, kw: Sym("bool", ROOTED(t) == t), "is_absolute")
    return p


def text_of(it, v):
    return v.attrs["t"].t if getattr(v, "attrs", None) and "t" in v.attrs else it.term(v, "str")


def part(it, name):
    p = it.c.sym("str", name)
    it.c.assume(z3.And(z3.Not(z3.Contains(p.t, z3.StringVal("/"))), z3.Not(z3.Contains(p.t, z3.StringVal("?")))))
    return p


def path_text(it, parts, head=""):
    t = z3.StringVal(head)
    for p in parts:
        t = z3.Concat(t, z3.StringVal("/"), p.t)
    return Sym("str", t)


def target(it, path, query=None):
    """The target of a request: contract (C14)."""
    return new(it, RequestTarget, origin_form=None if path is None else (path, query), raw=path, asterisk_form=False, authority_form=None, absolute_form=None if path is not None else "x")


def request(it, path):
    r = new(it, RequestHeader, target=target(it, path))
    r.attrs["log"] = Prim(lambda it, a, kw: None, "log")
    return r


def response(it):
    r = call(it, ResponseHeader).value
    return r


def kind_of(it, r):
    return it.call(it.getattr(r, "__getitem__"), ["content-type"])


def header(it, r, k):
    o = call(it, method(r, "get"), k)
    return o.value if o.ok else None


# -- paths
def v_parts(it):
    """The parts after the first that is the key."""
    n = it.c.choose(5)
    ps = [part(it, f"part{i}") for i in range(n)]
    path = path_text(it, ps)
    o = call(it, UT.path_has_part, path)
    it.c.check("a path has the key if one of its parts is the key", And(o.ok, eqv(it, o.value, Sym("bool", z3.Or(False, *[p.t == z3.StringVal("json") for p in ps])))))
    o = call(it, list, call(it, UT.parse_path_parts, path).value)
    want = None
    for p in ps:
        if want is None:
            if it.c.branch(p.t == z3.StringVal("json")):
                want = []
        else:
            want.append(p)
    got = it.to_items(o.value)
    it.c.check("the parts after the first key, in order", And(o.ok, len(got) == len(want or []), *[eqv(it, a, b) for a, b in zip(got, want or [])]))
    cover(it, "return")


# -- JSON
def tree(it, depth, name):
    """A value: (value, kind, inner, key, child)"""
    k = it.c.choose(4 if depth else 2)
    calls = it.c.ghost["calls"]
    if k in (0, 1):
        v = it.c.sym("int", name) if it.c.choose(2) else new(it, Other)
        node = {"v": v, "dict": None}
    else:
        key = it.c.sym("str", "key_" + name)
        child = tree(it, depth - 1, name + "x")
        node = {"v": MDict([[key, child["top"]]]), "dict": (key, child)}
    node["top"] = node["v"]
    if k in (1, 3):
        def f(it, a, kw):
            it.c.check("values are called without arguments", not a and not kw)
            calls.append(node)
            return node["v"]
        node["top"] = Prim(f, "value")
        node["called"] = True
    return node


def v_traverse(it):
    g = it.c.ghost
    g["calls"] = []
    n = it.c.choose(4)
    parts = [it.c.sym("str", f"part{i}") for i in range(n)]
    root = tree(it, n, "root")
    o = call(it, JS.traverse_dict, root["top"], *parts)
    it.c.check("any path is followed", o.ok)
    node, seen, bad, calls = root, [], None, []
    for p in parts:
        if it.c.branch(z3.Length(p.t) == 0):
            continue
        seen.append(p)
        if node.get("called"):
            calls.append(node)
        if node["dict"] is None or not it.c.branch(node["dict"][0].t == p.t):
            bad = p
            break
        node = node["dict"][1]
    if bad is None and node.get("called"):
        calls.append(node)
    it.c.check("what is on the path is called once, nothing else", And(len(g["calls"]) == len(calls), *[a is b for a, b in zip(g["calls"], calls)]))
    if bad is None:
        it.c.check("the value that the path names", o.value is node["v"] or eqv(it, o.value, node["v"]))
        cover(it, "found")
        return
    f, at = it.dict_lookup(o.value, "path")
    it.c.check("what isn't there is an error", And(f, it.dict_lookup(o.value, "error")[0]))
    f, w = it.dict_lookup(at, "part")
    it.c.check("that names the part", And(f, eqv(it, w, bad)))
    f, w = it.dict_lookup(at, "current")
    t = seen[0].t
    for p in seen[1:]:
        t = z3.Concat(t, z3.StringVal("."), p.t)
    it.c.check("and the path so far", And(f, eqv(it, w, Sym("str", t))))
    cover(it, "error")


def v_encode(it):
    g = it.c.ghost
    g["encoded"] = []
    arb = new(it, Other)

    def encode(it, a, kw):
        it.c.check("encoded as JSON, callables included", And(a[0] == "json", kw.get("cls") is JS.Encoder))
        g["encoded"].append(a[2])
        it.call(it.getattr(a[1], "write"), [Sym("str", JSON(z3.IntVal(1)))])
    arb.attrs["encode_stream"] = Prim(encode, "encode_stream")
    it.cfg.overrides[id(JS.ARBITER)] = arb
    s = Stream(it.c.sym("str", "before").t, k="str")
    s.pos = z3.Length(s.data)
    before = s.data
    r = response(it)
    data = MDict([["a", it.c.sym("int", "value")]])
    o = call(it, JS.encode_json, s, r, data)
    it.c.check("the data is encoded once", And(o.ok, len(g["encoded"]) == 1, g["encoded"][0] is data))
    it.c.check("after what's there, on a line", s.data == z3.Concat(before, JSON(z3.IntVal(1)), z3.StringVal("\n")))
    it.c.check("the type is JSON", eqv(it, header(it, r, "content-type"), "application/json; charset=utf-8"))
    e = new(it, JS.Encoder)
    v = it.c.sym("int", "v")
    o = call(it, method(e, "default"), Prim(lambda it, a, kw: v, "callable"))
    it.c.check("a callable is its value", And(o.ok, eqv(it, o.value, v)))
    cover(it, "return")


def v_json(it):
    """The value at the path after the key, wrapped if it isn't an object."""
    g = it.c.ghost
    ps = [part(it, f"part{i}") for i in range(2)]
    root = MDict([["x", 1]])
    value = [MDict([["a", 1]]), it.c.sym("int", "value"), it.c.sym("str", "text"), MList(items=[1]), None][it.c.choose(5)]
    log = []

    def walk(it, a, kw):
        log.append(a)
        return value
    it.cfg.model(JS.traverse_dict, walk, "traverse_dict")
    it.cfg.model(JS.encode_json, lambda it, a, kw: log.append(a), "encode_json")
    s, r = Stream(z3.StringVal(""), k="str"), response(it)
    key = new(it, Other)
    keyp = Sym("str", z3.StringVal("json"))
    o = call(it, JS.json_handler, s, request(it, path_text(it, [keyp] + ps)), r, None, root)
    it.c.check("the data is followed once", And(o.ok, len(log) == 2, log[0][0] is root))
    it.c.check("along the parts of the path", And(len(log[0]) == 3, *[eqv(it, a, b) for a, b in zip(log[0][1:], ps)]))
    it.c.check("and answered", And(log[1][0] is s, log[1][1] is r))
    got = log[1][2]
    if isinstance(value, MDict):
        it.c.check("an object as it is", got is value)
    else:
        f, w = it.dict_lookup(got, "__raw__")
        it.c.check("anything else in an object", And(f, len(it.to_items(got)) == 1, w is value or eqv(it, w, value)))
    cover(it, "return")


# -- applications
def v_html(it):
    log = []
    page = Sym("str", it.c.sym("str", "page").t)

    def app(name):
        def f(it, a, kw):
            def run():
                log.append((name, a))
                d = new(it, Page)
                d.attrs["render"] = Prim(lambda it, b, kw: it.call(it.getattr(b[0], "write"), [page]), "render")
                return d
            return CoroVal(run, "app")
        return Prim(f, "app")
    fresh = new(it, Page)
    it.cfg.model(HT.get_html, lambda it, a, kw: fresh, "get_html")
    keys = [it.c.sym("str", f"registered{i}") for i in range(2)]
    it.c.assume(keys[0].t != keys[1].t)
    apps = MDict([[k, app(i)] for i, k in enumerate(keys)])
    default = app("default") if it.c.choose(2) else None
    path = it.c.sym("str", "path")
    req, r, s = request(it, path), response(it), Stream(z3.StringVal(""), k="str")
    data = it.c.sym("bytes", "body") if it.c.choose(2) else None
    kw = {"default_app": default} if default is not None or it.c.choose(2) else {}
    o = acall(it, HT.html_handler, apps, s, req, r, data, **kw)
    it.c.check("any path is handled", o.ok)
    want = next((i for i, k in enumerate(keys) if it.c.branch(k.t == path.t)), "default" if default is not None else None)
    it.c.check("the application of the path runs once, else the default one", [n for n, _ in log] == ([] if want is None else [want]))
    it.c.check("it's known if one did", it.truth(o.value) == (want is not None) if isinstance(it.truth(o.value), bool) else False)
    if want is not None:
        a = log[0][1]
        it.c.check("with a new document and the request", And(a[0] is fresh, a[1] is req, a[2] is r, a[3] is data))
        it.c.check("its page is the answer", s.data == page.t)
        it.c.check("with its type", eqv(it, header(it, r, "content-type"), "text/html; charset=utf-8"))
        cover(it, "page")
    else:
        it.c.check("otherwise nothing", s.data == z3.StringVal(""))
        cover(it, "none")


# -- commands
def v_command(it):
    names = [it.c.sym("str", f"environment{i}") for i in range(2)]
    it.c.assume(names[0].t != names[1].t)
    log, out = [], []
    ok = it.c.sym("bool", "success")
    text = it.c.sym("str", "message")

    def proc(i):
        p = new(it, Proc)

        def command(it, a, kw):
            it.c.check("a command is its text", And(len(a) == 1, not kw))
            log.append((i, a[0]))
            return new(it, Result, success=ok, text=text)
        p.attrs["command"] = Prim(command, "command")
        return p
    it.cfg.overrides[id(SRV.GLOBAL)] = MDict([[n, proc(i)] for i, n in enumerate(names)])
    it.cfg.model(SRV.encode_json, lambda it, a, kw: out.append(a), "encode_json")
    n = it.c.choose(4)
    words = tuple(it.c.sym("str", f"word{i}") for i in range(n))
    c = new(it, RuntimepyServerConnection, logger=new(it, Log))
    s, r = Stream(z3.StringVal(""), k="str"), response(it)
    o = call(it, method(c, "handle_command"), s, r, words)
    it.c.check("any command is answered once", And(o.ok, len(out) == 1, out[0][0] is s, out[0][1] is r))
    data = out[0][2]
    which = None
    if n:
        which = next((i for i, k in enumerate(names) if it.c.branch(k.t == words[0].t)), None)
    get = lambda k: it.dict_lookup(data, k)
    if which is None:
        it.c.check("without an environment nothing is run", len(log) == 0)
        it.c.check("which isn't a success", get("success")[1] is False)
        f, w = get("environments")
        it.c.check("the environments are listed", And(f, f and len(it.to_items(w)) == 2, *[eqv(it, a, b) for a, b in zip(it.to_items(w) if f else [], names)]))
        cover(it, "none")
        return
    t = z3.StringVal("")
    for i, w in enumerate(words[1:]):
        t = z3.Concat(t, z3.StringVal(" "), w.t) if i else w.t
    it.c.check("the words are run once, in that environment", And(len(log) == 1, log[0][0] == which, eqv(it, log[0][1], Sym("str", t))))
    it.c.check("its result is the answer", And(eqv(it, get("success")[1], ok), eqv(it, get("message")[1], text)))
    cover(it, "run")


def v_post(it):
    g = it.c.ghost
    log = []
    origin = it.c.choose(2) == 1
    path = it.c.sym("str", "path") if origin else None
    words = tuple(it.c.sym("str", f"word{i}") for i in range(it.c.choose(3)))

    def mk(it, a, kw):
        it.c.check("the command is in the path", len(a) == 1 and eqv(it, a[0], path))
        p = new(it, GPath)
        p.attrs["parts"] = ("/",) + words
        return p
    it.cfg.model(pathlib.Path, mk, "pathlib.Path")
    c = new(it, RuntimepyServerConnection, logger=new(it, Log))
    r = response(it)
    answer = it.c.sym("str", "answer")

    def handle(it, a, kw):
        log.append(a[1:])
        it.call(it.getattr(a[0], "write"), [answer])
    it.cfg.method_override = True
    c.attrs["handle_command"] = Prim(handle, "handle_command")
    o = acall(it, method(c, "post_handler"), r, request(it, path), it.c.sym("bytes", "body"))
    it.c.check("any request is survived", o.ok)
    if origin:
        it.c.check("one command is handled, the path's words", And(len(log) == 1, log[0][0] is r, len(log[0][1]) == len(words), *[eqv(it, a, b) for a, b in zip(log[0][1], words)]))
        it.c.check("its answer is the answer", eqv(it, o.value, it.call(it.getattr(answer, "encode"), [])))
        cover(it, "command")
    else:
        it.c.check("nothing is run otherwise", And(len(log) == 0, o.value is None))
        cover(it, "none")


# -- what answers
def v_get(it):
    it.cfg.method_override = True
    origin = it.c.choose(2) == 1
    parts = [part(it, f"part{i}") for i in range(2)]
    path = path_text(it, parts) if origin else None
    c = new(it, RuntimepyServerConnection, logger=new(it, Log), favicon_data=it.c.sym("bytes", "icon"))
    r = response(it)
    req = request(it, path)
    log = []
    file = [None, it.c.sym("bytes", "file")][it.c.choose(2)]
    redirect = [None, b""][it.c.choose(2)]

    def step(name, v):
        def f(it, a, kw):
            def run():
                log.append(name)
                it.c.check("of the path that's asked for", And(eqv(it, a[0][0], path), a[1] is r))
                return v
            return CoroVal(run, name)
        return Prim(f, name)
    c.attrs["try_file"] = step("file", file)
    c.attrs["try_redirect"] = step("redirect", redirect)
    answer = it.c.sym("str", "answer")
    it.c.assume(z3.Length(answer.t) > 0)
    body = it.c.sym("bytes", "body")

    def js(it, a, kw):
        log.append("json")
        it.c.check("JSON data is that of the connection", And(a[1] is req, a[2] is r, a[4] is c.attrs["json_data"]))
        it.call(it.getattr(a[0], "write"), [answer])
    c.attrs["json_data"] = MDict([["x", 1]])
    it.cfg.model(SRV.json_handler, js, "json_handler")
    some = it.c.choose(2) == 1

    def html(it, a, kw):
        def run():
            log.append("html")
            it.c.check("an application gets the request", And(a[0] is RuntimepyServerConnection.apps or isinstance(a[0], MDict), a[2] is req, a[3] is r, a[4] is body))
            if some:
                it.call(it.getattr(a[1], "write"), [answer])
            return some
        return CoroVal(run, "html_handler")
    it.cfg.model(SRV.html_handler, html, "html_handler")
    o = acall(it, method(c, "get_handler"), r, req, body)
    it.c.check("any request is answered", o.ok)
    text = lambda: it.call(it.getattr(answer, "encode"), [])
    if not origin:
        it.c.check("what isn't a path isn't found", And(log == [], eqv(it, o.value, b""), eqv(it, header(it, r, "location"), "/404.html")))
        cover(it, "none")
        return
    if it.c.branch(z3.PrefixOf(z3.StringVal("/favicon"), path.t)):
        it.c.check("the icon is the icon", And(log == [], eqv(it, o.value, c.attrs["favicon_data"])))
        it.c.check("with its type", eqv(it, header(it, r, "content-type"), "image/x-icon"))
        cover(it, "icon")
        return
    if file is not None:
        it.c.check("a file comes first, nothing else is done", And(log == ["file"], eqv(it, o.value, file), header(it, r, "location") is None))
        cover(it, "file")
        return
    if redirect is not None:
        it.c.check("then a redirection", And(log == ["file", "redirect"], eqv(it, o.value, redirect)))
        cover(it, "redirect")
        return
    if it.c.branch(z3.Or(*[p.t == z3.StringVal("json") for p in parts])):
        it.c.check("then JSON data", And(log == ["file", "redirect", "json"], eqv(it, o.value, text()), header(it, r, "location") is None))
        cover(it, "json")
        return
    it.c.check("then an application", log == ["file", "redirect", "html"])
    if some:
        it.c.check("its page is the answer", And(eqv(it, o.value, text()), header(it, r, "location") is None))
        cover(it, "page")
    else:
        it.c.check("anything else isn't found", And(eqv(it, o.value, b""), eqv(it, header(it, r, "location"), "/404.html"), eqv(it, it.getattr(r, "status"), http.HTTPStatus.TEMPORARY_REDIRECT)))
        cover(it, "none")


def cfg_redirect(cfg):
    base_cfg(cfg)
    cfg.model(pathlib.Path, lambda it, a, kw: mkpath(it, PATH(text_of(it, a[0]))), "pathlib.Path")


def v_redirect(it):
    srcs = [it.c.sym("str", f"source{i}") for i in range(2)]
    dests = [it.c.sym("str", f"destination{i}") for i in range(2)]
    it.c.assume(PATH(srcs[0].t) != PATH(srcs[1].t))
    rules = MDict([[mkpath(it, PATH(s.t)), d if i else mkpath(it, d.t)] for i, (s, d) in enumerate(zip(srcs, dests))])
    it.cfg.method_override = True
    c = new(it, RuntimepyServerConnection, logger=new(it, Log), class_redirect_paths=rules)
    r = response(it)
    path = it.c.sym("str", "path")
    query = it.c.sym("str", "query") if it.c.choose(2) else None
    o = acall(it, method(c, "try_redirect"), (path, query), r)
    it.c.check("any path is looked up", o.ok)
    which = next((i for i, s in enumerate(srcs) if it.c.branch(PATH(s.t) == PATH(path.t))), None)
    if which is None:
        it.c.check("without a rule nothing happens", And(o.value is None, header(it, r, "location") is None, eqv(it, it.getattr(r, "status"), http.HTTPStatus.OK)))
        cover(it, "none")
    else:
        it.c.check("the path's rule says where to", And(o.value is not None, eqv(it, o.value, b""), eqv(it, header(it, r, "location"), it.call(it.getattr(dests[which], "strip"), []))))
        it.c.check("as a redirection", eqv(it, it.getattr(r, "status"), http.HTTPStatus.TEMPORARY_REDIRECT))
        cover(it, "redirect")


def v_rules(it):
    """A rule is added once per path."""
    parts = [it.c.sym("str", f"part{i}") for i in range(1 + it.c.choose(2))]
    norm = z3.Function("normalized", *[S] * len(parts), S)(*[p.t for p in parts])

    def normal(it, a, kw):
        it.c.check("the path is all its parts", And(len(a) == len(parts), *[eqv(it, x, y) for x, y in zip(a, parts)]))
        return mkpath(it, norm)
    it.cfg.model(UT.normalize_root, normal, "normalize_root")
    old = it.c.sym("str", "known")
    dest0 = it.c.sym("str", "known_destination")
    rules = MDict([[mkpath(it, old.t), dest0]])
    it.cfg.overrides[id(RuntimepyServerConnection.class_redirect_paths)] = rules
    dest = it.c.sym("str", "destination")
    o = call(it, it.getattr(RuntimepyServerConnection, "add_redirect_path"), dest, *parts)
    entries = [tuple(p) for p in rules.pairs]
    it.c.check("other rules stay", And(len(entries) >= 1, eqv(it, entries[0][1], dest0), entries[0][0].attrs["t"].t == old.t))
    if o.ok:
        it.c.check("a new rule is added", And(old.t != norm, len(entries) == 2, entries[-1][0].attrs["t"].t == norm, eqv(it, entries[-1][1], dest)))
        cover(it, "added")
    else:
        it.c.check("a path that has a rule is refused", And(o.raised(AssertionError), old.t == norm, len(entries) == 1))
        cover(it, "refused")


def v_add(it):
    """Search paths keep their order; a front one is asked first."""
    known = [mkpath(it, it.c.sym("str", f"known{i}").t) for i in range(it.c.choose(3))]
    c = new(it, RuntimepyServerConnection, logger=new(it, Log), paths=MList(items=list(known)))
    it.cfg.model(SRV.normalize, lambda it, a, kw: mkpath(it, text_of(it, a[0])), "normalize")
    p = it.c.sym("str", "path")
    front = it.c.choose(3)
    kw = {} if front == 2 else {"front": front == 1}
    o = call(it, method(c, "add_path"), p, **kw)
    got = it.to_items(c.attrs["paths"])
    it.c.check("a path is added", And(o.ok, len(got) == len(known) + 1))
    mine = got[0] if front == 1 else got[-1]
    rest = got[1:] if front == 1 else got[:-1]
    it.c.check("resolved, at the end or the front", text_of(it, mine) == ABS(p.t))
    it.c.check("the others keep their order", And(*[a is b for a, b in zip(rest, known)]))
    cover(it, "return")


K = dict(branch_ms=500, budget_s=150)
M = "runtimepy.net.server"
C = M + ":RuntimepyServerConnection"
CONTRACTS = [
    Unit("path parts", "runtimepy.util:parse_path_parts", v_parts, base_cfg, **K),
    Unit("traverse", M + ".json:traverse_dict", v_traverse, base_cfg, covers=("found", "error"), **K),
    Unit("encode", M + ".json:encode_json", v_encode, base_cfg, **K),
    Unit("json", M + ".json:json_handler", v_json, base_cfg, **K),
    Unit("applications", M + ".html:html_handler", v_html, base_cfg, covers=("page", "none"), **K),
    Unit("command", C + ".handle_command", v_command, base_cfg, covers=("run", "none"), **K),
    Unit("post", C + ".post_handler", v_post, base_cfg, covers=("command", "none"), **K),
    Unit("get", C + ".get_handler", v_get, base_cfg, covers=("icon", "file", "redirect", "json", "page", "none"), **K),
    Unit("redirect", C + ".try_redirect", v_redirect, cfg_redirect, covers=("redirect", "none"), **K),
    Unit("redirect rules", C + ".add_redirect_path", v_rules, base_cfg, covers=("added", "refused"), **K),
    Unit("search paths", C + ".add_path", v_add, base_cfg, **K),
]
