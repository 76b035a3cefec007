"""C16: files that are served are those inside of the served directories."""
from contracts.common import *
import mimetypes
import os
import pathlib
import aiofiles
from contracts.C15 import Log, endpoint, cfg_ep, HOST
from pyvc.values import STR
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.udp.tftp.enums import TftpErrorCode
from runtimepy.util import read_binary

S, B = z3.StringSort(), z3.BoolSort()
# paths as text: joined, made absolute without '..', ancestors, other suffix
J = z3.Function("path_join", S, S, S)
NORM = z3.Function("path_abspath", S, S)
NORMAL = z3.Function("path_normal", S, B)
PAR = z3.Function("path_ancestor", S, S, B)
SUF = z3.Function("path_suffix", S, S, S)
NAME = z3.Function("path_name", S, S)
FILE = z3.Function("file_content", S, S)
PAGE = z3.Function("markdown_page", S, S)
MIME, ENC = z3.Function("mime_type", S, S), z3.Function("mime_encoding", S, S)


class GPath:
    """A path, known by its text."""


class Parents:
    """The ancestors of a path."""

    def __contains__(self, item):
        return self.has(item)


def inside(root, p):
    return z3.Or(root == p, PAR(root, p))


def mkpath(it, t):
    """A path with the operations of pathlib over its text."""
    p = new(it, GPath)
    p.attrs["t"] = Sym("str", t)
    p.attrs["joinpath"] = Prim(lambda it, a, kw: mkpath(it, J(t, text(it, a[0]))), "joinpath")
    p.attrs["__truediv__"] = p.attrs["joinpath"]
    p.attrs["is_relative_to"] = Prim(lambda it, a, kw: Sym("bool", inside(text(it, a[0]), t)), "is_relative_to")
    ps = new(it, Parents)
    ps.attrs["has"] = Prim(lambda it, a, kw: Sym("bool", PAR(text(it, a[0]), t)), "parents")
    p.attrs["parents"] = ps
    p.attrs["name"] = Sym("str", NAME(t))

    def suffix(it, a, kw):
        w = SUF(t, text(it, a[0]))
        for r in it.c.ghost["roots"]:
            it.c.assume(z3.Implies(PAR(r, t), PAR(r, w)))
        it.c.assume(z3.Implies(NORMAL(t), NORMAL(w)))
        return mkpath(it, w)

    p.attrs["with_suffix"] = Prim(suffix, "with_suffix")
    p.attrs["is_file"] = Prim(lambda it, a, kw: probe(it, t), "is_file")
    p.attrs["open"] = Prim(lambda it, a, kw: opened(it, t, a, kw), "open")
    p.attrs["__str__"] = Prim(lambda it, a, kw: Sym("str", t), "__str__")
    return p


def text(it, v):
    return it.term(v.attrs["t"] if getattr(v, "attrs", None) and "t" in v.attrs else v, "str")


def probe(it, t):
    """A file is there or not, or the path can't be used."""
    g = it.c.ghost
    for u, r in g["probed"]:
        if z3.eq(u, t):
            break
    else:
        r = it.c.choose(3)
        g["probed"].append((t, r))
    if r == 2:
        it.throw(OSError, "unusable")
    return r == 0


def allowed(it, t):
    """The property: what is opened is inside of a served directory."""
    g = it.c.ghost
    it.c.check("only what is inside of a served directory is opened", And(NORMAL(t), z3.Or(*[inside(r, t) if g["self"] else PAR(r, t) for r in g["roots"]])))


def cfg_paths(cfg):
    base_cfg(cfg)
    cfg.model(os.path.abspath, lambda it, a, kw: normal(it, text(it, a[0])), "os.path.abspath")
    cfg.model(os.path.normpath, lambda it, a, kw: normal(it, text(it, a[0])), "os.path.normpath")
    cfg.model(pathlib.Path, lambda it, a, kw: mkpath(it, text(it, a[0])), "pathlib.Path")


def normal(it, t):
    it.c.assume(NORMAL(NORM(t)))
    return Sym("str", NORM(t))


# -- HTTP
def tail(path):
    return path[1:]


def cfg_http(cfg):
    cfg_paths(cfg)

    def read(it, a, kw):
        it.c.eng.modular = getattr(it.c.eng, "modular", set()) | {"read_binary"}
        t = text(it, a[0])

        def run():
            g = it.c.ghost
            allowed(it, t)
            it.c.check("only a file is read", probe(it, t))
            if it.c.choose(2):
                g["errors"].append(t)
                it.throw(OSError, "unreadable")
            g["read"].append(t)
            return Sym("bytes", FILE(t))
        return CoroVal(run, "read_binary")

    cfg.model(read_binary, read, "read_binary")

    def guess(it, a, kw):
        t = text(it, a[0])
        known = (it.c.choose(2) == 1, it.c.choose(2) == 1)
        # a type or an encoding is not the empty text
        it.c.assume(z3.Length(MIME(t)) > 0)
        it.c.assume(z3.Length(ENC(t)) > 0)
        it.c.ghost["known"] = known
        return tuple(Sym("str", f(t)) if k else None for f, k in zip((MIME, ENC), known))

    cfg.model(mimetypes.guess_type, guess, "mimetypes.guess_type")
    cfg.model(RuntimepyServerConnection.render_markdown, lambda it, a, kw: Sym("bytes", PAGE(it.term(a[1], "str"))), "render_markdown")


def v_file(it, n):
    g = it.c.ghost
    roots = [it.c.sym("str", f"directory{i}") for i in range(n)]
    g.update(roots=[r.t for r in roots], probed=[], read=[], errors=[], self=False)
    c = new(it, RuntimepyServerConnection, logger=new(it, Log), paths=MList(items=[mkpath(it, r.t) for r in roots]))
    it.cfg.method_override = True
    path = it.c.sym("str", "path")
    it.c.assume(z3.PrefixOf(z3.StringVal("/"), path.t))
    response = MDict([])
    o = acall(it, method(c, "try_file"), (path, None), response)
    it.c.check("any request is survived", o.ok)
    rest = it.term(call(it, tail, path).value, "str")
    # the first directory that has it
    known = lambda t: next((r for u, r in g["probed"] if z3.eq(u, t)), None)
    hits = []
    for r in g["roots"]:
        cand = NORM(J(r, rest))
        md = SUF(cand, z3.StringVal(".md"))
        for t in (md, cand):
            if known(t) == 0:
                hits.append(t)
    if o.value is None:
        it.c.check("not found only if no directory has it, readable", And(g["read"] == [], len(hits) == len(g["errors"])))
        cover(it, "not found")
        return
    it.c.check("one file is read", len(g["read"]) == 1)
    t = g["read"][0]
    it.c.check("the first one that can be", hits[len(g["errors"])] is t or z3.eq(hits[len(g["errors"])], t))
    i = next(i for i, r in enumerate(g["roots"]) if z3.eq(t, NORM(J(r, rest))) or z3.eq(t, SUF(NORM(J(r, rest)), z3.StringVal(".md"))))
    for r in g["roots"][:i]:
        cand = NORM(J(r, rest))
        it.c.check("no directory before it has it", z3.Or(z3.Not(PAR(r, cand)), z3.BoolVal(known(cand) in (1, 2) or known(SUF(cand, z3.StringVal(".md"))) == 2 or any(z3.eq(e, cand) or z3.eq(e, SUF(cand, z3.StringVal(".md"))) for e in g["errors"]))))
    if z3.eq(t, NORM(J(g["roots"][i], rest))):
        it.c.check("the answer is the file", it.term(o.value, "bytes") == FILE(t))
        for k, f in (("Content-Type", MIME), ("Content-Encoding", ENC)):
            found, v = it.dict_lookup(response, k)
            if found is True or (found is not False and it.c.branch(found)):
                it.c.check("with its type", it.term(v, "str") == f(t))
            it.c.check("its type and encoding are stated if they are known", z3.BoolVal(found if isinstance(found, bool) else True) if g.get("known", (0, 0))[k == "Content-Encoding"] else True)
        cover(it, "file")
    else:
        it.c.check("the answer is the page made of the file", it.term(o.value, "bytes") == PAGE(it.term(it.call(it.getattr(Sym("bytes", FILE(t)), "decode"), [], {"errors": "replace"}), "str")))
        cover(it, "page")


# -- reading
class Reader:
    async def __aenter__(self):
        return self.enter()

    async def __aexit__(self, a, b, c):
        self.leave()
        return False


def v_read(it):
    g = it.c.ghost
    p = mkpath(it, it.c.sym("str", "path").t)
    g["open"], g["n"] = None, 0

    def op(it, a, kw):
        it.c.check("the path given is opened, to read bytes", And(a[0] is p, (a[1:] + [kw.get("mode")])[0] == "rb"))
        fd = new(it, Reader)
        fd.attrs["read"] = Prim(lambda it, a, kw: CoroVal(lambda: (it.c.check("the file is read while it is open", g["open"] is True), it.c.check("all of it is read", len(a) == 0), g.__setitem__("n", g["n"] + 1), Sym("bytes", FILE(p.attrs["t"].t)))[-1], "read"), "read")

        m = new(it, Reader)
        m.attrs["enter"] = Prim(lambda it, a, kw: g.__setitem__("open", True) or fd, "enter")
        m.attrs["leave"] = Prim(lambda it, a, kw: g.__setitem__("open", False), "leave")
        return m

    it.cfg.model(aiofiles.open, op, "aiofiles.open")
    it.cfg.method_override = True
    o = acall(it, read_binary, p)
    it.c.check("the content of the file is returned", And(o.ok, it.term(o.value, "bytes") == FILE(p.attrs["t"].t)))
    it.c.check("and it is closed", g["open"] is False)
    cover(it, "return")


# -- TFTP
def opened(it, t, a, kw):
    g = it.c.ghost
    allowed(it, t)
    g["opened"].append((t, a[0]))
    if it.c.choose(2):
        it.throw(OSError, "denied")
    return Stream(z3.StringVal(""))


def v_tftp(it, kind):
    g = it.c.ghost
    ep = endpoint(it)
    root = it.c.sym("str", "root")
    ep.attrs["_path"] = mkpath(it, root.t)
    g.update(roots=[NORM(root.t)], probed=[], opened=[], self=True, served=[])

    def served(it, a, kw):
        def run():
            g["served"].append(text(it, a[0]) if kind == "read" else None)
            if kind == "read":
                allowed(it, text(it, a[0]))
            return True
        return CoroVal(run, "transfer")

    ep.attrs["ingest_file"] = ep.attrs["serve_file"] = Prim(served, "transfer")
    it.cfg.method_override = True
    name = it.c.sym("str", "filename")
    o = call(it, method(ep, f"handle_{kind}_request"), name, it.c.sym("str", "mode"))
    it.c.check("any request is survived", o.ok)
    p = NORM(J(root.t, name.t))
    for t, m in g["opened"]:
        it.c.check("the file opened is the one named", And(t == p, m == ("rb" if kind == "read" else "wb")))
    if o.value is None:
        it.c.check("a request that is refused is answered with one error", And(len(g["errors"]) == 1, g["errors"][0][2] is HOST))
        cover(it, "refused")
        return
    it.c.check("a request outside of the root is refused", inside(NORM(root.t), p))
    n = len(g["opened"])
    o2 = acall(it, it.getattr(o.value, "go"))
    for t, m in g["opened"][n:]:
        it.c.check("the file transferred is the one named", And(t == p, m == ("rb" if kind == "read" else "wb")))
    for t in g["served"]:
        it.c.check("the file served is the one named", t is None or t == p)
    cover(it, "serviced")


def cfg_tftp(cfg):
    cfg_ep(cfg)
    cfg_paths(cfg)


K = dict(branch_ms=400)
CONTRACTS = [
    *[Unit(f"serve a file[{n} directories]", "runtimepy.net.server:RuntimepyServerConnection.try_file", lambda it, n=n: v_file(it, n), cfg_http, covers=("not found", "file", "page"), **K) for n in (1, 2)],
    Unit("read a file", "runtimepy.util:read_binary", v_read, cfg_paths, **K),
    Unit("tftp read", "runtimepy.net.udp.tftp.endpoint:TftpEndpoint.handle_read_request", lambda it: v_tftp(it, "read"), cfg_tftp, covers=("refused", "serviced"), **K),
    Unit("tftp write", "runtimepy.net.udp.tftp.endpoint:TftpEndpoint.handle_write_request", lambda it: v_tftp(it, "write"), cfg_tftp, covers=("refused", "serviced"), **K),
]
