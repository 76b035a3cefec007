import asyncio
import json
import socket
import tempfile
from pathlib import Path
from harness.lib import *
from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command import GLOBAL, clear_env, register_env
from runtimepy.channel.environment.command.processor import ChannelCommandProcessor
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.tcp.protocol import QueueProtocol

import logging

h = H()
SOCK = socket.socket()


class T(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.out = b""

    def write(self, data):
        self.out += data

    def get_extra_info(self, name, default=None):
        return {"socket": SOCK, "sockname": ("127.0.0.1", 1), "peername": ("127.0.0.1", 2)}.get(name, default)

    def is_closing(self):
        return False

    def close(self):
        pass


def server(**attrs):
    attrs = {"class_paths": [], "apps": {}, "default_app": None, "json_data": {}, "class_redirect_paths": {}} | attrs
    t = T()
    return type("Server", (RuntimepyServerConnection,), attrs)(t, QueueProtocol()), t


async def ask(h, c, t, requests):
    """Requests that arrive in any pieces."""
    t.out = b""
    data = b"".join(f"{m} {x} HTTP/1.1\r\n".encode() + (b"Content-Length: %d\r\n" % len(b) if b else b"") + b"\r\n" + b for m, x, b in requests)
    for part in chunks(h.rng, data):
        await c.process_binary(part)
    return [(r, d or b"") for r, d in HttpMessageProcessor().ingest(t.out, ResponseHeader)]


# -- JSON
def leaf(h):
    return h.rng.choice([None, True, 0, 1.5, "", "text", [1, "x", None], {}, "json"])


def data(h, depth=3):
    """A value, what it's encoded as, and calls expected of its callables."""
    k = h.rng.random()
    if depth == 0 or k < 0.25:
        v = leaf(h)
        return v, v
    if k < 0.5:
        v, w = data(h, depth - 1)
        return (v if callable(v) else (lambda: v)), w
    if k < 0.6:
        xs = [data(h, depth - 1) for _ in range(h.rng.randrange(3))]
        return [x for x, _ in xs], [w for _, w in xs]
    v, w = {}, {}
    for n in h.rng.sample(["a", "b", "json", "c d", "0", "A", "é"], h.rng.randint(0, 4)):
        v[n], w[n] = data(h, depth - 1)
    return v, w


def walk(v, parts):
    """(found, value) or (False, (part, path so far))"""
    seen = []
    for p in parts:
        if not p:
            continue
        seen.append(p)
        if callable(v):
            v = v()
        if not isinstance(v, dict) or p not in v:
            return False, (p, ".".join(seen))
        v = v[p]
    return True, v


def plain(v):
    if callable(v):
        return plain(v())
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def top(h):
    v = {}
    for n in h.rng.sample(["a", "b", "json", "c", "0", "A"], h.rng.randint(0, 5)):
        v[n] = data(h)[0]
    return v


def jpath(h, v):
    """A path that's there, or nearly."""
    parts = []
    while callable(v) or isinstance(v, dict):
        if callable(v):
            v = v()
            continue
        keys = [k for k in v if " " not in k and k.isascii()]
        if not keys or h.rng.random() < 0.2:
            break
        k = h.rng.choice(keys)
        parts.append(k)
        v = v[k]
    if h.rng.random() < 0.3:
        parts.insert(h.rng.randint(0, len(parts)), h.rng.choice(["", "a", "zz", "json", "0"]))
    return parts


def check_json(h, root, parts, r, d, **info):
    found, v = walk(root, parts)
    try:
        got = json.loads(d)
    except ValueError as e:
        h.check(False, "JSON data is answered as JSON", body=d[:100], error=str(e), **info)
        return
    h.check(int(r.status) == 200 and (r.get("content-type") or "").startswith("application/json"), "with its type", kind=r.get("content-type"), **{"status": int(r.status)} | info)
    if found:
        v = plain(v)
        want = v if isinstance(v, dict) else {"__raw__": v}
        h.check(got == want, "the value that the path names, with callables called", got=got, want=want, **info)
    else:
        h.check(isinstance(got, dict) and "error" in got and got.get("path", {}).get("part") == v[0] and got["path"].get("current") == v[1], "a path that isn't there says where it ends", got=got, want=v, **info)


@h.case
async def values(h):
    for i in range(h.n(200)):
        root = top(h)
        c, t = server(json_data=root)
        asked = []
        for _ in range(4):
            parts = jpath(h, root)
            pre = h.rng.choice(["", "", "/x", "/x/y", "/", "/jsonx"])
            post = h.rng.choice(["", "", "/", "?q=json"])
            asked.append((parts, pre + "/json" + "".join("/" + p for p in parts) + post))
        got = await ask(h, c, t, [("GET", x, b"") for _, x in asked])
        h.check(len(got) == len(asked), "every request is answered", asked=[x for _, x in asked], answers=len(got))
        for (parts, x), (r, d) in zip(asked, got):
            h.ev((i, x))
            check_json(h, root, parts, r, d, target=x, data=str(plain(root)))


@h.case
async def lazily(h):
    """Values are current when they're asked for, and asked for only then."""
    n = {"count": 0, "other": 0}

    def counter():
        n["count"] += 1
        return n["count"]

    def other():
        n["other"] += 1
        return {"deep": lambda: {"er": "x"}}
    c, t = server(json_data={"counter": counter, "other": other})
    for i in range(1, 6):
        got = await ask(h, c, t, [("GET", "/json/counter", b"")])
        h.ev(i)
        h.check(json.loads(got[0][1]) == {"__raw__": i}, "a value is asked for once per request", got=got[0][1])
    h.check(n["other"] == 0, "others aren't", n=str(n))
    got = await ask(h, c, t, [("GET", "/json/other/deep/er", b"")])
    h.check(json.loads(got[0][1]) == {"__raw__": "x"} and n == {"count": 5, "other": 1}, "values are found in what callables return", got=got[0][1])


# -- what answers
PATHS = ["/", "/a", "/a/b", "/b", "/x.txt", "/json", "/a/json/k", "/json/k", "/favicon.ico", "/favicon", "/404.html", "/jsonx", "/a/", "//a", "/a/./b", "/d/x.txt"]


@h.case
async def dispatch(h):
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(h.n(150)):
            if not h.ok_time():
                break
            dirs = [Path(tmp) / f"{i}-{j}" for j in range(2)]
            files = {}
            for d in dirs:
                d.mkdir()
                for p in PATHS:
                    name = p[1:]
                    if name and not p.endswith("/") and "//" not in p and "/./" not in p and h.rng.random() < 0.25:
                        f = d / name
                        try:
                            f.parent.mkdir(parents=True, exist_ok=True)
                            f.write_bytes(f"{d} {name}".encode() if h.rng.random() < 0.8 else b"")
                            files.setdefault(d, {})[p] = f.read_bytes()
                        except OSError:
                            pass
            root = {"k": h.rng.choice([1, {"a": 2}, lambda: 3]), "a": 7}
            apps, called = {}, []

            def app(name):
                async def run(document, request, response, request_data):
                    called.append((name, request.target.path))
                    document.body.text = f"page of {name}"
                    return document
                return run
            for p in PATHS:
                if h.rng.random() < 0.2:
                    apps[p] = app(p)
            default = app("default") if h.rng.random() < 0.5 else None
            redirects = {}
            c, t = server(json_data=root, apps=apps, default_app=default)
            for p in PATHS:
                if h.rng.random() < 0.15 and Path(p) not in redirects and p[:2] != "//":
                    dest = h.rng.choice(["/elsewhere", "/a", "http://x/y", Path("/p/q")])
                    src = h.rng.choice([(p,), (p.lstrip("/") or "/",), (Path(p),)])
                    type(c).add_redirect_path(dest, *src)
                    redirects[Path(p)] = str(dest)
                    h.check(raises(lambda: type(c).add_redirect_path("/other", *src), AssertionError), "a path is redirected to one place", path=p)
            order = []
            for d in h.rng.sample(dirs * 2, h.rng.randint(1, 3)):
                front = h.rng.random() < 0.5
                c.add_path(d, front=front) if front or h.rng.random() < 0.5 else c.add_path(d)
                order.insert(0, d) if front else order.append(d)
            targets = h.rng.sample(PATHS, 5)
            got = await ask(h, c, t, [("GET", p + h.rng.choice(["", "?x=1"]), b"") for p in targets])
            h.check(len(got) == len(targets), "every request is answered", asked=targets, answers=len(got))
            calls = list(called)
            for p, (r, d) in zip(targets, got):
                h.ev((i, p))
                info = dict(target=p, files={str(k): list(v) for k, v in files.items()}, redirects={str(k): v for k, v in redirects.items()}, apps=list(apps), default=default is not None, order=[str(x) for x in order], status=int(r.status), body=d[:80])
                place = r.get("location")
                if p.startswith("/favicon"):
                    h.check(d == type(c).favicon_data and int(r.status) == 200, "the icon is the icon", **info)
                    continue
                near = "/" + "/".join(x for x in p.split("/") if x not in ("", ".")) if not p.startswith("//") else None
                f = next((files[x][near] for x in order if x in files and near in files[x]), None)
                if f is not None:
                    h.check(d == f and int(r.status) == 200 and place is None, "a file comes first", want=f, **info)
                elif Path(p) in redirects:
                    h.check(int(r.status) == 307 and place == redirects[Path(p)] and not d, "then a redirection", place=place, **info)
                elif "json" in p.split("/"):
                    parts = p.split("/")
                    check_json(h, root, parts[parts.index("json") + 1:], r, d, **info)
                elif p in apps or default:
                    name = p if p in apps else "default"
                    h.check(int(r.status) == 200 and f"page of {name}".encode() in d and place is None, "then the page of the application", want=name, **info)
                    h.check((r.get("content-type") or "").startswith("text/html"), "with its type", kind=r.get("content-type"), **info)
                    h.check(bool(calls) and calls.pop(0) == (name, p), "which runs once", calls=called, **info)
                else:
                    h.check(int(r.status) == 307 and place == "/404.html" and not d, "anything else isn't found", place=place, **info)
            h.check(not calls, "no other application runs", calls=called)


# -- commands
@h.case
async def commands(h):
    logging.disable(logging.CRITICAL)
    for i in range(h.n(60)):
        clear_env()
        envs = {}
        for n in h.rng.sample(["one", "two", "three"], h.rng.randint(0, 3)):
            env = ChannelEnvironment()
            env.int_channel("n", "int16", commandable=True)
            env.bool_channel("b", commandable=True)
            env.int_channel("fixed", "uint8")
            env.finalize(strict=False)
            proc = ChannelCommandProcessor(env, logging.Logger(n))
            register_env(n, proc)
            envs[n] = env
        c, t = server(default_app=None)
        model = {n: {"n": 0, "b": False, "fixed": 0} for n in envs}
        for _ in range(6):
            n = h.rng.choice(["one", "two", "three", "four"])
            words, eff, ok = h.rng.choice([
                (["set", "n", "5"], ("n", 5), True), (["set", "n", "-7"], ("n", -7), True), (["set", "b", "true"], ("b", True), True), (["toggle", "b"], ("b", "not"), True),
                (["set", "fixed", "1"], None, False), (["set", "-f", "fixed", "2"], ("fixed", 2), True), (["set", "n"], None, False), (["set", "n", "x"], None, False), (["what"], None, False), ([], None, False),
            ])
            target = "/" + "/".join([n] + words) + h.rng.choice(["", "?a=set/n/9"])
            if h.rng.random() < 0.1:
                target, n = "/", None
            m = h.rng.choice(["POST", "POST", "POST", "GET"])
            got = await ask(h, c, t, [(m, target, h.rng.choice([b"", b"set n 9"]) if m == "POST" else b"")])
            h.ev((i, m, target))
            d = dict(method=m, target=target, envs=list(envs))
            h.check(len(got) == 1, "every request is answered", answers=len(got), **d)
            if m == "POST":
                try:
                    out = json.loads(got[0][1])
                except ValueError:
                    h.check(False, "a command is answered with JSON", body=got[0][1], **d)
                    continue
                if n in envs:
                    if eff:
                        model[n][eff[0]] = not model[n][eff[0]] if eff[1] == "not" else eff[1]
                    h.check(out.get("success") is ok, "the answer tells if the command succeeded", out=out, **d)
                else:
                    h.check(out.get("success") is False and set(out.get("environments", [])) == set(envs) | {"default"} & set(GLOBAL), "without an environment the answer lists those that there are", out=out, **d)
            h.check({k: e.values() for k, e in envs.items()} == model, "a command is run once, in its environment; nothing else is", got=str({k: e.values() for k, e in envs.items()}), want=str(model), **d)
    clear_env()


class Spy(ChannelCommandProcessor):
    """Remembers what it's asked to run."""

    def command(self, value):
        asked.append((self, value))
        return super().command(value)


asked = []


@h.case
async def words(h):
    """Whatever the words are, they're the command."""
    logging.disable(logging.CRITICAL)
    for i in range(h.n(60)):
        clear_env()
        names = h.rng.sample(["one", "One", "two", "set", "1"], 3)
        procs = {}
        for n in names:
            env = ChannelEnvironment()
            env.int_channel("n", commandable=True)
            env.finalize(strict=False)
            procs[n] = Spy(env, logging.Logger(n))
            register_env(n, procs[n])
        c, t = server(default_app=None)
        for _ in range(5):
            n = h.rng.choice(names)
            line = [h.rng.choice(["set", "get", "custom", "n", "N", "1", "1", "-1", "-f", "one", n, "a=b", "x.y", "json", "help"]) for _ in range(h.rng.randint(0, 7))]
            asked.clear()
            got = await ask(h, c, t, [("POST", "/" + "/".join([n] + line), b"")])
            h.ev((i, n, tuple(line)))
            h.check([(p is procs[n], v) for p, v in asked] == [(True, " ".join(line))], "exactly the words sent are run as one command, once", environment=n, words=line, ran=[v for _, v in asked])
            h.check(len(got) == 1 and json.loads(got[0][1]).get("your_command") is not None, "and answered", environment=n, words=line)
    clear_env()


h.done()
