import asyncio
import os
import socket
import tempfile
from pathlib import Path
from harness.lib import *
from runtimepy.net import normalize_host
from runtimepy.net.http import HttpMessageProcessor
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.tcp.protocol import QueueProtocol
from runtimepy.net.udp.tftp import TftpConnection

h = H()
SECRET = b"SECRET-THAT-MUST-STAY-INSIDE"


class T(asyncio.Transport):
    def __init__(self, sock):
        super().__init__()
        self.out = b""
        self.sock = sock

    def write(self, data):
        self.out += data

    def get_extra_info(self, name, default=None):
        return {"socket": self.sock, "sockname": ("127.0.0.1", 1), "peername": ("127.0.0.1", 2)}.get(name, default)

    def is_closing(self):
        return False

    def close(self):
        pass


SOCK = socket.socket()


class Server(RuntimepyServerConnection):
    class_paths = []
    apps = {}


def server(*dirs):
    t = T(SOCK)
    c = Server(t, QueueProtocol())
    for d in dirs:
        c.add_path(d)
    return c, t


async def get(c, t, targets):
    """Responses to requests that arrive together."""
    t.out = b""
    await c.process_binary(b"".join(f"GET {x} HTTP/1.1\r\n\r\n".encode() for x in targets))
    return [(r, d or b"") for r, d in HttpMessageProcessor().ingest(t.out, ResponseHeader)]


def tree(h, base, tag):
    """Files below base, and their contents by relative path."""
    files = {}
    for i in range(h.rng.randint(1, 6)):
        parts = [h.rng.choice(["a", "b", "dir.x", "e"]) for _ in range(h.rng.randint(0, 2))]
        name = h.rng.choice(["f.txt", "g", "x.json", "y.html", "z.tar.gz", "z.tar.gz", "w.bin", "a.b.c", "é.txt", ".hidden", "n.svg"])
        p = base.joinpath(*parts)
        try:
            p.mkdir(parents=True, exist_ok=True)
            if (p / name).is_dir() or name in [x for x in parts]:
                continue
            data = bytes(h.rng.randrange(256) for _ in range(h.rng.choice([0, 1, 10, 3000]))) + tag if h.rng.random() < 0.9 else b""
            (p / name).write_bytes(data)
            files["/" + "/".join(parts + [name])] = data
        except OSError:
            pass
    return files


@h.case
async def files(h):
    """The file of the first directory that has it, byte by byte."""
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(h.n(40)):
            if not h.ok_time():
                break
            dirs, trees = [], []
            for j in range(h.rng.randint(1, 3)):
                d = Path(tmp) / f"{i}-{j}"
                d.mkdir()
                dirs.append(d)
                trees.append(tree(h, d, f"{i}-{j}".encode()))
            if len(dirs) > 1 and h.rng.random() < 0.5:
                # the same name, empty in one of them
                k = h.rng.randrange(len(dirs))
                for j, (d, tr) in enumerate(zip(dirs, trees)):
                    tr["/same.txt"] = b"" if j == k else f"same {j}".encode()
                    (d / "same.txt").write_bytes(tr["/same.txt"])
            c, t = server(*dirs)
            names = sorted(set().union(*trees)) + ["/none", "/a/none"]
            targets = [h.rng.choice(["", "", "?a=b", "?"]) for _ in names]
            got = await get(c, t, [n + q for n, q in zip(names, targets)])
            h.check(len(got) == len(names), "every request is answered once", asked=names, answers=len(got))
            for n, (r, d) in zip(names, got):
                want = next((tr[n] for tr in trees if n in tr), None)
                h.ev((i, n))
                if want is None:
                    h.check(r.status != 200, "a file that is in no directory is not found", path=n, status=int(r.status))
                else:
                    h.check(int(r.status) == 200 and d == want, "a file is served as it is, from the first directory that has it", path=n, status=int(r.status), got=d[:40], want=want[:40])
                    packed = {".gz": "gzip"}.get(Path(n).suffix)
                    h.check(r.get("content-encoding") == packed, "with its encoding", path=n, got=r.get("content-encoding"))
                    kind = {".gz": "application/x-tar", ".txt": "text/plain", ".json": "application/json", ".html": "text/html", ".svg": "image/svg+xml"}.get(Path(n).suffix)
                    if kind:
                        h.check((r.get("content-type") or "").startswith(kind), "with its type", path=n, got=r.get("content-type"))


def outside(tmp):
    """A served directory and secrets around it."""
    top = Path(tmp)
    srv = top / "up" / "srv"
    (srv / "sub").mkdir(parents=True)
    (srv / "ok.txt").write_bytes(b"fine")
    (srv / "sub" / "in.txt").write_bytes(b"inner")
    for p in [top / "secret.txt", top / "up" / "secret.txt", top / "up" / "srv.md", top / "up" / "srv-other" / "secret.txt", top / "up" / "srv2", top / "up.md"]:
        p.parent.mkdir(exist_ok=True, parents=True)
        p.write_bytes(SECRET)
    return top, srv


def names(h, top, srv):
    out = ["../secret.txt", "../../secret.txt", "../srv2", "../srv-other/secret.txt", "sub/../../secret.txt", "sub/../../../secret.txt", "./../secret.txt", "../srv/../secret.txt", ".", "..", "", "sub/..", "sub/../..", "../srv.md", "../srv", "../../up", "../../up.md", "sub/../../srv.md", "../srv2/", "..//secret.txt", "sub//..//..//secret.txt", "....//secret.txt", "..\\secret.txt", "%2e%2e/secret.txt", "nothing/../../secret.txt"]
    out += [str(top / "secret.txt"), "/" + str(top / "secret.txt"), str(srv / ".." / "secret.txt"), str(top / "up" / "srv2"), str(top / "up" / "srv-other" / "secret.txt"), str(srv) + "/../secret.txt", str(srv) + "2"]
    for _ in range(h.n(150)):
        out.append("/".join(h.rng.choice(["..", "..", ".", "", "sub", "srv", "up", "srv2", "secret.txt", "secret", "srv-other", "srv.md", "ok.txt"]) for _ in range(h.rng.randint(1, 6))))
    # never further up than the scratch directory
    return [n for n in out if os.path.abspath(os.path.join(str(srv), n)).startswith(str(top))]


@h.case
async def contained_http(h):
    """No request target names a way out."""
    with tempfile.TemporaryDirectory() as tmp:
        top, srv = outside(os.path.realpath(tmp))
        for n in names(h, top, srv) + [s for s in h.strs() if not set(s) & set(" \r\n?")]:
            for dirs in ([srv], [srv / "sub", srv]):
                c, t = server(*dirs)
                for target in ("/" + n, n if n.startswith("/") else "/" + n):
                    got = await get(c, t, [target])
                    h.ev(target)
                    h.check(len(got) == 1, "every request is answered once", target=target)
                    h.check(all(SECRET not in d for _, d in got), "no request reaches a file outside of the served directories", target=target)
        for n in ["a" * 300, "a/" * 3000, "sub/in.txt", "x\0y", "%", "ok.txt/x", "sub", "sub/"]:
            c, t = server(srv)
            got = await get(c, t, ["/" + n])
            h.ev(n)
            h.check(len(got) == 1 and (n != "sub/in.txt" or got[0][1] == b"inner"), "any target gets one answer", target=n[:50])
        (srv / "odd.md").write_bytes(b"\xff\xfe")
        (srv / "page.md").write_bytes(b"# Hello there")
        (srv / "loop").symlink_to(srv / "loop")
        c, t = server(srv)
        got = await get(c, t, ["/odd", "/page", "/page.md", "/loop", "/loop/x", "/ok.txt"])
        h.check(len(got) == 6 and got[5][1] == b"fine" and all(b"Hello there" in d for _, d in got[1:3]), "any file gets one answer", answers=len(got))


@h.case
async def contained_tftp(h):
    """No TFTP request names a way out of the root."""
    with tempfile.TemporaryDirectory() as tmp:
        top, srv = outside(os.path.realpath(tmp))
        os.chmod(top, 0o700)
        s = await TftpConnection.create_connection(local_addr=("127.0.0.1", 0))
        s.set_root(srv)
        s.endpoint_period.value, s.endpoint_timeout.value = 0.02, 0.05
        to = ("127.0.0.1", s.local_address.port)

        class Sink(asyncio.DatagramProtocol):
            got = b""

            def datagram_received(self, data, addr):
                Sink.got += data

        before = {p: p.read_bytes() for p in top.rglob("*") if p.is_file() and srv not in p.parents}
        async with s.process_then_disable():
            for i, n in enumerate(names(h, top, srv)):
                t, _ = await asyncio.get_running_loop().create_datagram_endpoint(Sink, local_addr=("127.0.0.1", 0))
                for op in (1, 2):
                    t.sendto(b"\0" + bytes([op]) + n.encode() + b"\0octet\0", to)
                    h.ev((op, n))
                await asyncio.sleep(0.002)
                t.close()
                # a new file can be made outside too
                now = {p: p.read_bytes() for p in top.rglob("*") if p.is_file() and srv not in p.parents}
                if not h.check(now == before, "no request writes a file outside of the root", name=n):
                    break
                if not h.check(SECRET not in Sink.got, "no request reads a file outside of the root", name=n):
                    break
            await asyncio.sleep(0.2)
            h.check(SECRET not in Sink.got, "no request reads a file outside of the root")
            now = {p: p.read_bytes() for p in top.rglob("*") if p.is_file() and srv not in p.parents}
            h.check(now == before, "no request writes a file outside of the root")
        # inside is served
        (srv / "sub" / "in.txt").write_bytes(b"inner")
        s = await TftpConnection.create_connection(local_addr=("127.0.0.1", 0))
        s.set_root(srv)
        c = await TftpConnection.create_connection(local_addr=("127.0.0.1", 0))
        addr = normalize_host("127.0.0.1", s.local_address.port)
        async with s.process_then_disable(), c.process_then_disable():
            for n in ["sub/in.txt", "sub/../sub/in.txt", "./sub/in.txt"]:
                h.ev(n)
                h.check(await c.request_read(top / "got", n, addr=addr) and (top / "got").read_bytes() == b"inner", "files inside of the root are served", name=n)


h.done()
