import asyncio
import tempfile
from pathlib import Path
from harness.lib import *
from runtimepy.net import normalize_host
from runtimepy.net.udp.tftp import TftpConnection

h = H()
SIZES = [0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 2048, 5000, 512 * 20]
BAD = [b"", b"\0", b"\0\x09", b"\0\1abc", b"\0\1", b"\0\1abc\0", b"\0\1\xff\xff\0octet\0", b"\0\3", b"\0\4\0", b"\0\5\0\x63x\0", b"\0\5\0\1\xff\0", b"\0\2nodir/x\0octet\0", b"\0\2.\0octet\0", b"\0\1" + b"a" * 400 + b"\0octet\0", b"\0\1.\0octet\0", b"\0\1a/b\0octet\0", b"\0\2a/b\0octet\0", b"\0\3\0\1" + b"x" * 600, b"\0\0", b"\0\1a\\\x00x\0", b"\0\2\0octet\0", b"\xff\xff\xff", b"\0\5", b"\0\5\0", b"\0\4"]
PEER = ("127.0.0.1", 0)


async def up(root=None):
    c = await TftpConnection.create_connection(local_addr=PEER)
    if root is not None:
        c.set_root(root)
    c.endpoint_period.value, c.endpoint_timeout.value = 0.02, 2.5
    return c


def mangle(h, conn, how):
    """Lose, repeat and hold up packets before they are sent."""
    real = conn.sendto
    loop = asyncio.get_running_loop()
    first = set()

    def sendto(data, addr=None):
        if how == "none":
            return real(data, addr=addr)
        k = bytes(data[:4])
        if how == "twice":
            real(data, addr=addr)
            return real(data, addr=addr)
        if how == "lose first" and k not in first:
            first.add(k)
            return None
        if how == "random":
            x = h.rng.random()
            if x < 0.15:
                return None
            if x < 0.35:
                real(data, addr=addr)
            elif x < 0.45:
                loop.call_later(h.rng.random() * 0.03, lambda: conn._transport.is_closing() or real(data, addr=addr))
                return None
        return real(data, addr=addr)

    conn.sendto = sendto


async def transfer(h, d, i, size, how, kind):
    (d / "srv").mkdir(parents=True)
    content = bytes(h.rng.randrange(256) for _ in range(size))
    s, c = await up(d / "srv"), await up()
    addr = normalize_host("127.0.0.1", s.local_address.port)
    mangle(h, s, how)
    mangle(h, c, how)
    async with s.process_then_disable(), c.process_then_disable():
        src, got = d / "src", d / "got"
        if kind == "read":
            (d / "srv" / "f").write_bytes(content)
            ok = await c.request_read(got, "f", addr=addr)
            data = got.read_bytes() if ok else None
        else:
            src.write_bytes(content)
            if h.rng.random() < 0.5:
                (d / "srv" / "f").write_bytes(b"earlier contents" * 50)
            ok = await c.request_write(src, "f", addr=addr, verify=kind == "verified")
            data = None
            for _ in range(100):
                data = (d / "srv" / "f").read_bytes() if ok else None
                if not ok or data == content:
                    break
                await asyncio.sleep(0.05)
    h.ev((size, how, kind))
    case = dict(size=size, network=how, transfer=kind)
    h.check(not ok or data == content, "a transfer that reports success delivered the file", got=data[:40] if data is not None else None, length=None if data is None else len(data), **case)
    h.check(ok or how == "random", "without more than one loss in a row a transfer succeeds", **case)
    if ok and kind == "read":
        h.check((d / "srv" / "f").read_bytes() == content, "the file that is read stays as it was", **case)


@h.case
async def transfers(h):
    """Files of many sizes over networks that lose and repeat packets."""
    with tempfile.TemporaryDirectory() as tmp:
        todo = [(s, w, k) for w in ("none", "twice", "lose first", "random") for s in SIZES for k in ("read", "write", "verified")]
        todo += [(h.rng.randrange(4000), "random", h.rng.choice(["read", "write"])) for _ in range(h.n(20))]
        for i in range(0, len(todo), 48):
            if not h.ok_time():
                break
            await asyncio.gather(*[transfer(h, Path(tmp) / str(i + j), i + j, *t) for j, t in enumerate(todo[i:i + 48])])


class Sink(asyncio.DatagramProtocol):
    def __init__(self):
        self.got = []

    def datagram_received(self, data, addr):
        self.got.append(data)


async def peer():
    t, p = await asyncio.get_running_loop().create_datagram_endpoint(Sink, local_addr=PEER)
    return t, p


async def until(fn, timeout=6.0):
    t = 0
    while not fn() and t < timeout:
        await asyncio.sleep(0.01)
        t += 0.01
    return fn()


@h.case
async def nothing(h):
    """A transfer nobody answers, or that ends early, is not a success."""
    with tempfile.TemporaryDirectory() as tmp:
        d = Path(tmp)
        (d / "srv").mkdir()
        (d / "src").write_bytes(b"x" * 700)
        c = await up()
        silent, _ = await asyncio.get_running_loop().create_datagram_endpoint(asyncio.DatagramProtocol, local_addr=("127.0.0.1", 0))
        addr = normalize_host("127.0.0.1", silent.get_extra_info("sockname")[1])
        async with c.process_then_disable():
            from io import BytesIO
            for n in (0, 1, 2):
                e = c.endpoint(normalize_host("127.0.0.1", 9 + n))
                out = BytesIO()
                t = asyncio.create_task(e.ingest_file(out))
                for k in range(1, n + 1):
                    await until(lambda: k in e.awaiting_blocks or t.done())
                    if not t.done():
                        e.handle_data(k, b"y" * e.max_block_size)
                ok = await asyncio.wait_for(t, 60)
                h.ev(n)
                h.check(ok is False, "receiving a file that doesn't end is no success", blocks=n, got=ok)
                h.check(out.getvalue() == b"y" * (n * e.max_block_size), "what arrived is kept in order", blocks=n)
            h.check(not await c.request_read(d / "got", "f", addr=addr), "a read nobody answers is no success")
            h.check(not await c.request_write(d / "src", "f", addr=addr), "a write nobody answers is no success")
        silent.close()


@h.case
async def lockstep(h):
    """A peer that speaks the protocol by hand: blocks in order, the next one
    only after the acknowledgement, one service for a repeated request."""
    with tempfile.TemporaryDirectory() as tmp:
        d = Path(tmp)
        for size in [0, 700, 1024, 1500]:
            content = bytes(h.rng.randrange(256) for _ in range(size))
            (d / "f").write_bytes(content)
            s = await up(d)
            t, p = await peer()
            to = ("127.0.0.1", s.local_address.port)
            async with s.process_then_disable():
                for _ in range(h.rng.randint(1, 3)):
                    t.sendto(b"\0\1f\0octet\0", to)
                    await asyncio.sleep(0.005)
                n = size // 512 + 1
                for k in range(1, n + 1):
                    want = b"\0\3" + k.to_bytes(2, "big") + content[512 * (k - 1):512 * k]
                    h.check(await until(lambda: want in p.got), "a block is sent", block=k, size=size)
                    p.got.clear()
                    for j in (k - 2, k + 1):  # not the one awaited
                        if j >= 0:
                            t.sendto(b"\0\4" + j.to_bytes(2, "big"), to)
                    h.check(await until(lambda: len(p.got) > 0), "an unacknowledged block is repeated", block=k, size=size)
                    h.check(all(g == want for g in p.got if g[:2] == b"\0\3"), "nothing else is sent before it is acknowledged", block=k, size=size)
                    t.sendto(b"\0\4" + k.to_bytes(2, "big"), to)
                    t.sendto(b"\0\4" + k.to_bytes(2, "big"), to)
                await asyncio.sleep(0.05)
                p.got.clear()
                await asyncio.sleep(0.1)
                h.check(not [g for g in p.got if g[:2] == b"\0\3"], "once all is acknowledged nothing is repeated", size=size)
                # a request again
                t.sendto(b"\0\1f\0octet\0", to)
                h.check(await until(lambda: any(g[:4] == b"\0\3\0\1" for g in p.got)), "a file can be requested again", size=size)
                h.ev(size)
            t.close()
        for size in [0, 700, 1024]:
            content = bytes(h.rng.randrange(256) for _ in range(size))
            s = await up(d)
            t, p = await peer()
            to = ("127.0.0.1", s.local_address.port)
            async with s.process_then_disable():
                t.sendto(b"\0\2w\0octet\0", to)
                h.check(await until(lambda: b"\0\4\0\0" in p.got), "a write request is acknowledged")
                for k in range(1, size // 512 + 2):
                    data = content[512 * (k - 1):512 * k]
                    bad = b"\0\3" + (k + 1).to_bytes(2, "big") + b"wrong"
                    t.sendto(bad, to)
                    h.check(await until(lambda: any(g[:4] == b"\0\5\0\5" for g in p.got)), "a block that is not expected is refused")
                    t.sendto(b"\0\2w\0octet\0", to)  # again, by a slow network
                    await asyncio.sleep(0.005)
                    p.got.clear()
                    for _ in range(2):
                        t.sendto(b"\0\3" + k.to_bytes(2, "big") + data, to)
                    h.check(await until(lambda: b"\0\4" + k.to_bytes(2, "big") in p.got), "a block is acknowledged", block=k, size=size)
                    h.check(not [g for g in p.got if g[:2] == b"\0\4" and int.from_bytes(g[2:], "big") not in (k - 1, k)], "only blocks that arrived are acknowledged", got=p.got)
                h.check(await until(lambda: (d / "w").read_bytes() == content), "the file is written", size=size, got=(d / "w").read_bytes()[:50])
                h.ev(("w", size))
            t.close()


@h.case
async def ports(h):
    """A server that answers from another port than the one asked."""
    with tempfile.TemporaryDirectory() as tmp:
        d = Path(tmp)
        for size in [0, 100, 512, 900]:
            content = bytes(h.rng.randrange(256) for _ in range(size))
            (d / "src").write_bytes(content)
            for kind in ["read", "write"]:
                c = await up()
                t1, p1 = await peer()
                t2, p2 = await peer()
                t3, p3 = await peer()
                addr = t1.get_extra_info("sockname")
                h.ev((size, kind))
                async with c.process_then_disable():
                    me = ("127.0.0.1", c.local_address.port)
                    job = asyncio.create_task(c.request_read(d / "got", "x", addr=addr) if kind == "read" else c.request_write(d / "src", "x", addr=addr, verify=False))
                    op = b"\0\1" if kind == "read" else b"\0\2"
                    h.check(await until(lambda: op + b"x\0octet\0" in p1.got), "the request goes to the address asked")
                    if h.rng.random() < 0.7:  # left over from another transfer with the same host
                        t3.sendto(b"\0\4\0\5", me)
                        t3.sendto(b"\0\3\0\7old", me)
                        await until(lambda: len(p3.got) > 0, 1.0)
                    if kind == "read":
                        for k in range(1, size // 512 + 2):
                            for _ in range(2):
                                t2.sendto(b"\0\3" + k.to_bytes(2, "big") + content[512 * (k - 1):512 * k], me)
                            h.check(await until(lambda: b"\0\4" + k.to_bytes(2, "big") in p2.got), "blocks are acknowledged where they came from", block=k, size=size)
                        ok = await job
                        h.check(ok and (d / "got").read_bytes() == content, "the file arrives", size=size, ok=ok)
                    else:
                        t2.sendto(b"\0\4\0\0", me)
                        out = b""
                        for k in range(1, size // 512 + 2):
                            h.check(await until(lambda: any(g[:4] == b"\0\3" + k.to_bytes(2, "big") for g in p2.got)), "blocks go where the answer came from", block=k, size=size)
                            out += next((g[4:] for g in p2.got if g[:4] == b"\0\3" + k.to_bytes(2, "big")), b"")
                            t2.sendto(b"\0\4" + k.to_bytes(2, "big"), me)
                        h.check(await job and out == content, "the file is sent", size=size)
                t1.close()
                t2.close()
                t3.close()


@h.case
async def messages(h):
    """Whatever arrives, the service goes on; errors carry their text."""
    with tempfile.TemporaryDirectory() as tmp:
        d = Path(tmp)
        (d / "srv").mkdir()
        (d / "srv" / "a").write_bytes(b"hello")
        (d / "srv" / "dir").mkdir()
        bad = BAD + [b for b in h.bytess()] + [h.rng.choice([b"", b"\0", b"\0\5", b"\0\3", b"\0\1", b"\0\2"]) + bytes(h.rng.choice([0, 0, 97, 255, h.rng.randrange(256)]) for _ in range(h.rng.randint(0, 12))) for _ in range(h.n(200))]
        s = await up(d / "srv")
        addr = normalize_host("127.0.0.1", s.local_address.port)
        async with s.process_then_disable():
            for i in range(0, len(bad), 8):
                if not h.ok_time():
                    break
                c = await up()
                t, p = await peer()
                async with c.process_then_disable():
                    for b in bad[i:i + 8]:
                        if b[:2] == b"\0\2" and (len(b) < 3 or not b[2:3].isalnum()):
                            continue
                        t.sendto(b, ("127.0.0.1", addr.port))
                        h.ev(b)
                    await asyncio.sleep(0.005)
                    ok = await c.request_read(d / "g", "a", addr=addr)
                    if (d / "srv" / "a").read_bytes() == b"hello":
                        h.check(ok and (d / "g").read_bytes() == b"hello", "no datagram ends the service", datagrams=bad[i:i + 8])
                    else:
                        (d / "srv" / "a").write_bytes(b"hello")
                        h.check(not s._disabled if hasattr(s, "_disabled") else True, "no datagram ends the service", datagrams=bad[i:i + 8])
                t.close()
            # errors
            from runtimepy.net.udp.tftp.enums import TftpErrorCode
            c = await up()
            got = []
            c.error_handlers.append(lambda code, msg, addr: got.append((code, msg)))
            async with c.process_then_disable():
                for code in TftpErrorCode:
                    msg = h.rng.choice(["", "no", "détail", "x" * 200]) + str(code.value)
                    s.send_error(code, msg, addr=("127.0.0.1", c.local_address.port))
                    h.check(await until(lambda: (code, msg) in got), "an error message arrives as sent", code=code.name, message=msg, got=got[-1:])
                    h.ev((code.name, msg))
                for name in ["missing", "dir"]:
                    n = len(got)
                    ok = await asyncio.wait_for(c.request_read(d / "g2", name, addr=addr), 5)
                    h.check(not ok and len(got) > n, "a file that can not be read is answered with an error", name=name)
                    h.ev(name)


h.done()
