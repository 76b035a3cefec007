import asyncio
from contextlib import asynccontextmanager
import logging
from harness.lib import *
from runtimepy.net.tcp.telnet import BasicTelnet, TelnetCode, TelnetNvt, NEWLINE

h = H()
NVT = [0, 7, 8, 9, 10, 11, 12, 13]


class Conn(BasicTelnet):
    def init(self):
        self.events, self.text, self.raw = [], "", b""

    async def process_text(self, data):
        assert data
        self.text += data
        return not data.endswith("STOP")

    async def process_command(self, code):
        self.events.append(("cmd", int(code)))

    async def handle_nvt(self, action):
        self.events.append(("nvt", int(action)))

    async def process_option(self, code, option, stream):
        self.events.append(("opt", int(code), option))


def stream(h, text=None):
    """Some telnet traffic, what it means, and the text in it."""
    out, events, txt = b"", [], ""
    for _ in range(h.rng.randrange(1, 30)):
        k = h.rng.randrange(6)
        if k == 0:
            c = h.rng.choice([x for x in range(240, 251)])
            out += bytes([255, c])
            events.append(("cmd", c))
        elif k == 1:
            c, o = h.rng.randrange(251, 255), h.rng.choice([0, 1, 10, 13, 251, 255, h.rng.randrange(256)])
            out += bytes([255, c, o])
            events.append(("opt", c, o))
        elif k == 2:
            b = h.rng.choice([x for x in NVT if x not in (9, 10, 13)])
            out += bytes([b])
            events.append(("nvt", b))
        else:
            s = h.rng.choice(["a", "hello", "\u00e9", "\u20ac uro", "\U0001f600", "\r\n", "\t", "x\ty", "0"])
            out += s.encode()
            txt += s
    return out, events, txt


@asynccontextmanager
async def pair():
    async with Conn.create_pair(peer=Conn) as (a, b):
        sig = asyncio.Event()
        ts = [asyncio.ensure_future(c.process(stop_sig=sig)) for c in (a, b)]
        await asyncio.gather(a.initialized.wait(), b.initialized.wait())
        try:
            yield a, b
        finally:
            sig.set()
            await asyncio.gather(*ts)


@h.case
async def parsing(h):
    """What a stream means doesn't depend on how it's cut."""
    async with pair() as (a, b):
        for i in range(h.n(400)):
            data, events, txt = stream(h)
            b.events, b.text = [], ""
            cuts = chunks(h.rng, data) if i % 3 else [bytes([x]) for x in data]
            h.ev((data, len(cuts)))
            for c in cuts:
                h.check(await b.process_binary(c) is True, "processing goes on", data=data)
            h.check(b.events == events, "every command, option and signal is handled once, in order, however the stream is cut", data=data, cuts=cuts, got=b.events, want=events)
            h.check(b.text == txt, "all other bytes are text, in order, however the stream is cut", data=data, cuts=cuts, got=b.text, want=txt)
        h.check(await b.process_binary(b"STOP") is False, "the text's result is returned")


@h.case
async def sending(h):
    async with pair() as (a, b):
        sent = []
        a.send_binary = sent.append
        want = []
        for c in TelnetCode:
            if c is not TelnetCode.IAC and not TelnetCode.is_option_code(c):
                a.send_command(c)
                want.append(("cmd", int(c)))
            for o in (0, 13, 100, 255):
                if TelnetCode.is_option_code(c):
                    a.send_option(c, o)
                    want.append(("opt", int(c), o))
                else:
                    h.check(raises(lambda: a.send_option(c, o), AssertionError), "options are those that negotiate", c=c)
        h.ev("sending")
        await b.process_binary(b"".join(sent))
        h.check(b.events == want, "commands and options sent are those received", got=b.events, want=want)


@h.case
async def live(h):
    """Over sockets, with a new stream after one that ended within a sequence."""
    async with pair() as (a, b):
        for part in (b"x\xff", b"\xfd", b"\x64y\xc3", b"\xa9", b"\xff\xf1", NEWLINE):
            a.send_binary(part)
            await asyncio.sleep(0.02)
        for _ in range(100):
            if b.text.endswith("\n"):
                break
            await asyncio.sleep(0.02)
        h.ev("live")
        h.check(b.text == "xy\u00e9\r\n" and b.events == [("opt", 0xFD, 0x64), ("cmd", 0xF1)], "a stream cut anywhere is understood", text=b.text, events=b.events)
        h.check(not b.disabled, "it doesn't end the connection")


h.done()
