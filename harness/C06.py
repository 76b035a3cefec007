from harness.lib import *
from runtimepy import primitives as RP
from runtimepy.primitives.field import BitField, BitFieldBase, BitFlag
from runtimepy.primitives.field.fields import BitFields

h = H()
KINDS = [("uint8", RP.Uint8, 8), ("uint16", RP.Uint16, 16), ("uint32", RP.Uint32, 32), ("uint64", RP.Uint64, 64)]


def val(h, bits):
    return h.rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), h.rng.randrange(1 << bits), int("01" * (bits // 2), 2)])


@h.case
def isolation(h):
    """Reads, writes and inversions of one field, over any primitive value."""
    for t in range(h.n(4000)):
        _, cls, bits = h.rng.choice(KINDS)
        w = h.rng.randint(1, bits)
        i = h.rng.randint(0, bits - w)
        if h.rng.random() < 0.2:
            i = bits - w
        p = cls()
        r = val(h, bits)
        p.value = r
        m = (1 << w) - 1
        f = h.rng.choice([lambda: BitFieldBase(p, i, w), lambda: BitField("f", p, i, w), lambda: BitFlag("f", p, i)])()
        if isinstance(f, BitFlag):
            w, m = 1, 1
        d = dict(kind=cls.__name__, raw=r, index=i, width=w)
        h.check(f() == (r >> i) & m and p.value == r, "reading gives the field's bits of the primitive", **d)
        v = h.rng.choice([0, 1, m, m + 1, m + 2, -1, -2, h.rng.randint(-(1 << 70), 1 << 70), h.rng.randint(0, m)])
        got = f(v)
        want = (r & ~(m << i)) | ((v & m) << i)
        h.check(got == v & m, "writing returns the value truncated to the width", value=v, got=got, **d)
        h.check(p.value == want, "bits outside the field are unchanged, its own hold the value", value=v, got=p.value, want=want, **d)
        h.check(f() == v & m, "a value written is read back", value=v, **d)
        r = p.value
        got = f.invert()
        h.check(p.value == r ^ (m << i) and got == (p.value >> i) & m, "inverting flips exactly the field's bits", got=p.value, **d)
        if isinstance(f, BitFlag):
            r = p.value
            f.set()
            h.check(p.value == r | 1 << i and f.get() is True, "setting a flag sets exactly its bit", **d)
            f.clear()
            h.check(p.value == r & ~(1 << i) and f.get() is False, "clearing a flag clears exactly its bit", **d)
            for s in (True, False):
                p.value = r
                f.set(s)
                h.check(p.value == (r | 1 << i if s else r & ~(1 << i)) and f.get() is s, "a flag set to a state holds it", state=s, **d)
        h.check(f.where_str() == "".join("^" if i <= b < i + w else "-" for b in range(bits)), "the location string marks the field's bits", got=f.where_str(), **d)
        h.ev((bits, i, w, r, v))


@h.case
def allocation(h):
    """Random requests against a reference allocator."""
    for t in range(h.n(600)):
        kind, cls, bits = h.rng.choice(KINDS)
        fs = BitFields.new(kind)
        taken, cur, done = {}, 0, False
        named, mirror, log = {}, 0, []
        for step in range(h.rng.randint(1, 40)):
            op = h.rng.choice(["flag", "field", "field", "pad", "write", "dup", "final"])
            w = 1 if op == "flag" else h.rng.choice([1, 2, 3, 4, h.rng.randint(1, bits), bits, bits + 1])
            if op == "field" and w == 1:
                w = 2
            idx = None if h.rng.random() < 0.5 else h.rng.randint(0, bits + 1)
            at = cur if idx is None else idx
            log.append((op, w, idx))
            d = dict(kind=kind, history=log)
            if op == "write":
                if named:
                    n = h.rng.choice(sorted(named))
                    f, a, fw = named[n]
                    v = h.rng.randrange(1 << fw)
                    f(v)
                    mirror = (mirror & ~(((1 << fw) - 1) << a)) | v << a
                    h.check(fs.raw.value == mirror, "writing a field changes only its own bits", field=n, got=fs.raw.value, want=mirror, **d)
                continue
            if op == "final":
                if h.rng.random() < 0.05:
                    fs.finalize()
                    done = True
                continue
            if op == "dup":
                if not named:
                    continue
                n = h.rng.choice(sorted(named))
                old = fs.get_field(n)
                k = h.rng.choice([1, 2])
                r = outcome(lambda: fs.flag(n) if k == 1 else fs.field(n, 2))
                h.check(r[0] == "exc" and fs.get_field(n) is old, "a name is used once", name=n, got=r, **d)
                # the refused field may have claimed bits: stop this history
                break
            ok = not done and all(0 <= b < bits and b not in taken for b in range(at, at + w))
            name = f"f{step}" if h.rng.random() < 0.8 else f"N.{step}-x_y"
            before = (dict(taken), sorted(fs.names))
            kw = {} if idx is None else {"index": idx}
            if op == "pad":
                r = outcome(lambda: fs.pad(width=w, **kw))
            elif op == "flag":
                r = outcome(lambda: fs.flag(name, **kw))
            else:
                r = outcome(lambda: fs.field(name, w, **kw))
            h.check((r[0] == "ok") == ok, "bits are given out exactly when they are free and not finalized", op=op, width=w, index=at, got=r, taken=sorted(taken), **d)
            if r[0] != ok and (r[0] == "ok") != ok:
                break
            if r[0] == "ok":
                for b in range(at, at + w):
                    taken[b] = True
                if at >= cur:
                    cur = at + w
                if op == "pad":
                    h.check(r[1] == at, "padding is placed where asked, else after the last field", got=r[1], want=at, **d)
                else:
                    f = r[1]
                    h.check((f.index, f.width) == (at, w), "a field is placed where asked, else after the last field", got=(f.index, f.width), want=(at, w), **d)
                    h.check(fs[name] is f and fs[at] is f, "a field is found by name and by index", **d)
                    h.check(f() == 0, "a new field reads zero", **d)
                    named[name] = (f, at, w)
            else:
                h.check(sorted(fs.names) == before[1], "a refusal records nothing", **d)
            for n, (f, a, fw) in named.items():
                h.check(f() == (mirror >> a) & ((1 << fw) - 1), "fields keep their values", field=n, **d)
        # free bits can still be claimed one by one, taken ones cannot
        if not done and log and log[-1][0] != "dup":
            for b in range(bits):
                r = outcome(lambda: fs.flag(f"last{b}", index=b))
                h.check((r[0] == "ok") == (b not in taken), "every bit not given out is still free", bit=b, taken=sorted(taken), history=log, got=r)
        h.ev((kind, tuple(log)))


@h.case
def limits(h):
    for kind, cls, bits in KINDS:
        for i in (0, 1, bits // 2, bits - 1, bits, bits + 1):
            for w in (1, 2, bits // 2, bits - 1, bits, bits + 1):
                r = outcome(lambda: BitField("f", cls(), i, w))
                h.check((r[0] == "ok") == (i + w <= bits), "no field extends past its primitive", kind=kind, index=i, width=w, got=r)
                r = outcome(lambda: BitFields.new(kind).pad(width=w, index=i))
                h.check((r[0] == "ok") == (i + w <= bits), "no padding extends past its primitive", kind=kind, index=i, width=w, got=r)
                h.ev((kind, i, w))
        h.check(outcome(lambda: BitFields.new(kind).field("f", 1))[0] == "exc", "single bits are flags", kind=kind)
        r = outcome(lambda: BitFields.new(kind)["nope"])
        h.check(r == ("exc", "KeyError"), "an unknown field is a KeyError", got=r)
    for name in ("", "a b", "a/b", "ü", "a\n", "a:b"):
        h.check(outcome(lambda: BitField(name, RP.Uint8(), 0, 1))[0] == "exc", "field names are checked", name=name)
    for name in ("a", "A.b-c_9", "0"):
        h.check(outcome(lambda: BitField(name, RP.Uint8(), 0, 1))[0] == "ok", "valid field names are accepted", name=name)


h.done()
