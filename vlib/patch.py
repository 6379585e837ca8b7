"""C12 and C19: patches and diffs against BpakPatch.tla and BpakHeatshrink.tla."""
import lzma, os, random, struct
from .core import *

CONSTS = "CONSTANTS NumLen=8\n WindowBits=8\n LookBits=7\n"
WB, LB = 8, 7


def num(n):
    return struct.pack("<Q", -n | 1 << 63) if n < 0 else struct.pack("<Q", n)


def block(d, x, z, db, xb):
    return num(d) + num(x) + num(z) + db + xb


# ------------------------------------------------------------ compression
def bits(s):
    s += "0" * (-len(s) % 8)
    return bytes(int(s[k:k + 8], 2) for k in range(0, len(s), 8))


def hs_pack(rng, data, early=False):
    """A heatshrink stream for data that uses repeats freely."""
    out, pos, s = [], 0, data
    while pos < len(s):
        best = None
        if rng.random() < .8:
            for _ in range(6):
                dist = rng.choice([1, 2, 3, 8, 24, 255, 256, rng.randrange(1, 257)])
                n = 0
                while n < 128 and pos + n < len(s) and (s[pos + n - dist] if pos + n - dist >= 0 else 0) == s[pos + n]:
                    n += 1
                if n and (pos - dist >= 0 or early) and (best is None or n > best[1]):
                    best = (dist, n)
        if best and (best[1] > 2 or rng.random() < .3):
            n = best[1] if rng.random() < .8 else rng.randrange(1, best[1] + 1)
            out.append("0" + format(best[0] - 1, "08b") + format(n - 1, "07b"))
            pos += n
        else:
            out.append("1" + format(s[pos], "08b"))
            pos += 1
    return bits("".join(out))


def hs_unpack(b):
    """only to find out what a diff looks like; the specification decides"""
    s = "".join(format(x, "08b") for x in b)
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "1":
            if i + 9 > len(s):
                break
            out.append(int(s[i + 1:i + 9], 2))
            i += 9
        else:
            if i + 1 + WB + LB > len(s):
                break
            d, n = int(s[i + 1:i + 1 + WB], 2) + 1, int(s[i + 1 + WB:i + 1 + WB + LB], 2) + 1
            for _ in range(n):
                out.append(out[-d] if d <= len(out) else 0)
            i += 1 + WB + LB
    return bytes(out)


FILTERS = [{"id": lzma.FILTER_X86}, {"id": lzma.FILTER_LZMA2, "preset": 6}]


def xz_pack(rng, data):
    def one(b):
        k = rng.randrange(3)
        if k == 0:
            return lzma.compress(b, format=lzma.FORMAT_XZ, check=lzma.CHECK_CRC64, filters=FILTERS)
        return lzma.compress(b, format=lzma.FORMAT_XZ, check=rng.choice([lzma.CHECK_CRC32, lzma.CHECK_NONE, lzma.CHECK_SHA256]), preset=k)
    if rng.random() < .2 and len(data) > 2:
        c = rng.randrange(len(data))
        return one(data[:c]) + bytes(4 * rng.randrange(3)) + one(data[c:])
    return one(data) + (bytes(4) if rng.random() < .1 else b"")


def xz_unpack(b):
    """(bytes, intact) of concatenated streams"""
    out, first = b"", True
    while True:
        if not first:
            n = len(b) - len(b.lstrip(b"\0"))
            if n % 4:
                return out, False
            b = b[n:]
            if not b:
                return out, True
        d = lzma.LZMADecompressor(format=lzma.FORMAT_XZ)
        try:
            out += d.decompress(b)
        except lzma.LZMAError:
            return out, False
        if not d.eof:
            return out, False
        b, first = d.unused_data, False


def pack(rng, comp, data, early=False):
    return data if comp == 0 else hs_pack(rng, data, early) if comp == 1 else xz_pack(rng, data)


def cuts_of(rng, n):
    k = rng.choice(["one", "byte", "small", "mix", "edge", "numbers"])
    out = []
    while n:
        c = {"one": n, "byte": 1, "small": rng.choice([1, 2, 3, 5]), "mix": rng.choice([0, 1, 7, 8, 24, 25, 100, rng.randrange(1, n + 1)]),
             "edge": rng.choice([23, 24, 25, 31, 32, 33, 63, 64, 65]), "numbers": 8}[k]
        c = min(c, n)
        out.append(c)
        n -= c
    if rng.random() < .1:
        out.append(0)
    return out


# ------------------------------------------------------------ one application
class Apply:
    def __init__(self, o, b, comp=0, cuts=None, length=None, buf=64, oo=0, wo=0):
        self.o, self.b, self.comp, self.buf, self.oo, self.wo = o, b, comp, buf, oo, wo
        self.cuts = [len(b)] if cuts is None else cuts
        self.length = len(b) if length is None else length

    def line(self):
        return "patch %d =%s =%s %d %d %d %d = %s" % (self.comp, self.o.hex(), self.b.hex(), self.length, self.buf, self.oo, self.wo,
                                                      " ".join(map(str, self.cuts)))

    def event(self, r):
        if "crash" in r:
            return {"a": "crash", "why": r["crash"]}
        fed = sum(self.cuts)
        given = self.b[:fed]
        e = {"a": "patch", "comp": self.comp, "o": list(self.o), "bytes": list(given) if self.comp != 2 else [], "plain": [], "plainok": True,
             "fed": fed, "len": self.length if self.length < 1 << 31 else 1 << 30, "bufok": self.buf > 0 and self.buf % 2 == 0,
             "init": r["init"], "w": [clip(x) for x in r["w"]], "fin": clip(r["fin"]), "gap": r["gap"], "out": list(bytes.fromhex(r["out"]))}
        if self.comp == 2:
            p, ok = xz_unpack(given)
            e["plain"], e["plainok"] = list(p) if ok else [], ok
        if self.comp not in (0, 1, 2):
            e["bufok"] = False
        return e


def clip(x):
    return max(-1 << 30, min(1 << 30, x))


def from_model(rng, x):
    """One byte of the model in a place for a number is eight bytes here."""
    out, lens, left = b"", [], [0, 0]
    k, st, d, xx = 0, 0, 0, 0
    for v in x["p"]:
        if st < 3:
            n = -(v - 128) if v >= 128 else v
            out += num(n) if not (v == 128) else b"\0" * 7 + b"\x80"
            lens.append(8)
            if st == 0:
                d = max(n, 0)
            elif st == 1:
                xx = max(n, 0)
            st += 1
            if st == 3 and d + xx == 0:
                st = 0
        else:
            out += bytes([v])
            lens.append(1)
            if d:
                d -= 1
            else:
                xx -= 1
            if d + xx == 0:
                st = 0
    cuts, at, j, last = [], 0, 0, 0
    for c in x["cut"]:
        at = sum(lens[:j + c])
        if lens[j + c - 1] == 8 and rng.random() < .5 and j + c < len(lens) + 1:
            at -= rng.randrange(8)
        j += c
        cuts.append(at - last)
        last = at
    if last < len(out):
        cuts.append(len(out) - last)
    return bytes(x["o"]), out, cuts


def random_patch(rng, o, n=None):
    """Blocks that mostly stay within the origin."""
    b, pos = b"", 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n):
        ok = rng.random() < .96
        room = max(0, len(o) - pos) if pos >= 0 else 0
        d = rng.choice([0, room, min(room, rng.randrange(1, 200)), min(room, 32)]) if ok else room + rng.choice([1, 2, 31, 32, 33, 64])
        if pos < 0:
            d = rng.choice([0, 1, 1, 7, 64, 100])
        x = rng.choice([0, 0, 1, 2, 8, 33, rng.randrange(150)])
        to = rng.choice([0, len(o), rng.randrange(len(o) + 1), pos + d])
        if rng.random() < .07:
            to = rng.choice([-1, -1, -2, -64, -300, len(o) + 1, len(o) + 1000, 1 << 28])
        db = bytes(d) if rng.random() < .3 else rng.randbytes(d)
        b += block(d, x, to - (pos + d), db, bytes([rng.randrange(4)]) * x if rng.random() < .5 else rng.randbytes(x))
        pos = to
    if rng.random() < .06:
        # lengths below zero, with and without anything behind
        d, x = rng.choice([(0, -1), (0, -1), (0, -7), (0, -(1 << 40)), (-1, 0), (-1, 1), (min(1, len(o)), -1), (-2, -3)])
        data = rng.randbytes(max(0, d)) + rng.choice([b"", block(0, 3, 0, b"", b"abc")])
        b += num(d) + num(x) + num(rng.choice([0, -pos])) + data
    if rng.random() < .03:
        b += num(rng.choice([-1, 1 << 40, 1, (1 << 62), -(1 << 63) + 1])) + num(rng.choice([0, -1, 1 << 31, 1 << 32])) + num(0) + rng.randbytes(rng.randrange(40))
    return b


def run_apply():
    ctx = Ctx("C12")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 41 + 12)
    cfg = ("SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Same Means EmitInv\nVIEW VIEW2\nCONSTANTS NumLen=1\n Origins <- MCOrigins\n"
           " Nums={%s}\n Datas={%s}\n MaxLen=%d\n MaxPiece=%d\n Buf=2\n Emit=%s\n")
    r = check_model(ctx, "pieces", "BpakPatchMC", cfg % ("0,1,2,129,130", "0,1,255", 7, 3, "TRUE"))
    check_model(ctx, "longer", "BpakPatchMC", cfg % ("0,1,2,129", "0,255", 9 if not THOROUGH else 10, 4, "FALSE"))
    sc = r.prints
    whole = [x for x in sc if x["c"]]
    rest = [x for x in sc if not x["c"]]
    sc = (whole if len(whole) < 2500 or THOROUGH else rng.sample(whole, 2500)) + (rest if THOROUGH else rng.sample(rest, 1500))
    todo = []
    for k, x in enumerate(sc):
        o, b, cuts = from_model(rng, x)
        comp = k % 8
        if comp in (1, 2):
            b = pack(rng, comp, b)
            cuts = cuts_of(rng, len(b))
        else:
            comp = 0
        todo.append(Apply(o, b, comp, cuts, buf=rng.choice([2, 4, 64])))
    for k in range(500 if not THOROUGH else 6000):
        o = rng.randbytes(rng.choice([0, 1, 5, 32, 33, 100, 300]))
        plain = random_patch(rng, o)[:3000]
        comp = rng.choice([0, 0, 1, 1, 2])
        b = pack(rng, comp, plain, early=rng.random() < .3)
        a = Apply(o, b, comp, None, buf=rng.choice([2, 4, 6, 16, 64, 128, 8192]), oo=rng.choice([0, 0, 4096, 1 << 34]), wo=rng.choice([0, 7, 1 << 33]))
        a.cuts = cuts_of(rng, len(b))
        todo.append(a)
        what = rng.choice(["cut", "cut", "less", "more", "flip", "tail", "other", "buf", "comp", "none"])
        if what == "cut" and b:                       # the patch ends early
            n = rng.randrange(len(b))
            todo.append(Apply(o, b[:n], comp, cuts_of(rng, n), buf=a.buf))
        elif what == "less" and b:                    # not all of it arrives
            n = rng.randrange(len(b))
            todo.append(Apply(o, b, comp, cuts_of(rng, n), buf=a.buf))
        elif what == "more":                          # more than announced arrives
            x = b + rng.randbytes(rng.choice([1, 8, 24, 100]))
            todo.append(Apply(o, x, comp, cuts_of(rng, len(x)), length=len(b), buf=a.buf))
        elif what == "flip" and b:
            x = bytearray(b)
            for _ in range(rng.choice([1, 1, 2])):
                at = rng.randrange(len(x))
                x[at] ^= 1 << rng.randrange(8)
            todo.append(Apply(o, bytes(x), comp, cuts_of(rng, len(x)), buf=a.buf))
        elif what == "tail":
            x = b + rng.choice([b"\0", rng.randbytes(1), rng.randbytes(12), bytes(24), bytes(4)])
            todo.append(Apply(o, x, comp, cuts_of(rng, len(x)), buf=a.buf))
        elif what == "other":
            todo.append(Apply(o[:rng.randrange(len(o) + 1)], b, comp, a.cuts, buf=a.buf))
        elif what == "buf":
            todo.append(Apply(o, b, comp, a.cuts, buf=rng.choice([0, 1, 3, 63])))
        elif what == "comp":
            todo.append(Apply(o, b, rng.choice([3, 7, 255]), a.cuts, buf=a.buf))
        elif what == "none":
            todo.append(Apply(o, b, comp, [], buf=a.buf))
    # every cut of some patches, in the bytes and in the announced length
    for comp in (0, 1, 2):
        o = bytes(range(60))
        p = block(20, 3, -5, rng.randbytes(20), b"xyz") + block(0, 4, 10, b"", b"abcd") + block(12, 0, 0, bytes(12), b"")
        b = pack(rng, comp, p)
        for n in range(len(b) + 1):
            todo.append(Apply(o, b[:n], comp, cuts_of(rng, n), buf=8))
            todo.append(Apply(o, b, comp, [n, len(b) - n], buf=8))
            todo.append(Apply(o, b, comp, [n], buf=8))
    # junk
    for k in range(200 if not THOROUGH else 4000):
        comp = rng.choice([0, 1, 1, 1, 2])
        b = rng.randbytes(rng.choice([0, 1, 2, 23, 24, 25, 60]))
        if comp == 1 and rng.random() < .5:
            b = bytes(rng.choice([0, 0x80, 0xff]) & rng.randrange(256) for _ in range(len(b)))
        todo.append(Apply(rng.randbytes(20), b, comp, cuts_of(rng, len(b)), buf=rng.choice([2, 16])))
    play(ctx, drv, "applications", todo)
    ctx.assumptions += ["what liblzma decodes is taken from Python's lzma module", "patches of up to 3000 bytes are interpreted byte by byte"]
    return ctx.finish()


def play(ctx, drv, name, todo):
    w = sub("w-" + name)
    scripts = [[x.line()] for x in todo]
    reps = drv.run(scripts, w, jobs=8)
    keep = [k for k in range(len(todo)) if reps[k] is not None]
    traces = [[todo[k].event(reps[k][0])] for k in keep]
    for k, t in zip(keep, traces):
        e = t[0]
        ctx.count("%s:%s:%s" % (e["a"], todo[k].comp, "applied" if e.get("fin", -1) >= 0 and not any(e.get("w", [])) else "refused"))
    ctx.sample(scripts[0][0][:300])
    return judge(ctx, name, "BpakPatchTrace", traces, lambda t, l: scripts[keep[t]][0],
                 lambda t: [todo[keep[t]].event(drv.run([scripts[keep[t]]], w)[0][0])], CONSTS)


# ------------------------------------------------------------ diffs
class Round:
    """A diff of two strings, applied again."""

    def __init__(self, o, n, comp, rng, full=True):
        self.o, self.n, self.comp, self.full = o, n, comp, full
        self.off = rng.choice([0, 0, 4096, 1 << 33])
        self.buf = rng.choice([2, 64, 512, 4096])
        self.cseed = rng.randrange(1 << 30)


def ref_apply(o, p):
    """the format once more, for strings too large for TLC"""
    out, pos, k = b"", 0, 0

    def g(b):
        v = struct.unpack("<Q", b)[0]
        return -(v & ~(1 << 63)) if v >> 63 else v
    res = []
    while k < len(p):
        if k + 24 > len(p):
            return None
        d, x, z = g(p[k:k + 8]), g(p[k + 8:k + 16]), g(p[k + 16:k + 24])
        k += 24
        if d < 0 or x < 0 or d + x > len(p) - k or (d and (pos < 0 or pos + d > len(o))):
            return None
        a, b = int.from_bytes(o[pos:pos + d], "little"), p[k:k + d]
        res.append(bytes((u + v) & 255 for u, v in zip(o[pos:pos + d], b)) if any(b) else o[pos:pos + d])
        res.append(p[k + d:k + d + x])
        k += d + x
        pos += d + z
    return b"".join(res)


def mutate(rng, o):
    """a string related to o"""
    n = bytearray(o)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        k = rng.choice(["ins", "del", "sub", "move", "rep", "run", "cut", "pre", "app"])
        a = rng.randrange(len(n) + 1)
        c = min(len(n), a + rng.randrange(1, max(2, len(n) // 3 + 1)))
        if k == "ins":
            n[a:a] = rng.randbytes(rng.choice([1, 2, 9, 40]))
        elif k == "del":
            del n[a:c]
        elif k == "sub":
            for j in range(a, min(len(n), a + rng.choice([1, 1, 4, 20]))):
                n[j] = rng.randrange(256)
        elif k == "move":
            x = n[a:c]
            del n[a:c]
            b = rng.randrange(len(n) + 1)
            n[b:b] = x
        elif k == "rep":
            n[a:a] = n[a:c]
        elif k == "run":
            n[a:a] = bytes([rng.randrange(256)]) * rng.choice([8, 30, 130])
        elif k == "cut":
            n = n[:a]
        elif k == "pre":
            n = n[a:]
        else:
            n += rng.randbytes(rng.choice([1, 16]))
    return bytes(n)


def pair(rng, size):
    kind = rng.choice(["mut", "mut", "mut", "mut", "rand", "rep", "alpha", "same", "empty", "zero", "per", "rev"])
    n = rng.choice([0, 1, 2, 9, size // 4, size // 2, size])
    o = rng.randbytes(n)
    if kind == "alpha":
        o = bytes(rng.choice(b"ab") for _ in range(n))
        return o, bytes(rng.choice(b"ab") for _ in range(rng.randrange(size + 1)))
    if kind == "rep":
        o = (rng.randbytes(rng.choice([1, 2, 3, 7])) * (n + 1))[:n]
        return o, mutate(rng, o)
    if kind == "per":
        u = rng.randbytes(rng.choice([4, 16, 33]))
        o = (u * (n + 1))[:n]
        return o, (mutate(rng, u) * (n + 1))[:rng.randrange(size + 1)]
    if kind == "rand":
        return o, rng.randbytes(rng.randrange(size + 1))
    if kind == "same":
        return o, o
    if kind == "empty":
        return (b"", o) if rng.random() < .5 else (o, b"")
    if kind == "zero":
        return bytes(n), bytes(rng.randrange(size + 1))
    if kind == "rev":
        return o, o[::-1]
    return o, mutate(rng, o)


def run_diff():
    ctx = Ctx("C19")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 43 + 19)
    cfg = ("SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Right Possible EmitInv\nCONSTANTS NumLen=1\n Letters={%s}\n"
           " MaxOrigin=%d\n MaxNew=%d\n MaxBlocks=%d\n Emit=%s\n")
    r = check_model(ctx, "differ", "BpakDiffMC", cfg % ("3,250", 4, 4, 2, "TRUE"))
    sc = r.prints
    r = check_model(ctx, "differ-3", "BpakDiffMC", cfg % ("0,1,128", 2, 3, 3, "TRUE"))
    sc = sc + r.prints
    check_model(ctx, "differ-long", "BpakDiffMC", cfg % ("0,255", 3 if not THOROUGH else 4, 5, 3 if THOROUGH else 2, "FALSE"))
    rounds = [Round(bytes(x["o"]), bytes(x["n"]), k % 3 if not THOROUGH else c, rng) for k, x in enumerate(sc) for c in range(3 if THOROUGH else 1)]
    for k in range(500 if not THOROUGH else 6000):
        o, n = pair(rng, rng.choice([12, 60, 300, 700]))
        rounds.append(Round(o, n, rng.choice([0, 0, 1, 2]), rng))
    for k in range(150 if not THOROUGH else 1500):
        o, n = pair(rng, rng.choice([3000, 5000, 20000, 70000]))
        rounds.append(Round(o, n, rng.choice([0, 1, 2]), rng, full=False))
    # long runs of one byte make diffing very slow, so the large ones have none
    for size in [400000] + ([3000000, 8000000] if THOROUGH else []):
        o = rng.randbytes(size // 2) + bytes(size // 2 if size < 1000000 else 5000) + rng.randbytes(size // 3)
        for c in range(3):
            rounds.append(Round(o, mutate(rng, mutate(rng, o)), c, rng, full=False))
    w = sub("w-diff")

    def files(k):
        x = rounds[k]
        if x.full:
            return "=" + x.o.hex(), "=" + x.n.hex(), "="
        for nm, b in (("o", x.o), ("n", x.n)):
            f = os.path.join(w, nm + str(k))
            if not os.path.exists(f):
                with open(f, "wb") as h:
                    h.write(b)
        return os.path.join(w, "o%d" % k), os.path.join(w, "n%d" % k), os.path.join(w, "p%d" % k)

    def events(ks):
        """both steps for the given rounds"""
        s1 = []
        for k in ks:
            o, n, p = files(k)
            s1.append(["diff %d %s %s %s %d" % (rounds[k].comp, o, n, p, rounds[k].off)])
        r1 = drv.run(s1, w, jobs=8 if len(ks) > 8 else 1)
        s2, plan = [], {}
        for i, k in enumerate(ks):
            if r1[i] is None or "crash" in r1[i][0] or r1[i][0]["init"] or r1[i][0]["rc"] < 0:
                continue
            o, n, p = files(k)
            x = rounds[k]
            pl = r1[i][0]["n"]
            cr = random.Random(x.cseed)
            cuts = cuts_of(cr, pl)
            while len(cuts) > 3000:
                cuts = cuts_of(cr, pl) if cr.random() < .5 else [pl // 2, pl - pl // 2]
            pb = "=" + r1[i][0]["out"] if x.full else p
            plan[i] = len(s2)
            s2.append(["patch %d %s %s %d %d %d %d %s %s" % (x.comp, o, pb, pl, x.buf, 0, 0, "=" if x.full else p + "o", " ".join(map(str, cuts)))])
        r2 = drv.run(s2, w, jobs=8 if len(ks) > 8 else 1)
        out = []
        for i, k in enumerate(ks):
            x = rounds[k]
            if r1[i] is None or (i in plan and r2[plan[i]] is None):
                out.append(None)
                continue
            d = r1[i][0]
            if "crash" in d:
                out.append([{"a": "crash", "why": d["crash"]}])
                continue
            base = {"comp": x.comp, "init": d["init"], "rc": clip(d["rc"]), "n": d["n"], "gap": d["gap"], "same": d["same"] == 1}
            if i in plan and "crash" in r2[plan[i]][0]:
                out.append([{"a": "crash", "why": r2[plan[i]][0]["crash"]}])
                continue
            a = r2[plan[i]][0] if i in plan else {"w": [-1], "fin": -1, "gap": 0, "init": 0, "out": ""}
            if x.full:
                pb = bytes.fromhex(d["out"])
                e = dict(base, a="diff", o=list(x.o), new=list(x.n), bytes=list(pb) if x.comp != 2 else [], plain=[], plainok=True)
                ap = Apply(x.o, pb, x.comp, [len(pb)], buf=x.buf)
                e2 = dict(ap.event(dict(a)), a="patch")
                if x.comp == 2:
                    e["plain"], e["plainok"] = e2["plain"], e2["plainok"]
                out.append([e, e2] if i in plan else [e])
            else:
                pb = open(files(k)[2], "rb").read() if i in plan else b""
                plain = pb if x.comp == 0 else hs_unpack(pb) if x.comp == 1 else xz_unpack(pb)[0]
                ref = ref_apply(x.o, plain) if i in plan else None
                got = open(files(k)[2] + "o", "rb").read() if i in plan else b""
                out.append([dict(base, a="round", w=a["w"], fin=clip(a["fin"]), newlen=len(x.n), newtok=sha(x.n), outtok=sha(got) if i in plan else "none",
                                 reftok="none" if ref is None else sha(ref))])
                for q in (files(k)[2], files(k)[2] + "o"):
                    if os.path.exists(q):
                        os.unlink(q)
        return out
    evs = events(list(range(len(rounds))))
    keep = [k for k in range(len(rounds)) if evs[k] is not None]
    for k in keep:
        for e in evs[k]:
            ctx.count("%s:%s" % (e["a"], rounds[k].comp))
    ctx.sample({"origin": rounds[600].o.hex()[:200], "new": rounds[600].n.hex()[:200], "comp": rounds[600].comp})
    judge(ctx, "diffs", "BpakPatchTrace", [evs[k] for k in keep],
          lambda t, l: "comp %d origin %s new %s" % (rounds[keep[t]].comp, rounds[keep[t]].o.hex()[:4000], rounds[keep[t]].n.hex()[:4000]),
          lambda t: events([keep[t]])[0], CONSTS)
    ctx.assumptions += ["what liblzma decodes is taken from Python's lzma module", "pairs longer than 700 bytes: the patch is interpreted by a Python reference of the format, compared by digest"]
    return ctx.finish()
