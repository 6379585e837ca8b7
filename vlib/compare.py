"""C18: the compare command against BpakCompare.tla."""
import itertools, os, random, re, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import *
from .header import REAL, consts, wide
from . import package as pk, raw

IDS = {"m1": "m1", "m2": "bpak-version", "P": "P", "Q": "Q"}
METAS = ["m1", "m2", "bpak-package", "bpak-version", "bpak-transport", "pb-load-addr", "keystore-provider-id", "merkle-salt", "merkle-root-hash",
         "bpak-key-id", "bpak-key-store"]
NAMES = ["kernel", "fs", "dtb", "rootfs", "P"]
ANSI = re.compile(rb"\033\[[0-9;]*m")


class Unreadable(Exception):
    pass


def words(i):
    return [i >> 16, i & 0xffff]


def readable(b):
    return b is not None and len(b) >= 4096 and b[:4] == struct.pack("<I", 0x42504132) and not raw.malformed(b)


def texts(b):
    m, _ = pk.parse_header(b[:4096])
    return [{"id": words(int(x["i"], 16)), "b": list(b[1544 + x["o"]:1544 + x["o"] + x["s"]])} for x in m]


def known(pa, pb):
    """ids of parts that differ in the bytes both files hold of them"""
    d = {q["i"]: body for q, _, body in pb}
    out = []
    for q, _, body in pa:
        o = d.get(q["i"])
        if o is not None:
            n = min(len(body), len(o))
            if body[:n] != o[:n]:
                out.append(q["i"])
    return out


def report(o):
    """the lines of the two tables"""
    t = ANSI.sub(b"", o).decode("latin1")
    ms, ps = [], []
    try:
        head, rest = t.split("Metadata:\n", 1)
        m, p = rest.split("\nParts:\n")
        for l in m.split("\n")[1:]:
            if l:
                x = re.fullmatch(r"([=+*-])   ([0-9a-f]{8})   (\d+) *    (.{20}) (.*)", l)
                ms.append({"k": x.group(1), "i": x.group(2), "s": int(x.group(3)), "n": list(x.group(4).rstrip().encode("latin1")),
                           "d": list(x.group(5).encode("latin1"))})
        for l in p.split("\n")[1:]:
            if l:
                x = re.fullmatch(r"([=+*-])   ([0-9a-f]{8})   (\d+) +(\d+) +([hT-]{8}) +(\d+) *", l)
                ps.append({"k": x.group(1), "i": x.group(2), "s": wide(int(x.group(3))), "d": int(x.group(4)), "x": x.group(5)[0] == "h",
                           "t": x.group(5)[1] == "T", "ts": wide(int(x.group(6)))})
    except (AttributeError, ValueError):
        raise Unreadable(t[:3000])
    return {"m": ms, "p": ps}


class Pair:
    def __init__(self, a, b, same=False, what=""):
        self.a, self.b, self.same, self.what = a, b, same, what


class Runner:
    def __init__(self):
        self.tool = build_tool(True)
        self.dir = sub("compare")
        self.cache = {}

    def proj(self, b):
        k = sha(b)
        if k not in self.cache:
            q, hf, parts = pk.project(b)
            self.cache[k] = ({"m": q["m"], "p": q["p"]}, parts, texts(b))
        return self.cache[k]

    def one(self, n, pr):
        d = os.path.join(self.dir, "%d" % n)
        os.makedirs(d, exist_ok=True)
        fs = ["a.bpak", "a.bpak" if pr.same else "b.bpak"]
        for f, b in zip(fs, (pr.a, pr.b)):
            if b is not None:
                with open(os.path.join(d, f), "wb") as h:
                    h.write(b)
        try:
            p = subprocess.run([self.tool, "compare"] + fs, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=SAN_ENV, timeout=60)
        except subprocess.TimeoutExpired:
            return {"a": "crash", "why": "no end"}
        if p.returncode < 0 or p.returncode == 99:
            return {"a": "crash", "why": "exit %d %s" % (p.returncode, p.stderr.decode("latin1")[-1500:])}
        got = {}
        for f in os.listdir(d):
            with open(os.path.join(d, f), "rb") as h:
                got[f] = h.read()
            os.unlink(os.path.join(d, f))
        want = {f: b for f, b in zip(fs, (pr.a, pr.b)) if b is not None}
        e = {"a": "compare", "what": pr.what, "ok": p.returncode == 0, "unchanged": got == want,
             "readable": readable(pr.a) and readable(pr.b), "r": {"m": [], "p": []}}
        if e["readable"]:
            (e["A"], pa, e["tA"]), (e["B"], pb, e["tB"]) = self.proj(pr.a), self.proj(pr.b)
            e["known"] = known(pa, pb)
        if e["ok"]:
            try:
                e["r"] = report(p.stdout)
            except Unreadable as x:
                return {"a": "crash", "why": "unreadable: %s" % x}
        return e

    def all(self, pairs):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda x: self.one(*x), enumerate(pairs)))


# ------------------------------------------------------------ packages
BODIES = {"x": b"xxxxx", "y": b"xxxxy", "x/": b"xxxxx\0", "x/507": b"xxxxx" + bytes(507), "z": b"xxxxx" + bytes(506) + b"z"}
VALUES = {"abc": b"abc", "abd": b"abd", "abc/": b"abc\0"}


def build(x):
    """a package of the model"""
    return raw.package([raw.Part(p["i"], BODIES[p["c"]], p["f"], size=p["s"][1], pad=p["d"], t=p["t"][1]) for p in x["p"]],
                       [(IDS[m["i"]], 0 if m["r"] == "00000000" else m["r"], VALUES[m["d"]]) for m in x["m"]])


SIZES = [0, 1, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000]


def textual(b):
    return b.replace(b"\n", b"#").replace(b"\r", b"#").replace(b"\033", b"#")


def rmeta(rng):
    i = rng.choice(METAS)
    b = textual(rng.randbytes(rng.choice([0, 1, 4, 8, 16, 31, 32, 33, 100])))
    return (i, rng.choice([0, 0, rng.choice(NAMES)]), b)


def rpart(rng, n):
    if rng.random() < .3:
        b = rng.randbytes(rng.choice([1, 100, 512, 4096, 5000, 8192, 8193]))
        return raw.Part(n, b, rng.choice([2, 3]), size=rng.choice(SIZES), t=len(b))
    return raw.Part(n, rng.randbytes(rng.choice(SIZES)), raw.odd(rng, rng.choice([0, 0, 1])))


def near(rng, n):
    """places where a comparison by blocks could go wrong, and any other"""
    c = [k for b in range(0, n + 4096, 4096) for k in (b - 1, b, b + 1) if 0 <= k < n] + [0, n - 1]
    return rng.choice(c) if rng.random() < .6 else rng.randrange(n)


def variant(rng, ps, ms):
    """another package: a few changes of this one"""
    ps, ms = list(ps), list(ms)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.choice(["byte", "byte", "byte", "mbyte", "mbyte", "drop", "mdrop", "add", "madd", "flag", "grow", "order", "morder", "mref", "msize", "pad", "code"])
        if k in ("byte", "drop", "flag", "grow", "pad", "code") and ps:
            j = rng.randrange(len(ps))
            p = ps[j]
            if k == "byte" and p.body:
                b = bytearray(p.body)
                b[near(rng, len(b))] ^= 1 << rng.randrange(8)
                q = raw.Part(p.id, b"", p.flags, size=p.size, pad=p.pad, t=p.t)
                q.body = bytes(b)
                ps[j] = q
            elif k == "drop":
                ps.pop(j)
            elif k == "flag":
                q = raw.Part(p.id, b"", p.flags ^ 1, size=p.size, pad=p.pad, t=p.t)
                q.body = p.body
                ps[j] = q
            elif k == "grow" and not p.flags & 2:
                ps[j] = raw.Part(p.id, p.body[:p.size] + rng.choice([b"\0", b"a", bytes(512)]), p.flags)
            elif k == "code" and p.flags & 2:
                b = p.body + bytes(rng.choice([1, 512]))
                ps[j] = raw.Part(p.id, b, p.flags, size=p.size, pad=p.pad, t=len(b))
            elif k == "pad" and p.flags & 2:
                ps[j] = raw.Part(p.id, p.body, p.flags, size=p.size + rng.choice([1, 512]), t=p.t)
        elif k == "add" and len(ps) < 6:
            free = [n for n in NAMES if raw.ident(n) not in {p.id for p in ps}]
            if free:
                ps.insert(rng.randrange(len(ps) + 1), rpart(rng, rng.choice(free)))
        elif k == "order":
            rng.shuffle(ps)
        elif k == "morder":
            rng.shuffle(ms)
        elif k == "madd":
            m = rmeta(rng)
            if m[:2] not in {x[:2] for x in ms}:
                ms.insert(rng.randrange(len(ms) + 1), m)
        elif ms:
            j = rng.randrange(len(ms))
            i, r, b = ms[j]
            if k == "mbyte" and b:
                c = bytearray(b)
                at = rng.choice([0, len(c) - 1, rng.randrange(len(c))])
                c[at] = (c[at] + rng.choice([1, 128, 255])) % 256
                ms[j] = (i, r, textual(bytes(c)))
            elif k == "mdrop":
                ms.pop(j)
            elif k == "msize":
                ms[j] = (i, r, b + b"\0") if rng.random() < .5 else (i, r, b[:-1])
            elif k == "mref":
                n = (i, rng.choice([0] + NAMES), b)
                if n[:2] not in {x[:2] for x in ms}:
                    ms[j] = n
    return ps, ms


def random_pair(rng):
    names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4]))
    ps = [rpart(rng, n) for n in names]
    ms = list({m[:2]: m for m in (rmeta(rng) for _ in range(rng.choice([0, 1, 3, 6])))}.values())
    ps2, ms2 = variant(rng, ps, ms) if rng.random() < .85 else ([rpart(rng, n) for n in rng.sample(NAMES, 2)], [rmeta(rng)])
    hk = rng.choice([1, 2, 3])
    a = raw.package(ps, ms, hk=hk)
    b = raw.package(ps2, ms2, hk=rng.choice([hk, hk, 1]))
    what = "random"
    x = rng.random()
    if x < .12:
        what = "cut"
        cut = lambda y: y[:rng.choice([len(y) - 1, rng.randrange(4096, len(y) + 1), 4096])] if len(y) > 4096 else y
        if rng.random() < .7:
            a = cut(a)
        if rng.random() < .5:
            b = cut(b)
    elif x < .2:
        what = "unreadable"
        j = rng.choice([None, b"", rng.randbytes(100), b[:4095], bytes([b[0] ^ 1]) + b[1:], rng.randbytes(5000)] + [raw.spoil_header(rng, b)] * 4)
        a, b = (j, b) if rng.random() < .5 else (a, j)
    elif x < .25:
        what = "behind"
        b += rng.randbytes(700)
    return Pair(a, b, what=what)


def run():
    ctx = Ctx("C18")
    rng = random.Random(SEED * 5171 + 18)
    mc = "SPECIFICATION Spec\nINVARIANTS Same Symmetric Complete EmitInv\n"
    base = dict(REAL, Keys='{"k1", "k2", "k3"}', Values='{"v1", "v2", "v3"}', Ids="{}", Kinds="{}", Emit="TRUE")
    r1 = check_model(ctx, "entries", "BpakCompareMC", mc + consts(base))
    kinds = '{"x", "y", "long", "flag", "coded", "other"}'
    r2 = check_model(ctx, "parts", "BpakCompareMC", mc + consts(dict(base, Keys="{}", Ids='{"P", "Q"}', Kinds=kinds)))
    if THOROUGH:
        check_model(ctx, "both", "BpakCompareMC", mc + consts(dict(base, Keys='{"k1", "k2"}', Values='{"v1", "v2"}', Ids='{"P", "Q"}', Kinds='{"x", "y", "coded"}', Emit="FALSE")))
    mts, pts = [x["m"] for x in r1.prints], [x["p"] for x in r2.prints]
    key = lambda x: json.dumps(x, sort_keys=True)
    mts.sort(key=key)
    pts.sort(key=key)
    ppairs = list(itertools.product(pts, pts))
    mpairs = list(itertools.product(mts, mts))
    rng.shuffle(ppairs)
    rng.shuffle(mpairs)
    n = len(ppairs) if not THOROUGH else len(mpairs)
    pairs = []
    for k in range(max(n, len(ppairs))):
        (pa, pb), (ma, mb) = ppairs[k % len(ppairs)], mpairs[k % len(mpairs)]
        pairs.append(Pair(build({"m": ma, "p": pa}), build({"m": mb, "p": pb}), what="model"))
    ctx.extra["pairs"] = {"parts": [len(ppairs), "all"], "entries": [len(mpairs), min(len(pairs), len(mpairs))]}
    pairs += [random_pair(rng) for _ in range(2500 if not THOROUGH else 30000)]
    pairs += [Pair(p.a, p.a, same=True, what="itself") for p in rng.sample(pairs, 60) if p.a]
    w = Runner()
    events = w.all(pairs)
    for p, e in zip(pairs, events):
        ctx.count("%s:%s" % (p.what, {True: "ok", False: "refused"}.get(e.get("ok"), "crash")))
    size = 40
    chunks = [events[k:k + size] for k in range(0, len(events), size)]

    def again(t):
        return [w.one(t * size + k, p) for k, p in enumerate(pairs[t * size:(t + 1) * size])]

    def replay(t, l):
        p = pairs[t * size + l - 1]
        return "bpak compare a.bpak b.bpak\na.bpak: %s\nb.bpak: %s" % tuple("none" if b is None else b.hex() if len(b) < 20000 else b[:4096].hex() + "..." for b in (p.a, p.b))
    ctx.sample({"pair": [events[7].get("A"), events[7].get("B")], "report": events[7].get("r")})
    judge(ctx, "compare", "BpakCompareTrace", chunks, replay, again, consts(REAL), key=lambda e: "compare:" + e.get("what", "crash"))
    ctx.assumptions += ["contents are compared by SHA-256 digest", "texts shown are those of C16's specification; no line breaks in them"]
    return ctx.finish()
