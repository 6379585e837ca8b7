"""C10, C11: packages coded for transport and decoded, against BpakTransport.tla."""
import os, random, struct
from .core import *
from . import package as pk, raw
from .patch import hs_pack, hs_unpack, mutate, pack, ref_apply, xz_unpack, random_patch, block
from .merkle import B

CONSTS = "CONSTANTS Arity=128\n MaxLevels=4\n HashOp <- TrHash\n Zero=0\n"
ROOT, SALT, TM, UUID = (crc32_id(x) for x in ("merkle-root-hash", "merkle-salt", "bpak-transport", "bpak-package"))
ALGS = ["bsdiff", "bsdiff-lzma", "bsdiff-no-comp", "bspatch", "bspatch-lzma", "bspatch-no-comp", "remove-data", "merkle-generate"]
NAME = {crc32_id(a): a for a in ALGS}
NAME[0] = ""
COMP = {"bsdiff": 1, "bspatch": 1, "bsdiff-lzma": 2, "bspatch-lzma": 2, "bsdiff-no-comp": 0, "bspatch-no-comp": 0}
PAIRS = [("bsdiff", "bspatch"), ("bsdiff-lzma", "bspatch-lzma"), ("bsdiff-no-comp", "bspatch-no-comp")]


def tm(name, ea, da):
    f = lambda x: x if isinstance(x, int) else crc32_id(x)
    return ("bpak-transport", name, struct.pack("<II", f(ea), f(da)) + bytes(24))


# ------------------------------------------------------------ facts
def unpatch(origin, p, comp):
    """[ok, n, tok] of the patch p on the bytes origin, and the result"""
    ok = True
    if comp == 1:
        p = hs_unpack(p)
    elif comp == 2:
        p, ok = xz_unpack(p)
    r = ref_apply(origin, p) if ok else None
    return ({"ok": False, "n": 0, "tok": "none"}, None) if r is None else ({"ok": True, "n": len(r), "tok": sha(r)}, r)


NOTREE = {"src": 0, "salt": False, "blocks": 0, "rest": 0, "root": "none", "want": "", "tok": "none"}


def masked(b):
    h = bytearray(b[:4096])
    for k in range(32):
        o = 520 + 32 * k
        if h[o:o + 4] == bytes(4):
            break
        h[o + 20:o + 28] = bytes(8)
        h[o + 30] &= 0xfd
    return sha(bytes(h))


def fits(b, p):
    return p["n"] == 0 or p["pos"] + p["n"] <= len(b)


def origin_facts(b):
    if b is None:
        return {"present": False, "uuid": "", "parts": []}
    parts, metas = raw.parse(b)
    return {"present": True, "uuid": metas.get((UUID, 0), b"")[:16].hex(),
            "parts": [{"id": id32(p["id"]), "have": fits(b, p)} for p in parts]}


def describe(b, org, coding):
    """The parts of file b; coding: the patches are read with the coder's
    algorithm, else with the decoder's."""
    parts, metas = raw.parse(b)
    oparts = raw.parse(org)[0] if org is not None else []
    out, content = [], []
    for k, p in enumerate(parts):
        body = b[p["pos"]:p["pos"] + p["n"]]
        coded = bool(p["f"] & 2)
        t = metas.get((TM, p["id"]))
        ea, da = (("", "") if t is None else [NAME.get(x, "?") for x in struct.unpack_from("<II", t)])
        if t is not None and ea == "":
            ea = "?"              # an algorithm of number 0 cannot code
        d = {"id": id32(p["id"]), "n": p["size"] + p["pad"], "coded": coded, "s": p["n"], "ea": ea, "da": da, "have": fits(b, p),
             "tok": sha(body), "app": {"ok": False, "n": 0, "tok": "none"}, "tree": NOTREE}
        got = body if not coded or da == "" else None
        alg = ea if coding else da
        q = next((x for x in oparts if x["id"] == p["id"]), None)
        if coded and alg in COMP and q is not None and d["have"]:
            d["app"], got = unpatch(org[q["pos"]:q["pos"] + q["n"]], body, COMP[alg])
        if coded and da == "merkle-generate" and not coding:
            j = next((j for j, x in enumerate(parts) if crc32_cont(x["id"], b"-hash-tree") == p["id"]), None)
            if j is not None:
                n = parts[j]["size"] + parts[j]["pad"]
                salt, root = metas.get((SALT, parts[j]["id"])), metas.get((ROOT, parts[j]["id"]))
                data = content[j] if j < k else None
                m = pk.merkle(data, salt[:32]) if data and salt is not None and len(data) % B == 0 else None
                d["tree"] = {"src": j + 1, "salt": salt is not None, "blocks": n // B, "rest": n % B, "root": m[0].hex() if m else "none",
                             "want": "" if root is None else root[:32].hex(), "tok": sha(m[1]) if m else "none"}
                got = m[1] if m else None
        out.append(d)
        content.append(got)
    return out, metas.get((UUID, 0), b"")[:16].hex()


# ------------------------------------------------------------ scenarios
SIZES = [0, 1, 8, 100, 511, 512, 513, 1023, 1024, 1025, 3000, 4096, 5000]


def content(rng):
    n = rng.choice(SIZES)
    k = rng.random()
    if k < .3:
        return bytes(rng.choice(b"abc") for _ in range(n))
    if k < .4:
        return bytes(n)
    return rng.randbytes(n)


class Scenario:
    def __init__(self, x, rng, deep=False):
        self.x, self.rng = x, rng
        uuid = rng.randbytes(16)
        parts, metas, old = [], [("bpak-package", 0, uuid)], []
        self.signed = rng.random() < .25
        names, later = 0, []
        for it in x["items"]:
            names += 1
            nm = "p%d" % names
            fl = raw.odd(rng, rng.choice([0, 0, 0, 1]))
            pair = rng.choice(PAIRS)
            if it in ("fsp", "fsd"):
                nb = rng.choice([1, 1, 2, 3, 5] + ([128, 129, 130, 260] if deep or rng.random() < .15 else []))
                # diffing long runs of one byte takes very long
                data = rng.randbytes(nb * B) if nb < 6 or it == "fsd" else bytes(rng.randrange(nb) * B) + rng.randbytes(B)
                data += bytes(nb * B - len(data))
                data = data[:nb * B]
                salt = rng.randbytes(32)
                root, tree = pk.merkle(data, salt)
                parts.append(raw.Part(nm, data, fl))
                # the tree comes after its data, not always right after
                (parts if rng.random() < .6 else later).append(raw.Part(nm + "-hash-tree", tree, fl))
                metas += [("merkle-salt", nm, salt), tm(nm + "-hash-tree", "remove-data", "merkle-generate")]
                if rng.random() < .8:
                    metas.append(("merkle-root-hash", nm, root))
                if it == "fsd":
                    metas.append(tm(nm, *pair))
                    if nb < 6:
                        od = mutate(rng, data)[:len(data) + 512]
                    else:
                        od = bytearray(data)
                        for _ in range(5):
                            od[rng.randrange(len(od))] ^= 0x55
                    old.append((nm, bytes(od)))
                continue
            body = content(rng)
            if it == "plain":
                parts.append(raw.Part(nm, body, fl))
                if rng.random() < .3:
                    old.append((nm, content(rng)))
                continue
            # other data in the origin
            o = rng.choice([mutate(rng, body), mutate(rng, body), mutate(rng, body), body, content(rng)])
            if it == "carry":
                # said to be coded with nothing to decode it by: taken as it is
                size, pad = len(body), -len(body) % 512
                body += rng.randbytes(pad)
                if rng.random() < .4:
                    w = rng.choice([1, pad, pad // 2, 511, 512])
                    body = body[:max(0, len(body) - w)] if rng.random() < .7 else body + bytes(w)
                parts.append(raw.Part(nm, body, fl | 2, size=size, pad=pad, t=len(body)))
                continue
            if it == "diff":
                metas.append(tm(nm, *pair))
            elif it == "mix":
                a, b = rng.sample(PAIRS, 2)
                metas.append(tm(nm, a[0], b[1]))
            elif it == "badenc":
                metas.append(tm(nm, rng.choice([1, 0xffffffff, 0, "merkle-generate", "bspatch", "copy"]), rng.choice([pair[1], 0, "nothing"])))
            elif it == "baddec":
                metas.append(tm(nm, pair[0], rng.choice([1, "bsdiff", "remove-data", "none"])))
            elif it == "rmonly":
                metas.append(tm(nm, "remove-data", rng.choice([1, "remove-data", "merkle-generate", 0, pair[1]])))
                if rng.random() < .3:
                    body = b""
            if it == "pre":
                metas.append(tm(nm, rng.choice([pair[0], "remove-data", 5]), pair[1]))
                size = rng.choice([512, 1024])
                p = random_patch(rng, o)
                r = ref_apply(raw.Part(nm, o).body, p)
                pad = 0
                if r and rng.random() < .7:
                    # the length announced next to the one produced
                    size = max(1, len(r) - rng.choice([0, 0, 1, 8, 100, 511, -1]))
                    pad = -size % 512
                parts.append(raw.Part(nm, pack(rng, COMP[pair[1]], p) if rng.random() < .7 else rng.randbytes(20), fl | 2, size=size, pad=pad, t=0))
                parts[-1].t = len(parts[-1].body)
            else:
                parts.append(raw.Part(nm, body, fl))
            old.append((nm, o))
            while later and rng.random() < .4:
                parts.append(later.pop(rng.randrange(len(later))))
        rng.shuffle(later)
        parts += later
        if rng.random() < .3:
            parts.append(raw.Part("last", rng.randbytes(rng.choice([0, 100, 700])), 0))
        if rng.random() < .5:
            keep = metas[0]
            rng.shuffle(metas)
            if rng.random() < .3:
                metas.append(("zzz", 0, rng.randbytes(5)))
        self.orig = raw.package(parts, metas, hk=rng.choice([1, 1, 2, 3]))
        self.uuid, self.old = uuid, old

    def origin(self, kind, other=False):
        """The origin package of the kind asked for; other: changed contents"""
        rng = random.Random(len(self.orig) * 7 + (3 if other else 0) + len(self.old))
        if kind == "none":
            return None
        ps = [(nm, b if not other else (mutate(rng, b) if rng.random() < .7 else rng.randbytes(len(b)))) for nm, b in self.old]
        if kind == "nopart":
            k = rng.randrange(len(ps) + 1)
            ps = ps[:k] + ps[k + 1:] if k < len(ps) else []
        rng.shuffle(ps)
        if rng.random() < .5:
            ps.insert(rng.randrange(len(ps) + 1), ("extra", rng.randbytes(rng.choice([10, 600]))))
        metas = [("other", 0, b"12345678")] if rng.random() < .5 else []
        u = self.uuid if kind != "uuid" else bytes([self.uuid[0] ^ 1]) + self.uuid[1:] if rng.random() < .5 else self.uuid[:15] + bytes([self.uuid[15] ^ 128])
        if kind != "nouuid":
            metas.append(("bpak-package", 0, u))
        return raw.package([raw.Part(nm, b) for nm, b in ps], metas, hk=rng.choice([1, 2, 3]))


def find_meta(b, mid, ref=None):
    for k in range(32):
        i, s, o, r = struct.unpack_from("<IHHI", b, 8 + 16 * k)
        if i == mid and (ref is None or r == ref):
            return k, 1544 + o, s
    return None


def accident(rng, b, kind):
    """the coded file b after an accident; None: does not apply"""
    b = bytearray(b)
    parts, metas = raw.parse(b)
    if kind == "none":
        return bytes(b)
    if kind == "cut":
        if len(b) == 4096:
            return None
        n = rng.choice([len(b) - 1, 4096, rng.randrange(4096, len(b))])
        return bytes(b[:n])
    if kind in ("flip", "data"):
        ps = [p for p in parts if p["n"] and bool(p["f"] & 2) == (kind == "flip")]
        if not ps:
            return None
        p = rng.choice(ps)
        for _ in range(rng.choice([1, 1, 3])):
            b[p["pos"] + rng.choice([0, p["n"] - 1, rng.randrange(p["n"]), rng.randrange(min(24, p["n"]))])] ^= 1 << rng.randrange(8)
        return bytes(b)
    if kind in ("root", "salt"):
        m = find_meta(b, ROOT if kind == "root" else SALT)
        if m is None:
            return None
        if kind == "salt" and rng.random() < .5:
            struct.pack_into("<I", b, 8 + 16 * m[0], 0x1234)      # gone
        else:
            b[m[1] + rng.choice([0, 31, rng.randrange(32)])] ^= 1 << rng.randrange(8)
        return bytes(b)
    if kind == "nouuid":
        m = find_meta(b, UUID, 0)
        if rng.random() < .5:
            struct.pack_into("<I", b, 8 + 16 * m[0], 0x1235)
        else:
            struct.pack_into("<I", b, 8 + 16 * m[0] + 8, 77)      # of a part, not of the package
        return bytes(b)
    if kind == "nodata":
        t = [k for k, p in enumerate(parts) if any(crc32_cont(p["id"], b"-hash-tree") == q["id"] for q in parts)]
        if not t:
            return None
        struct.pack_into("<I", b, 520 + 32 * t[0], 0x4711)
        return bytes(b)
    if kind == "length":
        if not parts:
            return None
        k = rng.randrange(len(parts))
        o = 520 + 32 * k
        w = rng.choice(["size", "size", "tsize", "less"])
        if w == "tsize" and parts[k]["f"] & 2:
            t = struct.unpack_from("<Q", b, o + 20)[0]
            struct.pack_into("<Q", b, o + 20, max(0, t + rng.choice([-1, 1, 24, -24])))
        else:
            s = parts[k]["size"] + rng.choice([512, 4096] if w != "less" else [-512 if parts[k]["size"] >= 512 else 512])
            struct.pack_into("<Q", b, o + 4, s)
        return bytes(b)
    raise ModelError("accident " + kind)


def read_log(fn):
    out = []
    b = open(fn, "rb").read()
    k = 0
    while k < len(b):
        kind, a, c, r, n = struct.unpack_from("<cqqqq", b, k)
        k += 33
        out.append((kind.decode(), a, c, r, b[k:k + n]))
        k += n
    return out


def replay(log, total):
    """What the log leaves behind: header and body."""
    head, img, top = None, bytearray(total), 0
    for kind, a, c, r, data in log:
        if kind == "H" and len(data) == 4096:
            head = data
        if kind == "W" and data:
            if a < 0 or a + len(data) > total:
                return head, None
            img[a:a + len(data)] = data
            top = max(top, a + len(data))
    return head, bytes(img[:top])


class Bench:
    """Files of a batch of scenarios and the driver lines for the steps."""

    def __init__(self, w):
        self.w = w

    def put(self, name, b):
        f = os.path.join(self.w, name)
        with open(f, "wb") as h:
            h.write(b)
        return f

    def get(self, name):
        f = os.path.join(self.w, name)
        if not os.path.exists(f):
            return None
        with open(f, "rb") as h:
            return h.read()


def signed(drv, w, b, key):
    f = os.path.join(w, "sign.tmp")
    with open(f, "wb") as h:
        h.write(b)
    r = drv.run([["open 0 %s r+b" % f, "sign 0 %s.pem" % os.path.join(VERIF, "keys", key), "close 0"]], w)[0]
    if any(x.get("rc") for x in r[:2]):
        raise ModelError("cannot sign")
    with open(f, "rb") as h:
        return h.read()


KEY = "ec256a"


def held(r, ok):
    """Does each handle hold what is in its file?  That of the output, which
    is the last, only if all went well."""
    same = [y["same"] for y in r if "same" in y]
    return all(same if ok else same[:-1])


class One:
    """A scenario being carried out; each step gives events, and can be repeated."""

    def __init__(self, k, x, seed, bench, drv, deep=False):
        self.k, self.x, self.bench, self.drv = k, x, bench, drv
        self.rng = random.Random(seed)
        self.sc = Scenario(x, self.rng, deep)
        self.coded = None

    # -- coding
    def enc_lines(self):
        sc, k = self.sc, self.k
        if sc.signed and not hasattr(self, "insigned"):
            sc.orig = signed(self.drv, self.bench.w, sc.orig, KEY)
            self.insigned = True
        self.inp = sc.orig
        if self.x.get("short") and len(self.inp) > 4096:
            self.inp = self.inp[:self.rng.choice([len(self.inp) - 1, 4096, self.rng.randrange(4096, len(self.inp))])]
            self.x = dict(self.x, short=False)
        self.org = sc.origin(self.x["eorg"])
        fi = self.bench.put("i%d" % k, self.inp)
        s = ["open 0 %s r+b" % fi]
        if self.org is not None:
            s.append("open 2 %s r+b" % self.bench.put("o%d" % k, self.org))
        fe = os.path.join(self.bench.w, "e%d" % k)
        s += ["open 1 %s w+b" % fe, "tenc 0 1 %s" % ("-" if self.org is None else "2")]
        self.at = len(s) - 1
        s += ["hsame 0 " + fi] + ([] if self.org is None else ["hsame 2 " + os.path.join(self.bench.w, "o%d" % k)]) + ["hsame 1 " + fe]
        s += ["close 0", "close 1"] + ([] if self.org is None else ["close 2"])
        s += ["open 3 %s rb" % fe, "psize 3", "close 3"]
        return s

    def enc_event(self, r):
        if "crash" in r[-1]:
            return {"a": "crash", "why": r[-1]["crash"]}
        b = self.bench
        parts, uuid = describe(self.inp, self.org, True)
        e = {"a": "enc", "parts": parts, "uuid": uuid, "org": origin_facts(self.org), "ok": r[self.at]["rc"] == 0, "hdr": masked(self.inp),
             "kept": b.get("i%d" % self.k) == self.inp and (self.org is None or b.get("o%d" % self.k) == self.org)}
        e["held"] = held(r, e["ok"])
        if e["ok"]:
            self.coded = b.get("e%d" % self.k)
            e["out"] = describe(self.coded, self.org, True)[0]
            e["outhdr"], e["len"] = masked(self.coded), len(self.coded)
            e["size"], e["inst"] = r[-2]["size"], r[-2]["inst"]
        return e

    # -- decoding
    def dec_setup(self):
        self.rng2 = random.Random(self.k * 31 + 5)
        x = self.x
        self.sent = accident(self.rng2, self.coded, x["acc"])
        if self.sent is None:
            return False
        kind = "ok" if x["dorg"] == "changed" else x["dorg"]
        self.dorg = self.sc.origin(kind, other=x["dorg"] == "changed")
        self.clean = x["acc"] == "none" and x["dorg"] == "ok" and x["eorg"] == "ok" and set(x["items"]) <= {"plain", "diff", "fsp", "fsd"}
        self.calls = self.rng2.random() < .4 and len(raw.parse(self.sent)[0]) > 0
        return True

    def dec_lines(self):
        k, b = self.k, self.bench
        fs = b.put("s%d" % k, self.sent)
        fo = None if self.dorg is None else b.put("q%d" % k, self.dorg)
        fd = os.path.join(b.w, "d%d" % k)
        if os.path.exists(fd):
            os.unlink(fd)
        if self.calls:
            rng = random.Random(k)
            self.total = sum(p["size"] + p["pad"] for p in raw.parse(self.sent)[0])
            cap = min(self.total + 8192, 1 << 24)
            ch = ",".join(str(rng.choice([1, 7, 24, 512, 1000, 4096, 65536])) for _ in range(rng.choice([1, 2, 3]))) if self.total < 20000 else "4096,513"
            self.log = fd + ".log"
            return ["dec %s %s %d %d %d %d %s %s" % (fs, fo or "-", rng.choice([2, 64, 512, 4096]) if self.total < 20000 else 4096,
                                                     rng.choice([0, 4096, 1 << 33]), rng.choice([0, 4096, 1 << 34]), cap, self.log, ch)]
        s = ["open 0 %s r+b" % fs]
        if fo:
            s.append("open 2 %s r+b" % fo)
        s += ["open 1 %s w+b" % fd, "tdec 0 1 %s" % ("2" if fo else "-")]
        self.at = len(s) - 1
        s += ["hsame 0 " + fs] + (["hsame 2 " + fo] if fo else []) + ["hsame 1 " + fd]
        s += ["close 0", "close 1"] + (["close 2"] if fo else [])
        s += ["open 3 %s rb" % fd, "psize 3", "close 3"]
        if self.sc.signed:
            s += ["vfile %s %s.pub" % (b.put("v%d" % k, self.inp), os.path.join(VERIF, "keys", KEY)),
                  "vfile %s %s.pub" % (fd, os.path.join(VERIF, "keys", KEY))]
        return s

    def dec_events(self, r):
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"]}]
        b, k = self.bench, self.k
        parts, uuid = describe(self.sent, self.dorg, False)
        rc = r[0]["rc"] if self.calls else r[self.at]["rc"]
        e = {"a": "dec", "parts": parts, "uuid": uuid, "org": origin_facts(self.dorg), "ok": rc == 0, "hdr": masked(self.sent),
             "kept": b.get("s%d" % k) == self.sent and (self.dorg is None or b.get("q%d" % k) == self.dorg)}
        out = None
        e["held"] = self.calls or held(r, e["ok"])
        if e["ok"]:
            if self.calls:
                head, body = replay(read_log(self.log), self.total + 8192)
                out = (head or b"") + (body or b"")
                e["size"], e["inst"] = len(out), len(out) - 4096
            else:
                out = b.get("d%d" % k)
                i = next(i for i, y in enumerate(r) if "inst" in y)
                e["size"], e["inst"] = r[i]["size"], r[i]["inst"]
            e["out"] = [] if len(out) < 4096 else describe(out, None, False)[0]
            e["outhdr"], e["len"] = masked(out), len(out)
        evs = [e]
        if self.clean:
            v = [y["rc"] == 0 for y in r[-2:]] if self.sc.signed and not self.calls else [True, True]
            evs.append({"a": "round", "ok": e["ok"], "infile": sha(self.inp), "outfile": sha(out) if out else "none",
                        "verifiedbefore": v[0], "verified": v[1]})
        return evs


def play(ctx, drv, name, scenarios, seed, deep=False, one=One):
    """Carries out scenarios and judges them."""
    bench = Bench(sub("w-" + name))
    ones = [one(k, x, seed * 100003 + k, bench, drv, deep) for k, x in enumerate(scenarios)]

    def encode(os_):
        reps = drv.run([o.enc_lines() for o in os_], bench.w, jobs=8)
        return [None if r is None else o.enc_event(r) for o, r in zip(os_, reps)]

    def decode(os_):
        reps = drv.run([o.dec_lines() for o in os_], bench.w, jobs=8)
        return [None if r is None else o.dec_events(r) for o, r in zip(os_, reps)]
    ev = {o.k: [e] for o, e in zip(ones, encode(ones)) if e is not None}
    go = [o for o in ones if o.k in ev and ev[o.k][0].get("ok") and o.dec_setup()]
    for o, es in zip(go, decode(go)):
        if es is not None:
            ev[o.k] += es
    for es in ev.values():
        for e in es:
            ctx.count("%s:%s" % (e["a"], e.get("ok")))
    order = sorted(ev)

    def again(t):
        o = ones[order[t]]
        res = [encode([o])[0]]
        if res[0].get("ok") and o in go:
            res += decode([o])[0]
        return res
    ctx.sample({"scenario": scenarios[order[0]]})
    return judge(ctx, name, "BpakTransportTrace", [ev[k] for k in order],
                 lambda t, l: "scenario %s\n%s\n%s" % (ones[order[t]].x, "\n".join(ones[order[t]].enc_lines()),
                                                      "\n".join(ones[order[t]].dec_lines()) if ones[order[t]] in go else ""), again, CONSTS)


INV = ("SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS RoundTrip CodedRight NoWrong EncRefuse EmitInv\nCONSTANTS Arity=128\n MaxLevels=4\n"
       " HashOp <- MCHash\n Zero=0\n MaxItems=%d\n Emit=%s\n")
GOOD = {"plain", "diff", "fsp", "fsd"}


def run_round():
    ctx = Ctx("C10")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 47 + 10)
    r = check_model(ctx, "transport", "BpakTransportMC", INV % (2, "TRUE"))
    if THOROUGH:
        check_model(ctx, "transport-3", "BpakTransportMC", INV % (3, "FALSE"))
    sc = [x for x in r.prints if x["acc"] == "none" and set(x["items"]) <= GOOD and x["dorg"] in ("ok",) and x["eorg"] in ("ok", "none")]
    todo = sc * (3 if not THOROUGH else 20)
    for _ in range(260 if not THOROUGH else 4000):
        todo.append({"items": [rng.choice(["plain", "diff", "diff", "fsp", "fsd"]) for _ in range(rng.choice([1, 2, 3, 4, 6, 9]))],
                     "eorg": "ok", "acc": "none", "dorg": "ok"})
    play(ctx, drv, "rounds", todo, SEED * 3 + 1, deep=THOROUGH)
    ctx.assumptions += ["contents are compared by digest", "what liblzma decodes is taken from Python's lzma module"]
    return ctx.finish()


def run_refuse():
    ctx = Ctx("C11")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 53 + 11)
    r = check_model(ctx, "transport", "BpakTransportMC", INV % (2, "TRUE"))
    if THOROUGH:
        check_model(ctx, "transport-3", "BpakTransportMC", INV % (3, "FALSE"))
    sc = list(r.prints)
    one = [x for x in sc if len(x["items"]) <= 1]
    two = [x for x in sc if len(x["items"]) == 2]
    todo = one + (two if THOROUGH else rng.sample(two, 900))
    for _ in range(500 if not THOROUGH else 6000):
        good = rng.random() < .7
        todo.append({"items": [rng.choice(["plain", "diff", "diff", "fsp", "fsd"] if good else ["plain", "diff", "fsd", "mix", "pre", "pre", "carry", "carry", "badenc", "baddec", "rmonly"])
                               for _ in range(rng.choice([1, 2, 3, 4]))],
                     "eorg": rng.choice(["ok", "ok", "ok", "ok", "nopart", "uuid", "none"]), "short": rng.random() < .08,
                     "acc": rng.choice(["none", "cut", "flip", "flip", "root", "salt", "nodata", "data", "length", "length", "nouuid"]),
                     "dorg": rng.choice(["ok", "ok", "ok", "changed", "changed", "nopart", "uuid", "nouuid", "none"])})
    play(ctx, drv, "accidents", todo, SEED * 5 + 2)
    ctx.assumptions += ["contents are compared by digest", "what liblzma decodes is taken from Python's lzma module"]
    return ctx.finish()
