"""C08: hash trees against BpakMerkle.tla."""
import hashlib, os, random, struct
from .core import *
from .package import ROOT_ID, SALT_ID, merkle
from .header import nid

B = 4096
OFF = (0, 1, 4095)          # byte offsets of the model's units in a block
CONSTS = "CONSTANTS Arity=128\n MaxLevels=4\n HashOp <- HashOf\n Zero=0\n"


def br(n):
    """a length in blocks and rest; beyond what any tree can hold, blocks are capped"""
    return {"b": min(n // B, 1 << 29), "r": n % B}


def ref_blocks(n):
    b = (n // B + 127) // 128
    t = b
    while b > 1:
        b = (b + 127) // 128
        t += b
    return t


class Run:
    """One tree: the commands and how to turn the replies into a trace."""

    def __init__(self, data, salt, cuts, zf=1, off=0, length=None, name="", finish=True, odd=None):
        self.data, self.salt, self.zf, self.off = data, salt, zf, off
        # None: too early an end; negative: a piece too much
        self.cuts = cuts = list(cuts)
        if odd:
            for _ in range(odd.choice([1, 1, 2, 3])):
                k = odd.randrange(len(cuts) + 1)
                cuts.insert(k, odd.choice([None, None, "over", "over1"]))
            if odd.random() < .5:
                cuts.append(odd.choice([None, "over1"]))
        self.length = len(data) if length is None else length
        self.name, self.finish = name, finish

    def script(self, w, k):
        self.df, self.tf = os.path.join(w, "d-" + self.name), os.path.join(w, "t%d" % k)
        if not os.path.exists(self.df):
            with open(self.df, "wb") as f:
                f.write(self.data + bytes(2 * B))
        cap = ref_blocks(self.length) * B if self.length <= 1 << 30 else B
        s = ["mdata " + self.df,
             "minit %d %s %d %d %d" % (self.length, hexs(self.salt), self.zf, self.off, cap)]
        pos = 0
        for j, c in enumerate(self.cuts):
            if c is None:
                s.append("mfin %s-%d" % (self.tf, j))
            elif c in ("over", "over1"):      # from the start of the data, always there
                s.append("mfeed 0 %d" % self.over(pos, c))
            else:
                s.append("mfeed %d %d" % (pos, c))
                pos += c
        if self.finish:
            s += ["mfin " + self.tf, "mfin " + self.tf]
        return s

    def over(self, pos, how):
        n = self.length - pos + 1
        return n if how == "over1" else n + B

    def trace(self, reps):
        out = []
        for r in reps:
            if "crash" in r:
                return out + [{"a": "crash", "why": r["crash"]}]
        i = reps[1]
        out.append({"a": "init", "n": br(self.length), "salt": len(self.salt), "ok": i["rc"] == 0,
                    "tb": i["size"] // B, "tr": i["size"] % B})
        if i["rc"] != 0:
            return out
        pos = 0
        for c, r in zip(self.cuts + ([None, None] if self.finish else []), reps[2:]):
            if c is None:
                out.append({"a": "finish", "ok": r["rc"] == 0})
                if r["rc"] == 0:
                    with open(r["f"], "rb") as f:
                        tree = f.read()
                    out.append(result(self.data[:self.length], self.salt, tree, bytes.fromhex(r["root"]), {"a": "result", "outside": r["outside"] != 0}))
                if r["f"] != self.tf:
                    os.unlink(r["f"])
            else:
                n = self.over(pos, c) if isinstance(c, str) else c
                out.append({"a": "feed", "n": br(n), "ok": r["rc"] == 0})
                if not isinstance(c, str):
                    pos += c
        return out


_leaf = {}


def leaves(data, salt):
    k = (sha(data), salt)
    if k not in _leaf:
        _leaf.clear()
        _leaf[k] = [hashlib.sha256(salt + data[o:o + B]).digest() for o in range(0, len(data), B)]
    return _leaf[k]


def result(data, salt, tree, root, ev):
    """Tokens for hashes (numbers in order of appearance) and the salted hashes
    of the blocks found in the tree and of those the data asks for."""
    ids = {bytes(32): 0}

    def t(h):
        return ids.setdefault(h, len(ids))
    lv = leaves(data, salt)
    ev["leaves"] = [t(h) for h in lv]
    ev["root"] = t(root)
    blocks = [tree[o:o + B] for o in range(0, len(tree), B)]

    def entries(b):
        b = b + bytes(-len(b) % B)
        return [t(b[k:k + 32]) for k in range(0, B, 32)]
    ev["tree"] = [entries(b) for b in blocks]
    ref = merkle(data, salt)
    want = [ref[1][o:o + B] for o in range(0, len(ref[1]), B)] if ref else []
    seen, facts = set(), []
    for b in blocks + want:
        if b not in seen and len(b) == B:
            seen.add(b)
            facts.append([entries(b), t(hashlib.sha256(salt + b).digest())])
    ev["facts"] = facts
    return ev


def units(cuts):
    """unit cuts of the model as byte cuts"""
    pos, out, last = 0, [], 0
    for c in cuts:
        pos += c
        at = pos // 3 * B + OFF[pos % 3]
        out.append(at - last)
        last = at
    return out


def random_cuts(rng, n):
    kind = rng.choice(["one", "block", "small", "odd", "mix", "mix", "near"])
    out, left = [], n
    while left:
        if kind == "one":
            c = left
        elif kind == "block":
            c = B
        elif kind == "small":
            c = rng.choice([1, 31, 32, 33, 511, 512, 513])
            if n > 40 * B:
                c = 5 * B + c
        elif kind == "odd":
            c = 4097
        elif kind == "near":
            c = rng.choice([4095, 4096, 4097, 8191, 8192, 8193])
        else:
            c = rng.choice([0, 1, 4095, 4096, 4097, 12288, rng.randrange(1, 3 * B), rng.randrange(1, 200 * B)])
        c = min(c, left)
        out.append(c)
        left -= c
    return out


def blocks_of(rng, n, kind):
    if kind == "zero":
        return bytes(n * B)
    if kind == "same":
        return rng.randbytes(B) * n
    if kind == "sparse":
        d = bytearray(n * B)
        for _ in range(5):
            d[rng.randrange(n * B)] = rng.randrange(256)
        return bytes(d)
    return rng.randbytes(n * B)


def run():
    ctx = Ctx("C08")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 31 + 8)
    inv = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Correct NoEarly Covers EmitInv\nCONSTANTS Arity=2\n MaxLevels=4\n HashOp <- SymHash\n Zero <- ZeroTok\n"
    r = check_model(ctx, "cuts", "BpakMerkleMC", inv + " Unit=3\n MaxBlocks=%d\n MaxCut=9\n Emit=TRUE\n" % (4 if THOROUGH else 3))
    check_model(ctx, "trees", "BpakMerkleMC", inv + " Unit=2\n MaxBlocks=%d\n MaxCut=5\n Emit=FALSE\n" % (16 if THOROUGH else 12))
    check_model(ctx, "trees-3", "BpakMerkleMC", inv.replace("Arity=2", "Arity=3") + " Unit=1\n MaxBlocks=%d\n MaxCut=3\n Emit=FALSE\n" %
                (27 if THOROUGH else 14))
    runs = []

    def salt():
        return rng.randbytes(rng.choice([32, 32, 32, 0, 1, 16, 31, 33, 64]))
    # every cutting of up to three blocks
    small = {n: blocks_of(rng, n, "random") for n in range(1, 5)}
    for x in r.prints:
        runs.append(Run(small[x["n"]], b"\x07" * 32, units(x["cuts"]), zf=len(runs) % 2, off=(len(runs) % 3) * 4096, name="s%d" % x["n"],
                        odd=rng if len(runs) % 5 == 0 else None))
    ns = [1, 2, 3, 127, 128, 129, 130, 200, 255, 256, 257, 300] + ([384, 385, 1000, 2048, 3000] if THOROUGH else [384, 385])
    for n in ns:
        for k in range(6 if not THOROUGH else 14):
            d = blocks_of(rng, n, rng.choice(["random", "random", "sparse", "zero", "same"]))
            runs.append(Run(d, salt(), random_cuts(rng, len(d)), zf=k % 2, off=rng.choice([0, 0, B, 512, 1 << 33]), name="n%d-%d" % (n, k),
                            odd=rng if k % 3 == 0 else None))
    # announced lengths that do not fit what is fed, and impossible ones
    for k in range(60 if not THOROUGH else 300):
        n = rng.choice([1, 2, 3, 5, 128, 129])
        d = blocks_of(rng, n, "random")
        what = rng.choice(["more", "less", "odd", "zero", "late"])
        if what == "more":
            runs.append(Run(d + b"x" * 5000, b"s" * 32, random_cuts(rng, len(d)) + [rng.choice([1, 32, 4095, 4096, 5000])],
                            length=len(d), name="m%d" % k))
        elif what == "less":
            runs.append(Run(d, b"s" * 32, random_cuts(rng, rng.choice([0, 1, len(d) - 1, len(d) - B, rng.randrange(len(d))])), length=len(d), name="m%d" % k))
        elif what == "late":
            c = random_cuts(rng, len(d))
            runs.append(Run(d, b"s" * 32, c + [0, 0], length=len(d), name="m%d" % k))
        else:
            runs.append(Run(d, b"s" * 32, [], length=0 if what == "zero" else len(d) + rng.choice([1, 512, 4095]), name="m%d" % k, finish=False))
    for b in [1, 2, 128, 129, 16384, 16385, 128 ** 3, 128 ** 3 + 1, 128 ** 4 - 1, 128 ** 4, 128 ** 4 + 1, 128 ** 5]:
        runs.append(Run(b"", b"", [], zf=0, length=b * B, name="e", finish=False))
    big = [(16385, "sparse"), (33000, "sparse")] + ([(16384, "random"), (16513, "sparse"), (33000, "random")] if THOROUGH else [])
    for n, kind in big:
        d = blocks_of(rng, n, kind)
        runs.append(Run(d, salt()[:32], random_cuts(rng, len(d)), name="b%d" % n))
    w = sub("w-merkle")
    scripts = [x.script(w, k) for k, x in enumerate(runs)]
    reps = drv.run(scripts, w, jobs=8)
    keep = [k for k in range(len(runs)) if reps[k] is not None]
    traces = [runs[k].trace(reps[k]) for k in keep]
    for t in traces:
        for e in t:
            ctx.count(e["a"] + (":%s" % e["ok"] if "ok" in e else ""))
    ctx.sample({k: v for k, v in traces[0][0].items()})
    ctx.sample([e for e in traces[5] if e["a"] == "feed"])

    def again(t):
        k = keep[t]
        return runs[k].trace(drv.run([scripts[k]], w)[0])
    judge(ctx, "trees", "BpakMerkleTrace", traces, lambda t, l: "\n".join(scripts[keep[t]][:200]), again, CONSTS)

    # sizes
    lens = [0, 1, 512, 4095] + [k * B + r for k in [1, 2, 127, 128, 129, 16383, 16384, 16385, 128 ** 3, 128 ** 3 + 1, 128 ** 4 - 1,
            128 ** 4, 128 ** 4 + 1, 128 ** 5, 1 << 50] for r in (0, 1, 32, 4095)]
    lens += [rng.randrange(1 << rng.randrange(12, 42)) // B * B for _ in range(300)] + [(1 << 64) - B, (1 << 63) + B, (1 << 63)]

    def sizes():
        rr = drv.run([["msize %d" % n for n in lens]], w)[0]
        return [{"a": "crash", "why": r["crash"]} if "crash" in r else
                {"a": "size", "n": br(n), "ok": r["rc"] > 0, "tb": max(0, r["rc"]) // B, "tr": max(0, r["rc"]) % B}
                for n, r in zip(lens, rr)]
    judge(ctx, "sizes", "BpakMerkleTrace", [sizes()], lambda t, l: "msize %d" % lens[l - 1], lambda t: sizes(), CONSTS)

    # trees made while adding a file to a package
    wp = sub("w-mpkg")
    files = []
    for k, n in enumerate([0, 1, B - 1, B, B + 1, 2 * B, 3 * B, 127 * B, 128 * B, 129 * B, 130 * B, 257 * B] +
                          [rng.randrange(1, 300) * B for _ in range(6 if not THOROUGH else 40)]):
        d = rng.randbytes(n)
        with open(os.path.join(wp, "f%d" % k), "wb") as f:
            f.write(d)
        files.append(d)

    def pkg(k):
        s = ["open 0 p%d w+" % k] + (["addfile 0 f1 other 0"] if k % 2 else []) + \
            (["addmerkle 0 f3 fs0 0"] if k % 3 == 1 else []) + ["addmerkle 0 f%d fs %d" % (k, k % 2), "close 0"]
        rr = drv.run([s], wp)[0]
        if any("crash" in r for r in rr):
            return [{"a": "crash", "why": rr[-1].get("crash")}]
        ev = {"a": "package", "n": br(len(files[k])), "ok": rr[-2]["rc"] == 0}
        if ev["ok"]:
            b = open(os.path.join(wp, "p%d" % k), "rb").read()
            meta, parts = {}, {}
            for j in range(32):
                i, sz, o, ref = struct.unpack_from("<IHHI", b, 8 + 16 * j)
                if i:
                    meta[(id32(i), id32(ref))] = b[1544 + o:1544 + o + sz]
            pos = B
            for j in range(32):
                i, sz, o, t, pad, fl = struct.unpack_from("<IQQQHB", b, 520 + 32 * j)
                if i:
                    parts[id32(i)] = b[pos:pos + sz + pad]
                    pos += sz + pad
            sl, root = meta.get((SALT_ID, nid("fs")), b""), meta.get((ROOT_ID, nid("fs")), b"")
            ev["data"] = parts.get(nid("fs")) == files[k] and len(sl) == 32 and len(root) == 32
            result(files[k], sl, parts.get(nid("fs-hash-tree"), b""), root, ev)
        ctx.count("package:%s" % ev["ok"])
        return [ev]
    judge(ctx, "package", "BpakMerkleTrace", [pkg(k) for k in range(len(files))],
          lambda t, l: "addmerkle of %d bytes" % len(files[t]), pkg, CONSTS)
    ctx.assumptions += ["SHA-256 of blocks is taken from hashlib"]
    return ctx.finish()
