"""Packages with parts beyond 2 and 4 GiB (files with holes), by hash functions that are quick over zeros."""
import os, random
from .core import *
from . import package as pk, raw
from .plug import Plugged

P31, P32 = 1 << 31, 1 << 32
SIZES = [P31 - 512, P31 + 5, P32 - 512, P32 - 1, P32, P32 + 1, P32 + 4096, P32 + P31 + 77, 2 * P32 + 513]


def vast(rng, n):
    at = [(o, rng.randbytes(rng.choice([1, 7, 4096, 5000]))) for o in (0, P31 - 3, P31 + 5000, P32 - 9, P32 + 8192, n - 5100) if 0 <= o < n - 5100 or o == n - 5100]
    return raw.Sparse(n, at)


def package(rng, name, n, tree):
    v = vast(rng, n // 4096 * 4096 if tree else n)
    n = len(v)
    parts, metas = [], [("plain", 0, rng.randbytes(20))]
    if rng.random() < .7:
        parts.append(raw.Part("first", rng.randbytes(rng.choice([1, 513, 4096]))))
    parts.append(raw.Part("vast", v, rng.choice([0, 0, 1]) if tree else 0))
    if tree:
        salt = rng.randbytes(32)
        root, t = pk.merkle(v, salt)
        # the tree itself is long: left out of the payload hash
        parts.append(raw.Part("vast-hash-tree", t, 1))
        metas += [("merkle-salt", "vast", salt), ("merkle-root-hash", "vast", root)]
    parts.append(raw.Part("last", rng.randbytes(rng.choice([0, 700, 5000]))))
    raw.spill(name, raw.package(parts, metas, hk=rng.choice([1, 2, 3])))
    return v


def scripts(rng, inp, d, sizes, trees):
    out = []
    for k, (n, tree) in enumerate([(n, False) for n in sizes] + [(n, True) for n in trees]):
        src = "%s/v%d" % (d, k)
        v = package(rng, src, n, tree)
        s = pk.PScript("vast%d" % k, inp, d)
        s.load(src)
        s.open()
        s.look()
        key = rng.choice(pk.GOODKEYS)
        s.psha("vast")
        s.psha("last")
        s.extract("last")
        s.addfile("extra", "r700")
        s.sign(key)
        s.verify(key)
        s.close()
        s.vfile(key)
        for o in rng.sample([o for o, _ in v.at] + [rng.randrange(len(v)), len(v) - 1], 2):
            s.vfile(key, ["flipp %s %s %d 1" % (s.pkg, pk.nid("vast"), o)])
            s.vfile(key, ["flipp %s %s %d 1" % (s.pkg, pk.nid("vast"), o)])
        out.append(s)
    return out


def whole(rng, inp, d):
    """all of it is written: into a package, out of it, and moved within it"""
    inp.put("vastin", vast(rng, P32 + 5000))
    s = pk.PScript("whole", inp, d)
    s.create()
    s.addfile("first", "r513")
    s.addfile("vast", "vastin")
    s.addfile("last", "r5000")
    for i in ("vast", "last"):
        s.psha(i)
        s.extract(i)
    s.delpart("first", True)
    s.psha("vast")
    s.extract("last")
    s.delpart("vast", True)
    s.extract("last")
    s.close()
    inp.put("vasttree", vast(rng, P32 + 8192))
    t = pk.PScript("wholetree", inp, d)
    t.create()
    t.addmerkle("vast", "vasttree")
    t.sign("ec256a")
    t.verify("ec256a")
    t.close()
    return [s, t]


def pick(n):
    if THOROUGH:
        return SIZES
    rng = random.Random(SEED * 7 + n)
    return [rng.choice(SIZES[5:])] + rng.sample(SIZES[:5], n - 1)


def run(ctx, sizes, trees=(), full=False):
    rng = random.Random(SEED * 97 + 31)
    drv = Plugged(build_driver(), "hkl 0")
    toy = pk.toy_keys(sub("toykeys-vast"))
    pk.plug(toy, 0, True)
    inp, d = pk.Inputs("inputs-vast"), sub("vast")
    if sizes or trees:
        pk.run_scripts(ctx, "vast", drv, scripts(rng, inp, d, sizes, trees), jobs=8)
    v = os.statvfs(d)
    if full and v.f_bavail * v.f_frsize > 60 << 30:
        pk.run_scripts(ctx, "vast-whole", drv, whole(rng, inp, d), jobs=2)
    pk.plug(None, 0)
