"""C06, C07: signing and verification of package files against BpakPackage.tla."""
from .package import *

FAST = ["ec256a", "ec256b", "rsa4096a", "rsa4096b", "ec384", "ec521"]


def model_scripts(ctx, inp, d, depth, limit=None):
    r = check_model(ctx, "sign-edit-tamper", "BpakSignMC",
                    "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nCONSTRAINT Shallow\nINVARIANTS Sound Complete OneKey EmitInv\n" +
                    consts(dict(REAL, Keys='{"ec256a", "ec256b"}', MaxLive=2, MaxLedger=2, MaxDepth=depth, Emit="TRUE")), workers=1)
    paths = [x["path"] for x in r.prints]
    if limit and len(paths) > limit:
        long_ = [p for p in paths if any(x["a"] == "sign" for x in p)]
        random.Random(SEED).shuffle(long_)
        paths = long_[:limit]
    out = []
    for k, p in enumerate(paths):
        s = PScript("m%d" % k, inp, d)
        s.create()
        n = 0
        for x in p:
            a = x["a"]
            if a.startswith("tamper"):
                s.close()
                ln = ("flip %s %d 1" % (s.pkg, 3545 if a == "tamperhdr" else 3582 + 20) if a != "tamperpart"
                      else "flipp %s %s %d 16" % (s.pkg, nid(x["i"]), 100))
                s.tamper([ln])
                s.open()
            elif a == "junk":
                s.rawsig(hashlib.sha512(b"junk").digest() + b"abcdef")
            elif a == "take":
                s.takesig(512)
            elif a == "sign":
                n += 1
                s.sign(x["key"])
                s.keepsig(n)
            elif a == "old":
                s.oldsig(x["n"])
            elif a == "keyid":
                s.step({"a": "pset", "f": "keyid", "v": x["v"]}, ["pset 0 keyid " + x["v"]])
            else:
                s.model_action(x)
            s.verify("ec256a")
            s.verify("ec256b")
        s.close()
        s.vfile("ec256a")
        s.vfile("ec256b")
        out.append(s)
    return out


def base(s, rng, key, hk, tree):
    """A signed package with plain, excluded and (optionally) tree parts, closed."""
    s.create()
    if hk != 1:
        s.setf("hash", hk)
    s.addmeta("bpak-package", "0", rng.randbytes(16))
    s.addfile("kernel", "r%d" % rng.choice([513, 5000, 8191]), odd(rng, 0))
    s.addfile("notes", "r%d" % rng.choice([7, 1000, 4097]), odd(rng, 1))
    if tree:
        s.addmerkle("fs", rng.choice(["t8192", "t20480"]), 0)
    s.addfile("tail", "r%d" % rng.choice([1, 512, 4608]), 0)
    s.addmeta("mm", "kernel", rng.randbytes(9))
    s.setf("keyid", "k1")
    s.setf("ksid", "s1")
    s.sign(key)
    s.close()


def layout_of(drv, s):
    """run the script once to learn where things are in the file"""
    d = sub("lay")
    drv.run([[l for l in s.lines() if not l.startswith("snap")]], d)
    with open(s.pkg, "rb") as f:
        b = f.read()
    os.unlink(s.pkg)
    return project(b), len(b), b


def sweep(ctx, drv, inp, d, rng, n, dense):
    """one change at a time anywhere in a signed package"""
    out = []
    combos = [(k, h) for h in (1, 2, 3) for k in GOODKEYS]
    rng.shuffle(combos)
    combos = combos[:n]
    for j, (key, hk) in enumerate(combos):
        s = PScript("w%d" % j, inp, d)
        st = rng.getstate()
        base(s, rng, key, hk, j % 2 == 0)
        (proj, hf, parts), size, raw = layout_of(drv, s)
        s = PScript("w%d" % j, inp, d)
        rng.setstate(st)
        base(s, rng, key, hk, j % 2 == 0)
        s.vfile(key)
        for o in GOODKEYS + BADKEYS + ["absent"]:
            if o != key:
                s.vfile(o)
        sl = struct.unpack_from("<H", raw, 4094)[0]
        pos = set([0, 3, 4, 7, 8, 3463, 3464, 3465, 3466, 3467, 3468, 3499, 3531, 3532, 3535, 3536, 3539, 3540, 3581, 3582, 3583,
                   3582 + sl - 1, 3582 + sl, 4093, 4094, 4095, 519, 520, 1543, 1544, 1543 + 1920])
        for q, off, body in parts:
            pos |= {off, off + len(body) - 1, off + min(len(body) - 1, q["s"]), off + max(0, q["s"] - 1)}
            pos |= {off + x for x in (4095, 4096) if x < len(body)}
        pos |= set(range(j % dense, 4096, dense)) | {4096 + rng.randrange(size - 4096) for _ in range(max(8, 300 // dense))}
        prev = None
        for p in sorted(x for x in pos if 0 <= x < size):
            m = rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            ch = (["flip %s %d %d" % (s.pkg, prev[0], prev[1])] if prev else []) + ["flip %s %d %d" % (s.pkg, p, m)]
            s.vfile(key, ch)
            prev = (p, m)
        s.vfile(key, ["flip %s %d %d" % (s.pkg, prev[0], prev[1])])
        # lengths of the signature, swapped blocks, cut files
        s.step({"a": "keep"}, ["cp %s %s" % (s.pkg, s.path("kept"))], snap=False, extra="keep")
        back = "cp %s %s" % (s.path("kept"), s.pkg)
        for z in [0, 1, sl - 1, sl + 1, 2 * sl, 512, 513, 65535]:
            s.vfile(key, [back, "poke %s 4094 %s" % (s.pkg, struct.pack("<H", z & 65535).hex())])
        ends = [size - 1, size - 511, size - 512, size - 513]
        for q, off, body in parts:
            ends += [off, off + 1, off + q["s"]]
        for z in sorted({x for x in ends + [4095, 4097, 100, 0] if x < size}):
            s.vfile(key, [back, "trunc %s %d" % (s.pkg, z)])
        s.vfile(key, [back, "trunc %s %d" % (s.pkg, size + 700)])
        for _ in range(12):
            # exchange contents inside the hashed area
            a, b_ = rng.sample(range(4096, size - 64), 2)
            s.vfile(key, [back, "poke %s %d %s" % (s.pkg, a, raw[b_:b_ + 64].hex())])
        s.vfile(key, [back, "poke %s 3582 %s" % (s.pkg, bytes(514).hex())])
        s.vfile(key, [back])
        out.append(s)
    return out


def tree_scripts(drv, inp, d, rng, n):
    """hash trees under a payload hash and a signature that are current, so that only the tree can tell"""
    out = []
    for j in range(n):
        s = PScript("z%d" % j, inp, d)
        key = rng.choice(["ec256a", "rsa4096a"])
        data = inp.get("t%d" % (4096 * rng.choice([1, 2, 5, 128, 129, 130, 200])))
        salt = rng.randbytes(32)
        root, tree = merkle(data, salt)
        kind = rng.choice(["good", "data", "tree", "root", "salt", "nosalt", "noroot", "notree", "short", "odd", "long", "padding",
                           "excluded", "two", "order", "swap"])
        data, tree, root, salt = bytearray(data), bytearray(tree), bytearray(root), bytearray(salt)
        flags = 0
        if kind == "data":
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        elif kind == "tree":
            tree[rng.randrange(len(tree))] ^= 1 << rng.randrange(8)
        elif kind == "padding":
            z = [k for k in range(len(tree)) if tree[k] == 0]
            tree[rng.choice(z)] ^= 1
        elif kind == "root":
            root[rng.randrange(32)] ^= 1 << rng.randrange(8)
        elif kind == "salt":
            salt[rng.randrange(32)] ^= 1 << rng.randrange(8)
        elif kind == "short":
            tree = tree[:-512]
        elif kind == "long":
            tree = tree + rng.randbytes(512)
        elif kind == "odd":
            data = data[:-rng.choice([1, 512, 4095])]
        elif kind == "excluded":
            flags = 1
            if rng.random() < .7:
                data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
        elif kind == "swap" and len(tree) > 4096:
            tree = tree[4096:] + tree[:4096]
        if kind in ("short", "odd"):
            flags = odd(rng, rng.choice([0, 1]))
        fd, ft = inp.put("zd%d" % j, bytes(data)) and "zd%d" % j, inp.put("zt%d" % j, bytes(tree)) and "zt%d" % j
        s.create()
        if rng.random() < .5:
            s.addfile("first", "r%d" % rng.choice([7, 513, 5000]), odd(rng, rng.choice([0, 1])))
        if kind == "two":
            s.addmerkle("other", "t8192")
        if kind == "order" and kind != "notree":
            s.addfile("fs-hash-tree", ft, flags)
        s.addfile("fs", fd, flags)
        if kind not in ("notree", "order"):
            s.addfile("fs-hash-tree", ft, flags)
        if kind != "noroot":
            s.addmeta_id(ROOT_ID, "fs", bytes(root))
        if kind != "nosalt":
            s.addmeta_id(SALT_ID, "fs", bytes(salt))
        s.sign(key)
        s.verify(key)
        s.close()
        s.vfile(key)
        if rng.random() < .6:
            # with the tree part excluded from hashing the file can be changed after signing
            s.vfile(key, ["flipp %s %s %d %d" % (s.pkg, nid("fs-hash-tree" if kind != "notree" else "fs"),
                                                 rng.randrange(1 << 20), 1 << rng.randrange(8))])
        out.append(s)
    return out


def foreign_scripts(inp, d, rng, n):
    """Packages made and signed elsewhere: whatever the stated payload hash is, right,
    blank, of other parts than it has to be of, or wrong in one place"""
    out = []
    for j in range(n):
        s = PScript("f%d" % j, inp, d)
        key, hk = GOODKEYS[j % len(GOODKEYS)], 1 + j // 2 % 3
        names = ["c%d" % k for k in range([1, 1, 2, 3, 0, 5][j % 6])]
        b = bytearray(crafted(rng, names, coded=rng.random() < .4, metas=[("m", "0", rng.randbytes(5))] * rng.choice([0, 1]), hk=hk))
        size = {1: 32, 2: 48, 3: 64}[hk]
        if rng.random() < .5:
            # every pattern of parts outside the hash, this one hash not following it
            for k in range(len(names)):
                b[520 + 32 * k + 30] = (b[520 + 32 * k + 30] & ~1) | rng.choice([1, 1, 0])
        wrong = ["right", "blank", "bit", "last", "all", "none"][j % 6 if j % 2 else rng.randrange(6)]
        if wrong == "blank":
            b[3468:3532] = bytes(64)
        elif wrong in ("bit", "last"):
            b[3468 + (size - 1 if wrong == "last" else rng.randrange(size))] ^= 1 << rng.randrange(8)
        elif wrong == "all":
            b[3468:3468 + size] = digest(hk, bytes(b[4096:]))
        elif wrong == "none":
            b[3468:3468 + size] = digest(hk, b"")
        b = bytes(b)
        if rng.random() < .3:
            b = noise(rng, b)
        sig = ext_sign(key, hk, header_digest(b))
        b = b[:3582] + (sig + bytes(512))[:512] + struct.pack("<H", len(sig)) + b[4096:]
        src = inp.path("foreign%d" % j)
        with open(src, "wb") as f:
            f.write(b)
        s.load(src)
        s.open()
        s.extsign(key, sig)
        s.verify(key)
        s.verify(rng.choice([k for k in GOODKEYS if k != key]))
        s.close()
        s.vfile(key)
        s.open()
        if rng.random() < .5:
            s.updhash()
            s.verify(key)
        s.addfile("late", "r7", rng.choice([0, 1]))
        s.verify(key)
        s.sign(key)
        s.verify(key)
        s.close()
        s.vfile(key)
        out.append(s)
    return out


def random_sign_history(s, rng, n, keys):
    s.create()
    names = ["n%d" % k for k in range(4)]
    live, nsig = [], 0
    for _ in range(n):
        x = rng.random()
        key = rng.choice(keys)
        if x < .15:
            i = rng.choice(names)
            s.addfile(i, "r%d" % rng.choice([0, 7, 513, 5000]), odd(rng, rng.choice([0, 0, 1])))
            live.append(i)
        elif x < .19:
            s.addmerkle(rng.choice(names), rng.choice(["t4096", "t8192"]))
        elif x < .24 and live:
            s.delpart(live.pop(), rng.random() < .5)
        elif x < .29:
            s.addmeta("m%d" % rng.randrange(2), "0", b"12345678"[:rng.choice([1, 5, 8])])
        elif x < .34:
            s.delmeta("m%d" % rng.randrange(2), "0")
        elif x < .36:
            s.setf("hash", rng.choice([1, 2, 3]))
        elif x < .4:
            s.setf(rng.choice(["keyid", "ksid"]), rng.choice(["a", "b"]))
        elif x < .42:
            s.updhash(rng.choice([64, 64, 48, 32, 31, 47, 63, rng.randrange(64)]))
        elif x < .6:
            s.sign(key if rng.random() < .93 else rng.choice(BADKEYS + ["absent"]))
            nsig = (nsig + 1) % 8
            s.keepsig(nsig)
        elif x < .68:
            s.oldsig(rng.randrange(8))
        elif x < .71:
            s.takesig(rng.choice([0, 10, 70, 72, 512, 600]))
        elif x < .74:
            s.rawsig(rng.randbytes(rng.choice([0, 1, 70, 512, 513, 600])))
        elif x < .80:
            s.close()
            if live and rng.random() < .7:
                s.tamper(["flipp %s %s %d %d" % (s.pkg, nid(rng.choice(live)), rng.randrange(10000), rng.choice([1, 128]))])
            else:
                s.tamper(["flip %s %d 1" % (s.pkg, rng.choice([3541, 3600, 3583, 3532, 3470]))])
            s.open()
        elif x < .84:
            s.close()
            s.open()
        elif x < .87:
            s.close()
            s.keep()
            s.open()
            s.has_kept = True
        elif x < .9 and getattr(s, "has_kept", False):
            s.bring()
        s.verify(key if rng.random() < .95 else rng.choice(BADKEYS + ["absent"]))
    s.close()
    for k in keys:
        s.vfile(k)


def run_verify(prop="C06"):
    ctx = Ctx(prop)
    drv = Driver(build_driver())
    inp = Inputs()
    d = sub("pk")
    rng = random.Random(SEED * 104729 + 6)
    check_model(ctx, "design", "BpakSignMC", "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nCONSTRAINT Shallow\n"
                "INVARIANTS Sound Complete OneKey\n" + consts(dict(REAL, Keys='{"ec256a", "ec256b"}', MaxLive=2, MaxLedger=2,
                MaxDepth=9 if not THOROUGH else 12, Emit="FALSE")))
    ms = model_scripts(ctx, inp, d, 6 if not THOROUGH else 7, 200 if not THOROUGH else None)
    ctx.sample({"script_from_model": ms[-1].lines()[:12]})
    run_scripts(ctx, "model-scripts", drv, ms)
    sw = sweep(ctx, drv, inp, d, rng, 6 if not THOROUGH else 18, 16 if not THOROUGH else 1)
    ctx.sample({"sweep": sw[0].lines()[-12:]})
    run_scripts(ctx, "one-change", drv, sw)
    run_scripts(ctx, "trees", drv, tree_scripts(drv, inp, d, rng, 60 if not THOROUGH else 600))
    fs = foreign_scripts(inp, d, rng, 60 if not THOROUGH else 900)
    ctx.sample({"foreign": fs[-1].lines()[:8]})
    run_scripts(ctx, "signed-elsewhere", drv, fs)
    rs = []
    for j in range(40 if not THOROUGH else 300):
        s = PScript("r%d" % j, inp, d)
        random_sign_history(s, rng, 30, rng.sample(GOODKEYS, 2) if j % 3 == 0 else ["ec256a", "ec256b"])
        rs.append(s)
    run_scripts(ctx, "random-histories", drv, rs)
    ctx.assumptions += ["a signature is valid for exactly the key and header digest it was made with (unforgeability, collision resistance)",
                        "bytes of the signature field behind the signature length are not covered by any signature"]
    from . import vast
    vast.run(ctx, vast.pick(1))
    return ctx.finish()


# ------------------------------------------------------------ C07

def run_outside(prop="C07"):
    ctx = Ctx(prop)
    drv = Driver(build_driver())
    inp = Inputs()
    d = sub("pk")
    rng = random.Random(SEED * 130363 + 7)
    model = model_scripts(ctx, inp, d, 5, None)
    run_scripts(ctx, "model-scripts", drv, model[:60] if not THOROUGH else model)
    out = []
    # every length, one after the other in random order
    lens = list(range(0, 701))
    rng.shuffle(lens)
    per = 90
    for j in range(0, len(lens), per):
        s = PScript("l%d" % j, inp, d)
        src = inp.path("len%d" % j)
        with open(src, "wb") as f:
            f.write(crafted(rng, ["a", "b"], coded=False, metas=[("m", "0", b"abc")], hk=rng.choice([1, 2, 3])))
        s.load(src)
        s.open()
        cur = 0
        for z in lens[j:j + per]:
            s.rawsig(rng.randbytes(z))
            if z <= 512:
                cur = z
            x = rng.random()
            if x < .3 and cur:
                s.takesig(max(0, cur - rng.choice([1, 2, 30])))
            elif x < .5:
                s.takesig(cur + rng.choice([0, 0, 1, 40]))
                cur = 0
            elif x < .6:
                s.close()
                s.open()
        s.close()
        out.append(s)
    # signatures made by openssl over the digest the library hands out
    combos = [(k, h) for k in GOODKEYS for h in (1, 2, 3)]
    for j in range(len(combos) if not THOROUGH else 6 * len(combos)):
        key, hk = combos[j % len(combos)]
        s = PScript("o%d" % j, inp, d)
        b = crafted(rng, ["a", "b", "c"][:rng.choice([0, 1, 3])], coded=False,
                    metas=[("m", "0", rng.randbytes(5))] * rng.choice([0, 1]), hk=hk, stale=False)
        if rng.random() < .5:
            # an older, longer signature is there already
            x = rng.randbytes(rng.choice([20, 512]))
            b = b[:3582] + (x + bytes(512))[:512] + struct.pack("<H", len(x)) + b[4096:]
        src = inp.path("out%d" % j)
        with open(src, "wb") as f:
            f.write(b)
        sig = ext_sign(key, hk, header_digest(b))
        s.load(src)
        s.open()
        s.updhash(rng.choice([64, 48, 32, 31, 47, 63, rng.randrange(64)]))
        s.extsign(key, sig)
        s.rawsig(sig)
        s.verify(key)
        other = rng.choice([k for k in GOODKEYS if k != key])
        s.verify(other)
        s.keepsig(1)
        s.takesig(512)
        s.verify(key)
        s.oldsig(1)
        s.verify(key)
        s.addmeta("later", "0", b"x")
        s.verify(key)
        s.delmeta("later", "0")
        s.verify(key)
        s.sign(other)
        s.verify(key)
        s.verify(other)
        s.rawsig(sig)
        s.rawsig(rng.randbytes(513))
        s.verify(key)
        s.rawsig(sig + b"\0")
        s.verify(key)
        s.rawsig(sig[:-1])
        s.verify(key)
        s.rawsig(b"")
        s.verify(key)
        s.rawsig(sig)
        s.close()
        s.vfile(key)
        out.append(s)
    ctx.sample({"outside": out[-1].lines()[:12]})
    run_scripts(ctx, "outside", drv, out)
    from . import tool
    hs = tool.outside_histories(tool.World(), rng, 18 if not THOROUGH else 180)
    tool.perform(ctx, "outside-tool", hs)
    ctx.sample({"outside_tool": hs[0].log[:12]})
    rs = []
    for j in range(20 if not THOROUGH else 200):
        s = PScript("r%d" % j, inp, d)
        random_sign_history(s, rng, 30, rng.sample(GOODKEYS, 2))
        rs.append(s)
    run_scripts(ctx, "random-histories", drv, rs)
    ctx.assumptions += ["openssl is the reference for signatures made and checked outside"]
    return ctx.finish()
