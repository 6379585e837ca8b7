"""C09: payload verification with hash trees against BpakVerify.tla."""
import hashlib, os, random
from .core import *
from . import package as pk, raw, sign
from .merkle import B, ref_blocks

CONSTS = "CONSTANTS Arity=128\n MaxLevels=4\n HashOp <- HashOf\n Zero=0\n"
ROOT, SALT = int(pk.ROOT_ID, 16), int(pk.SALT_ID, 16)
REALN = {1: 1, 2: 5, 3: 129, 4: 140, 5: 260}


def describe(b):
    """Facts about the file b for the specification."""
    parts, metas = raw.parse(b)
    ps, hv = [], b""
    for p in parts:
        body = b[p["pos"]:p["pos"] + p["n"]]
        if not p["f"] & 1:
            hv += body
        root = metas.get((ROOT, p["id"]))
        if root is None:
            continue
        salt = metas.get((SALT, p["id"]))
        ti = crc32_cont(p["id"], b"-hash-tree")
        tp = next((q for q in parts if q["id"] == ti), None)
        e = {"n": p["n"] // B, "r": p["n"] % B, "hasroot": True, "hassalt": salt is not None, "hastree": tp is not None,
             "root": -1, "leaves": [], "have": [], "facts": []}
        if salt is not None and tp is not None and e["r"] == 0 and e["n"]:
            have = b[tp["pos"]:tp["pos"] + B * ref_blocks(p["n"])]
            ids = {bytes(32): 0}

            def t(h):
                return ids.setdefault(h, len(ids))

            def ent(x):
                return [t(x[k:k + 32]) for k in range(0, len(x) - 31, 32)]
            lv = [hashlib.sha256(salt[:32] + body[o:o + B]).digest() for o in range(0, len(body), B)]
            e["leaves"] = [t(h) for h in lv]
            e["root"] = t(root[:32])
            blocks = [have[o:o + B] for o in range(0, len(have), B)]
            e["have"] = [ent(x) for x in blocks]
            ref = pk.merkle(body, salt[:32])
            for x in dict.fromkeys(blocks + [ref[1][o:o + B] for o in range(0, len(ref[1]), B)]):
                if len(x) == B:
                    e["facts"].append([ent(x), t(hashlib.sha256(salt[:32] + x).digest())])
        ps.append(e)
    name = raw.HK[b[3464]]
    v = hashlib.new(name, hv).digest()
    return {"phok": b[3468:3468 + len(v)] == v, "ps": ps}


def flip(rng, x, at=None):
    x = bytearray(x)
    x[rng.randrange(len(x)) if at is None else at] ^= 1 << rng.randrange(8)
    return bytes(x)


def build(rng, ns, faults, extra):
    """A package from the model: sizes (of the model) and changes."""
    items = []
    for k, n in enumerate(ns):
        n = REALN.get(n, n)
        data = rng.randbytes(n * B) if rng.random() < .7 else bytes(n * B)
        salt = rng.randbytes(32)
        root, tree = pk.merkle(data, salt)
        items.append(dict(data=data, salt=salt, root=root, tree=tree, rest=0, has={"root", "salt", "tree"}, n=n, m=ns[k]))
    for f in faults:
        it = items[f["p"] - 1]
        kind, a, b = f["k"], f["a"], f["b"]
        if kind == "data":
            at = (0 if a == 1 else it["n"] - 1 if a == it["m"] else rng.randrange(it["n"])) * B + rng.choice([0, 1, 31, 32, 4095, rng.randrange(B)])
            it["data"] = flip(rng, it["data"], at)
        elif kind in ("entry", "pad") and it["tree"]:
            # same kind of place: a block of the tree and an entry in use or not
            blk = (a - 1) if a <= 2 else len(it["tree"]) // B - 1
            blk = min(blk, len(it["tree"]) // B - 1)
            es = [j for j in range(blk * 128, blk * 128 + 128)
                  if (it["tree"][32 * j:32 * j + 32] == bytes(32)) == (kind == "pad")]
            if es:
                j = es[0] if b == 1 else es[-1]
                it["tree"] = flip(rng, it["tree"], 32 * j + rng.choice([0, 31, rng.randrange(32)]))
        elif kind == "root":
            it["root"] = flip(rng, it["root"])
        elif kind == "salt":
            it["salt"] = flip(rng, it["salt"])
        elif kind in ("noroot", "nosalt", "notree"):
            it["has"].discard(kind[2:])
        elif kind == "rest":
            it["rest"] = rng.choice([512, 1, 4095, 1024])
        elif kind == "newtree":
            it["tree"] = pk.merkle(it["data"], it["salt"])[1]
        elif kind == "newroot":
            it["root"] = pk.merkle(it["data"], it["salt"])[0]
        elif kind == "otherroot":
            it["root"] = items[2 - f["p"]]["root"]
        elif kind == "swap":
            it["tree"] = it["tree"][B:] + it["tree"][:B]
        else:
            raise ModelError("fault " + kind)
    parts, metas = [], []
    for k, it in enumerate(items):
        fl = raw.odd(rng, rng.choice([0, 0, 1])) if extra else 0
        if extra and rng.random() < .4:
            parts.append(raw.Part("o%d" % k, rng.randbytes(rng.choice([7, 512, 5000])), rng.choice([0, 1])))
        d = raw.Part("fs%d" % k, it["data"] + rng.randbytes(it["rest"]), fl)
        t = raw.Part("fs%d-hash-tree" % k, it["tree"], rng.choice([fl, 0, 1]) if extra else 0)
        order = [d, t] if not extra or rng.random() < .8 else [t, d]
        parts += [q for q in order if q is not t or "tree" in it["has"]]
        ms = [("root", (ROOT, "fs%d" % k, it["root"])), ("salt", (SALT, "fs%d" % k, it["salt"]))]
        if extra and rng.random() < .5:
            ms.reverse()
        metas += [m for n, m in ms if n in it["has"]]
        if extra and rng.random() < .3:
            metas.append(("other%d" % k, "fs%d" % k, rng.randbytes(9)))
    if extra and rng.random() < .3:
        parts.append(raw.Part("last", rng.randbytes(600), 0))
    hk = rng.choice([1, 2, 3]) if extra else 1
    ph = rng.randbytes(32) if extra and rng.random() < .03 else None
    return raw.package(parts, metas, hk=hk, phash=ph)


def run():
    ctx = Ctx("C09")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 17 + 9)
    inv = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Complete Sound OneChange EmitInv\nCONSTANTS Arity=2\n MaxLevels=4\n HashOp <- SymHash\n Zero <- ZeroTok\n"
    r = check_model(ctx, "one-change", "BpakVerifyMC", inv + " Sizes={1,2,3,5}\n MaxFaults=1\n Emit=TRUE\n")
    sc = r.prints
    r = check_model(ctx, "two-changes", "BpakVerifyMC", inv + " Sizes={1,3}\n MaxFaults=2\n Emit=TRUE\n")
    two = [x for x in r.prints if len(x["f"]) == 2]
    sc = sc + (two if THOROUGH else rng.sample(two, min(len(two), 250)))
    if THOROUGH:
        check_model(ctx, "three-changes", "BpakVerifyMC", inv + " Sizes={1,2,3}\n MaxFaults=3\n Emit=FALSE\n")
    w = sub("w-vtree")
    items = []
    for k, x in enumerate(sc):
        items.append((x["n"], x["f"], 0))
        if k % 3 == 0 or THOROUGH:
            items.append((x["n"], x["f"], 1))
    for k in range(30 if not THOROUGH else 400):
        items.append(([rng.choice([1, 2, 127, 128, 129, 255, 256, 300])], rng.choice([[], [{"p": 1, "k": "data", "a": 2, "b": 0}],
                     [{"p": 1, "k": "entry", "a": rng.choice([1, 2, 3]), "b": rng.choice([1, 2])}]]), 1))
    if THOROUGH:
        for f in ([], [{"p": 1, "k": "data", "a": 2, "b": 0}], [{"p": 1, "k": "entry", "a": 3, "b": 1}], [{"p": 1, "k": "pad", "a": 3, "b": 1}]):
            items.append(([16385], f, 0))
    scripts, evs = [], []
    for k, (ns, f, extra) in enumerate(items):
        b = build(rng, ns, f, extra)
        fn = os.path.join(w, "p%d" % k)
        with open(fn, "wb") as o:
            o.write(b)
        e = describe(b)
        e["a"] = "vpay"
        evs.append(e)
        scripts.append(["vpay %s %d" % (fn, rng.choice([0, 4096, 512, 1 << 33]) if extra else 4096)])

    def mk(k, reps):
        r = reps[0]
        if "crash" in r:
            return [{"a": "crash", "why": r["crash"]}]
        return [dict(evs[k], ok=r["rc"] == 0, same=r["same"] == 1)]
    reps = drv.run(scripts, w, jobs=8)
    keep = [k for k in range(len(items)) if reps[k] is not None]
    traces = [mk(k, reps[k]) for k in keep]
    for t in traces:
        ctx.count("vpay:%s" % t[0].get("ok", "crash"))
    ctx.sample({"scenario": sc[3]})
    judge(ctx, "payloads", "BpakVerifyTrace", traces, lambda t, l: "%s\nbuilt from %s" % (scripts[keep[t]], items[keep[t]]),
          lambda t: mk(keep[t], drv.run([scripts[keep[t]]], w)[0]), CONSTS)
    # the same through signing and verifying whole packages
    inp = pk.Inputs()
    d = sub("pk")
    pk.run_scripts(ctx, "packages", drv, sign.tree_scripts(drv, inp, d, rng, 60 if not THOROUGH else 800))
    ctx.assumptions += ["SHA-256 is collision free", "root hash and salt entries shorter than 32 bytes are not judged"]
    from . import vast
    vast.run(ctx, [], [vast.P32 + 8192] if not THOROUGH else [vast.P31, vast.P32 + 8192, 2 * vast.P32])
    return ctx.finish()
