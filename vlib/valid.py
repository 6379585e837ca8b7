"""C03: header validation and opening of files against BpakValid.tla."""
import json, os, random, struct
from .core import *
from .header import REAL, consts

PIDS = [crc32_id("part%d" % k) for k in range(32)]


def raw_header(c, ids=None):
    """4096 bytes of a candidate c (p, m: lists of slots)."""
    b = bytearray(4096)
    b[0:4] = bytes.fromhex(c["magic"])
    for k, m in enumerate(c["m"]):
        struct.pack_into("<IHHI", b, 8 + 16 * k, m["id"], m["s"], m["o"], m.get("r", 0))
    for k, p in enumerate(c["p"]):
        struct.pack_into("<IQQQHB", b, 520 + 32 * k, p["id"], p["s"], p.get("o", 0), p.get("t", 0), p["d"], p.get("f", 0))
    b[3464] = c["hk"]
    b[3465] = 2
    struct.pack_into("<H", b, 3466, 512)
    return bytes(b)


def w3(n):
    return [n >> 48, (n >> 24) & 0xffffff, n & 0xffffff]


def abstract(c):
    def trim(sl):
        n = max([k + 1 for k, s in enumerate(sl) if s["u"]], default=0)
        return sl[:n]
    p = [{"u": q["id"] != 0, "s": w3(q["s"]), "d": q["d"]} for q in c["p"]]
    m = [{"u": q["id"] != 0, "s": q["s"], "o": q["o"]} for q in c["m"]]
    return {"magic": c["magic"], "hk": c["hk"], "p": trim(p), "m": trim(m)}


def cand(x):
    """A candidate from a model state."""
    p = [{"id": PIDS[k] if k < x["np"] else 0, "s": 512 * ((k + 1) % 3), "d": 0} for k in range(32)]
    m = [{"id": 0x1000 + k if k < x["nm"] else 0, "s": 16, "o": 16 * k} for k in range(32)]
    c = {"magic": "32415042", "hk": 1, "p": p, "m": m}
    for f in x["f"]:
        if f["k"] == "p":
            a, b_, c0, d = f["v"]
            q = p[f["at"] - 1]
            q["s"], q["d"] = (a << 48) | (b_ << 24) | c0, d
        elif f["k"] == "m":
            m[f["at"] - 1]["s"], m[f["at"] - 1]["o"] = f["v"]
        elif f["k"] == "magic":
            c["magic"] = f["v"]
        else:
            c["hk"] = f["v"]
    return c


def random_cand(rng):
    """Mostly well-formed, with gaps in the tables and arbitrary values behind them."""
    def slots(n, mk, bad):
        out = []
        for k in range(32):
            q = mk(rng.random() < bad)
            if k >= n and rng.random() < .8 or k == n:
                q["id"] = 0
            out.append(q)
        return out
    bad = rng.choice([0, 0, 0.02, 0.3])

    def part(b):
        s = rng.choice([rng.randrange(1 << 12), rng.randrange(1 << 33), rng.getrandbits(64), 0, 511, 512])
        d = (-s) % 512 + 512 * rng.choice([0, 0, 0, 1, 126])
        if b:
            d = (d + rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 256, 511])) % 65536
        return {"id": rng.getrandbits(32) | 1, "s": s, "d": d, "f": rng.choice([0, 1, 2, 3]), "t": rng.getrandbits(20)}

    def meta(b):
        o = rng.randrange(0, 1921)
        s = rng.choice([rng.randrange(0, 1921 - o), 1920 - o])
        if b:
            s = rng.choice([1921 - o, 65535, 65536 - o if o else 65535, 2000 + rng.randrange(1000)])
        return {"id": rng.getrandbits(32) | 1, "s": s, "o": o, "r": rng.getrandbits(32)}
    return {"magic": "32415042" if rng.random() < .9 else rng.getrandbits(32).to_bytes(4, "little").hex(),
            "hk": rng.choice([1, 1, 2, 3, 1, 1, 2, 3, 0]),
            "p": slots(rng.choice([0, 1, 2, 31, 32, rng.randrange(33)]), part, bad),
            "m": slots(rng.choice([0, 1, 2, 31, 32, rng.randrange(33)]), meta, bad)}


def run():
    ctx = Ctx("C03")
    drv = Driver(build_driver())
    cfg = ("SPECIFICATION VSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS BehindEndIrrelevant AnyBadSlotInvalid EmitInv\n" + consts(REAL))
    r1 = check_model(ctx, "one-fault", "BpakValidMC", cfg +
                     " MaxFaults=1\n Slots={1,2,3,4,16,31,32}\n NParts={0,1,3,31,32}\n NMetas={0,1,3,32}\n", workers=4)
    r2 = check_model(ctx, "two-faults", "BpakValidMC", cfg +
                     (" MaxFaults=2\n Slots={1,3,4}\n NParts={3}\n NMetas={%s}\n" % ("2,3" if THOROUGH else "3")), workers=4)
    cs = [cand(x) for x in r1.prints] + [cand(x) for x in r2.prints]
    rng = random.Random(SEED * 7 + 3)
    cs += [random_cand(rng) for _ in range(2000 if not THOROUGH else 20000)]
    ctx.count("candidates", len(cs))
    scripts, evs = [], []
    for k in range(0, len(cs), 200):
        s, e = [], []
        for c in cs[k:k + 200]:
            s += ["hload 0 " + raw_header(c).hex(), "valid 0", "hraw 0"]
            e.append(abstract(c))
        scripts.append(s)
        evs.append(e)
    ctx.sample({"candidate": {k: v for k, v in evs[0][1].items()}})

    def mk(reps, e, s):
        out = []
        for j in range(0, len(reps), 3):
            tri = reps[j:j + 3]
            if any("crash" in x for x in tri):
                out.append({"a": "crash", "why": tri[-1].get("crash")})
                break
            out.append({"a": "valid", "c": e[j // 3], "rc": tri[1]["rc"],
                        "same": tri[2]["raw"] == s[j].split()[2]})
            ctx.count("valid:%s" % tri[1]["rc"])
        return out

    def judge(name, traces, replay, again):
        bad = settled(ctx, name, traces, again,
                      lambda c, n, ts: validate(c, n, "BpakValidTrace", ts, consts(REAL)))
        for t, l, txt, note in bad:
            e = traces[t][min(l, len(traces[t])) - 1]
            ctx.report("%s:%s" % (name, e["a"]), "%s: the verdict on a header is not the specification's%s: %s" %
                       (name, note, json.dumps(e)[:1200]), replay(t, l) + "\n" + json.dumps(e) + "\n" + txt[:3000])

    reps = drv.run(scripts, sub("w-valid"))
    n = len(alive(scripts, reps)[0])
    scripts, evs, reps = scripts[:n], evs[:n], reps[:n]
    traces = [mk(r, e, s) for r, e, s in zip(reps, evs, scripts)]
    judge("candidates", traces, lambda t, l: "\n".join(scripts[t][3 * (l - 1):3 * l]),
          lambda t: mk(drv.run([scripts[t]], sub("w-valid2"))[0], evs[t], scripts[t]))

    # opening files
    w = sub("w-open")
    pick = rng.sample(cs, 350 if not THOROUGH else 2500)
    fresh = fresh_header(drv)
    files = []
    for c in pick:
        files.append((raw_header(c) + rng.randbytes(rng.choice([0, 512, 1000])), c))
    good = raw_header(cand({"np": 3, "nm": 3, "f": []}))
    for n in [0, 1, 3, 4, 5, 100, 511, 512, 3584, 4094, 4095, 4096, 4097, 5000]:
        files.append(((good + bytes(2000))[:n], None))
        files.append((bytes(n), None))
        files.append((rng.randbytes(n), None))

    def open_round(items):
        for k, mode in items:
            with open(os.path.join(w, "f%d%s" % (k, mode)), "wb") as f:
                f.write(files[k][0])
        reps = drv.run([["open 0 f%d%s %s" % (k, mode, mode), "close 0"] for k, mode in items], w)
        out = []
        for (k, mode), r in zip(items, reps):
            if r is None:
                break
            data, c = files[k]
            if any("crash" in x for x in r):
                out.append([{"a": "crash", "why": r[-1].get("crash")}])
                continue
            with open(os.path.join(w, "f%d%s" % (k, mode)), "rb") as f:
                now = f.read()
            after = "same" if now == data and not (mode == "w+" and now == fresh) else \
                "fresh" if now == fresh else "changed"
            if c is None and len(data) >= 4096:
                c = parse_cand(data)
            out.append([{"a": "open", "mode": mode, "size": len(data), "after": after, "rc": r[0]["rc"],
                         "c": abstract(c) if c and len(data) >= 4096 else 0}])
            ctx.count("open-%s:%s" % (mode, r[0]["rc"]))
        return out
    items = [(k, m) for k in range(len(files)) for m in (["r", "r+"] + (["w+"] if k % 8 == 0 else []))]
    tr = open_round(items)
    judge("open", tr, lambda t, l: "open %s of file of %d bytes: %s" % (items[t][1], len(files[items[t][0]][0]),
          files[items[t][0]][0].hex()[:9000]), lambda t: open_round([items[t]])[0])
    ctx.assumptions += ["a header naming an undefined hash kind may be accepted or refused",
                        "which error code a refused header gets is not judged"]
    return ctx.finish()


def parse_cand(b):
    c = {"magic": b[0:4].hex(), "hk": b[3464], "p": [], "m": []}
    for k in range(32):
        i, s, o, r = struct.unpack_from("<IHHI", b, 8 + 16 * k)
        c["m"].append({"id": i, "s": s, "o": o})
        i, s, o, t, d, f = struct.unpack_from("<IQQQHB", b, 520 + 32 * k)
        c["p"].append({"id": i, "s": s, "d": d})
    return c


def fresh_header(drv):
    """The bytes of an empty package, built from its definition: magic, sha256,
    prime256v1, alignment 512 and the hash of an empty payload."""
    import hashlib
    b = bytearray(4096)
    b[0:4] = bytes.fromhex("32415042")
    b[3464], b[3465] = 1, 2
    struct.pack_into("<H", b, 3466, 512)
    b[3468:3500] = hashlib.sha256(b"").digest()
    return bytes(b)
