"""C16: identifiers and printed forms against BpakId.tla."""
import random, subprocess
from .core import *

KNOWN = {"bpak-package": 16, "bpak-transport": 8, "merkle-salt": 32, "merkle-root-hash": 32, "pb-load-addr": 8, "bpak-version": 0,
         "keystore-provider-id": 4, "bpak-key-id": 4, "bpak-key-store": 4}
TEXTS = {"bpak-package": 36, "bpak-transport": 34, "merkle-salt": 64, "merkle-root-hash": 64, "pb-load-addr": 25, "keystore-provider-id": 10,
         "bpak-key-id": 8, "bpak-key-store": 8}


def w(n):
    return [n >> 16, n & 65535]


def hx(b):
    return bytes(b).hex() or "-"


class One:
    """A call: the line for the driver and what the reply means."""

    def __init__(self, kind, line, **facts):
        self.kind, self.line, self.facts = kind, line, facts

    def event(self, r):
        if r is None:
            return None
        if "crash" in r[-1]:
            return {"a": "crash", "why": r[-1]["crash"]}
        e = dict(a=self.kind, **self.facts)
        r = r[0]
        if "v" in r:
            e["got"] = w(r["v"])
        elif "null" in r:
            e["got"] = list(bytes.fromhex(r["t"])) if not r["null"] else [0]
        else:
            t = list(bytes.fromhex(r["t"]))
            e["r"] = {"ok": r["rc"] == 0, "intact": r["intact"], "text": t}
        return e


def i32(rng):
    return rng.choice([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(8)])


def name_of(rng):
    k = rng.choice(["word", "word", "any", "long", "high"])
    if k == "word":
        return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-_") for _ in range(rng.randrange(0, 24)))
    if k == "long":
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(100, 400)))
    if k == "high":
        return bytes(rng.randrange(128, 256) for _ in range(rng.randrange(1, 9)))
    return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 40)))


def data_of(rng, n):
    k = rng.choice(["any", "any", "zero", "ff", "low"])
    if k == "zero":
        return bytes(n)
    if k == "ff":
        return b"\xff" * n
    if k == "low":
        return bytes(rng.choice([0, 1, 9, 10, 15, 16, 0x9f, 0xa0]) for _ in range(n))
    return rng.randbytes(n)


def calls(rng, prints, big):
    l = []
    for p in prints:
        nm = bytes(p["name"])
        l.append(One("id", "bpid " + hx(nm), name=p["name"]))
        ps, q = p["parts"], p["q"]
        l.append(One("find", "bpfind %08x %s" % (q[0] << 16 | q[1], " ".join("%08x" % (a << 16 | b) for a, b in ps)), parts=ps, q=q))
    for _ in range(big):
        nm = name_of(rng)
        l.append(One("id", "bpid " + hx(nm), name=list(nm)))
        l.append(One("treename", "bptreename " + hx(nm), name=list(nm)))
        v = i32(rng)
        l.append(One("tree", "bptree %08x" % v, id=w(v)))
        d = data_of(rng, rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 64, 65, rng.randrange(300)]))
        l.append(One("crc", "bpcrc %08x %s" % (v, hx(d)), start=w(v), s=list(d)))
        # tables of up to 32 parts, with and without the part looked for
        ids = [rng.choice([0, i32(rng), i32(rng), crc32_id(name_of(rng))]) for _ in range(rng.choice([0, 1, 3, 8, 32]))]
        use = [i for i in ids if i]
        q = crc32_cont(rng.choice(use), b"-hash-tree") if use and rng.random() < .7 else rng.choice([i32(rng), crc32_cont(0, b"-hash-tree")])
        l.append(One("find", "bpfind %08x %s" % (q, " ".join("%08x" % i for i in ids)), parts=[w(i) for i in ids], q=w(q)))
        v = rng.choice([crc32_id(rng.choice(sorted(KNOWN))), crc32_id(rng.choice(sorted(KNOWN))) ^ 1 << rng.randrange(32), i32(rng)])
        l.append(One("idstr", "bpname %08x" % v, id=w(v)))
        n = rng.choice([0, 1, 2, 16, 31, 32, 33, 64, rng.randrange(200)])
        d = data_of(rng, n)
        m = max(0, rng.choice([2 * n + 1, 2 * n, 2 * n + 2, 2 * n - 1, n, n + 1, 0, 1, 2, rng.randrange(500), 1000]))
        l.append(One("hex", "bphex %s %d" % (hx(d), m), s=list(d), n=m))
        d = data_of(rng, 16)
        m = rng.choice([0, 1, 35, 36, 37, 38, 100, rng.randrange(60)])
        l.append(One("uuid", "bpuuid %s %d" % (hx(d), m), s=list(d), n=m))
        l += [meta(rng) for _ in range(3)]
    for n in sorted(KNOWN):                                # every size around the limits
        for k in sorted({0, 1, KNOWN[n] - 1, KNOWN[n], KNOWN[n] + 1, KNOWN[n] + 8}):
            if k >= 0:
                for m in (0, 1, 2, TEXTS.get(n, k) - 1, TEXTS.get(n, k), TEXTS.get(n, k) + 1, 128):
                    if m >= 0:
                        l.append(meta(rng, n, k, m))
    return l


def meta(rng, n=None, k=None, m=None):
    n = n or rng.choice(sorted(KNOWN) + ["other"])
    if k is None:
        k = max(0, KNOWN.get(n, 5) + rng.choice([0, 0, 0, 1, 3, -1, -3, 40]))
        if n == "bpak-version":
            k = rng.choice([0, 1, 2, 8, 9, 127, 128, 129, rng.randrange(300)])
    d = data_of(rng, k)
    if n == "bpak-version" and k and rng.random() < .7:
        z = rng.randrange(k + 1)
        d = bytes(rng.randrange(32, 127) for _ in range(z)) + (b"\0" + rng.randbytes(k - z - 1) if z < k else b"")
    if m is None:
        t = TEXTS.get(n, k)
        m = max(0, rng.choice([128, 128, t, t + 1, t - 1, t + 2, 0, 1, rng.randrange(200)]))
    i = crc32_id(n)
    up = lambda x: (x + 7) // 8 * 8
    pre = rng.choice([0, 0, 8, 13, 200])
    post = rng.choice([0, 8, 40])
    if rng.random() < .3:                                  # the end of the metadata area
        pre, post = 1920 - up(max(k, 1)), 0
    return One("meta", "bpmeta %08x %d %s %d %d" % (i, pre, hx(d), post, m), id=w(i), s=list(d), n=m)


def run():
    ctx = Ctx("C16")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 79 + 16)
    cfg = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound EmitInv\nCONSTANTS Bytes={1,97,255}\n MaxName=%d\n MaxParts=%d\n Emit=%s\n"
    r = check_model(ctx, "ids", "BpakIdMC", cfg % (2, 2, "TRUE"))
    if THOROUGH:
        check_model(ctx, "ids-3", "BpakIdMC", cfg % (3, 3, "FALSE"))
    todo = calls(rng, r.prints, 300 if not THOROUGH else 6000)
    wd = sub("w")
    reps = drv.run([[c.line] for c in todo], wd, jobs=8)
    ev, have = [], []
    for c, q in zip(todo, reps):
        e = c.event(q)
        if e is not None:
            ev.append([e])
            have.append(c)
            ctx.count("call:%s" % e["a"])
    ctx.sample({"line": have[-1].line, "event": ev[-1][0]})
    judge(ctx, "calls", "BpakIdTrace", ev, lambda t, l: have[t].line, lambda t: [have[t].event(drv.run([[have[t].line]], wd)[0])],
          key=lambda e: "%s:%s" % (e["a"], e.get("id")), maxbad=6)

    # the tool
    tool = build_tool(True)

    def told(nm):
        p = subprocess.run([tool.encode(), b"generate", b"id", nm], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=SAN_ENV, timeout=60)
        if p.returncode < 0 or p.returncode == 99:
            return {"a": "crash", "why": p.stderr.decode("latin1")[-300:]}
        pre, post = b'id("' + nm + b'") = 0x', b"\n"
        o = p.stdout
        good = p.returncode == 0 and o.startswith(pre) and o.endswith(post) and len(o) == len(pre) + 9
        try:
            return {"a": "id", "name": list(nm), "got": w(int(o[len(pre):-1], 16)) if good else []}
        except ValueError:
            return {"a": "id", "name": list(nm), "got": []}
    names = [n for n in [name_of(rng) for _ in range(60 if not THOROUGH else 1000)] if not n.startswith(b"-")]
    judge(ctx, "tool", "BpakIdTrace", [[told(n)] for n in names], lambda t, l: "generate id %r" % names[t], lambda t: [told(names[t])])
    return ctx.finish()
