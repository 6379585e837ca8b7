"""C01-C03: header tables against BpakHeader.tla."""
import random
from .core import *

REAL = {"MaxMeta": 32, "MaxParts": 32, "MetaBytes": 1920, "MetaAlign": 8, "HeaderSize": 4096}
B24 = 1 << 24


def consts(d):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in d.items())


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = ((h ^ x) * 1099511628211) & 0xffffffffffffffff
    return "#%016x" % h


def token(fill, size):
    b = bytes(fill[i % len(fill)] for i in range(size)) if fill else bytes(size)
    return b.hex() if size <= 16 else fnv(b)


def wide(n):
    return [n // B24, n % B24]


def nid(name):
    """abstract name -> header id token"""
    if name in ("0", 0):
        return "00000000"
    if len(name) == 8 and all(c in "0123456789abcdef" for c in name):
        return name
    return id32(crc32_id(name))


class Script:
    """A command script together with the event each command must produce."""

    def __init__(self):
        self.cmds, self.evs = [], []
        self.fills = 0

    def op(self, cmd, **ev):
        self.cmds.append(cmd)
        self.evs.append(ev)

    def fill(self):
        self.fills += 1
        k = self.fills
        return bytes([(k * 37 + 11) & 255, (k >> 3) & 255 | 1, 0x80 | (k & 127)])

    def hinit(self):
        self.op("hinit 0", a="hinit")

    def addmeta(self, i, r, s, f=None):
        f = f or self.fill()
        self.op("addmeta 0 %s %s %d %s" % (nid(i), nid(r), s, f.hex()), a="addmeta", i=nid(i), r=nid(r),
                s=s, d=token(f, s))

    def delmeta(self, i, r):
        self.op("delmeta 0 %s %s" % (nid(i), nid(r)), a="delmeta", i=nid(i), r=nid(r))

    def getmeta(self, i, r):
        self.op("getmeta 0 %s %s" % (nid(i), nid(r)), a="getmeta", i=nid(i), r=nid(r))

    def getany(self, i):
        self.op("getmeta 0 %s any" % nid(i), a="getany", i=nid(i))

    def addpart(self, i, s, pad=0, f=0, t=0):
        self.op("addpart 0 %s %d %d %d %d" % (nid(i), s, pad, f, t), a="addpart", i=nid(i), s=wide(s),
                dd=pad, f=f, t=wide(t))

    def delpart(self, i):
        self.op("delpart 0 %s" % nid(i), a="delpart", i=nid(i))

    def getpart(self, i):
        self.op("getpart 0 %s" % nid(i), a="getpart", i=nid(i))

    def save(self):
        self.op("hcopy 7 0", a="save")

    def restore(self):
        self.op("hcopy 0 7", a="restore")

    def model_action(self, x):
        a = x["a"]
        if a == "addmeta":
            self.addmeta(x["i"], x["r"], x["s"])
        elif a == "delmeta":
            self.delmeta(x["i"], x["r"])
        elif a == "getmeta":
            self.getmeta(x["i"], x["r"])
        elif a == "getany":
            self.getany(x["i"])
        elif a == "addpart":
            self.addpart(x["i"], x["s"], 0, x["f"], x["s"] // 2)
        elif a == "delpart":
            self.delpart(x["i"])
        elif a == "getpart":
            self.getpart(x["i"])


def events(script, replies):
    out = []
    last = {}
    for ev, r in zip(script.evs, replies):
        if "crash" in r or "wild" in r:
            out.append({"a": "crash", "why": r.get("crash", "wild pointer")})
            break
        e = dict(ev)
        e["rc"] = r["rc"]
        for k in "mp":
            # the tables are logged when they differ from the previous event's
            if last.get(k) != r[k]:
                e[k] = last[k] = r[k]
        if "p" in e:
            e["p"] = [{"i": p["i"], "s": wide(p["s"]), "d": p["d"], "f": p["f"], "t": wide(p["t"])} for p in r["p"]]
        e["xg"] = [r["x"], r["g"], r["left"]]
        if "blank" in r:
            e["blank"] = r["blank"]
        if "k" in r:
            e["k"] = r["k"]
        if "off" in r:
            e["off"], e["sz"], e["szn"] = wide(r["off"]), wide(r["sz"]), wide(r["szn"])
        out.append(e)
    return out


def run_scripts(ctx, name, drv, scripts, module="BpakHeaderTrace", jobs=4):
    """Execute, validate, repeat rejected scripts once; report the confirmed."""
    cwd = sub("w-" + name)
    scripts, reps = alive(scripts, drv.run([s.cmds for s in scripts], cwd, jobs=jobs))
    traces = [events(s, r) for s, r in zip(scripts, reps)]
    for t in traces:
        for e in t:
            ctx.count("%s:%s" % (e["a"], e.get("rc")))
    bad = settled(ctx, name, traces,
                  lambda t: events(scripts[t], drv.run([scripts[t].cmds], sub("w2-" + name))[0]),
                  lambda c, n, ts: validate(c, n, module, ts, consts(REAL)))
    for t, l, txt, note in bad:
        e = traces[t][l - 1] if l - 1 < len(traces[t]) else {}
        what = "%s: step %d of history %d is not explained by %s%s: %s" % (
            name, l, t, module, note, json.dumps({k: v for k, v in e.items() if k not in ("m", "p", "xg")}))
        rep = "\n".join("%s   -> %s" % (c, json.dumps(r)[:400]) for c, r in zip(scripts[t].cmds[:l], reps[t][:l]))
        ctx.report("%s:%s" % (name, e.get("a", "crash")), what, rep + "\n\n" + txt)
    return traces


def graph_scripts(ctx, name, cfgconst, limit=None):
    """One script per reachable state of the bounded model: path, then every
    action of the alphabet from that state."""
    r = check_model(ctx, name, "BpakHeaderMC",
                    "SPECIFICATION MCSpec\nVIEW MCView\nINVARIANTS TypeOK EmitInv\n" + consts(cfgconst), workers=1)
    alpha = [x["alphabet"] for x in r.prints if "alphabet" in x][0]
    paths = [x["path"] for x in r.prints if "path" in x]
    alpha.sort(key=lambda x: json.dumps(x, sort_keys=True))
    if limit and len(paths) > limit:
        random.Random(SEED).shuffle(paths)
        paths = paths[:limit]
    scripts = []
    for p in paths:
        s = Script()
        s.hinit()
        for k in range(int(cfgconst["FillMeta"])):
            s.addmeta("fm%d" % (k + 1), "0", 0)
        for k in range(int(cfgconst["FillParts"])):
            s.addpart("fp%d" % (k + 1), 512)
        for x in p:
            s.model_action(x)
        s.save()
        for x in alpha:
            s.model_action(x)
            if x["a"] not in ("getmeta", "getany", "getpart"):
                if x["a"].startswith("del"):
                    # what deletion left behind must still accept and answer
                    s.model_action({"a": "getany", "i": "A"} if "meta" in x["a"] else {"a": "getpart", "i": "P"})
                s.restore()
        scripts.append(s)
    return scripts


def random_script(rng, n, kind):
    s = Script()
    s.hinit()
    ids = ["id%d" % k for k in range(rng.choice([2, 4, 40]))]
    refs = ["0", "r1", "r2"][:rng.choice([1, 2, 3])]
    pids = ["p%d" % k for k in range(rng.choice([3, 36]))]
    profile = rng.choice(["tiny", "mixed", "big", "full"])

    def size():
        if profile == "tiny":
            return rng.choice([0, 1, 4, 7, 8, 9, 16, 32])
        if profile == "mixed":
            return rng.choice([0, 1, 8, 13, 24, 60, 61, 64, 100, 200, 333])
        if profile == "full":
            return rng.choice([56, 57, 60, 61, 64])
        return rng.choice([8, 250, 600, 900, 1200, 1912, 1913, 1920, 1921, 5000, 65535])
    if profile == "full":
        ids = ["id%d" % k for k in range(40)]
    if rng.random() < .3:
        ids = ids + ["0"]
        pids = pids + ["0"]
    w_meta = {"meta": 0.9, "part": 0.1, "both": 0.5}[kind]
    live, plive = [], []
    for _ in range(n):
        if rng.random() < w_meta:
            x = rng.random()
            addp = 0.75 if (profile == "full" and len(live) < 34 and rng.random() < .8) else 0.45
            if x < addp:
                i, r = rng.choice(ids), rng.choice(refs)
                s.addmeta(i, r, size(), bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 7, 251]))))
                if (i, r) not in live:
                    live.append((i, r))
            elif x < 0.8 and live:
                i, r = live[rng.randrange(len(live))] if rng.random() < .9 else (rng.choice(ids), rng.choice(refs))
                s.delmeta(i, r)
                if (i, r) in live:
                    live.remove((i, r))
            elif x < 0.93:
                s.getmeta(rng.choice(ids), rng.choice(refs))
            else:
                s.getany(rng.choice(ids))
        else:
            x = rng.random()
            if x < .55:
                i = rng.choice(pids)
                sz = rng.choice([0, 1, 511, 512, 513, 4096, 70000, (1 << 24) - 1, (1 << 31), (1 << 32) + 5,
                                 (1 << 33) - 512, (1 << 40) + 77])
                pad = (-sz) % 512
                f = rng.choice([0, 0, 1, 2, 3, 4, 0x82])
                s.addpart(i, sz, pad, f, rng.choice([0, 1, 100, 513, (1 << 32) + 3, (1 << 35)]))
                plive.append(i)
            elif x < .75 and plive:
                i = plive[rng.randrange(len(plive))]
                s.delpart(i)
                plive = [q for q in plive if q != i]
            else:
                s.getpart(rng.choice(pids))
    return s


def run_tables(prop, kind):
    ctx = Ctx(prop)
    drv = Driver(build_driver())
    small = dict(REAL, Ids='{"A","B","00000000"}', Refs='{"0","R"}', PIds='{"P","Q","S","00000000"}', PSizes="{512, 1536}",
                 FillMeta=0, FillParts=0, Emit="TRUE", Sizes="{1}")
    # design check at small constants, all reachable states
    check_model(ctx, "design", "BpakHeaderMC",
                "SPECIFICATION MCSpec\nVIEW MCView\nINVARIANTS TypeOK UniqueMeta UniqueParts MetaInBounds "
                "MetaAligned MetaDisjoint PartsDisjoint\nPROPERTY FrameMC\n" +
                consts(dict(small, MaxMeta=3, MaxParts=2, MetaBytes=24, Sizes="{0, 1, 8, 9, 16, 25}",
                            PIds='{"P","Q"}', PSizes="{512}", Emit="FALSE")), workers=4)
    scripts = []
    if kind == "meta":
        lim = None if THOROUGH else 260
        scripts += graph_scripts(ctx, "few-slots", dict(small, PIds='{}', PSizes="{}", FillMeta=29, FillParts=31,
                                 Sizes="{8, 641, 1276, 1921}"), lim)
        scripts += graph_scripts(ctx, "few-bytes", dict(small, PIds='{}', PSizes="{}", FillMeta=0, FillParts=2,
                                 Sizes="{3, 640, 960}"), lim)
    else:
        lim = None if THOROUGH else 200
        scripts += graph_scripts(ctx, "parts-few-slots", dict(small, Ids='{"A"}', Refs='{"0"}', Sizes="{40}",
                                 FillMeta=1, FillParts=29), lim)
        scripts += graph_scripts(ctx, "parts-empty", dict(small, Ids='{}', Refs='{}', Sizes="{}",
                                 FillMeta=31, FillParts=0), lim)
    ctx.sample({"script_from_model": scripts[-1].cmds[:12]})
    run_scripts(ctx, "model-scripts", drv, scripts)
    rng = random.Random(SEED * 1000 + (1 if kind == "meta" else 2))
    n, k = (150, 90) if not THOROUGH else (1500, 160)
    rs = [random_script(rng, k, kind if j % 4 else "both") for j in range(n)]
    ctx.sample({"random_history": rs[0].cmds[:12]})
    run_scripts(ctx, "random-histories", drv, rs)
    ctx.assumptions += ["callers pass pointers returned by the lookup functions",
                        "a metadata block's bytes are compared by value up to 16 bytes, by 64-bit FNV digest beyond"]
    return ctx.finish()
