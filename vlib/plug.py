"""C22: hash and key functions of the program's own, against BpakPlug.tla."""
import os, random
from .core import *
from . import package as pk, resource as rs, sign
from .package import PScript, Inputs

MASK = 0x5a
SPEC = dict(spec="BpakPlugPackageTrace", start="PlugSpec")


class Plugged(Driver):
    """every script starts with the program's functions in place"""

    def __init__(self, path, how):
        Driver.__init__(self, path)
        self.how = how

    def run(self, scripts, *a, **kw):
        out = Driver.run(self, [["plug %s" % self.how] + s for s in scripts], *a, **kw)
        return [r if r is None else (r[1:] or [{"crash": "at the start"}]) for r in out]


# ------------------------------------------------------------ one operation, one request refused

class PlugRun(rs.Run):
    """which: 0, a request to refuse, or "h"/"k": there are no such functions"""

    def __init__(self, w, case, which, nasty, tag, how):
        rs.Run.__init__(self, w, case, 0, tag)
        self.which, self.nasty, self.how = which, nasty, how

    def script(self):
        s = [("alloc 0", False)]
        first = True
        for h, x in self.steps:
            if self.c.op:
                if first:
                    s += self.before()
                first = False
            elif h == "main":
                s += self.before()
            s.append((x, False))
            if h in ("op", "main"):
                s.append(("res", False))
            if h == "main":
                s += [("plugres", True), ("plug %s 0 0" % self.how, True)]
        self.extra = [b for _, b in s]
        return [x for x, _ in s]

    def before(self):
        if self.which in ("h", "k"):
            return [("plug %s 0 0" % self.how, True), ("unplug " + self.which, True)]
        return [("plug %s %d %d" % (self.how, self.which, self.nasty), True)]

    def events(self, r, want, used):
        self.script()
        p = [x for x, b in zip(r, self.extra) if b and "asked" in x]
        r = [x for x, b in zip(r, self.extra + [False]) if not b or "crash" in x]
        ev, out, _ = rs.Run.events(self, r, want)
        if ev[-1]["a"] == "crash":
            ev[-1]["refuse"] = self.which
            return ev, None, None
        for e in ev:
            e["lives"] = []
            if "case" in e:
                e["lives"] = p[0]["lives"]
                e["refuse"], e["nasty"] = self.which, self.nasty
                e["refused"] = used[self.which == "k"] if self.which in ("h", "k") else p[0]["declined"]
        return ev, out, p[0]


def sweep(ctx, name, drv, w, cs, cap, rng, how):
    base = [PlugRun(w, c, 0, 0, "b%d" % k, how) for k, c in enumerate(cs)]
    todo, traces, redo, wants, uses = [], [], [], {}, {}
    for k, (x, r) in enumerate(zip(base, drv.run([x.script() for x in base], w.w, jobs=8))):
        if r is None:
            continue
        ev, out, p = x.events(r, None, None)
        traces.append(ev)
        redo.append((k, 0, 0))
        wants[k] = out
        if p is None:
            continue
        uses[k] = (min(1, p["asked"] - p["keys"]), min(1, p["keys"]))
        ctx.count("%s-%s:%s" % (name, x.c.name.split("-")[0], out and out[0]))
        ms = p["marks"]
        if len(ms) > cap:
            ms = sorted(set(ms[:3] + ms[-4:] + rng.sample(ms, cap - 7)))
        rest = [i for i in range(1, p["asked"] + 1) if i not in set(p["marks"])]
        todo += [(k, i, n) for i in ms for n in (0, 1)] + [(k, i, 0) for i in rng.sample(rest, min(len(rest), 12 if cs[k].op else 3))]
        todo += [(k, q, 0) for q in how.split()[0]]
    runs = [PlugRun(w, cs[k], i, n, "s%d" % j, how) for j, (k, i, n) in enumerate(todo)]
    for t, x, r in zip(todo, runs, drv.run([x.script() for x in runs], w.w, jobs=8)):
        if r is None:
            continue
        ev, out, _ = x.events(r, wants[t[0]], uses[t[0]])
        ctx.count("%s-%s:%s" % (name, t[1] if t[1] in ("h", "k") else "refused", x.c.name.split("-")[0]))
        traces.append(ev)
        redo.append(t)

    def run_of(t):
        k, i, n = redo[t]
        return PlugRun(w, cs[k], i, n, "again", how)

    def again(t):
        x = run_of(t)
        return x.events(drv.run([x.script()], w.w)[0], wants.get(redo[t][0]) if redo[t][1] else None, uses.get(redo[t][0]))[0]
    judge(ctx, name, "BpakPlugTrace", traces,
          lambda t, l: "%s, %s refused\n%s" % (cs[redo[t][0]].name, redo[t][1], "\n".join(run_of(t).script())[:50000]),
          again, key=lambda e: "%s:%s" % (e.get("case", e.get("op")), e["a"]), maxbad=12, spec="PlugSpec")


# ------------------------------------------------------------ histories

class Script(PScript):
    """refuse: what the next operation has refused ("" or None: nothing)"""
    how, rng, often, refuse = "", None, 0, None

    def step(self, ev, lines, snap=True, main=0, extra=None):
        if self.rng and self.often > self.rng.random() and ev["a"] not in ("keep", "bring", "load", "create", "pset") and main is not None:
            n = self.rng.choice([1, 2, 3, 4, 5, 6, 8, self.rng.randrange(1, 20)])
            self.refuse = "m%d" % n if self.rng.random() < .8 else str(self.rng.randrange(1, 600))
            self.refuse += " %d" % self.rng.randrange(2)
        lines = ["plug %s %s" % (self.how, self.refuse or "0 0")] + lines + ["plugres"]
        self.refuse = None
        PScript.step(self, ev, lines, snap, main + 1 if main is not None else None, extra)


def plans(s, plan, asks, rng):
    """the operations of a model behaviour, each with its refusal"""
    s.create()
    s.addfile("one", "r513")
    s.addkey("key", "ec256a")
    s.addmerkle("fs", "t8192")
    s.addfile("two", "r5000", 1)
    signed = False
    for n, x in enumerate(plan):
        k, at = x["k"], x["at"]
        if k == "verify" and not signed:
            s.sign("ec256a")
            signed = True
        a = asks[k]
        if at and a[at - 1] != "R":
            s.refuse = "m%d %d" % (len([j for j in range(at) if a[j] in ("I", "F", "K") or (a[j] == "U" and a[j - 1] != "U")]), rng.randrange(2))
        if k == "partdigest":
            s.psha(rng.choice(["one", "fs", "two"]))
        elif k == "digests":
            s.updhash()
        elif k == "addfile":
            s.addfile("f%d" % n, "r%d" % rng.choice([0, 7, 1024]))
        elif k in ("addkey", "key"):
            s.addkey("k%d" % n, "rsa4096a")
        elif k == "sign":
            s.sign("ec256a")
            signed = True
        elif k == "verify":
            s.verify("ec256a")
        elif k == "tree":
            s.addmerkle("t%d" % n, rng.choice(["t4096", "t8192"]))
        else:
            raise ModelError("plan " + k)
    s.verify("ec256a")
    s.close()
    s.vfile("ec256a")


CFG = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Tidy Told EmitInv\nCONSTANTS Forgetful=%s\n Twice=%s\n Deaf=%s\n Emit=%s\n MaxOps=%d\n"
R, H, F = ["I", "U", "R", "U", "F", "X"], ["I", "U", "U", "F", "X"], "FALSE"
ASKS = {"partdigest": R, "digests": R + H, "addfile": ["R"] + R, "addkey": ["K"] + R, "sign": R + H + ["K", "K"], "verify": H + ["K", "K"] + R,
        "tree": H + ["R"] + R + H, "key": ["K"]}


def run():
    ctx = Ctx("C22")
    path = build_driver()
    rng = random.Random(SEED * 89 + 22)
    r = check_model(ctx, "calls", "BpakPlugMC", CFG % (F, F, F, "TRUE", 2))
    for m in (("TRUE", F, F), (F, "TRUE", F), (F, F, "TRUE")):
        if tlc("BpakPlugMC", CFG % (m + (F, 1))).ok:
            raise ModelError("%s goes unnoticed in the model" % (m,))
    toy = pk.toy_keys(sub("toykeys"))
    for name, how, keys, mask, part in (("both", "hk %02x" % MASK, toy, MASK, 1.0), ("hashes", "h %02x" % MASK, None, MASK, .4),
                                        ("keys", "k 0", toy, 0, .4)):
        drv = Plugged(path, how)
        pk.plug(keys, mask)
        rs.KEYS = pk.KEYDIR
        big = 1 if not THOROUGH else 8
        w = rs.World(rng, sub("w-plug-" + name), drv)
        cs = rs.cases(w, rng, False)
        if part < 1 and not THOROUGH:
            cs = [c for c in cs if rng.random() < part]
        sweep(ctx, name + "-operations", drv, w, cs, 30 if not THOROUGH else 200, rng, how)
        inp, d = Inputs("inputs-" + name), sub("pk-" + name)

        class S(Script):
            pass
        S.how = how
        scripts = []
        for j, p in enumerate(rng.sample(r.prints, min(len(r.prints), int(120 * part) * big))):
            s = S("p%d" % j, inp, d)
            plans(s, p, ASKS, rng)
            scripts.append(s)
        pk.run_scripts(ctx, name + "-plans", drv, scripts, **SPEC)
        ctx.sample({"plan": p, "script": scripts[-1].lines()[:12]})
        scripts = []
        for j in range(int(30 * part) * big):
            s = S("r%d" % j, inp, d)
            s.rng, s.often = random.Random(rng.random()), 0 if j % 4 == 3 else rng.choice([0, .3])
            pk.random_history(s, rng, 40, j % 4 == 3)
            scripts.append(s)
        for j in range(int(25 * part) * big):
            s = S("g%d" % j, inp, d)
            s.rng, s.often = random.Random(rng.random()), rng.choice([0, .3])
            sign.random_sign_history(s, rng, 25, rng.sample(pk.GOODKEYS, 2))
            scripts.append(s)
        pk.run_scripts(ctx, name + "-histories", drv, scripts, **SPEC)
    ctx.assumptions += ["one request of the program's functions is refused at a time", "a writer of hash trees is not used any more after a refused call"]
    return ctx.finish()
