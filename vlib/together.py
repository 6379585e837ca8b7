"""C23: objects at work together, against BpakTogether.tla."""
import random
from .core import *
from . import header, ids, resource as rs
from .fault import Diff, Merkle


class Lane:
    """Things one object (or a few of its own) is asked, one after another."""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts        # functions: tag -> a Run, or a list of lines

    def build(self, tag):
        return [p(tag + "p%d" % k) for k, p in enumerate(self.parts)]


class Plain:
    """lines whose replies are all there is"""

    def __init__(self, lines):
        self.steps = [("op", x) for x in lines]

    def left(self):
        return ""

    def clean(self):
        pass


class Job(rs.Run):
    def __init__(self, w, case, tag):
        rs.Run.__init__(self, w, case, 0, tag)

    def left(self):
        """what there is afterwards"""
        c, out = self.c, []
        for o in c.outs + (["@after"] if c.edit else []) + (["@n"] if "@n" in str(c.main) else []):
            b = self.read(o)
            out.append("none" if b is None else sha(self.masked(b)))
        if c.op and getattr(self, "opfile", None):
            with open(self.opfile, "rb") as f:
                out.append(sha(f.read()))
            os.unlink(self.opfile)
        self.clean()
        return " ".join(out)


def token(x):
    x = {k: v for k, v in x.items() if k != "f"}
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 60 else "%s %s" % (x.get("rc"), sha(s.encode()))


class Game:
    """Some lanes: each alone, then together by some schedules, then alone once more."""

    def __init__(self, lanes, scheds, tag):
        self.lanes, self.scheds = lanes, scheds
        self.tag = tag
        self.rounds = [(None, [k]) for k in range(len(lanes))] + [(s, list(range(len(lanes)))) for s in scheds]

    def fresh(self):
        self.built = [[self.lanes[k].build("%sr%dl%d" % (self.tag, n, k)) for k in ks] for n, (s, ks) in enumerate(self.rounds)]

    def script(self):
        self.fresh()
        out = []
        for (s, ks), lanes in zip(self.rounds, self.built):
            for n, parts in enumerate(lanes):
                out += ["lane %d %s" % (n, x) for p in parts for _, x in p.steps]
            out.append("go " + (s or "0"))
        return out

    def events(self, r, ctx=None):
        who = "+".join(x.kind for x in self.lanes)
        if "crash" in r[-1]:
            for lanes in self.built:
                for parts in lanes:
                    for p in parts:
                        p.clean()
            return [{"a": "crash", "why": r[-1]["crash"], "who": who}]
        ev = []
        for (s, ks), lanes, x in zip(self.rounds, self.built, [x for x in r if "lanes" in x]):
            left = [" / ".join(p.left() for p in parts) for parts in lanes]
            ans = [[token(y) for y in z] for z in x["lanes"]]
            if s is None:
                ev.append({"a": "alone", "o": ks[0] + 1, "ans": ans[0], "left": left[0], "who": self.lanes[ks[0]].kind})
                continue
            if ctx:
                ctx.count("turns", x["turns"])
                ctx.count("switches", x["switches"])
            at = [0] * len(ks)
            for c in x["order"]:
                o = int(c)
                ev.append({"a": "answer", "o": o + 1, "is": ans[o][at[o]], "who": self.lanes[o].kind, "with": who, "schedule": s[:60]})
                at[o] += 1
            ev += [{"a": "left", "o": o + 1, "is": left[o], "who": self.lanes[o].kind, "with": who, "schedule": s[:60]} for o in range(len(ks))]
            ev.append({"a": "afresh"})
        return ev


def play(ctx, drv, name, games, w):
    traces, idx = [], []
    for k, r in enumerate(drv.run([g.script() for g in games], w, jobs=8)):
        if r is None:
            continue
        traces.append(games[k].events(r, ctx))
        idx.append(k)
    for k in idx:
        for x in games[k].lanes:
            ctx.count("object:" + x.kind.split("-")[0])

    def again(t):
        g = games[idx[t]]
        return g.events(drv.run([g.script()], w)[0])
    if traces:
        ctx.sample({"objects": [x.kind for x in games[0].lanes], "trace": traces[0][:6]})
    judge(ctx, name, "BpakTogetherTrace", traces, lambda t, l: "\n".join(games[idx[t]].script())[:80000], again,
          key=lambda e: "%s:%s" % (e.get("who"), e["a"]), maxbad=6)


def lanes_of(w, cs):
    out = []
    for c in cs:
        if c.main and (" /tmp " in c.main or "xout" in c.main or "/dev/full" in c.main):
            continue
        out.append(Lane(c.name, [lambda tag, w=w, c=c: Job(w, c, tag)]))
    return out


def header_lane(rng):
    s = header.random_script(rng, rng.choice([8, 25]), rng.choice(["meta", "part", "both"]))
    lines = s.cmds
    return Lane("header", [lambda tag: Plain(lines)])


def ids_lane(rng, prints):
    cs = rng.sample(prints, 12)
    return Lane("text", [lambda tag: Plain([c.line for c in cs])])


def large(w, rng):
    """differences and trees of many turns: output while there is still input"""
    ops = [Diff(rng, c) for c in (0, 1, 2, 2)] + [Merkle(rng, n, z) for n, z in ((3, 0), (129, 1), (258, 0))]
    for o in ops[:4]:
        o.o, o.n = rng.randbytes(2000), rng.randbytes(150000)
    return [Lane("large-%s" % type(o).__name__, [lambda tag, o=o: Job(w, rs.Case("large", None, op=o), tag)]) for o in ops]


def run():
    ctx = Ctx("C23")
    rng = random.Random(SEED * 7177 + 5)
    base = "INVARIANT Independent\nCHECK_DEADLOCK FALSE\nSPECIFICATION MCSpec\n"
    cfg = lambda o, n, p, sh, emit: base + "CONSTANTS\nObjects = %s\nOps = %d\nPieces = %d\nShared = \"%s\"\nEmit = %s\n" % (o, n, p, sh, emit)
    two = check_model(ctx, "two objects", "BpakTogetherMC", cfg("{0, 1}", 1, 2, "nothing", "TRUE") + "INVARIANT EmitInv\n")
    more = check_model(ctx, "two objects, more operations", "BpakTogetherMC", cfg("{0, 1}", 2, 1, "nothing", "TRUE") + "INVARIANT EmitInv\n")
    three = check_model(ctx, "three objects", "BpakTogetherMC", cfg("{0, 1, 2}", 1, 1, "nothing", "TRUE") + "INVARIANT EmitInv\n")
    for sh in ("buffer", "sum", "place", "memo"):
        r = tlc("BpakTogetherMC", cfg("{0, 1}", 2, 1 if sh != "sum" else 2, sh, "FALSE"))
        if r.ok:
            raise ModelError("a shared %s is not noticed" % sh)
    s2 = ["".join(map(str, x)) for x in two.prints + more.prints]
    s3 = ["".join(map(str, x)) for x in three.prints]
    rng.shuffle(s2)
    rng.shuffle(s3)
    ring = lambda n: rng.choice(s2 if n == 2 else s3) if n < 4 and rng.random() < .6 else "r%d" % rng.randrange(1 << 30)
    drv = Driver(build_driver())
    ws = []
    for k in range(2 if not THOROUGH else 3):
        w = rs.World(rng, sub("w%d" % k), drv, k)
        ws.append(lanes_of(w, rs.cases(w, rng, THOROUGH, 3 if not THOROUGH else 12)) + large(w, rng))
    n = len(ws[0])
    prints = ids.calls(rng, [], 40)
    games = []

    def game(*lanes, stops=1):
        m = len(lanes)
        ss = ["0123"[:m]] + [ring(m) for _ in range(1 if not THOROUGH else 4)]
        for _ in range(stops if not THOROUGH else 8 * stops):
            ss.append("p" + ",".join("%d" % rng.randrange(1000) for _ in range(m - 1)))
        games.append(Game(list(lanes), ss, "g%d" % len(games)))
    # the same with different things
    for k in range(n):
        game(ws[0][k], ws[1][k], stops=5)
    # keys with keys
    keyed = [[x for x in w if x.kind.split("-")[0] in ("addkey", "pub", "pri", "parse", "sign", "verify", "store", "storecb")] for w in ws]
    for _ in range(60 if not THOROUGH else 600):
        game(rng.choice(keyed[0]), rng.choice(keyed[1]))
    # anything with anything
    pool = [x for w in ws for x in w]

    def any_():
        x = rng.random()
        if x < .1:
            return header_lane(rng)
        if x < .17:
            return ids_lane(rng, prints)
        return rng.choice(pool)

    def longer(m):
        ls = [rng.choice(rng.choice(ws)) for _ in range(m)]
        return Lane(",".join(x.kind for x in ls), [p for x in ls for p in x.parts])
    for _ in range(12 if not THOROUGH else 60):
        game(header_lane(rng), header_lane(rng))
        game(ids_lane(rng, prints), ids_lane(rng, prints))
    for _ in range(150 if not THOROUGH else 3000):
        game(any_(), any_())
    for _ in range(60 if not THOROUGH else 1000):
        game(*[any_() for _ in range(rng.choice([3, 3, 4]))])
    for _ in range(40 if not THOROUGH else 600):
        game(*[longer(rng.choice([2, 3])) for _ in range(rng.choice([2, 3]))])
    play(ctx, drv, "together", games, sub("play"))
    ctx.extra["schedules"] = len(s2) + len(s3)
    ctx.assumptions += ["objects go on in turns: at every callback, at every call of the C library for files, of the hash functions, of the compressor and for memory, and between calls"]
    return ctx.finish()
