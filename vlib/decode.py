"""C13 (and the decoder's share of C14): what the decoder does to its output,
call by call, against BpakDecode.tla."""
import bisect, os, random
from .core import *
from . import package as pk, raw
from .merkle import B
from .patch import block, pack, random_patch, mutate, ref_apply
from .transport import COMP, PAIRS, ROOT, accident, masked, read_log, tm

CONSTS = "CONSTANT Strict=%s\n"
SLACK = 8192


def up512(rng, n):
    """size and padding that make up n bytes"""
    pad = rng.choice([0, 0, 1, 511, rng.randrange(512)])
    return (n - pad, pad) if n >= pad else (n, 0)


class Job:
    """A coded package of the kinds asked for, and what is to come out of it."""

    def __init__(self, kinds, rng):
        self.kinds = kinds
        parts, metas, old = [], [("bpak-package", 0, b"0123456789abcdef")], []
        self.final, self.index, self.sound = [], [], True
        for k, kind in enumerate(kinds):
            nm = "n%d" % k
            if kind in ("tree", "badtree"):
                src = rng.choice(["plain", "copy", "diff"])
                nb = rng.choice([1, 2, 3])
                data = rng.randbytes(nb * B)
                self.one(rng, src, nm, parts, metas, old, data)
                salt = rng.randbytes(32)
                root, tree = pk.merkle(data, salt)
                if kind == "badtree":
                    root = root[:9] + bytes([root[9] ^ 4]) + root[10:]
                metas += [("merkle-salt", nm, salt), ("merkle-root-hash", nm, root), tm(nm + "-hash-tree", "remove-data", "merkle-generate")]
                parts.append(raw.Part(nm + "-hash-tree", b"", 2 | rng.choice([0, 1]), size=len(tree), pad=0, t=0))
                self.final.append(tree)
            else:
                self.one(rng, kind, nm, parts, metas, old, None)
            self.index.append(len(parts))
            if kind in ("badtree", "short", "long"):
                self.sound = False
        rng.shuffle(metas)
        if rng.random() < .3:
            old.insert(0, ("unused", rng.randbytes(rng.choice([5, 512, 900]))))
        self.hk = rng.choice([1, 2, 3])
        self.enc = raw.package(parts, metas, hk=self.hk)
        self.org = raw.package([raw.Part(n, b) for n, b in old], [("bpak-package", 0, b"0123456789abcdef")])
        oparts = {p["id"]: p for p in raw.parse(self.org)[0]}
        self.parts, at = [], 0
        for p, f in zip(raw.parse(self.enc)[0], self.final):
            n, o = p["size"] + p["pad"], oparts.get(p["id"])
            if len(f) != n:
                raise ModelError("part of another length")
            self.parts.append({"coded": bool(p["f"] & 2), "t": p["t"], "lo": at, "hi": at + n,
                               "olo": o["pos"] - 4096 if o else 0, "ohi": o["pos"] - 4096 + o["n"] if o else 0})
            at += n
        self.total = at
        self.image = b"".join(self.final)
        self.buf = rng.choice([2, 64, 512, 4096] if self.total < 2500 else [512, 1024, 4096])
        self.oo, self.wo = rng.choice([0, 4096, 1 << 34]), rng.choice([0, 0, 4096, 1 << 33])
        n = len(self.enc)
        self.chunks = ",".join(str(rng.choice([7, 24, 100, 512, 1000, 4096, 65536] if n < 40000 else [512, 4096])) for _ in range(rng.choice([1, 2, 3])))

    def one(self, rng, kind, nm, parts, metas, old, data):
        """adds one part; data: what it is to be in the end, None: anything"""
        fl = raw.odd(rng, rng.choice([0, 0, 1]))
        n = len(data) if data is not None else 512 * rng.choice([0, 1, 1, 2, 3, 9])
        if kind == "plain":
            body = data if data is not None else rng.randbytes(max(0, n - rng.randrange(512)))
            parts.append(raw.Part(nm, body, fl))
            self.final.append(parts[-1].body)
            return
        size, pad = up512(rng, n)
        wrong = rng.choice([1, 24, 512, 2000])
        if kind in ("short", "long") and n == 0:
            n = size = 512
            pad = 0
        if rng.random() < .3 and kind in ("short", "long") or kind == "copy":
            body = data if data is not None else rng.randbytes(n)
            self.final.append(body)
            if kind == "short":
                body = body[:max(0, n - wrong)]
            elif kind == "long":
                body += rng.randbytes(wrong)
            parts.append(raw.Part(nm, body, fl | 2, size=size, pad=pad, t=len(body)))
            return
        o = rng.randbytes(rng.choice([0, 40, 511, 512, 3000])) if data is None else mutate(rng, data)
        pair = rng.choice(PAIRS)
        while True:
            if data is not None:
                d = min(len(data), len(o))
                d = rng.choice([0, d, rng.randrange(d + 1)])
                p = block(d, len(data) - d, 0, bytes((a - b) & 255 for a, b in zip(data[:d], o[:d])), data[d:])
            else:
                p = random_patch(rng, o)
            old_part = raw.Part(nm, o).body
            r = ref_apply(old_part, p)
            if r is not None and len(r) <= 3 * B:
                break
        if data is None:
            x = -len(r) % 512 or rng.choice([0, 512])
            p += block(0, x, 0, b"", rng.randbytes(x))
            if kind == "long":
                p += block(0, wrong, 0, b"", rng.randbytes(wrong))
            r = ref_apply(old_part, p)
            n = len(r) if kind == "diff" else len(r) - wrong if kind == "long" else len(r) + -(-wrong // 512) * 512
            size, pad = up512(rng, n)
        self.final.append(r[:n] + bytes(max(0, n - len(r))))
        body = pack(rng, COMP[pair[1]], p)
        metas.append(tm(nm, *pair))
        old.append((nm, o))
        parts.append(raw.Part(nm, body, fl | 2, size=size, pad=pad, t=len(body)))


class Run:
    """One decoding of a job, with or without a fault."""

    def __init__(self, job, k, fault=None):
        self.job, self.k, self.fault = job, k, fault

    def lines(self, w):
        self.log = os.path.join(w, "l%d" % self.k)
        j = self.job
        s = ["fault %d %s" % self.fault] if self.fault else []
        return s + ["dec =%s =%s %d %d %d %d %s %s" % (j.enc.hex(), j.org.hex(), j.buf, j.wo, j.oo, j.total + SLACK, self.log, j.chunks)]

    def calls(self, r):
        """the calls that can fail: (phase part 1-based, kind, number within)"""
        out, part, last, seen = [], 0, False, {}
        for kind, a, b, ret, data in read_log(self.log):
            if kind == "C":
                if a in (2, 4):
                    last = False
                if a == 3:
                    last = True
                continue
            if b <= 0:
                continue
            if kind == "H" and not last:
                part += 1
            name = {"H": "lastheader" if last else "header", "W": "write", "R": "read", "O": "origin"}[kind]
            out.append((part, name))
        return out

    def events(self, r, keep=False):
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"]}]
        j = self.job
        log = read_log(self.log)
        if not keep:
            os.unlink(self.log)
        cuts = set()
        for p in j.parts:
            cuts |= {p["lo"], p["hi"]}
        for kind, a, b, ret, data in log:
            if kind == "W":
                cuts |= {min(max(0, x), j.total) for x in (a, a + b, a + len(data))}
        cuts = sorted(cuts)
        ix = lambda x: bisect.bisect_left(cuts, min(max(0, x), j.total)) + 1
        big = lambda x: max(-1, min(x, 1 << 30))
        ev = [{"a": "begin", "parts": [dict(p, c1=ix(p["lo"]), c2=ix(p["hi"])) for p in j.parts]}]
        want, fault = masked(j.enc), False
        for kind, a, b, ret, data in log:
            f = kind != "C" and ret != b
            fault |= f
            if kind == "H":
                if len(data) < 4096:
                    ev.append({"a": "torn"})
                    continue
                ps = raw.parse(bytes(data))[0]
                ps += [{"f": 0, "t": -1}] * (len(j.parts) - len(ps))
                ev.append({"a": "H", "same": masked(data) == want and a == 0 and b == 4096 and len(ps) == len(j.parts),
                           "coded": [bool(p["f"] & 2) for p in ps], "t": [big(p["t"]) for p in ps], "fault": f})
            elif kind == "W":
                c1, c2 = ix(a), ix(a + len(data))
                wrong = [c for c in range(c1, c2) if j.image[cuts[c - 1]:cuts[c]] != data[cuts[c - 1] - a:cuts[c] - a]]
                ev.append({"a": "W", "lo": big(a), "hi": big(a + b), "c1": c1, "c2": c2, "wrong": wrong, "fault": f})
            elif kind in "RO":
                ev.append({"a": kind, "lo": big(a), "hi": big(a + b), "fault": f})
            else:
                ev.append({"a": "C", "step": a, "part": b + 1, "rc": max(-1 << 30, min(ret, 1 << 30))})
        ev.append({"a": "end", "rc": r[-1]["rc"], "must": j.sound and not fault, "fault": fault})
        return ev


CFG = ("SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound Ends Refuses EmitInv\nCONSTANTS MaxParts=%d\n Width=%d\n Emit=%s\n")
MODES = "ezsh"


def decode_runs(ctx, name, drv, jobs, faults, strict):
    """Runs jobs, then again with the faults faults(job index, its calls) gives."""
    w = sub("w-" + name)

    def perform(runs):
        reps = drv.run([r.lines(w) for r in runs], w, jobs=8)
        return [(a, b) for a, b in zip(runs, reps) if b is not None]
    runs = [Run(j, k) for k, j in enumerate(jobs)]
    done = perform(runs)
    res, more = [], []
    for run, r in done:
        if "crash" not in r[-1]:
            for at, mode in faults(run.k, run.calls(r)):
                more.append(Run(run.job, len(jobs) + len(more), (at, mode)))
        res.append((run, run.events(r)))
    for run, r in perform(more):
        res.append((run, run.events(r)))
    for run, es in res:
        ctx.count("runs:" + ("fault" if run.fault else "clean") + (":refused" if es[-1].get("rc") else ":done"))
        for e in es:
            ctx.count("event:" + e["a"])
    ctx.sample({"job": res[0][0].job.kinds, "events": res[0][1][:4]})

    def again(t):
        run = res[t][0]
        r = drv.run([run.lines(w)], w)[0]
        return run.events(r)
    return judge(ctx, name, "BpakDecodeTrace", [es for _, es in res],
                 lambda t, l: "kinds %s fault %s\n%s" % (res[t][0].job.kinds, res[t][0].fault, "\n".join(res[t][0].lines(w))), again, CONSTS % strict)


def place(x, job, calls, width, rng):
    """the call of the real run the model's fault stands for"""
    f = x["fault"]
    if not f["part"]:
        return None
    part = job.index[f["part"] - 1]
    c = [k + 1 for k, y in enumerate(calls) if y == (part, f["call"])]
    if not c:
        return None
    return c[min(len(c) - 1, x["at"] * len(c) // width)]


def run():
    ctx = Ctx("C13")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 61 + 13)
    r = check_model(ctx, "decoder", "BpakDecodeMC", CFG % (2, 3, "TRUE"))
    if THOROUGH:
        r3 = check_model(ctx, "decoder-3", "BpakDecodeMC", CFG % (3, 2, "TRUE"))
        check_model(ctx, "decoder-4", "BpakDecodeMC", CFG % (4, 2, "FALSE"))
    by = {}
    for x in r.prints + (r3.prints if THOROUGH else []):
        by.setdefault(tuple(x["kinds"]), []).append(x)
    jobs, plans = [], []
    for kinds, xs in sorted(by.items()):
        for _ in range(1 if not THOROUGH else 4):
            jobs.append(Job(kinds, rng))
            plans.append(xs)
    for _ in range(150 if not THOROUGH else 800):
        jobs.append(Job([rng.choice(["plain", "copy", "diff", "diff", "tree"]) for _ in range(rng.choice([1, 2, 3, 4, 5]))] +
                        ([rng.choice(["short", "long", "badtree"])] if rng.random() < .3 else []), rng))
        plans.append(None)

    def faults(k, calls):
        out, seen = [], set()
        if plans[k] is not None:
            for x in plans[k]:
                at = place(x, jobs[k], calls, 3, rng)
                if at:
                    out.append((at, rng.choice(MODES)))
        else:
            out = [(rng.randrange(len(calls)) + 1, rng.choice(MODES)) for _ in range(10 if not THOROUGH else 25)]
        return [x for x in out if not (x in seen or seen.add(x))]
    decode_runs(ctx, "decoding", drv, jobs, faults, "FALSE")
    ctx.assumptions += ["the power going is any prefix of the recorded sequence of calls", "contents are compared in Python; the specification gets which cells hold what they are to hold"]
    return ctx.finish()
