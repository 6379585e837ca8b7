"""C14: failures of calls to the outside, one at a time, against BpakFault.tla
(and BpakDecode.tla for the decoder)."""
import os, random, resource, shutil, signal, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import decode, package as pk, raw
from .merkle import B, random_cuts
from .patch import Apply, cuts_of, hs_unpack, mutate, pack, random_patch, ref_apply, xz_unpack
from .transport import COMP, PAIRS, ROOT, SALT, tm

MODES = "ezshp"


# ------------------------------------------------------------ the library, through callbacks
class Op:
    """One operation: lines to run, how to read the replies."""
    want = ""

    def script(self, w, k, fault=None):
        return (["fault %d %s" % fault] if fault else []) + self.lines(w, k) + (self.more() if fault else [])

    def more(self):
        """what is tried once more after a failure"""
        return []

    def results(self, r):
        """what was handed out with success, whatever failed before"""
        return []

    def read(self, r, fault):
        if "crash" in r[-1]:
            return None
        return r[1 if fault else 0:]


class VPay(Op):
    def __init__(self, rng, tree):
        parts, metas = [], []
        for k in range(rng.choice([1, 2, 3])):
            parts.append(raw.Part("d%d" % k, rng.randbytes(rng.choice([0, 1, 512, 4095, 4096, 4097, 9000])), rng.choice([0, 0, 1])))
        if tree:
            data, salt = rng.randbytes(rng.choice([1, 2, 3, 130]) * B), rng.randbytes(32)
            root, t = pk.merkle(data, salt)
            parts += [raw.Part("fs", data, rng.choice([0, 1])), raw.Part("fs-hash-tree", t, rng.choice([0, 1]))]
            metas += [("merkle-salt", "fs", salt), ("merkle-root-hash", "fs", root)]
        self.b = raw.package(parts, metas, hk=rng.choice([1, 2, 3]))
        self.off = rng.choice([0, 4096, 1 << 34])

    def lines(self, w, k):
        return ["vpay =%s %d" % (self.b.hex(), self.off)]

    def rcs(self, r):
        return [r[0]["rc"]], r[0]["calls"]

    def out(self, r):
        return ""


class Merkle(Op):
    def __init__(self, rng, n, zf):
        self.data, self.salt, self.zf, self.n = rng.randbytes(n * B), rng.randbytes(32), zf, n
        self.cuts = random_cuts(rng, n * B)
        self.root, self.tree = pk.merkle(self.data, self.salt)
        self.off = rng.choice([0, 4096, 1 << 33])
        self.want = sha(self.root + self.tree)

    def lines(self, w, k):
        self.f = os.path.join(w, "t%s" % k)
        s = ["mdata =" + self.data.hex(), "minit %d %s %d %d %d" % (len(self.data), self.salt.hex(), self.zf, self.off, len(self.tree))]
        o = 0
        for c in self.cuts:
            s.append("mfeed %d %d" % (o, c))
            o += c
        return s + ["mfin " + self.f]

    def rcs(self, r):
        return [x["rc"] for x in r[1:]], r[-1]["calls"]

    def more(self):
        return ["mfin " + self.f + "-2"]

    def given(self, x):
        with open(x["f"], "rb") as f:
            return sha(bytes.fromhex(x["root"]) + f.read())

    def out(self, r):
        return self.given(r[-1])

    def results(self, r):
        return [self.given(x) for x in r if x["a"] == "mfin" and x["rc"] == 0]


class Diff(Op):
    want = "fits"

    def __init__(self, rng, comp):
        self.comp = comp
        self.o = rng.randbytes(rng.choice([0, 100, 3000, 9000]))
        self.n = mutate(rng, self.o) if rng.random() < .8 else rng.randbytes(rng.choice([0, 10, 9000]))
        self.off = rng.choice([0, 5, 1 << 33])

    def lines(self, w, k):
        return ["diff %d =%s =%s = %d" % (self.comp, self.o.hex(), self.n.hex(), self.off)]

    def rcs(self, r):
        return [r[0]["init"], max(-1 << 30, min(r[0]["rc"], 1 << 30))], r[0]["calls"]

    def out(self, r):
        p = bytes.fromhex(r[0]["out"])
        if self.comp:
            p = hs_unpack(p) if self.comp == 1 else xz_unpack(p)[0]
        return "fits" if r[0]["gap"] == 0 and ref_apply(self.o, p) == self.n else "differs"


class Patch(Op):
    def __init__(self, rng, comp):
        while True:
            o = rng.randbytes(rng.choice([0, 10, 600, 4000]))
            p = random_patch(rng, o)
            x = ref_apply(o, p)
            if x is not None and len(x) < 20000:
                break
        b = pack(rng, comp, p)
        # decompressing may want more input than there is
        cuts = cuts_of(rng, len(b)) if len(b) < 500 else [n for n in random_cuts(rng, len(b))]
        self.a = Apply(o, b, comp, cuts, buf=rng.choice([64, 128, 512, 4096]), oo=rng.choice([0, 7]), wo=rng.choice([0, 1 << 33]))
        self.want = sha(x)

    def lines(self, w, k):
        return [self.a.line()]

    def rcs(self, r):
        return [r[0]["init"]] + r[0]["w"] + [max(-1 << 30, min(r[0]["fin"], 1 << 30))], r[0]["calls"]

    def out(self, r):
        return sha(bytes.fromhex(r[0]["out"]))


def points(calls, model, cap, rng):
    """which calls to let fail: all of them or, of many, those at the places
    the model names"""
    if calls <= cap:
        return list(range(1, calls + 1)), True
    s = {1, calls}
    for m in model:
        a = (m["step"] - 1) / m["steps"]
        a += (m["call"] - 1) / max(1, m["calls"]) / m["steps"]
        s.add(min(calls, 1 + int(a * calls)))
    s |= {rng.randrange(calls) + 1 for _ in range(cap - len(s))} if len(s) < cap else set()
    return sorted(s), False


def library(ctx, drv, model, rng):
    n = 4 if not THOROUGH else 40
    cap = 40 if not THOROUGH else 400
    ops = []
    for _ in range(n):
        ops += [VPay(rng, False), VPay(rng, True)]
        ops += [Diff(rng, c) for c in (0, 1, 2)]
        ops += [Patch(rng, c) for c in (0, 1, 2, 0, 1, 2)]
        ops += [Merkle(rng, rng.choice([1, 2, 3, 5]), zf) for zf in (0, 1)]
    ops += [Merkle(rng, x, zf) for x in ([129] if not THOROUGH else [127, 128, 129, 130, 257]) for zf in (0, 1)]
    w = sub("w-lib")
    clean = drv.run([o.script(w, k) for k, o in enumerate(ops)], w, jobs=8)
    traces, redo, todo = [], [], []
    for k, (o, r) in enumerate(zip(ops, clean)):
        if r is None:
            continue
        if "crash" in r[-1]:
            traces.append([{"a": "crash", "why": r[-1]["crash"]}])
            redo.append((k, []))
            continue
        rcs, calls = o.rcs(r)
        pts, every = points(calls, model, cap, rng)
        i = len(traces)
        traces.append([{"a": "clean", "rcs": rcs, "calls": calls, "out": o.out(r), "want": o.want}])
        fs = []
        for p in pts:
            ms = MODES if THOROUGH else rng.sample(MODES, 2)
            fs += [(p, m) for m in ms]
        redo.append((k, fs))
        todo += [(i, k, f) for f in fs]
    reps = drv.run([ops[k].script(w, len(ops) + j, f) for j, (i, k, f) in enumerate(todo)], w, jobs=8)

    def event(o, r, f):
        x = o.read(r, True)
        if x is None:
            return {"a": "crash", "why": r[-1]["crash"], "k": f[0], "mode": f[1]}
        rcs, calls = o.rcs(x)
        ctx.count("fault:" + type(o).__name__ + ":" + f[1])
        return {"a": "fault", "k": f[0], "mode": f[1], "rcs": rcs, "hit": calls >= f[0], "got": o.results(x), "want": o.want}
    for (i, k, f), r in zip(todo, reps):
        if r is not None:
            traces[i].append(event(ops[k], r, f))
    for t, (k, fs) in zip(traces, redo):
        if t[0]["a"] == "clean" and len(t) == 1 + len(fs):
            t.append({"a": "all", "every": len({f[0] for f in fs}) == t[0]["calls"]})

    def again(t):
        k, fs = redo[t]
        o = ops[k]
        r = drv.run([o.script(w, k)], w)[0]
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"]}]
        rcs, calls = o.rcs(r)
        tr = [{"a": "clean", "rcs": rcs, "calls": calls, "out": o.out(r), "want": o.want}]
        for f, r in zip(fs, drv.run([o.script(w, k, f) for f in fs], w)):
            if r is not None:
                tr.append(event(o, r, f))
        return tr
    ctx.sample({"op": type(ops[0]).__name__, "trace": traces[0][:3]})
    judge(ctx, "callbacks", "BpakFaultTrace", traces,
          lambda t, l: "%s\nfault %s\n%s" % (type(ops[redo[t][0]]).__name__, json.dumps(traces[t][min(l, len(traces[t])) - 1])[:300],
                                             "\n".join(ops[redo[t][0]].lines(w, 0))[:100000]), again)


# ------------------------------------------------------------ the tool, through its system calls
KEYS = os.path.join(VERIF, "keys")


def salted(b, data, name):
    """a package with the tree of data, without what depends on the salt when that is as it should be"""
    proj, fact, parts = pk.project(b)
    _, metas = raw.parse(b)
    salt, root = metas.get((crc32_id("merkle-salt"), crc32_id(name))), metas.get((crc32_id("merkle-root-hash"), crc32_id(name)))
    if not salt or not root or proj["ph"] != fact["v"]:
        return b
    r, t = pk.merkle(data, salt)
    last = parts[-1]
    if root != r or last[2][:len(t)] != t or b.count(salt) != 1 or b[4096:last[1]].count(root):
        return b
    h = b[:3468] + bytes(64) + b[3532:last[1]] + bytes(len(t)) + b[last[1] + len(t):]
    return h.replace(salt, b"salt", 1).replace(root, b"root", 1)


class Tool:
    """A command line in a directory with some files."""

    def __init__(self, name, files, argv, check=None, tree=None):
        self.name, self.files, self.argv, self.check, self.tree = name, files, argv, check, tree

    def prepare(self, d):
        shutil.rmtree(d, True)
        os.makedirs(d)
        for n, b in self.files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)

    def outcome(self, d, tool, p):
        res = {}
        for n in sorted(os.listdir(d)):
            if n == ".trace":
                continue
            with open(os.path.join(d, n), "rb") as f:
                res[n] = f.read()
        if self.check:                    # a signature differs every time
            ok = run_in(d, [tool] + self.check).returncode == 0
            for n in res:
                if len(res[n]) >= 4096:
                    res[n] = res[n][:3536] + bytes(560) + res[n][4096:] + (b"good" if ok else b"bad")
        if self.tree:                     # the salt does, too
            res["p"] = salted(res["p"], *self.tree)
        return (p.stdout, sorted((n, sha(b)) for n, b in res.items()))


def run_in(d, argv, limit=None, full=False):
    if full:
        with open("/dev/full", "wb") as f:
            p = subprocess.run(argv, cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, env=SAN_ENV, timeout=60)
        p.stdout = b""
        return p

    def pre():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return subprocess.run(argv, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=SAN_ENV, preexec_fn=pre, timeout=60)


def tools(rng, drv):
    """Command lines over all commands of the tool."""
    data, fs = rng.randbytes(9000), rng.randbytes(3 * B)
    metas = [("bpak-package", 0, b"0123456789abcdef"), ("note", 0, b"some text\0")]
    base = raw.package([raw.Part("one", data), raw.Part("two", rng.randbytes(700))], metas)
    with open(KEYS + "/ec256a.der", "rb") as f:
        der = f.read()
    with open(KEYS + "/ec256a.pem", "rb") as f:
        pem = f.read()
    with open(KEYS + "/ec256a.pub", "rb") as f:
        pub = f.read()
    old = mutate(rng, data)
    org = raw.package([raw.Part("one", old)], metas[:1])
    root, tree = pk.merkle(fs, bytes(32))
    plan = [tm("one", *PAIRS[0]), tm("fs-hash-tree", "remove-data", "merkle-generate")]
    target = raw.package([raw.Part("one", data), raw.Part("fs", fs), raw.Part("fs-hash-tree", tree)],
                         metas + plan + [("merkle-salt", "fs", bytes(32)), ("merkle-root-hash", "fs", root)])
    store = raw.package([raw.Part("key1", der)], metas[:1] + [("keystore-provider-id", 0, struct.pack("<I", crc32_id("store")))])
    T = Tool
    l = [T("create", {}, ["create", "p"]), T("create-over", {"p": base}, ["create", "p", "-Y", "-H", "sha384"]),
         T("add", {"p": base, "f": data}, ["add", "p", "--part", "new", "--from-file", "f"]),
         T("add-small", {"p": base, "f": b"x" * 10}, ["add", "p", "--part", "new", "--from-file", "f", "--set-flag", "dont-hash"]),
         T("add-tree", {"p": base, "f": fs}, ["add", "p", "--part", "fs", "--from-file", "f", "--encoder", "merkle"], tree=(fs, "fs")),
         T("add-key", {"p": base, "f": pub}, ["add", "p", "--part", "k", "--from-file", "f", "--encoder", "key"]),
         T("add-meta", {"p": base}, ["add", "p", "--meta", "m", "--from-string", "text"]),
         T("add-meta-file", {"p": base, "f": b"12345"}, ["add", "p", "--meta", "m", "--from-file", "f"]),
         T("add-uuid", {"p": base}, ["add", "p", "--meta", "m", "--from-string", "5df103ef-e774-450b-95c5-1fef51ceec28", "--encoder", "uuid"]),
         T("set", {"p": base}, ["set", "p", "--meta", "note", "--from-string", "other"]),
         T("set-key", {"p": base}, ["set", "p", "--key-id", "k", "--keystore-id", "s"]),
         T("sign", {"p": base, "k": pem, "q": pub}, ["sign", "p", "--key", "k"], ["verify", "p", "--key", "q"]),
         T("sign-raw", {"p": base, "s": rng.randbytes(70)}, ["sign", "p", "--signature", "s"]),
         T("show", {"p": target}, ["show", "p"]), T("show-part-hash", {"p": base}, ["show", "p", "--part-hash", "one"]),
         T("show-hash", {"p": base}, ["show", "p", "--hash"]), T("show-binary", {"p": base}, ["show", "p", "--binary-hash"]),
         T("plan", {"p": base}, ["transport", "p", "--add", "--part", "one", "--encoder", "bsdiff", "--decoder", "bspatch"]),
         T("delete", {"p": base}, ["delete", "p", "--part", "one"]), T("delete-all", {"p": base}, ["delete", "p", "--all"]),
         T("extract", {"p": base}, ["extract", "p", "--part", "one", "--output", "o"]),
         T("extract-out", {"p": base}, ["extract", "p", "--part", "one"]),
         T("extract-meta", {"p": base}, ["extract", "p", "--meta", "note", "--output", "o"]),
         T("extract-meta-out", {"p": base}, ["extract", "p", "--meta", "note"]),
         T("compare", {"p": base, "q": target}, ["compare", "p", "q"]),
         T("keystore", {"p": store}, ["generate", "keystore", "p", "--name", "x"]), T("id", {}, ["generate", "id", "name"]),
         T("show-part", {"p": base}, ["show", "p", "--part", "one"]), T("show-meta", {"p": base}, ["show", "p", "--meta", "bpak-package"]),
         T("encode", {"p": target, "q": org}, ["transport", "p", "--encode", "--origin", "q", "--output", "o"])]
    return l, target, org, base, pem, pub, store


SYSCALLS = ["read", "write", "lseek", "ftruncate", "mmap", "openat"]


def strace_works(w):
    if not shutil.which("strace"):
        return False
    f = os.path.join(w, "probe")
    with open(f, "w") as h:
        h.write("x")
    p = run_in(w, ["strace", "-o", os.path.join(w, ".t"), "-P", f, "-e", "trace=read", "-e", "inject=read:error=EIO:when=1", "head", "-c", "1", f])
    return p.returncode != 0 and b"output error" in p.stderr


def traced(tool, op, d, inject):
    """one run under strace; which calls it made on files of d"""
    names = sorted(set(op.files) | {"o", "p"})
    cmd = ["strace", "-qq", "-o", ".trace", "-e", "signal=none"]
    for n in names:
        cmd += ["-P", os.path.join(d, n)]
    cmd += ["-e", "trace=" + ",".join(SYSCALLS)]
    if inject:
        call, k, err = inject
        cmd += ["-e", "inject=%s:error=%s:when=%s" % (call, err, k)]
    p = run_in(d, cmd + [tool] + op.argv)
    with open(os.path.join(d, ".trace")) as f:
        t = f.read()
    return p, t


def killed(p):
    return p.returncode < 0 or p.returncode >= 128 and p.returncode - 128 in (4, 6, 7, 8, 11) and b"AddressSanitizer" in p.stderr or p.returncode == 99


def command_lines(ctx, drv, rng):
    tool = build_tool(True)
    w = sub("w-tool")
    ops, target, org, base, pem, pub, store = tools(rng, drv)
    # what the encoder makes of it and signed packages are needed for more
    def made(op, name):
        d = os.path.join(w, "made")
        op.prepare(d)
        p = run_in(d, [tool] + op.argv)
        if p.returncode:
            return None
        with open(os.path.join(d, name), "rb") as f:
            return f.read()
    coded = made(ops[-1], "o")
    sgn = made(Tool("", {"p": base, "k": pem}, ["sign", "p", "--key", "k"]), "p")
    if coded:
        ops.append(Tool("decode", {"p": coded, "q": org}, ["transport", "p", "--decode", "--origin", "q", "--output", "o"]))
    if sgn:
        ops.append(Tool("verify", {"p": sgn, "k": pub}, ["verify", "p", "--key", "k"]))
    use = strace_works(w)
    if not use:
        ctx.assumptions.append("strace cannot inject faults here: only full disks were tried")
    ctx.extra["system_call_faults"] = use

    def one(k, op, plan=None):
        """events of one command line; plan: the disturbances, None: choose"""
        d = os.path.join(w, "c%d" % k)
        op.prepare(d)
        p, t = traced(tool, op, d, None) if use else (run_in(d, [tool] + op.argv), "")
        want = op.outcome(d, tool, p)
        ev = [{"a": "tool", "op": op.name, "exit": p.returncode}]
        if p.returncode:
            return ev, []
        top = max([len(b) for b in op.files.values()] + [os.path.getsize(os.path.join(d, n)) for n in os.listdir(d)])
        if plan is None:
            r2 = random.Random(SEED * 71 + k)
            plan = []
            for c in SYSCALLS:
                n = len([1 for x in t.splitlines() if x.startswith(c + "(")])
                pts = list(range(1, n + 1))
                cap = 8 if not THOROUGH else 200
                if n > cap:
                    pts = sorted({1, 2, n - 1, n} | set(r2.sample(pts, cap - 4)))
                for x in pts:
                    plan.append(("call", c, x, "ENOSPC" if c == "write" else "EIO"))
                    if THOROUGH:
                        plan.append(("call", c, "%d+" % x, "EIO"))
            lim = {0, 1, 4095, 4096, 4097, top - 1, top // 2} | {r2.randrange(top + 1) for _ in range(3 if not THOROUGH else 60)}
            plan += [("limit", x) for x in sorted(lim) if 0 <= x < top] + [("limit", top + 65536), ("full",)]
        for x in plan:
            op.prepare(d)
            if x[0] == "call":
                p, _ = traced(tool, op, d, x[1:])
                e = {"a": "disturbed", "what": "%s:%s:%s" % x[1:]}
            elif x[0] == "full":
                p = run_in(d, [tool] + op.argv, full=True)
                e = {"a": "disturbed", "what": "full"}
            else:
                p = run_in(d, [tool] + op.argv, limit=x[1])
                e = {"a": "roomy" if x[1] > top else "disturbed", "what": "limit:%d" % x[1]}
            e.update(op=op.name, exit=p.returncode, killed=killed(p), same=op.outcome(d, tool, p) == want)
            ctx.count("tool:%s:%s" % (e["what"].split(":")[0], "ok" if e["exit"] == 0 else "failed"))
            ev.append(e)
        shutil.rmtree(d, True)
        return ev, plan
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: one(*a), enumerate(ops)))
    judge(ctx, "tool", "BpakFaultTrace", [e for e, _ in res],
          lambda t, l: "bpak %s\n%s" % (" ".join(ops[t].argv), json.dumps(res[t][0][l - 1])), lambda t: one(100 + t, ops[t], res[t][1])[0],
          key=lambda e: "%s:%s:%s" % (e.get("op"), e["a"], e.get("what")), maxbad=20)


def run():
    ctx = Ctx("C14")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 67 + 14)
    cfg = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound EmitInv\nCONSTANTS MaxSteps=3\n MaxCalls=2\n BufLen=%d\n Careless=%s\n Emit=%s\n"
    r = check_model(ctx, "operations", "BpakFaultMC", cfg % (2, "FALSE", "TRUE"))
    check_model(ctx, "small-buffer", "BpakFaultMC", cfg % (1, "FALSE", "FALSE"))
    if tlc("BpakFaultMC", cfg % (2, "TRUE", "FALSE")).ok:
        raise ModelError("leaving out the closing of files goes unnoticed in the model")
    model = [json.loads(x) for x in {json.dumps(p) for p in r.prints}]
    library(ctx, drv, model, rng)
    # the decoder: every single call
    kinds = [["plain", "copy"], ["diff"], ["tree"], ["diff", "tree", "plain"]]
    jobs = [decode.Job(ks, rng) for ks in kinds * (2 if not THOROUGH else 30)]
    cap = 60 if not THOROUGH else 1000

    def faults(k, calls):
        pts, _ = points(len(calls), model, cap, rng)
        return [(p, m) for p in pts for m in (MODES if THOROUGH else rng.sample(MODES, 1))]
    decode.decode_runs(ctx, "decoder", drv, jobs, faults, "TRUE")
    command_lines(ctx, drv, rng)
    ctx.assumptions += ["one failing call at a time, or all from one on", "a failing system call transfers nothing"]
    return ctx.finish()
