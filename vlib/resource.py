"""C21: what operations take and give back, and refused memory, against
BpakResource.tla."""
import os, random, shutil, struct
from .core import *
from . import fault, package as pk, raw, transport
from .merkle import B
from .patch import mutate
from .transport import PAIRS, tm

KEYS = os.path.join(VERIF, "keys")


class World:
    """Files for operations; `@name` in a line is a fresh copy, `=name` the file itself."""

    def __init__(self, rng, w, drv, k=0):
        """k: of another size"""
        self.w, self.rng, f = w, rng, {}
        data, fs, salt = rng.randbytes(9000 + 1111 * k), rng.randbytes((3 + k) * B), rng.randbytes(32)
        der, der2 = (open(KEYS + "/%s.der" % x, "rb").read() for x in [("ec256a", "rsa4096a"), ("ec256b", "rsa4096b"), ("ec384", "ec521")][k % 3])
        metas = [("bpak-package", 0, b"0123456789abcdef"), ("note", 0, b"some text\0")]
        f["base"] = raw.package([raw.Part("one", data), raw.Part("two", rng.randbytes(700)), raw.Part("k", der, 1)], metas)
        f["full"] = raw.package([raw.Part("p%d" % k, b"x" * k) for k in range(32)], metas)
        f["almost"] = raw.package([raw.Part("p%d" % k, b"x" * k) for k in range(31)], metas)
        f["metafull"] = raw.package([raw.Part("one", data)], metas + [("m%d" % k, 0, b"") for k in range(30)])
        f["meta31"] = raw.package([raw.Part("one", data)], metas + [("m%d" % k, 0, b"") for k in range(29)])
        f["hastree"] = raw.package([raw.Part("new-hash-tree", b"x")], metas)
        f["sha512"] = raw.package([raw.Part("one", data)], metas, hk=3)
        f["nohash"] = raw.package([raw.Part("one", data)], metas, hk=1)[:3464] + b"\x07" + raw.package([raw.Part("one", data)], metas, hk=1)[3465:]
        f["cut"] = f["base"][:4096 + 5000]
        f["short"] = f["base"][:100]
        f["bad"] = b"XXXX" + f["base"][4:]
        f["empty"] = b""
        f["in0"], f["in1"], f["in5000"], f["intree"], f["inodd"], f["big"] = b"", b"x", rng.randbytes(5000 + 77 * k), rng.randbytes((130 + k) * B), rng.randbytes(B + 1), fs
        f["garbage"] = rng.randbytes(300)
        root, tree = pk.merkle(fs, salt)
        f["store"] = raw.package([raw.Part("key1", der), raw.Part("key2", der2), raw.Part("nokey", b"x" * 90),
                                  raw.Part("other", open(KEYS + "/ec224.der", "rb").read()), raw.Part("long", b"x" * 5000)],
                                 metas + [("keystore-provider-id", 0, struct.pack("<I", crc32_id("store")))])
        old = mutate(rng, data)
        rec = [tm("one", *PAIRS[0]), tm("fs-hash-tree", "remove-data", "merkle-generate")]
        mm = metas + [("merkle-salt", "fs", salt), ("merkle-root-hash", "fs", root)]
        tp = [raw.Part("one", data), raw.Part("fs", fs), raw.Part("fs-hash-tree", tree), raw.Part("plain", b"abc")]
        for n, p in (("hs", PAIRS[0]), ("no", PAIRS[1]), ("xz", PAIRS[2])):
            f["tgt-" + n] = raw.package(tp, mm + [tm("one", *p), rec[1]])
        f["tgt-bad"] = raw.package(tp, mm + [tm("one", "nonsense", "nonsense"), rec[1]])
        f["tgt-late"] = raw.package(tp, mm + [rec[1], tm("plain", *PAIRS[2])])
        f["org"] = raw.package([raw.Part("one", old), raw.Part("fs", fs)], metas)
        f["org-cut"] = f["org"][:4096 + 100]
        f["org-none"] = raw.package([raw.Part("else", old)], metas)
        f["org-uuid"] = raw.package([raw.Part("one", old)], [("bpak-package", 0, b"X" * 16)])
        f["tgt-cut"] = f["tgt-hs"][:4096 + 5000]
        self.f = f
        for n, b in f.items():
            with open(self.p(n), "wb") as o:
                o.write(b)
        # coded packages, as the library codes them, and spoiled
        drv.run([[x.replace("=", w + "/f-") for x in ("open 0 =tgt-%s r+b" % n, "open 2 =org r+b", "open 1 =enc-%s w+b" % n, "tenc 0 1 2",
                                                      "close 0", "close 1", "close 2")] for n in ("hs", "no", "xz")], w)
        for n in ("hs", "no", "xz"):
            b = b""
            if os.path.exists(self.p("enc-" + n)):
                with open(self.p("enc-" + n), "rb") as o:
                    b = o.read()
            if len(b) <= 4096:
                b = f["base"]
            self.put("enc-" + n, b)
            self.put("enccut-" + n, b[:4096 + 20])
            x = bytearray(b)
            x[min(4096 + 40, len(b) - 1)] ^= 0xff
            self.put("encbad-" + n, bytes(x))

    def put(self, n, b):
        self.f[n] = b
        with open(self.p(n), "wb") as o:
            o.write(b)

    def p(self, n):
        return os.path.join(self.w, "f-" + n)


class Case:
    """before: lines to come first; main: the operation.  edit: the file a refused
    operation leaves alone; outs: files that are the outcome; key: signatures are judged by it"""

    def __init__(self, name, main, before=(), edit=None, outs=(), salted=False, key=None, op=None):
        self.name, self.main, self.before = name, main, list(before)
        self.edit, self.outs, self.salted, self.key, self.op = edit, list(outs), salted, key, op


TAKERS = {"open": "open", "close": "close", "kget": "kget", "kfree": "kfree"}


def kind(line):
    return TAKERS.get(line.split()[0], "work")


def num(line):
    k = kind(line)
    return int(line.split()[1]) if k != "work" else 0


def cases(w, rng, deep, often=None):
    c = []

    def on(pkg, name, main, **kw):
        c.append(Case(name, main, ["cp =%s @p" % pkg, "open 0 @p r+b"], edit="@p", **kw))
    # opening
    for f in ("base", "short", "bad", "empty", "full"):
        for m in ("rb", "r+b"):
            if (f, m) != ("empty", "rb"):
                c.append(Case("open-%s-%s" % (f, m), "open 0 @p " + m, ["cp =%s @p" % f], edit=None if f == "empty" else "@p"))
    c += [Case("open-new", "open 0 @n w+b"), Case("open-absent", "open 0 @absent r+b"), Case("open-dir", "open 0 /tmp r+b"),
          Case("open-over", "open 0 @p w+b", ["cp =base @p"]), Case("open-empty-rb", "open 0 @p rb", ["cp =empty @p"])]
    # adding
    for f in ("in0", "in1", "in5000", "big"):
        on("base", "addfile-" + f, "addfile 0 =%s new 0" % f)
    on("base", "addfile-absent", "addfile 0 @absent new 0")
    on("base", "addfile-dir", "addfile 0 /tmp new 0")
    on("base", "addfile-dup", "addfile 0 =in1 one 0")
    on("full", "addfile-full", "addfile 0 =in1 new 0")
    on("nohash", "addfile-nohash", "addfile 0 =in1 new 0")
    on("cut", "addfile-cut", "addfile 0 =in1 new 0")
    for f in ("big", "intree"):
        on("base", "addmerkle-" + f, "addmerkle 0 =%s new 0" % f, salted=True)
    on("base", "addmerkle-odd", "addmerkle 0 =inodd new 0")
    on("base", "addmerkle-empty", "addmerkle 0 =in0 new 0")
    on("base", "addmerkle-absent", "addmerkle 0 @absent new 0")
    on("base", "addmerkle-dup", "addmerkle 0 =big one 0")
    on("almost", "addmerkle-full", "addmerkle 0 =big new 0")
    on("metafull", "addmerkle-metafull", "addmerkle 0 =big new 0")
    on("meta31", "addmerkle-meta31", "addmerkle 0 =big new 0")
    on("hastree", "addmerkle-tree", "addmerkle 0 =big new 0")
    for k in ("ec256a", "ec521", "rsa4096a"):
        on("base", "addkey-" + k, "addkey 0 %s/%s.pub new 0" % (KEYS, k))
    for k in ("rsa2048", "ec224", "ed25519", "secp256k1"):
        on("base", "addkey-" + k, "addkey 0 %s/%s.pub new 0" % (KEYS, k))
    on("base", "addkey-absent", "addkey 0 @absent new 0")
    on("base", "addkey-garbage", "addkey 0 =garbage new 0")
    on("base", "addkey-dup", "addkey 0 %s/ec256a.pub one 0" % KEYS)
    on("full", "addkey-full", "addkey 0 %s/ec256a.pub new 0" % KEYS)
    on("nohash", "addkey-nohash", "addkey 0 %s/ec256a.pub new 0" % KEYS)
    # taking away, looking
    i = lambda n: "%08x" % crc32_id(n)
    on("base", "delete", "pdelpart 0 %s 1" % i("one"))
    on("base", "delete-none", "pdelpart 0 %s 1" % i("none"))
    on("base", "delete-all", "delall 0 1")
    for f in ("nohash", "cut"):
        on(f, "delete-" + f, "pdelpart 0 %s 1" % i("one"))
        on(f, "delete-all-" + f, "delall 0 1")
    on("base", "extract", "extract 0 %s @o" % i("one"), outs=["@o"])
    on("base", "extract-out", "xout 0 %s @o" % i("one"), outs=["@o"])
    on("base", "extract-none", "extract 0 %s @o" % i("none"))
    on("base", "extract-nowhere", "extract 0 %s @no/such/dir" % i("one"))
    on("cut", "extract-cut", "extract 0 %s @o" % i("one"))
    on("cut", "extract-cut-out", "xout 0 %s @o" % i("one"))
    on("base", "extract-fulldisk", "extract 0 %s /dev/full" % i("one"))
    for p in ("base", "sha512", "nohash", "cut"):
        on(p, "hash-" + p, "updhash 0 x")
        on(p, "parthash-" + p, "psha 0 %s" % i("one"))
    on("base", "write", "wrheader 0")
    on("base", "size", "psize 0")
    on("base", "parthash-none", "psha 0 %s" % i("none"))
    # keys
    for k in ("ec256a", "ec384", "ec521", "rsa4096a", "rsa2048", "ec224", "ed25519", "secp256k1", "bp256"):
        c.append(Case("pub-" + k, "kget 1 pub %s/%s.pub" % (KEYS, k)))
        c.append(Case("pri-" + k, "kget 1 pri %s/%s.pem" % (KEYS, k)))
        c.append(Case("parse-" + k, "kget 1 parse %s" % open("%s/%s.der" % (KEYS, k), "rb").read().hex()))
    for h in ("pub", "pri"):
        c += [Case(h + "-absent", "kget 1 %s @absent" % h), Case(h + "-garbage", "kget 1 %s =garbage" % h)]
    c.append(Case("parse-garbage", "kget 1 parse %s" % w.f["garbage"].hex()))
    for k in ("key1", "key2", "nokey", "other", "long", "none"):
        c.append(Case("store-" + k, "kget 1 store =store %s %s" % (i("store"), i(k))))
        for cb in ("0", "-1"):
            c.append(Case("storecb-%s-%s" % (k, cb), "ksload =store %s %s %s" % (i("store"), i(k), cb)))
    c += [Case("store-not", "kget 1 store =base %s %s" % (i("store"), i("one"))),
          Case("store-otherid", "kget 1 store =store %s %s" % (i("x"), i("key1"))),
          Case("store-short", "kget 1 store =short %s %s" % (i("store"), i("key1"))),
          Case("store-bad", "kget 1 store =bad %s %s" % (i("store"), i("key1"))),
          Case("store-absent", "kget 1 store @absent %s %s" % (i("store"), i("key1")))]
    # signatures
    for k in ("ec256a", "ec384", "rsa4096a", "rsa2048", "ed25519"):
        on("base", "sign-" + k, "sign 0 %s/%s.pem" % (KEYS, k), key=k)
    on("base", "sign-absent", "sign 0 @absent")
    on("base", "sign-garbage", "sign 0 =garbage")
    on("base", "sign-public", "sign 0 %s/ec256a.pub" % KEYS)
    on("nohash", "sign-nohash", "sign 0 %s/ec256a.pem" % KEYS)
    on("cut", "sign-cut", "sign 0 %s/ec256a.pem" % KEYS)
    on("base", "rawsig", "rawsig 0 %s" % (b"sig" * 20).hex())
    on("base", "rawsig-long", "rawsig 0 %s" % (b"s" * 513).hex())
    for k in ("ec256a", "rsa4096a", "rsa2048"):
        c.append(Case("verify-" + k, "verify 0 %s/%s.pub" % (KEYS, k),
                      ["cp =base @p", "open 0 @p r+b", "sign 0 %s/%s.pem" % (KEYS, k)], edit="@p", key=k))
    on("base", "verify-unsigned", "verify 0 %s/ec256a.pub" % KEYS)
    on("base", "verify-absent", "verify 0 @absent")
    # transport
    def tenc(name, inp, org):
        b = ["cp =%s @p" % inp, "open 0 @p r+b", "open 1 @e w+b"] + (["open 2 =%s rb" % org] if org else [])
        c.append(Case("encode-" + name, "tenc 0 1 " + ("2" if org else "-"), b, edit="@p", outs=["@e"]))

    def tdec(name, inp, org):
        b = ["cp =%s @p" % inp, "open 0 @p r+b", "open 1 @e w+b"] + (["open 2 =%s rb" % org] if org else [])
        c.append(Case("decode-" + name, "tdec 0 1 " + ("2" if org else "-"), b, edit="@p", outs=["@e"]))
    for n in ("hs", "no", "xz"):
        tenc(n, "tgt-" + n, "org")
        tdec(n, "enc-" + n, "org")
        tdec("cut-" + n, "enccut-" + n, "org")
        tdec("bad-" + n, "encbad-" + n, "org")
    for o in ("org-cut", "org-none", "org-uuid", None):
        for n in ("hs", "xz"):
            tenc("%s-%s" % (n, o), "tgt-" + n, o)
            tdec("%s-%s" % (n, o), "enc-" + n, o)
    tenc("bad", "tgt-bad", "org")
    tenc("late", "tgt-late", "org")
    tenc("cut", "tgt-cut", "org")
    # by calls
    n = often or (1 if not deep else 12)
    ops = []
    for _ in range(n):
        ops += [fault.VPay(rng, True)] + [fault.Diff(rng, x) for x in (0, 1, 2)] + [fault.Patch(rng, x) for x in (0, 1, 2)]
        ops += [fault.Merkle(rng, rng.choice([1, 2, 130]), zf) for zf in (0, 1)]
    ops.append(fault.Merkle(rng, 2, 1))
    ops[-1].cuts = [1500, 1500, 1500, 1500, 1500, 692]      # what comes after a refused piece of a block
    c += [Case("calls-%s" % type(o).__name__, None, op=o) for o in ops]
    for n in ("hs", "xz", "no"):
        for v in ("enc", "enccut", "encbad"):
            c.append(Case("stream-%s-%s" % (v, n), "dec =%s-%s =org 512 4096 0 200000 @log 512,7" % (v, n), outs=["@log"]))
    return c


def right(x):
    """the answer of an operation: it went well"""
    return not any(x.get(k, 0) < 0 for k in ("rc", "init", "fin")) and not any(y < 0 for y in x.get("w", []))


class Run:
    """A case carried out: request i of its operation is refused (0: none)."""

    def __init__(self, w, case, i, tag):
        self.w, self.c, self.i, self.tag = w, case, i, tag
        c = case
        before, main = c.before, c.main
        if c.op:
            l = c.op.lines(w.w, tag)
            before, main = l[:-1], l[-1]
            self.opfile = getattr(c.op, "f", None)
        self.steps = [("op", x) for x in before]
        if c.edit:
            self.steps.append(("snap", "snap 0 %s @before" % c.edit))
        self.steps.append(("main", main))
        if c.edit:
            self.steps.append(("snap", "snap 0 %s @after" % c.edit))
        for x in before + [main]:
            if kind(x) == "open":
                self.steps.append(("op", "close " + x.split()[1]))
            if kind(x) == "kget":
                self.steps.append(("op", "kfree " + x.split()[1]))
        if c.key and main.startswith("sign"):
            self.steps.append(("check", "vfile @p %s/%s.pub" % (KEYS, c.key)))
        self.steps = [(h, self.name(x)) for h, x in self.steps]

    def name(self, x):
        out = []
        for t in x.split(" "):
            if t.startswith("=") and t[1:] in self.w.f:
                t = self.w.p(t[1:])
            elif t.startswith("@"):
                t = "%s/r%s-%s" % (self.w.w, self.tag, t[1:])
            out.append(t)
        return " ".join(out)

    def script(self):
        s = ["alloc 0"]
        for h, x in self.steps:
            if h == "main" and self.i:
                s.append("alloc %d" % self.i)
            s += [x] + (["res"] if h in ("op", "main") else [])
        return s

    def read(self, t):
        try:
            with open(self.name(t), "rb") as f:
                return f.read()
        except OSError:
            return None

    def masked(self, b):
        c, front = self.c, b""
        if b and b[:4] == b[4096:4100] == struct.pack("<I", 0x42504132):
            # the header in the handle comes first
            front, b = b"" if b[:4096] == b[4096:8192] else b[:4096], b[4096:]
        if b and len(b) >= 4096 and c.salted:
            b = fault.salted(b, self.w.f["intree" if "intree" in c.main else "big"], "new")
        if b and len(b) >= 4096 and c.key:
            b = b[:3536] + bytes(560) + b[4096:]
        return b and front + b

    def clean(self):
        for t in ["p", "n", "o", "e", "log", "before", "after"]:
            try:
                os.unlink(self.name("@" + t))
            except OSError:
                pass

    def events(self, r, want):
        """events, outcome, requests of the operation; want: the outcome when nothing is refused (None: this one)"""
        c = self.c
        if "crash" in r[-1]:
            self.clean()
            return [{"a": "crash", "why": r[-1]["crash"], "case": c.name, "refuse": self.i}], None, 0
        ev, j, replies, check = [], 1, [], ""
        for h, x in self.steps:
            if h == "main" and self.i:
                j += 1
            if h in ("snap", "check"):
                if h == "check":
                    check = r[j]["rc"] == 0
                j += 1
                continue
            y, res = r[j], r[j + 1]
            j += 2
            t = x.split(" ")
            e = {"a": "op", "k": kind(x), "n": num(x), "op": t[0], "ok": right(y), "same": True, "kept": True}
            e.update({q: res[q] for q in ("files", "maps", "live", "foreign", "refused")})
            ev.append(e)
            replies.append(y)
            if h == "main":
                m, calls = e, res["calls"]
        m.update(case=c.name, refuse=self.i)
        outs = []
        if c.op:
            replies = replies[:len(c.op.lines(self.w.w, self.tag))]
            rcs = c.op.rcs(replies)[0]
            m["ok"] = all(v >= 0 for v in rcs)
            if m["ok"]:
                c.op.f = self.opfile
                outs.append(c.op.out(replies))
        if m["ok"]:
            outs += [sha(self.read(o) or b"") for o in c.outs]
            if c.edit:
                outs.append(sha(self.masked(self.read("@after")) or b""))
        elif c.edit:
            m["kept"] = self.read("@before") == self.read("@after")
        if self.opfile if c.op else False:
            os.unlink(self.opfile)
        out = [m["ok"], outs, check if m["ok"] else ""]
        m["same"] = want is None or out == want
        self.clean()
        return ev, out, calls


def sweep(ctx, drv, w, cs, cap, rng):
    """every case undisturbed, then with every one of its requests refused"""
    base = [Run(w, c, 0, "b%d" % k) for k, c in enumerate(cs)]
    todo, traces, redo = [], [], []
    got = drv.run([x.script() for x in base], w.w, jobs=8)
    wants = {}
    for k, (x, r) in enumerate(zip(base, got)):
        if r is None:
            continue
        ev, out, calls = x.events(r, None)
        wants[k] = out
        traces.append(ev)
        redo.append((k, 0))
        ctx.count("%s:%s" % (x.c.name.split("-")[0], out and out[0]))
        pts = list(range(1, calls + 1))
        if len(pts) > cap:
            pts = sorted({1, 2, calls} | set(rng.sample(pts, cap - 3)))
        todo += [(k, i) for i in pts]
    runs = [Run(w, cs[k], i, "s%d" % n) for n, (k, i) in enumerate(todo)]
    for n, (x, r) in enumerate(zip(runs, drv.run([x.script() for x in runs], w.w, jobs=8))):
        if r is None:
            continue
        ev, out, _ = x.events(r, wants[todo[n][0]])
        ctx.count("refused:%s" % x.c.name.split("-")[0])
        traces.append(ev)
        redo.append(todo[n])

    def again(t):
        k, i = redo[t]
        x = Run(w, cs[k], i, "again")
        return x.events(drv.run([x.script()], w.w)[0], wants.get(k))[0]
    judge(ctx, "operations", "BpakResourceTrace", traces,
          lambda t, l: "%s, request %d refused\n%s" % (cs[redo[t][0]].name, redo[t][1], "\n".join(Run(w, *[cs[redo[t][0]], redo[t][1], "again"]).script())[:50000]),
          again, key=lambda e: "%s:%s" % (e.get("case", e.get("op")), e["a"]), maxbad=12)
    return todo


def rounds(ctx, drv, w, cs, rng):
    """the same again and again: what is held does not grow"""
    jobs = [(c, 0) for c in cs] + [(c, i) for c in cs for i in (1, 2, 3) if rng.random() < .3]

    def script(n, c, i):
        s = []
        for _ in range(6):
            x = Run(w, c, i, "h%d" % n)
            s += x.script() + ["res", "fresh", "heap"]
        return s

    def events(n, c, i, r):
        Run(w, c, i, "h%d" % n).clean()
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"], "case": c.name, "refuse": i}]
        h = [x for x in r if "heap" in x]
        return [{"a": "rounds", "case": c.name, "refuse": i, "heap": [x["heap"] for x in h],
                 "left": [x[q] for x in h for q in ("files", "maps", "live")]}]
    traces, idx = [], []
    for n, r in enumerate(drv.run([script(n, *x) for n, x in enumerate(jobs)], w.w, jobs=8)):
        if r is not None:
            traces.append(events(n, *jobs[n], r))
            idx.append(n)
    ctx.count("rounds", len(traces))
    judge(ctx, "rounds", "BpakResourceTrace", traces,
          lambda t, l: "%s\n%s" % (jobs[idx[t]][0].name, "\n".join(script(99999, *jobs[idx[t]]))[:50000]),
          lambda t: events(99999, *jobs[idx[t]], drv.run([script(99999, *jobs[idx[t]])], w.w)[0]),
          key=lambda e: "%s:%s" % (e.get("case"), e["a"]), maxbad=12)


class History:
    """Operations after one another as the model has them, over some packages and keys."""

    def __init__(self, w, hist, rng, tag, cs):
        self.w, self.tag, self.hist = w, tag, hist
        by = {}
        for c in cs:
            by.setdefault(c.name.split("-")[0], []).append(c)
        self.steps = [("setup", "cp =base @p%d" % k, 0) for k in (1, 2)]
        isopen, alive = set(), set()
        good = lambda names: rng.choice(names)
        for h in hist:
            k, n, at = h["k"], h["n"], h["at"]
            o = rng.choice(sorted(isopen)) if isopen else 0
            if k == "open":
                x = "open %d @p%d r+b" % (n, n)
                isopen.add(n)
            elif k == "openbad":
                x = "open %d %s r+b" % (n, rng.choice(["=short", "=bad", "@absent", "/tmp"]))
            elif k == "close":
                x = "close %d" % n
                isopen.discard(n)
            elif k == "kget":
                x = "kget %d " % n + rng.choice(["pub %s/ec256a.pub", "pri %s/ec384.pem", "pub %s/rsa4096a.pub", "pri %s/rsa4096b.pem"]) % KEYS
                if rng.random() < .3:
                    x = "kget %d store =store %08x %08x" % (n, crc32_id("store"), crc32_id("key2"))
            elif k == "kgetbad":
                x = "kget %d " % n + rng.choice(["pub =garbage", "pri @absent", "pub %s/rsa2048.pub" % KEYS, "pri %s/ec224.pem" % KEYS,
                                                 "store =store %08x %08x" % (crc32_id("store"), crc32_id("nokey"))])
            elif k == "kfree":
                x = "kfree %d" % n
            elif k == "edit":
                x = rng.choice(["addfile %d =in5000 new%d 0", "addkey %d " + KEYS + "/ec256a.pub new%d 0", "addmerkle %d =big new%d 0"]) % (o, rng.randrange(9))
                if rng.random() < .3:
                    x = "sign %d %s/ec256a.pem" % (o, KEYS)
            elif k == "editbad":
                x = rng.choice(["addfile %d @absent new 0", "addkey %d =garbage new 0", "addmerkle %d =inodd new 0", "addkey %d " + KEYS + "/ec256a.pub two 0",
                                "sign %d =garbage", "addmerkle %d =big one 0"]) % o
            elif k == "look":
                x = rng.choice(["updhash %d x", "verify %d " + KEYS + "/ec256a.pub", "extract %%d %08x @o" % crc32_id("one"), "psha %%d %08x" % crc32_id("two")]) % o
            elif k in ("code", "codebad"):
                c = rng.choice([c for c in by["stream"] + by["calls"] + by["storecb"] if not c.op or len(c.op.lines("x", 0)) == 1])
                x = c.op.lines("x", 0)[0] if c.op else c.main
            else:
                x = rng.choice([c for c in by["storecb"]]).main
            self.steps.append((k, x, at))
        r = Run.__new__(Run)
        r.w, r.tag = w, tag
        self.steps = [(k, r.name(x), at) for k, x, at in self.steps]

    def script(self):
        s = ["alloc 0"]
        for k, x, at in self.steps:
            s += ["alloc %d" % at, x, "res"] if k != "setup" else [x]
        return s

    def events(self, r):
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"]}]
        ev, j = [], 1
        for k, x, at in self.steps:
            if k == "setup":
                j += 1
                continue
            y, res = r[j + 1], r[j + 2]
            j += 3
            ev.append(dict({q: res[q] for q in ("files", "maps", "live", "foreign")}, a="op", k=kind(x), n=num(x), op=x.split(" ")[0], ok=right(y),
                           same=True, kept=True, refused=res["refused"]))
        return ev


def histories(ctx, drv, w, cs, hists, rng):
    hs = [History(w, h, random.Random(rng.random()), "m%d" % k, cs) for k, h in enumerate(hists)]
    got = drv.run([h.script() for h in hs], w.w, jobs=8)
    tr = [(k, h.events(r)) for k, (h, r) in enumerate(zip(hs, got)) if r is not None]
    for _, es in tr:
        for e in es:
            ctx.count("history:%s" % e.get("op"))
    ctx.sample({"history": hists[0], "trace": tr[0][1][:3]})
    judge(ctx, "histories", "BpakResourceTrace", [e for _, e in tr], lambda t, l: "\n".join(hs[tr[t][0]].script())[:50000],
          lambda t: hs[tr[t][0]].events(drv.run([hs[tr[t][0]].script()], w.w)[0]), key=lambda e: "%s:%s" % (e.get("op"), e["a"]), maxbad=6)
    for p in os.listdir(w.w):
        if p.startswith("rm"):
            os.unlink(os.path.join(w.w, p))


def pycases(w):
    """lines for the Python module, by name"""
    i = lambda n: "%d" % crc32_id(n)
    op = ["cp =base @p", "open 0 @p r+b"]
    c = {"open": op, "open-rb": ["cp =base @p", "open 0 @p rb"], "open-absent": ["open 0 @absent r+b"], "open-bad": ["open 0 =bad r+b"], "open-short": ["open 0 =short rb"],
         "with": ["cp =base @p", "with 0 @p r+b", "close 0"], "with-raise": ["cp =base @p", "with 0 @p r+b", "raiseclose 0"],
         "open-twice": op + ["reinit 0 @p r+b", "reinit 0 @absent r+b"], "bare": ["bare 0", "view 0"],
         "close": op + ["close 0", "view 0", "addfile 0 =in1 new 0", "look x"], "drop": op + ["drop 0 @p"],
         "new": ["open 0 @n w+b", "addfile 0 =in1 new 0"], "view": op + ["view 0", "psize 0", "updhash 0 x"]}

    def on(name, *lines):
        c[name] = op + list(lines)
    for f in ("in0", "in1", "in5000", "big"):
        on("addfile-" + f, "addfile 0 =%s new 0" % f)
    on("addfile-absent", "addfile 0 @absent new 0")
    on("addfile-dup", "addfile 0 =in1 one 0")
    on("addmerkle", "addmerkle 0 =big new 0")
    on("addmerkle-odd", "addmerkle 0 =inodd new 0")
    on("addkey", "addkey 0 %s/ec256a.pub new 0" % KEYS)
    on("addkey-other", "addkey 0 %s/rsa2048.pub new 0" % KEYS)
    on("addkey-absent", "addkey 0 @absent new 0")
    on("addkey-dup", "addkey 0 %s/ec256a.pub one 0" % KEYS)
    for v in ("i:5", "n:", "f:1.5", "s:c3a5", "b:ff"):
        for m in ("verify", "sign"):
            on("%s-%s" % (m, v[:1]), "call 0 %s %s" % (m, v))
        on("add_file-" + v[:1], "call 0 add_file s:6e %s" % v)
        on("add_file-name-" + v[:1], "call 0 add_file %s s:%s" % (v, w.p("in1").encode().hex()))
        on("add_key-" + v[:1], "call 0 add_key s:6e %s" % v)
        on("add_meta-" + v[:1], "call 0 add_meta i:7 i:8 %s" % v)
        on("id-" + v[:1], "call module id %s" % v)
        on("get-" + v[:1], "call 0 get_meta %s" % v, "call 0 get_part %s" % v, "call 0 get_meta i:3 %s" % v)
        on("log-" + v[:1], "call module set_log_func %s" % v)
        on("coded-" + v[:1], "call module transport_encode p:0 %s" % v, "call module transport_decode %s p:0" % v)
        for a in ("key_id", "keystore_id", "hash_kind", "signature_kind", "signature", "nonsense"):
            on("set-%s-%s" % (a, v[:1]), "attr 0 %s %s" % (a, v))
    for a in ("key_id", "keystore_id", "hash_kind", "signature"):
        on("del-" + a, "attr 0 %s del" % a)
    on("sign", "sign 0 %s/ec256a.pem" % KEYS, "verify 0 %s/ec256a.pub" % KEYS, "verify 0 %s/ec256b.pub" % KEYS)
    on("sign-rsa", "sign 0 %s/rsa4096a.pem" % KEYS, "verify 0 %s/rsa4096a.pub" % KEYS)
    on("sign-absent", "sign 0 @absent", "verify 0 @absent", "sign 0 =garbage", "verify 0 =garbage")
    on("rawsig", "rawsig 0 %s" % (b"sig" * 20).hex(), "rawsig 0 %s" % (b"s" * 513).hex())
    on("meta", "addmeta 0 m 5 0 b:616263 -", "look m", "text m", "uuid m", "oattr m raw_data b:646566", "oattr m raw_data s:64", "oattr m raw_data i:5",
       "oattr m id i:9", "oattr m id s:61", "oattr m part_id_ref i:4", "oattr m part_id_ref n:", "oattr m part_id_ref s:61", "odel m", "look m")
    on("meta-text", "addmeta 0 m 5 0 s:616263 -", "look m", "text m", "addmeta 0 m 5 0 s:c3a5 -", "addmeta 0 m 5 0 i:3 -", "addmeta 0 m 5 0 - 5000", "addmeta 0 m 6 0 - 16", "uuid m")
    on("meta-list", "listm 0 m 0", "look m", "listm 0 m 9", "getm 0 m %s -" % i("note"), "text m", "getm 0 m 77 -", "getm 0 m %s 3" % i("note"))
    on("part", "getp 0 x %s" % i("one"), "look x", "listp 0 y 1", "look y", "listp 0 y 9", "getp 0 z 77", "oattr x id i:9", "oattr x id s:61", "look x", "odel x", "look x")
    on("part-kept", "addto 0 x file new =in5000", "look x", "addto 0 y key newk %s/ec256a.pub" % KEYS, "look y", "addto 0 z tree t =big", "look z", "letgo 0 @p", "look x", "odel x")
    on("meta-kept", "addmeta 0 m 5 0 b:616263 -", "letgo 0 @p", "look m", "odel m")
    for l in ("none", "keep", "gone", "fail"):
        on("log-func-" + l, "log " + l, "addfile 0 @absent new 0", "addfile 0 =in1 one 0", "sign 0 @absent", "addfile 0 =in1 new 0")
    on("ids", "id 616263", "id -", "id c3a5")
    for n, x in (("a", "hs"), ("b", "no"), ("c", "xz")):
        c["encode-" + n] = ["cp =tgt-%s @p" % x, "open 0 @p r+b", "open 1 @e w+b", "open 2 =org rb", "tenc 0 1 2"]
        c["decode-" + n] = ["cp =enc-%s @p" % x, "open 0 @p r+b", "open 1 @e w+b", "open 2 =org rb", "tdec 0 1 2"]
        c["encode-no-origin-" + n] = ["cp =tgt-%s @p" % x, "open 0 @p r+b", "open 1 @e w+b", "tenc 0 1 -"]
        c["decode-bad-" + n] = ["cp =encbad-%s @p" % x, "open 0 @p r+b", "open 1 @e w+b", "open 2 =org rb", "tdec 0 1 2", "tdec 0 1 -"]
    return c


def python(ctx, w):
    py = PyDriver(build_python())
    c = sorted(pycases(w).items())

    def script(n):
        r = Run.__new__(Run)
        r.w, r.tag = w, "y%s" % n
        return ([r.name(x) for x in c[n][1]] + ["heap"]) * 10

    def events(n, r):
        if "crash" in r[-1]:
            return [{"a": "crash", "why": r[-1]["crash"], "case": c[n][0]}]
        h = [x for x in r if "heap" in x][2:]
        return [{"a": "rounds", "case": c[n][0], "heap": [x["heap"] for x in h], "left": [x["files"] - h[0]["files"] for x in h]}]
    got = py.run([script(n) for n in range(len(c))], w.w, jobs=8)
    idx = [n for n, r in enumerate(got) if r is not None]
    traces = [events(n, got[n]) for n in idx]
    ctx.count("python-rounds", len(traces))
    judge(ctx, "python", "BpakResourceTrace", traces, lambda t, l: "%s\n%s" % (c[idx[t]][0], "\n".join(script(idx[t]))),
          lambda t: events(idx[t], py.run([script(idx[t])], w.w)[0]), key=lambda e: "%s:%s" % (e.get("case"), e["a"]), maxbad=12)


CFG = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Tidy Told EmitInv\nCONSTANTS Slots={%s}\n MaxHist=%d\n Forgetful=%s\n Blind=%s\n Emit=%s\n"


def run():
    ctx = Ctx("C21")
    drv = Driver(build_driver())
    rng = random.Random(SEED * 83 + 21)
    r = check_model(ctx, "taking", "BpakResourceMC", CFG % ("1", 3 if not THOROUGH else 4, "FALSE", "FALSE", "TRUE"))
    check_model(ctx, "slots", "BpakResourceMC", CFG % ("1,2", 3, "FALSE", "FALSE", "FALSE"))
    for f, b in (("TRUE", "FALSE"), ("FALSE", "TRUE")):
        if tlc("BpakResourceMC", CFG % ("1", 2, f, b, "FALSE")).ok:
            raise ModelError("forgetting or overlooking goes unnoticed in the model")
    w = World(rng, sub("w-res"), drv)
    cs = cases(w, rng, THOROUGH)
    sweep(ctx, drv, w, cs, 80 if not THOROUGH else 600, rng)
    rounds(ctx, drv, w, cs, rng)
    hs = r.prints
    hs = rng.sample(hs, min(len(hs), 2500 if not THOROUGH else 8000))
    histories(ctx, drv, w, cs, hs, rng)
    python(ctx, w)
    ctx.assumptions += ["the allocator refuses one request at a time", "memory is counted by the sanitizer's allocator"]
    return ctx.finish()
