"""C20: programs against the Python module, judged by BpakPython.tla."""
from .package import *
from . import transport

BIG = [0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
OUT = ["i:-1", "i:-5", "i:4294967296", "i:4294967301", "i:18446744073709551616", "i:99999999999999999999999999"]
ODD = ["n:", "f:1.5", "s:3131", "b:31", "del"]
FIELDS = {"keyid": "key_id", "ksid": "keystore_id", "hash": "hash_kind", "sigkind": "signature_kind"}


def num(i):
    return int(nid(i), 16)


def hx(b):
    return b.hex()


class Val:
    """A Python value for contents: bytes or text."""

    def __init__(self, b, text=False, fits=True, src=None):
        self.b, self.text, self.fits = b, text, fits
        self.src = src or ("%s:%s" % ("s" if text else "b", hx(b)))


class PyScript(PScript):
    up = False

    def __init__(self, sid, inputs, d):
        super().__init__(sid, inputs, d)
        self.pre = []
        self.views = {}

    def step(self, ev, lines, snap=True, main=0, extra=None, view=None):
        pre, self.pre = self.pre, []
        if main is not None:
            main += len(pre)
        ev["see"] = 1
        super().step(ev, pre + lines, snap, main, extra)
        if self.up if view is None else view:
            e, ls, m, sp, x = self.steps.pop()
            self.views[len(self.steps)] = len(ls)
            self.steps.append((e, ls + ["view 0"], m, sp, x))

    # -- the package
    def create(self, how="open", mode="w+"):
        self.up = True
        self.step({"a": "pycreate"}, ["%s 0 %s %s" % (how, self.pkg, mode)])

    def open(self, mode="r+", how="open"):
        self.up = True
        self.step({"a": "pyopen", "good": True, "mode": "rw" if "+" in mode else "r"}, ["%s 0 %s %s" % (how, self.pkg, mode)])

    def reinit(self, mode="r+", path=None):
        """__init__ again; path: of what is no package"""
        self.up = path is None
        self.step({"a": "reinit", "good": self.up, "mode": "rw" if "+" in mode else "r"}, ["reinit 0 %s %s" % (path or self.pkg, mode)])

    def openbad(self, path, mode):
        """something that is no package"""
        self.step({"a": "pyopen", "good": False, "mode": "r"}, ["open 0 %s %s" % (path, mode)], view=False)

    def close(self, how="close"):
        self.up = False
        self.step({"a": "pyclose"}, ["%s 0" % how])

    def closing(self, rng):
        """by the argument of a statement about it, which is not carried out then"""
        self.up = False
        what = rng.choice(["file", "tree", "key", "sign", "verify"])
        path = KEYDIR + "/ec256a" + (".pub" if what in ("key", "verify") else ".pem")
        if what in ("file", "tree"):
            path = self.inp.path("t8192")
            self.inp.get("t8192")
        self.step({"a": "pyclose"}, ["closing 0 %s %s %s" % (what, rng.choice(["cl", "x0", "n0"]), path)])

    def drop(self, vars_=()):
        self.up = False
        self.step({"a": "drop", "vars": list(vars_)}, ["drop 0 %s %s" % (self.pkg, " ".join(vars_))], extra="fds")

    def orphan(self, rng):
        """the package is reached through its objects only, until the last one is gone"""
        self.up = False
        m, p = ["m0", "m1", "m2"], ["p0", "p1", "p2"]
        self.step({"a": "letgo", "vars": []}, ["letgo 0 %s" % self.pkg], extra="fds")
        left = m + p
        while left:
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(left)
                x = rng.random()
                if x < .4:
                    self.look(o)
                elif x < .5:
                    self.odel(o)
                elif o in m:
                    if x < .6:
                        self.text(o)
                    elif x < .7:
                        self.uuid(o)
                    elif x < .8:
                        self.raw(o, value(rng))
                    elif x < .9:
                        self.key("mid", o, rng.choice(["o1", "o2", "x0"]))
                    else:
                        self.key("mref", o, rng.choice(["o1", "0", "n0"]))
                else:
                    self.key("pid", o, rng.choice(["o1", "o2", "n0"]))
            gone = rng.sample(left, min(len(left), rng.choice([1, 1, 2, 6])))
            left = [o for o in left if o not in gone]
            self.step({"a": "letgo", "vars": gone}, ["letgo - %s %s" % (self.pkg, " ".join(gone))], extra="fds")

    def bring(self):
        if self.up:
            self.close()
        self.step({"a": "bring"}, ["cp %s %s" % (self.path("kept"), self.pkg)], snap=False, extra="bring")
        self.open()

    def log(self, m):
        self.pre.append("log " + m)

    def ro(self, line):
        self.step({"a": "ro"}, [line])

    def shut(self, line, edit):
        self.step({"a": "shut", "edit": edit}, [line], view=False)

    def misuse(self, line):
        self.step({"a": "misuse"}, [line])

    # -- statements
    def addto(self, o, kind, i, f):
        if kind == "key":
            there = f in GOODKEYS
            b, path = der(f) if there else b"", KEYDIR + "/%s.pub" % f if f != "absent" else "/nonexistent"
        else:
            there = f not in ("absent", "directory")
            b, path = self.inp.get(f) if there else b"", self.inp.path(f)
        self.step({"a": "addto", "o": o, "tree": kind == "tree", "i": nid(i), "ti": nid(i + "-hash-tree"), "s": wide(len(b)), "c": ctok(b),
                   "there": there}, ["addto 0 %s %s %s %s" % (o, kind, i, path)], extra=("tree", b) if kind == "tree" else None)

    def pyaddmeta(self, o, i, r, val=None, size=None, rawid=None, rawref=None):
        """i: name; rawid/rawref: numbers that do not fit"""
        v = val or Val(b"")
        fits = v.fits and rawid is None and rawref is None and (val is not None or (size is not None and size >= 0))
        fits = fits and (size is None or -2 ** 62 < size < 2 ** 62)
        self.step({"a": "addmeta", "o": o, "i": nid(i), "r": nid(r), "b": list(v.b), "text": v.text and val is not None,
                   "size": -1 if size is None or size < 0 else min(size, 1 << 30), "fits": fits},
                  ["addmeta 0 %s %s %s %s %s" % (o, rawid or num(i), rawref or (num(r) if r != "0" or self.n % 2 else "-"),
                                                 v.src if val else "-", "-" if size is None else size)])

    def getm(self, o, i, r):
        self.step({"a": "getm", "o": o, "i": nid(i), "r": nid(r)},
                  ["getm 0 %s %d %s" % (o, num(i), "-" if r == "0" and self.n % 2 else num(r))])

    def getp(self, o, i):
        self.step({"a": "getp", "o": o, "i": nid(i)}, ["getp 0 %s %d" % (o, num(i))])

    def listm(self, o, n):
        self.step({"a": "listm", "o": o, "n": n + 1}, ["listm 0 %s %d" % (o, n)])

    def listp(self, o, n):
        self.step({"a": "listp", "o": o, "n": n + 1}, ["listp 0 %s %d" % (o, n)])

    def key(self, a, o, v=None, src=None):
        """mid, mref, pid: v a name, or src a value that does not fit"""
        attr = {"mid": "id", "pid": "id", "mref": "part_id_ref"}[a]
        fits = src is None or (a == "mref" and src == "n:")
        v = "0" if v is None else v
        self.step({"a": a, "o": o, "v": nid(v), "fits": fits}, ["oattr %s %s %s" % (o, attr, src or "i:%d" % num(v))])

    def raw(self, o, val):
        self.step({"a": "mraw", "o": o, "b": list(val.b), "text": val.text, "fits": val.fits}, ["oattr %s raw_data %s" % (o, val.src)])

    def odel(self, o):
        self.step({"a": "odel", "o": o}, ["odel " + o])

    def look(self, o):
        self.step({"a": "look", "o": o}, ["look " + o], extra="look")

    def text(self, o):
        self.step({"a": "text", "o": o}, ["text " + o], extra="text")

    def uuid(self, o):
        self.step({"a": "uuid", "o": o}, ["uuid " + o], extra="uuid")

    def field(self, f, v, src=None):
        ev = {"a": "field", "f": f, "v": nid(v) if f in ("keyid", "ksid") and src is None else v, "fits": src is None}
        if src is not None:
            ev["v"] = 0
        if f == "hash":
            ev["anypr"] = 1
        self.step(ev, ["attr 0 %s %s" % (FIELDS[f], src or "i:%d" % (num(v) if f in ("keyid", "ksid") else v))])

    def pysig(self, b=None, src=None, fits=True):
        b = b or b""
        self.step({"a": "pysig", "sg": [len(b), tok(b[:512])], "fits": fits}, ["attr 0 signature %s" % (src or "b:" + hx(b))])

    def look_package(self):
        self.step({"a": "psize"}, ["psize 0"])


def pyevents(s, replies, seen):
    out, pos, lastb = [], 0, None
    up = False
    for n, (ev0, lines, main, sp, extra) in enumerate(s.steps):
        rs = replies[pos:pos + len(lines)]
        pos += len(lines)
        bad = [r for r in rs if "crash" in r]
        if bad or len(rs) < len(lines):
            out.append({"a": "crash", "why": bad[0]["crash"] if bad else "no reply"})
            break
        ev = dict(ev0)
        r = rs[main] if main is not None else {"rc": 0}
        ev["rc"] = r["rc"]
        if r["rc"] == -2 and "o" in ev:
            ev = {"a": "noobj", "o": ev["o"], "rc": 0}
            extra = None
        elif r["rc"] == -2 and ev["a"] in ("shut", "misuse", "ro"):
            ev["rc"] = -1
        if r.get("rc") == 0 and r.get("is", True) is not True:
            out.append({"a": "crash", "why": "not True"})
            break
        if sp is None:
            ev["blind"] = 1
        else:
            with open(sp, "rb") as f:
                b = f.read()
            os.unlink(sp)
            if len(b) < 4096:
                out.append({"a": "short", "rc": ev["rc"]} if ev["a"] == "vfile" else {"a": "crash", "why": "no package left", "op": ev["a"]})
                if ev["a"] != "vfile":
                    break
                continue
            proj, hf, parts = seen.get(b)
            ev["hf"] = hf
            if b != lastb or ev["a"] == "load":
                ev["disk"] = proj
                lastb = b
        if n in s.views:
            v = rs[s.views[n]]
            if v["rc"]:
                out.append({"a": "crash", "why": "cannot be looked at: %s" % v, "op": ev})
                break
            v = v["v"]
            sg = bytes.fromhex(v["sg"])
            ev["view"] = dict(v, sg=[len(sg), tok(sg)], size=wide(v["size"]), inst=wide(v["inst"]),
                              p=[dict(q, s=wide(q["s"]), o=wide(q["o"])) for q in v["p"]])
        if ev["a"] == "psize":
            ev["size"], ev["inst"] = wide(r["size"]), wide(r["inst"])
        if extra == "fds":
            ev["fds"] = r.get("fds", -1)
        elif extra == "look" and r["rc"] == 0:
            o = r["o"]
            if "n" in o:
                ev["c"] = o["h"] if o["n"] else ctok(b"")
                ev["n"] = wide(o["n"])
                ev["v"] = {"i": o["i"], "s": wide(o["s"]), "o": wide(o["o"]), "t": o["t"]}
            else:
                ev["v"] = o
        elif extra == "text" and r["rc"] == 0:
            ev["t"] = r["t"]
        elif extra == "uuid" and r["rc"] == 0:
            ev["u"] = r["u"]
        elif extra == "updhash":
            if b[3464] not in HASHES:
                out.append({"a": "crash", "why": "no hash kind"})
                break
            hl = HASHES[b[3464]][1]
            ev["dg"] = r.get("h", "")
            ev["hdf"] = header_digest(b[:3468] + (bytes.fromhex(hf["v"]) if hf["v"] != "EOF" else b"") .ljust(hl, b"\0") + b[3468 + hl:]).hex()
        elif extra in ("verify", "hd"):
            ev["hd"] = sha(b[:3582])
            ev["mf"], ev["tids"] = merkle_facts(proj, parts, b, list)
        elif isinstance(extra, tuple) and extra[0] == "tree":
            g = {"salt": [], "root": [], "tree": ""}
            if r["rc"] == 0:
                for m in proj["m"]:
                    if m["i"] == SALT_ID and m["r"] == ev["i"]:
                        ref = merkle(extra[1], bytes(m["d"])) if len(m["d"]) == 32 else None
                        g = {"salt": m["d"], "root": list(ref[0]) if ref else [], "tree": ctok(ref[1]) if ref else "?"}
            ev["g"] = g
        elif isinstance(extra, tuple) and extra[0] == "sign":
            ev["hd"] = sha(b[:3582])
            ev["sg"] = proj["sg"]
            ev["ext"] = bool(ev["able"] and r["rc"] == 0 and
                             ext_verify(extra[1], b[3464], header_digest(b), b[3582:3582 + min(512, proj["sg"][0])]))
        out.append(ev)
    return out


class PySeen(Seen):
    def get(self, b):
        k = hashlib.sha1(b).digest()
        if k not in self.c:
            if len(self.c) > 300:
                self.c.clear()
            self.c[k] = project(b, list, tok)
        return self.c[k]


def run_programs(ctx, name, drv, scripts):
    scripts, reps = alive(scripts, drv.run([s.lines() for s in scripts], sub("w-" + name), jobs=6))
    seen = PySeen()
    traces = [pyevents(s, r, seen) for s, r in zip(scripts, reps)]
    for t in traces:
        for e in t:
            ctx.count("%s:%s" % (e["a"], "ok" if e.get("rc") == 0 else "refused"))

    def again(t):
        return pyevents(scripts[t], drv.run([scripts[t].lines()], sub("w2-" + name))[0], PySeen())

    def replay(t, l):
        return "\n".join("; ".join(st[1]) for st in scripts[t].steps[:l])
    return judge(ctx, name, "BpakPythonTrace", traces, replay, again, consts(REAL), key=lambda e: "%s:%s" % (name, e["a"]), spec="PySpec")


# ------------------------------------------------------------ programs from the model
VALUES = {"": b"", "ab": b"ab", "abc": b"abc", "abcd": b"abcd"}


def model_statement(s, x):
    a = x["a"]
    if a == "addmeta":
        s.pyaddmeta(x["o"], x["i"], x["r"], Val(VALUES[x["v"]], x["text"]), None if x["size"] < 0 else x["size"])
    elif a in ("mid", "pid", "mref"):
        s.key(a, x["o"], x["v"])
    elif a == "mraw":
        s.raw(x["o"], Val(VALUES[x["v"]], x["text"]))
    elif a == "odel":
        s.odel(x["o"])
    elif a == "addto":
        s.addto(x["o"], "file", x["i"], "f513")
    elif a == "getm":
        s.getm(x["o"], x["i"], x["r"])
    elif a == "getp":
        s.getp(x["o"], x["i"])
    elif a == "look":
        s.look(x["o"])
    elif a == "cycle":
        if s.n % 2:
            s.reinit()
        else:
            s.close()
            s.open()
    else:
        raise ModelError(a)


def model_programs(ctx, inp, d, name, limit, tail, **kw):
    c = dict(REAL, MVars='{"m0", "m1"}', PVars='{"p0", "p1"}', MIds='{"x", "y"}', Refs='{"0", "P"}', PIds='{"P", "Q"}', Values='{"ab", "abcd"}',
             MaxLive=2, MaxPath=4, Emit="TRUE")
    c.update(kw)
    r = check_model(ctx, name, "BpakPythonMC", "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nINVARIANTS OnFile UniqueM UniqueP NoHole "
                    "HashCurrent EmitInv\nPROPERTIES FrameMC NamesMC\n" + consts(c), workers=1)
    alpha = sorted([x["alphabet"] for x in r.prints if "alphabet" in x][0], key=lambda x: json.dumps(x, sort_keys=True))
    paths = [x["path"] for x in r.prints if "path" in x]
    rng = random.Random(SEED * 11 + 1)
    if len(paths) > limit:
        paths = rng.sample(paths, limit)
    out = []
    for k, p in enumerate(paths):
        s = PyScript("%s%d" % (name[0], k), inp, d)
        s.create()
        for x in p:
            model_statement(s, x)
        for x in rng.sample(alpha, min(tail, len(alpha))):
            model_statement(s, x)
        if k % 2:
            s.drop(["m0", "m1", "p0", "p1"])
        else:
            s.close()
        out.append(s)
    return out


# ------------------------------------------------------------ random programs
def value(rng, most=1920):
    x = rng.random()
    n = rng.choice([0, 1, 3, 7, 8, 9, 15, 16, 16, 16, 17, 32, 33, 200])
    if x < .45:
        return Val(rng.randbytes(n))
    if x < .8:
        b = bytes(rng.randrange(1, 128) if rng.random() < .97 else 0 for _ in range(n))
        return Val(b, True)
    if x < .85:
        return Val(rng.randbytes(rng.choice([600, 1919, 1920, 1921, 3000])))
    if x < .9:
        return Val(b"", True, False, "s:" + "gr\u00fcn".encode().hex())
    return Val(b"", False, False, rng.choice(["i:5", "f:2.5", "a:3132", "t:1"]))


def program(s, rng, n, base=None):
    metas = ["m%d" % k for k in range(3)]
    pvars = ["p%d" % k for k in range(3)]
    ids = ["x%d" % k for k in range(rng.choice([2, 4, 40]))]
    parts = ["n%d" % k for k in range(rng.choice([2, 4, 40]))]
    if rng.random() < .2:
        ids, parts = ids + ZERO_NAMES, ZERO_NAMES + parts + [ZERO_TREE]
    files = ["r%d" % z for z in rng.sample(SIZES, 6)] + ["r0", "r0", "t4096", "t8192", "absent", "directory"]
    s.log(rng.choice(["none", "none", "keep", "gone", "fail", "busy"]))
    how = rng.choice(["open", "with"])
    if base:
        s.load(base)
        s.open(rng.choice(["r+", "rb+", "r+b"]), how)
    else:
        s.create(how, rng.choice(["w", "wb", "w+", "wb+"]))
        if rng.random() < .7:
            # written only or not, it is the same package afterwards
            s.close()
            s.open("r+", how)
        else:
            s.close()
            s.open("rb+", how)
    for _ in range(n):
        x = rng.random()
        m, p = rng.choice(metas), rng.choice(pvars)
        i, r, q = rng.choice(ids), rng.choice(["0", "0"] + parts[:3]), rng.choice(parts)
        if x < .14:
            z = rng.random()
            s.pyaddmeta(m, i, r, value(rng) if z < .9 else None,
                        None if z < .5 or z > .95 else rng.choice([0, 1, 5, 8, 16, 100, 1920, 1921, 65535, 65536, 65540, 131072 + 4, -1, -7, 1 << 40]))
        elif x < .20:
            s.addto(p, rng.choice(["file", "file", "file", "tree", "key"]), q, rng.choice(files))
        elif x < .21:
            s.addto(p, "key", q, rng.choice(GOODKEYS + BADKEYS + ["absent"]))
        elif x < .28:
            s.getm(m, i, r)
        elif x < .33:
            s.getp(p, q)
        elif x < .37:
            s.listm(m, rng.randrange(3))
        elif x < .40:
            s.listp(p, rng.randrange(3))
        elif x < .45:
            s.key("mid", m, rng.choice(ids + ["0"])) if rng.random() < .8 else s.key("mid", m, None, rng.choice(OUT + ODD))
        elif x < .50:
            s.key("mref", m, rng.choice(parts[:3] + ["0"])) if rng.random() < .8 else s.key("mref", m, None, rng.choice(OUT + ODD))
        elif x < .54:
            s.key("pid", p, rng.choice(parts + ["0"])) if rng.random() < .8 else s.key("pid", p, None, rng.choice(OUT + ODD))
        elif x < .60:
            s.raw(m, value(rng) if rng.random() < .9 else Val(b"", False, False, rng.choice(["n:", "del"])))
        elif x < .64:
            s.odel(m)
        elif x < .67:
            s.odel(p)
        elif x < .72:
            s.look(m)
        elif x < .77:
            s.look(p)
        elif x < .80:
            s.text(m)
        elif x < .82:
            s.uuid(m)
        elif x < .87:
            f = rng.choice(list(FIELDS))
            if rng.random() < .25:
                s.field(f, 0, rng.choice(OUT + ODD + (["i:0", "i:4", "i:255", "i:256", "i:257", "i:513"] if f == "hash" else ["i:256", "i:258"] if f == "sigkind" else [])))
            elif f in ("keyid", "ksid"):
                s.field(f, rng.choice(["%08x" % v for v in BIG] + ids))
            else:
                s.field(f, rng.choice([1, 2, 3] if f == "hash" else [1, 2, 3, 4]))
        elif x < .90:
            z = rng.random()
            if z < .6:
                s.pysig(rng.randbytes(rng.choice([0, 1, 64, 71, 72, 511, 512, 513, 514, 4000])))
            elif z < .8:
                s.pysig(b"", rng.choice(["n:", "del"]))
            else:
                s.pysig(b"", rng.choice(["s:3132", "i:5", "a:3132"]), False)
        elif x < .92:
            s.updhash()
        elif x < .94:
            s.look_package()
        elif x < .95:
            s.misuse(rng.choice(["getm 0 %s 4294967296 -" % m, "getm 0 %s -1 -" % m, "getm 0 %s %d 4294967296" % (m, num(i)),
                                 "getm 0 %s %d -1" % (m, num(i)), "getm 0 %s %d %d" % (m, num(i) + (1 << 32), num(r)),
                                 "getp 0 %s -1" % p, "getp 0 %s %d" % (p, num(q) + (1 << 32)),
                                 "attr 0 size i:5", "attr 0 digest b:00", "attr 0 parts n:", "sign 0 /nonexistent", "verify 0 /nonexistent"]))
            s.step({"a": "getm", "o": m, "i": nid("never"), "r": nid("0")}, ["getm 0 %s %d -" % (m, num("never"))])
            s.step({"a": "getp", "o": p, "i": nid("never")}, ["getp 0 %s %d" % (p, num("never"))])
        elif x < .96:
            s.pyaddmeta(m, i, r, Val(b"v"), None, rng.choice([-1, 1 << 32, num(i) + (1 << 32), 1 << 70]))
        elif x < .97:
            s.pyaddmeta(m, i, "0", Val(b"v"), None, None, rng.choice([-1, 1 << 32, 1 << 70]))
        elif x < .98:
            s.log(rng.choice(["none", "keep", "gone", "fail", "busy"]))
        else:
            z = rng.random()
            if z < .3:
                s.reinit(rng.choice(["r+", "rb+"]))
                continue
            if z < .4:
                s.reinit("r+", rng.choice(["/nonexistent", s.inp.path("r100")]))
                s.inp.get("r100")
                s.shut("look %s" % m, False)
            if z > .7 and s.up:
                if z > .85:
                    s.orphan(rng)
                else:
                    s.drop(metas + pvars)
            elif z > .55 and s.up:
                s.closing(rng)
            else:
                s.close()
            s.open("r+", "open")
    z = rng.random()
    if z < .3:
        s.orphan(rng)
    elif z < .6:
        s.drop(metas + pvars)
    else:
        s.close(rng.choice(["close", "raiseclose"]) if how == "with" and False else "close")


EDITS = ["addmeta 0 m0 77 - b:31 -", "addto 0 p0 file zz %(f)s", "addto 0 p0 tree zz %(t)s", "addto 0 p0 key zz %(k)s.pub", "attr 0 key_id i:5",
         "attr 0 keystore_id i:5", "attr 0 hash_kind i:2", "attr 0 signature_kind i:3", "attr 0 signature b:3132", "attr 0 signature n:", "sign 0 %(k)s.pem",
         "oattr m1 id i:99", "oattr m1 part_id_ref i:99", "oattr m1 raw_data b:39", "odel m1", "oattr p1 id i:99", "odel p1"]
ASKS = ["look m1", "look p1", "text m1", "uuid m1", "updhash 0", "psize 0", "view 0", "getm 0 m2 1 -", "getp 0 p2 1", "listm 0 m2 0", "listp 0 p2 0",
        "verify 0 %(k)s.pub"]


def held(s, rng):
    """a package with something in it, held by m1 and p1"""
    s.create()
    s.close()
    s.open()
    s.addto("p1", rng.choice(["file", "tree"]), "P", "t8192")
    s.pyaddmeta("m1", "mm", rng.choice(["0", "P"]), value(rng) if rng.random() < .2 else Val(rng.randbytes(16)))
    s.getp("p1", "P")
    s.pyaddmeta("m1", "held", "0", Val(rng.randbytes(16)))


def modes(inp, d, rng, n):
    """read-only and closed packages"""
    out = []
    f = {"f": inp.path("r513"), "t": inp.path("t8192"), "k": KEYDIR + "/ec256a"}
    inp.get("r513"), inp.get("t8192")
    for j in range(n):
        s = PyScript("c%d" % j, inp, d)
        s.log(rng.choice(["none", "keep", "fail", "busy"]))
        held(s, rng)
        if j % 2:
            s.close()
            s.open(rng.choice(["r", "rb"]))
            s.getm("m1", "held", "0")
            s.getp("p1", "P")
            s.look("m1")
            s.look("p1")
            s.updhash()
            # the header in the handle may have been changed: one statement, then closed
            s.step({"a": "ro"}, [rng.choice(EDITS) % f], view=False)
            s.up = False
            s.step({"a": "pyclose"}, ["close 0"])
        elif rng.random() < .4:
            s.closing(rng)
        else:
            s.close()
            if rng.random() < .2:
                s.pre.append("bare 0")
        for _ in range(6):
            ed = rng.random() < .6
            s.shut(rng.choice(EDITS if ed else ASKS) % f, ed)
        if rng.random() < .5:
            s.pre.append("close 0")
        s.open()
        s.getm("m1", "held", "0")
        s.look("m1")
        s.drop(["m0", "m1", "m2", "p0", "p1", "p2"])
        out.append(s)
    return out


def matrix(inp, d, rng):
    """everything of a wrong type, out of range, missing or too much"""
    bad = []
    for f in FIELDS.values():
        bad += ["attr 0 %s %s" % (f, v) for v in OUT + ODD]
    bad += ["attr 0 hash_kind i:%d" % v for v in (0, 4, 255, 256, 257, 258, 259, 2 ** 31, 2 ** 32 + 1)]
    bad += ["attr 0 signature_kind i:%d" % v for v in (256, 257, 258, 511, 2 ** 16 + 1, 2 ** 31, 2 ** 32 + 2)]
    for o, a in (("m1", "id"), ("m1", "part_id_ref"), ("p1", "id")):
        bad += ["oattr %s %s %s" % (o, a, v) for v in OUT + ODD if (a, v) not in (("part_id_ref", "n:"), ("part_id_ref", "del"))]
    bad += ["oattr %s id i:0" % o for o in ("m1", "p1")]
    bad += ["oattr m1 raw_data " + v for v in ("n:", "i:5", "f:1.5", "del", "a:3132", "t:1", "b:" + "31" * 17, "s:" + "31" * 16, "s:" + "gr\u00fcn".encode().hex(),
                                               "b:" + "31" * 70000)]
    bad += ["attr 0 signature " + v for v in ("i:5", "f:1.5", "s:3132", "a:3132", "t:1", "b:" + "31" * 513, "b:" + "31" * 65536, "b:" + "31" * 65600)]
    bad += ["attr 0 %s %s" % (a, v) for a in ("size", "installed_size", "digest", "parts", "meta", "nothing") for v in ("i:1", "n:", "b:31", "del")]
    bad += ["oattr %s %s" % (a, v) for a in ("m1 size", "p1 size", "p1 offset", "p1 is_transport_encoded", "m1 nothing", "p1 nothing") for v in ("i:1", "t:1", "del")]
    f, k = "s:" + inp.path("r513").encode().hex(), "s:" + (KEYDIR + "/ec256a").encode().hex()
    inp.get("r513")
    n = "s:" + b"new".hex()
    zero = ["s:" + z.encode().hex() for z in ("", ZERO_NAMES[0], ZERO_NAMES[1])]
    for m, g in (("add_file", f), ("add_key", k + b".pub".hex())):
        bad += ["call 0 %s %s" % (m, v) for v in ["", n, "i:5 " + g, "n: " + g, n + " i:5", n + " n:", n + " f:1.5", "b:31 " + g, "s:610062 " + g,
                                                  n + " s:610062", n + " s:" + "gr\u00fcn".encode().hex(), g + " " + n, n + " s:"] + [z + " " + g for z in zero]]
        bad += ["call 0 %s %s" % (m, n + " " + g + (" t:0 i:1" if m == "add_file" else " t:1"))]
    bad += ["call 0 add_file %s %s t:1" % (z, "s:" + inp.path("t8192").encode().hex()) for z in zero + ["s:" + ZERO_TREE.encode().hex()]]
    inp.get("t8192")
    bad += ["call 0 add_meta " + v for v in ["", "n:", "s:31", "f:1.5", "i:5", "i:5 n:", "i:5 s:31 b:31", "i:5 i:0 i:7", "i:5 i:0 f:1.5", "i:5 i:0 n:", "i:0 i:0 b:31",
                                             "i:5 i:0 b:31 s:31", "i:5 i:0 b:31 n:", "i:5 i:0 b:31 f:1.5", "i:5 i:0 b:31 i:4 i:4", "i:5 i:0 a:3132", "i:5 i:0 b:31 i:1921",
                                             "i:5 i:0 b:31 i:65536", "i:5 i:0 b:31 i:65537", "i:5 i:0 b:31 i:131080", "i:5 i:0 b:31 i:4294967297",
                                             "i:5 i:0 b:31 i:9223372036854775807", "i:5 i:0 b:31 i:9223372036854775808", "i:5 i:0 b:" + "31" * 1921, "i:5 i:0 b:" + "31" * 65537]]
    bad += ["call 0 add_meta %s i:0 b:31" % v for v in OUT] + ["call 0 add_meta i:5 %s b:31" % v for v in OUT]
    bad += ["call 0 %s %s" % (m, v) for m in ("get_part", "get_meta") for v in ["", "n:", "s:31", "f:1.5", "b:31", "i:0", "i:5 i:6 i:7"] + OUT]
    bad += ["call 0 get_part i:5 i:0"] + ["call 0 get_meta i:%d %s" % (num("held"), v) for v in ["n:", "s:31", "f:0.0"] + OUT]
    bad += ["call 0 %s %s" % (m, v) for m in ("sign", "verify") for v in ("", "n:", "i:5", "f:1.5", "s:610062", "s:", "%s%s i:1" % (k, b".pem".hex()), f, "s:" + b"/".hex())]
    bad += ["call 0 close i:1", "call m1 delete i:1", "call p1 delete i:1", "call p1 read_data i:1", "call m1 as_string i:1", "call m1 as_uuid i:1", "call 0 nothing"]
    bad += ["call module %s %s" % (m, v) for m in ("transport_encode", "transport_decode") for v in
            ("", "p:0", "n: n:", "p:0 n:", "n: p:0", "p:0 i:5", "p:0 s:31", "o:m1 p:0", "p:0 o:p1", "p:0 p:0 i:5", "p:0 p:0 o:m1", "p:0 p:0 p:0 p:0")]
    bad += ["call module id " + v for v in ("", "n:", "i:5", "b:31", "s:610062", "s:31 s:31")] + ["call module set_log_func" + v for v in ("", " n: n:")]

    rng.shuffle(bad)
    out = []
    for j in range(0, len(bad), 30):
        s = PyScript("x%d" % j, inp, d)
        s.log(rng.choice(["none", "keep", "fail", "gone", "busy"]))
        held(s, rng)
        for b in bad[j:j + 30]:
            s.misuse(b)
        s.getm("m1", "held", "0")
        s.look("m1")
        s.look("p1")
        s.drop(["m0", "m1", "m2", "p0", "p1", "p2"])
        out.append(s)
    return out


def others(inp, d, rng, n):
    """what is no package"""
    out = []
    for j in range(n):
        s = PyScript("o%d" % j, inp, d)
        s.create()
        s.close()
        s.drop()
        k = rng.choice(["short", "junk", "absent", "magic", "directory"])
        path = inp.path("bad%d" % j)
        if k in ("short", "junk", "magic"):
            b = {"short": rng.randbytes(rng.choice([1, 100, 4095])), "junk": rng.randbytes(5000), "magic": b"2APB" + rng.randbytes(8000)}[k]
            with open(path, "wb") as f:
                f.write(b)
        elif k == "directory":
            path = inp.path("directory")
        s.openbad(path, rng.choice(["r", "rb", "r+", "rb+"]))
        s.shut("drop 0 %s" % path, False)
        s.open()
        s.pyaddmeta("m0", "a", "0", Val(b"1"))
        s.drop(["m0"])
        out.append(s)
    return out


def signers(inp, d, rng, n):
    """signing and verifying"""
    out = []
    for j in range(n):
        s = PyScript("s%d" % j, inp, d)
        s.log(rng.choice(["none", "keep", "fail", "busy"]))
        s.create()
        s.close()
        s.open()
        key = rng.choice(GOODKEYS)
        if rng.random() < .5:
            s.field("hash", rng.choice([2, 3]))
        s.pyaddmeta("m0", "bpak-package", "0", Val(rng.randbytes(16)))
        s.addto("p0", "file", "kernel", "r%d" % rng.choice(SIZES))
        if rng.random() < .5:
            s.addto("p1", "tree", "fs", "t8192")
        s.field("keyid", "k%d" % j)
        s.field("ksid", "s%d" % j)
        s.field("sigkind", rng.choice([1, 2, 3, 4]))
        for _ in range(rng.choice([1, 2])):
            if rng.random() < .6:
                s.sign(key)
            else:
                s.sign(rng.choice(BADKEYS + ["absent"]))
                s.sign(key)
            s.verify(key)
            s.verify(rng.choice(GOODKEYS + BADKEYS + ["absent"]))
            x = rng.random()
            if x < .15:
                s.field("hash", rng.choice([1, 2, 3]))
            elif x < .3:
                s.raw("m0", Val(rng.randbytes(rng.choice([15, 16]))))
            elif x < .45:
                s.key("pid", "p0", "other")
            elif x < .6:
                s.pysig(rng.choice([b"", rng.randbytes(64), rng.randbytes(512)]))
            elif x < .7:
                s.odel("p0")
            elif x < .8:
                s.field("keyid", "other")
            s.verify(key)
        s.close()
        s.vfile(key)
        s.open("r")
        s.verify(key)
        s.updhash()
        s.drop(["m0", "p0", "p1"])
        out.append(s)
    return out


class NoStream(transport.One):
    """through packages only; the module has no streaming decoder"""

    def dec_setup(self):
        ok = super().dec_setup()
        self.calls = False
        return ok


def transport_scenarios(rng, n):
    out = []
    for _ in range(n):
        good = rng.random() < .6
        out.append({"items": [rng.choice(["plain", "diff", "diff", "fsp", "fsd"] if good else ["plain", "diff", "fsd", "mix", "pre", "carry", "badenc", "baddec", "rmonly"])
                              for _ in range(rng.choice([1, 2, 3, 4]))],
                    "eorg": rng.choice(["ok"] * 8 + ["nopart", "uuid", "none"]), "acc": rng.choice(["none"] * 6 + ["cut", "flip", "root", "salt", "data", "length", "nouuid"]),
                    "dorg": rng.choice(["ok"] * 8 + ["changed", "nopart", "uuid", "nouuid", "none"])})
    return out


def run():
    ctx = Ctx("C20")
    drv = PyDriver(build_python())
    inp = Inputs("pyinputs")
    d = sub("py")
    rng = random.Random(SEED * 6151 + 20)
    big = THOROUGH
    sc = model_programs(ctx, inp, d, "metadata-objects", 2500 if big else 130, 60 if big else 30, PVars="{}", PIds="{}",
                        MaxLive=3 if big else 2, MaxPath=5 if big else 4)
    sc += model_programs(ctx, inp, d, "part-objects", 1500 if big else 60, 40 if big else 25, MIds='{"x"}', Values='{"ab"}', MVars='{"m0"}', MaxLive=3)
    run_programs(ctx, "model-programs", drv, sc)
    n, k = (900, 90) if big else (110, 45)
    sc = []
    for j in range(n):
        s = PyScript("r%d" % j, inp, d)
        base = None
        if j % 3 == 2:
            names = ["n%d" % q for q in range(rng.choice([0, 1, 3]))]
            base = inp.path("pybase%d" % j)
            b = bytearray(crafted(rng, names, metas=[("x%d" % q, rng.choice(["0"] + names), rng.randbytes(rng.choice([0, 4, 16]))) for q in range(rng.choice([0, 2]))],
                                hk=rng.choice([1, 2, 3])))
            if rng.random() < .3:
                # a signature, also one longer than there is room for
                n = rng.choice([1, 70, 512, 513, 600, 65535])
                b[3582:4094] = rng.randbytes(min(n, 512)).ljust(512, b"\0")
                b[4094:4096] = n.to_bytes(2, "little")
            with open(base, "wb") as f:
                f.write(b)
        program(s, rng, k, base)
        sc.append(s)
    ctx.sample({"program": sc[0].lines()[:12]})
    run_programs(ctx, "random-programs", drv, sc)
    run_programs(ctx, "misuse", drv, matrix(inp, d, rng))
    run_programs(ctx, "modes", drv, modes(inp, d, rng, 400 if big else 80) + others(inp, d, rng, 100 if big else 25))
    run_programs(ctx, "signing", drv, signers(inp, d, rng, 300 if big else 40))
    transport.play(ctx, drv, "transport", transport_scenarios(rng, 1500 if big else 90), SEED * 7 + 3, one=NoStream)
    return ctx.finish()
