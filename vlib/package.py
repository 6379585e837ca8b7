"""C04-C07: package files against BpakPackage.tla."""
import threading, json, os, random, struct
from .core import *
from . import raw
from .raw import digest, odd
from .header import REAL, consts, wide, nid, Script as _S

KEYDIR = os.path.join(VERIF, "keys")
HASHES = {1: ("sha256", 32), 2: ("sha384", 48), 3: ("sha512", 64)}
ROOT_ID, SALT_ID, TRANSPORT_ID = "e68fc9be", "7c9b2f93", "2d44bbfb"
GOODKEYS = ["ec256a", "ec256b", "ec384", "ec521", "rsa4096a", "rsa4096b"]
BADKEYS = ["rsa2048", "ed25519", "ec224"]


def tok(b):
    return b.hex() if len(b) <= 32 else "#" + sha(b)


def ctok(b):
    if raw.LIGHT:
        return raw.content(b)
    return sha(b) if len(b) else "e3b0c44298fc1c14"


# ------------------------------------------------------------ files on disk

def parse_header(h, tok=tok):
    m, p = [], []
    for k in range(32):
        i, s, o, r, pad = struct.unpack_from("<IHHII", h, 8 + 16 * k)
        if i == 0:
            break
        m.append({"i": id32(i), "r": id32(r), "s": s, "o": o, "d": tok(h[1544 + o:1544 + min(1920, o + s)])})
    for k in range(32):
        i, s, o, t, d, f, pad = struct.unpack_from("<IQQQHBB", h, 520 + 32 * k)
        if i == 0:
            break
        p.append({"i": id32(i), "s": s, "o": o, "d": d, "f": f, "t": t})
    return m, p


def stored(p):
    return p["t"] if p["f"] & 2 else p["s"] + p["d"]


def residue(h, nm, np_):
    """all bytes no other field of the projection covers: token of the non-zero ones"""
    out = []

    def take(lo, hi):
        if any(h[lo:hi]):
            out.extend((k, h[k]) for k in range(lo, hi) if h[k])
    take(4, 8)
    take(3540, 3582)
    take(8 + 16 * nm, 520)
    take(520 + 32 * np_, 1544)
    for k in range(nm):
        take(8 + 16 * k + 12, 8 + 16 * k + 16)
    for k in range(np_):
        take(520 + 32 * k + 31, 520 + 32 * k + 32)
    if h[3466:3468] != b"\0\2":
        out.append((3466, h[3466], h[3467]))
    return sha(repr(out).encode()) if out else ""


def project(b, tok=tok, stok=tok):
    """(projection, hash fact, list of (part, offset, stored bytes))"""
    h = b[:4096]
    m, p = parse_header(h, tok)
    hk = h[3464]
    hl = HASHES.get(hk, ("", 64))[1]
    sgn = struct.unpack_from("<H", h, 4094)[0]
    sig = h[3582:4094]
    off, parts, key, hv = 4096, [], [], b""
    eof = False
    pj = []
    lim = lambda x: wide(min(x, 2 ** 54 - 1))
    for q in p:
        n = stored(q)
        body = b[off:off + n]
        if len(body) < n:
            c, z = "EOF", True
        elif q["f"] & 2:
            c, z = ctok(body), True
        else:
            z = not any(body[q["s"]:])
            c = ctok(body[:q["s"]]) if z else "padding:" + sha(body)
        if not q["f"] & 1:
            key.append([c, 0 if q["f"] & 2 else q["d"]])
            hv += body
            eof = eof or len(body) < n
        parts.append((q, off, body))
        off += n
        pj.append({"i": q["i"], "s": lim(q["s"]), "o": lim(q["o"]), "d": q["d"], "f": q["f"],
                   "t": lim(q["t"]), "c": c, "z": z})
    v = "EOF" if eof or hk not in HASHES else digest(hk, hv).hex()
    proj = {"m": m, "p": pj, "hk": hk, "sk": h[3465], "kid": h[3532:3536][::-1].hex(), "sid": h[3536:3540][::-1].hex(),
            "ph": h[3468:3468 + hl].hex(), "pr": h[3468 + hl:3532].hex() if any(h[3468 + hl:3532]) else "",
            "sg": [sgn, stok(sig[:min(sgn, 512)])], "sr": sha(sig[sgn:]) if any(sig[sgn:]) else "",
            "x": residue(h, len(m), len(p)), "tail": lim(max(0, len(b) - off))}
    return proj, {"k": [hk, key], "v": v}, parts


def header_digest(h):
    return digest(h[3464], h[:3582] + bytes(514))


# ------------------------------------------------------------ hash trees (reference)

def merkle(data, salt):
    """root and tree of data; None when there is none"""
    n = len(data) // 4096
    if len(data) % 4096 or n == 0:
        return None
    known = {}

    def level(d):
        if isinstance(d, raw.Sparse):
            x = bytearray(digest(1, salt + bytes(4096)) * n)
            for k in {j for o, b in d.at for j in range(o // 4096, (o + len(b) + 4095) // 4096)}:
                x[32 * k:32 * k + 32] = digest(1, salt + d[4096 * k:4096 * k + 4096])
            return bytes(x)
        out = []
        for k in range(0, len(d), 4096):
            b = d[k:k + 4096]
            if b not in known:
                known[b] = digest(1, salt + b)
            out.append(known[b])
        return b"".join(out)
    lv = [level(data)]
    lv[0] += bytes(-len(lv[0]) % 4096)
    while len(lv[-1]) > 4096:
        x = level(lv[-1])
        lv.append(x + bytes(-len(x) % 4096))
    root = lv[0][:32] if n == 1 else digest(1, salt + lv[-1])
    return root, b"".join(reversed(lv))


# ------------------------------------------------------------ openssl

_ext = {}


def openssl(args, inp=None):
    return subprocess.run(["openssl"] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def toy_sign(key, hk, digest):
    """what harness/drv_plug.c signs with"""
    return b"T" + hashlib.sha256(key.encode() + digest + bytes([hk])).digest()


TOY = False


def plug(keys, mask, light=False):
    """the functions of harness/drv_plug.c instead of those of the library"""
    global TOY, KEYDIR
    raw.LIGHT = light
    raw.MASK, TOY = mask, keys is not None
    KEYDIR = keys or os.path.join(VERIF, "keys")
    _ext.clear()
    _der.clear()


def toy_keys(d):
    for k in GOODKEYS + BADKEYS + ["secp256k1", "bp256"]:
        good = k in GOODKEYS
        for suf, t in (("pub", k + ":public"), ("pem", k + ":secret"), ("der", k + ":public")):
            with open("%s/%s.%s" % (d, k, suf), "w") as f:
                f.write(t if good else t[:-1])
    return d


def ext_verify(key, hk, digest, sig):
    if TOY:
        return sig == toy_sign(key, hk, digest)
    k = (key, hk, digest, sig)
    if k not in _ext:
        d = sub("ossl")
        n = "%s/%s" % (d, sha(repr(k).encode()))
        open(n + ".d", "wb").write(digest)
        open(n + ".s", "wb").write(sig)
        r = openssl(["pkeyutl", "-verify", "-pubin", "-inkey", KEYDIR + "/%s.pub" % key, "-in", n + ".d",
                     "-sigfile", n + ".s", "-pkeyopt", "digest:" + HASHES[hk][0]])
        _ext[k] = r.returncode == 0
    return _ext[k]


def ext_sign(key, hk, digest):
    if TOY:
        return toy_sign(key, hk, digest)
    d = sub("ossl")
    n = "%s/%s" % (d, sha(repr((key, hk, digest)).encode()))
    open(n + ".d", "wb").write(digest)
    r = openssl(["pkeyutl", "-sign", "-inkey", KEYDIR + "/%s.pem" % key, "-in", n + ".d",
                 "-pkeyopt", "digest:" + HASHES[hk][0]])
    if r.returncode:
        raise ModelError("openssl: " + r.stderr.decode())
    return r.stdout


_der = {}


def der(key):
    if key not in _der:
        _der[key] = open(KEYDIR + "/%s.der" % key, "rb").read()
    return _der[key]


# ------------------------------------------------------------ input files

class Inputs:
    """Named files with reproducible contents; the digits at the end are the size."""

    def __init__(self, name="inputs"):
        self.dir = sub(name)
        self.data = {}
        os.makedirs(self.dir + "/directory", exist_ok=True)

    def get(self, name, size=None, salt=0):
        if name not in self.data:
            if size is None:
                size = int(re.sub(r"\D", "", name) or 0)
            rng = random.Random("%s/%d/%d" % (name, size, salt))
            self.put(name, rng.randbytes(size))
        return self.data[name]

    def put(self, name, b):
        if self.data.get(name) != b:
            t = "%s.%d" % (self.path(name), threading.get_ident())
            raw.spill(t, b)
            os.replace(t, self.path(name))
            self.data[name] = b
        return b

    def path(self, name):
        return os.path.join(self.dir, name)


# ------------------------------------------------------------ scripts

class PScript:
    """Driver lines together with the events they have to produce."""

    def __init__(self, sid, inputs, d, blind=False):
        self.sid, self.inp, self.d, self.blind = sid, inputs, d, blind
        self.steps = []          # (event, lines, index of main reply, snapshot, extra)
        self.n = 0
        self.metas = 0
        self.pkg = "%s/%s.bpak" % (d, sid)

    def path(self, suf):
        return "%s/%s.%s" % (self.d, self.sid, suf)

    def step(self, ev, lines, snap=True, main=0, extra=None):
        self.n += 1
        sp = None
        if snap and not (self.blind and "see" not in ev):
            sp = self.path("s%d" % self.n)
            lines = lines + ["snap 0 %s %s" % (self.pkg, sp)]
        ev.pop("see", None)
        self.steps.append((ev, lines, main, sp, extra))

    # -- environment
    def load(self, path_or_lines):
        lines = ["cp %s %s" % (path_or_lines, self.pkg)] if isinstance(path_or_lines, str) else list(path_or_lines)
        self.step({"a": "load", "see": 1}, lines)

    def tamper(self, lines):
        self.step({"a": "load", "see": 1}, lines)

    def keep(self):
        self.step({"a": "keep"}, ["snap 0 %s %s" % (self.pkg, self.path("kept")), ], snap=False, extra="keep")

    def bring(self):
        self.step({"a": "close"}, ["close 0"], snap=False)
        self.step({"a": "bring"}, ["cp %s %s" % (self.path("kept"), self.pkg)], snap=False, extra="bring")
        self.step({"a": "open"}, ["open 0 %s r+b" % self.pkg], snap=False)

    # -- handle
    def create(self):
        self.step({"a": "create", "see": 1}, ["open 0 %s w+b" % self.pkg])

    def open(self, mode="r+b"):
        self.step({"a": "open", "see": 1}, ["open 0 %s %s" % (self.pkg, mode)])

    def close(self):
        self.step({"a": "close", "see": 1}, ["close 0"])

    def look(self):
        self.step({"a": "psize", "see": 1}, ["psize 0"])

    # -- edits
    def addfile(self, i, f, flags=0):
        b = b"" if f in ("absent", "directory") else self.inp.get(f)
        self.step({"a": "addfile", "i": nid(i), "s": wide(len(b)), "c": ctok(b), "f": flags,
                   "there": f not in ("absent", "directory")},
                  ["addfile 0 %s %s %d" % (self.inp.path(f), i, flags)])

    def addkey(self, i, k, flags=0):
        good = k in GOODKEYS
        b = der(k) if good else b""
        self.step({"a": "addkey", "i": nid(i), "s": wide(len(b)), "c": ctok(b), "f": flags, "there": good},
                  ["addkey 0 %s %s %d" % (KEYDIR + "/%s.pub" % k if k != "absent" else "/nonexistent", i, flags)])

    def addmerkle(self, i, f, flags=0):
        b = b"" if f in ("absent", "directory") else self.inp.get(f)
        self.step({"a": "addmerkle", "i": nid(i), "ti": nid(i + "-hash-tree"), "s": wide(len(b)), "c": ctok(b),
                   "f": flags, "there": f not in ("absent", "directory"), "see": 1},
                  ["addmerkle 0 %s %s %d" % (self.inp.path(f), i, flags)], extra=("tree", b))

    def delpart(self, i, rm):
        self.step({"a": "pdelpart", "i": nid(i), "rm": bool(rm)}, ["pdelpart 0 %s %d" % (nid(i), rm)])

    def delall(self, rm):
        self.step({"a": "delall", "rm": bool(rm)}, ["delall 0 %d" % rm])

    def addmeta(self, i, r, b=None):
        if b is None:
            self.metas += 1
            b = hashlib.sha256(b"%d" % self.metas).digest()[:5]
        self.step({"a": "paddmeta", "i": nid(i), "r": nid(r), "s": len(b), "d": tok(b)},
                  ["paddmeta 0 %s %s %s" % (nid(i), nid(r), hexs(b))])

    def addmeta_id(self, i, r, b):
        self.step({"a": "paddmeta", "i": i, "r": nid(r), "s": len(b), "d": tok(b)},
                  ["paddmeta 0 %s %s %s" % (i, nid(r), hexs(b))])

    def delmeta(self, i, r):
        self.step({"a": "pdelmeta", "i": nid(i), "r": nid(r)}, ["pdelmeta 0 %s %s" % (nid(i), nid(r))])

    def setf(self, f, v):
        ev = {"a": "pset", "f": f, "v": nid(v) if f in ("keyid", "ksid") else v}
        if f == "hash":
            ev["anypr"] = 1
            ev["see"] = 1
        self.step(ev, ["pset 0 %s %s" % (f, ev["v"])])

    # -- looks
    def extract(self, i, nofile=False):
        out = self.path("x%d" % self.n) if not nofile else self.d + "/no/such/dir/x"
        ev = {"a": "extract", "i": nid(i)}
        if nofile:
            ev["nofile"] = 1
        how = "extract" if nofile or self.n % 2 else "xout"
        self.step(ev, ["%s 0 %s %s" % (how, nid(i), out)], extra=("out", out))

    def psha(self, i, room=32):
        self.step({"a": "psha", "i": nid(i), "room": room}, ["psha 0 %s %d" % (nid(i), room)], extra="psha")

    def psize(self):
        self.step({"a": "psize"}, ["psize 0"])

    def updhash(self, room=64):
        self.step({"a": "updhash", "see": 1, "room": room}, ["updhash 0 x %d" % room], extra="updhash")

    # -- signatures
    def sign(self, key):
        path = KEYDIR + "/%s.pem" % key if key != "absent" else "/nonexistent"
        self.step({"a": "sign", "key": key, "able": key in GOODKEYS, "see": 1},
                  ["sign 0 %s" % path], extra=("sign", key))

    def rawsig(self, b):
        self.step({"a": "rawsig", "sg": [len(b), tok(b[:512])], "see": 1}, ["rawsig 0 %s" % hexs(b)])

    def takesig(self, room):
        self.step({"a": "takesig", "room": room, "see": 1}, ["ptakesig 0 %d" % room], extra="take")

    def extsign(self, key, sig):
        self.step({"a": "extsign", "key": key, "sg": [len(sig), tok(sig)], "see": 1}, [], extra="hd", main=None)

    def verify(self, key):
        path = KEYDIR + "/%s.pub" % key if key != "absent" else "/nonexistent"
        self.step({"a": "verify", "key": key, "keyok": key in GOODKEYS, "see": 1},
                  ["verify 0 %s" % path], extra="verify")

    def keepsig(self, n):
        self.step({"a": "psize", "see": 1}, ["psize 0", "keepsig 0 %d" % n])

    def oldsig(self, n):
        self.step({"a": "rawsig", "see": 1}, ["rawsigk 0 %d" % n], extra="old")

    def vfile(self, key, changes=(), whole=True):
        """changes from outside (package closed), then open, verify, close"""
        path = KEYDIR + "/%s.pub" % key if key != "absent" else "/nonexistent"
        self.step({"a": "vfile", "key": key, "keyok": key in GOODKEYS, "whole": whole, "see": 1},
                  list(changes) + ["vfile %s %s" % (self.pkg, path)], main=len(changes), extra="verify")

    def model_action(self, x):
        a = x["a"]
        if a == "addfile":
            self.addfile(x["i"], x["file"], x["f"])
        elif a == "addkey":
            self.addkey(x["i"], x["key"], x["f"])
        elif a == "addmerkle":
            self.addmerkle(x["i"], x["file"], x["f"])
        elif a == "pdelpart":
            self.delpart(x["i"], x["rm"])
        elif a == "delall":
            self.delall(x["rm"])
        elif a == "paddmeta":
            self.addmeta(x["i"], x["r"])
        elif a == "pdelmeta":
            self.delmeta(x["i"], x["r"])
        elif a == "extract":
            self.extract(x["i"])
        elif a == "psha":
            self.psha(x["i"])
        elif a == "psize":
            self.psize()
        elif a == "updhash":
            self.updhash()
        elif a == "reopen":
            self.close()
            self.open()
        else:
            raise ModelError("action " + a)

    def lines(self):
        return [l for s in self.steps for l in s[1]]


class Seen:
    """Caches the projection of identical files."""

    def __init__(self, tok=tok):
        self.c, self.tok = {}, tok

    def get(self, b):
        k = hashlib.sha1(b.key() if isinstance(b, raw.Sparse) else b).digest()
        if k not in self.c:
            if len(self.c) > 300:
                self.c.clear()
            self.c[k] = project(b, self.tok)
        return self.c[k]


def merkle_facts(proj, parts, b, tok=tok):
    out, tids = [], []
    meta = {(m["i"], m["r"]): m for m in proj["m"]}
    for q, off, body in parts:
        ti = id32(crc32_cont(int(q["i"], 16), b"-hash-tree"))
        tids.append([q["i"], ti])
        if (ROOT_ID, q["i"]) in meta and (SALT_ID, q["i"]) in meta:
            s = meta[(SALT_ID, q["i"])]
            o = 1544 + s["o"]
            r = merkle(body, b[o:o + 32]) if len(body) == stored(q) else None
            if r is None:
                continue
            have = b""
            for q2, off2, body2 in parts:
                if q2["i"] == ti:
                    have = b[off2:off2 + len(r[1])]
            out.append({"i": q["i"], "salt": s["d"], "root": tok(r[0]), "tree": ctok(r[1]), "have": ctok(have),
                        "hash": ctok(r[1][:32]), "havehash": ctok(have[:32])})
    return out, tids


def events(s, replies, seen):
    """Turn the replies of the driver and the snapshots into events."""
    out, pos, last, lastb = [], 0, None, None
    kept = None
    for ev0, lines, main, sp, extra in s.steps:
        rs = replies[pos:pos + len(lines)]
        pos += len(lines)
        bad = [r for r in rs if "crash" in r]
        if bad or len(rs) < len(lines):
            out.append({"a": "crash", "why": bad[0]["crash"] if bad else "no reply"})
            break
        ev = dict(ev0)
        r = rs[main] if main is not None else {"rc": 0}
        ev["rc"] = r["rc"]
        for x in rs:
            if "lives" in x:
                ev["lives"], ev["declined"] = x["lives"], x["declined"]
        mem = None
        if sp is None:
            ev["blind"] = 1
        else:
            b = raw.slurp(sp)
            os.unlink(sp)
            if rs[-1]["open"]:
                mem, b = b[:4096], b[4096:]
            if len(b) < 4096 and ev["a"] == "vfile":
                out.append({"a": "short", "rc": ev["rc"]})
                continue
            if len(b) < 4096:
                out.append({"a": "crash", "why": "file shorter than a header", "op": ev["a"]})
                break
            proj, hf, parts = seen.get(b)
            ev["hf"] = hf
            if b != lastb or ev["a"] in ("load",):
                ev["disk"] = proj
                lastb = b
            if mem is not None and mem != b[:4096]:
                hl = HASHES.get(mem[3464], ("", 64))[1]
                ev["memph"] = mem[3468:3468 + hl].hex()
                if mem[:3468] + mem[3468 + hl:] != b[:3468] + b[3468 + hl:4096]:
                    ev["memodd"] = 1
        if extra == "old":
            sig = bytes.fromhex(r["sig"])
            ev["sg"] = [len(sig), tok(sig)]
        if ev["a"] == "psize":
            ev["size"], ev["inst"] = wide(r["size"]), wide(r["inst"])
        if extra == "keep":
            pass
        elif extra == "psha":
            ev["c"] = bytes(x ^ raw.MASK for x in bytes.fromhex(r["h"][:16])).hex()
        elif extra == "updhash":
            ev["dg"] = r["h"]
            ev["hdf"] = header_digest(mem).hex()
            ev["now"] = mem[3468:3468 + HASHES.get(mem[3464], ("", 64))[1]].hex()
        elif extra == "take":
            sig = bytes.fromhex(r["sig"])
            ev["out"] = [len(sig), tok(sig)]
        elif extra in ("verify", "hd"):
            if mem is None and ev["a"] != "vfile":
                raise ModelError("verify without observation")
            ev["hd"] = sha((mem or b)[:3582])
            ev["mf"], ev["tids"] = merkle_facts(proj, parts, b)
        elif isinstance(extra, tuple) and extra[0] == "out":
            ev["made"] = os.path.exists(extra[1])
            if ev["made"]:
                ob = raw.slurp(extra[1])
                ev["c"], ev["sz"] = ctok(ob), wide(len(ob))
                os.unlink(extra[1])
            elif r["rc"] == 0:
                ev["c"], ev["sz"] = "none", [0, 0]
        elif isinstance(extra, tuple) and extra[0] == "tree":
            g = {"salt": "", "root": "", "tree": ""}
            if r["rc"] == 0:
                # the salt the library chose, and what the tree with it must be
                for m in proj["m"]:
                    if m["i"] == SALT_ID and m["r"] == ev["i"]:
                        ref = merkle(extra[1], bytes.fromhex(m["d"])) if len(m["d"]) == 64 else None
                        g = {"salt": m["d"], "root": tok(ref[0]) if ref else "?", "tree": ctok(ref[1]) if ref else "?"}
            ev["g"] = g
        elif isinstance(extra, tuple) and extra[0] == "sign":
            ev["hd"] = sha(mem[:3582])
            ev["sg"] = proj["sg"]
            ev["ext"] = bool(ev["able"] and r["rc"] == 0 and
                             ext_verify(extra[1], mem[3464], header_digest(mem), mem[3582:3582 + min(512, proj["sg"][0])]))
        out.append(ev)
    return out


def run_scripts(ctx, name, drv, scripts, jobs=6, spec="BpakPackageTrace", start="TraceSpec"):
    scripts, reps = alive(scripts, drv.run([s.lines() for s in scripts], sub("w-" + name), jobs=jobs))
    seen = Seen()
    traces = [events(s, r, seen) for s, r in zip(scripts, reps)]
    for t in traces:
        for e in t:
            ctx.count("%s:%s" % (e["a"], "ok" if e.get("rc") == 0 else "refused"))
    bad = settled(ctx, name, traces,
                  lambda t: events(scripts[t], drv.run([scripts[t].lines()], sub("w2-" + name))[0], Seen()),
                  lambda c, n, ts: validate(c, n, spec, ts, consts(REAL), spec=start))
    for t, l, txt, note in bad:
        s = scripts[t]
        e = traces[t][l - 1] if l - 1 < len(traces[t]) else {}
        what = "%s: step %d of history %d is not explained by BpakPackage%s: %s" % (
            name, l, t, note, json.dumps({k: v for k, v in e.items() if k not in ("disk", "hf", "mf", "tids")}))
        rep = "\n".join("%s" % "; ".join(st[1]) for st in s.steps[:l])
        rep += "\n\nevent: %s\n" % json.dumps(e)[:6000]
        ctx.report("%s:%s" % (name, e.get("a", "crash")), what, rep + "\n" + txt[-20000:])
    return traces


# ------------------------------------------------------------ C04 / C05

def graph(ctx, name, const, workers=1):
    c = dict(REAL, **const)
    r = check_model(ctx, name, "BpakPackageMC", "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\n"
                    "INVARIANTS HashCurrent HandleIsFile Unique EmitInv\nPROPERTY FrameMC\n" + consts(c), workers=workers)
    alpha = sorted([x["alphabet"] for x in r.prints if "alphabet" in x][0], key=lambda x: json.dumps(x, sort_keys=True))
    paths = [x["path"] for x in r.prints if "path" in x]
    return alpha, paths


def graph_scripts(alpha, paths, inp, d, pre, limit=None, base=None):
    if limit and len(paths) > limit:
        paths = list(paths)
        random.Random(SEED).shuffle(paths)
        paths = paths[:limit]
    out = []
    for k, p in enumerate(paths):
        s = PScript("%s%d" % (pre, k), inp, d)
        s.create()
        for x in p:
            s.model_action(x)
        s.close()
        s.keep()
        s.open()
        for x in alpha:
            s.model_action(x)
            if x["a"] in ("addfile", "addkey", "addmerkle", "pdelpart", "delall", "paddmeta", "pdelmeta"):
                s.bring()
        out.append(s)
    return out


SIZES = [0, 1, 7, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 4608, 5000, 8191, 8192, 8193, 12288, 20000, 40960]


def random_history(s, rng, n, blind):
    names = ["n%d" % k for k in range(rng.choice([3, 6, 40]))]
    metas = ["m%d" % k for k in range(rng.choice([2, 5, 40]))]
    if rng.random() < .15:
        names += ZERO_NAMES + [ZERO_TREE]
        metas += ZERO_NAMES
    live = []
    s.create()
    grow = rng.choice([.3, .5, .7])
    files = ["r%d" % z for z in rng.sample(SIZES, 8)] + ["q%d" % z for z in rng.sample(SIZES, 4)]
    for _ in range(n):
        x = rng.random()
        i = rng.choice(names)
        if x < grow * .8:
            s.addfile(i, rng.choice(files), odd(rng, rng.choice([0, 0, 1])))
            live.append(i)
        elif x < grow * .85:
            s.addkey(i, rng.choice(GOODKEYS + BADKEYS), odd(rng, rng.choice([0, 1])))
            live.append(i)
        elif x < grow and not blind:
            s.addmerkle(i, rng.choice(["t4096", "t8192", "t20480", "u5000", "t0", "absent"]), odd(rng, rng.choice([0, 1])))
            live += [i, i + "-hash-tree"]
        elif x < grow + .2 and live:
            j = live.pop(rng.randrange(len(live)))
            s.delpart(j if rng.random() < .9 else i, rng.random() < .5)
        elif x < grow + .21:
            s.delall(rng.random() < .5)
            live = []
        elif x < grow + .26:
            s.addmeta(rng.choice(metas), rng.choice(["0"] + names), rng.randbytes(rng.choice([0, 1, 8, 16, 33, 200])))
        elif x < grow + .29:
            s.delmeta(rng.choice(metas), rng.choice(["0"] + names))
        elif not blind and x < grow + .31:
            s.setf("hash", rng.choice([1, 2, 3]))
        elif x < grow + .33:
            s.setf(rng.choice(["keyid", "ksid"]), rng.choice(names))
        elif x < grow + .36:
            s.extract(rng.choice(live) if live else i)
        elif x < grow + .38:
            s.psha(rng.choice(live) if live else i, rng.choice([32, 32, 33, 64, rng.randrange(32), 31]))
        elif x < grow + .40:
            s.psize()
        elif not blind and x < grow + .42:
            s.updhash(rng.choice([64, 64, 32, 48, 31, 47, 63, rng.randrange(64)]))
        elif x < grow + .43:
            s.addfile(i, rng.choice(["absent", "directory"]))
        elif x < grow + .45:
            s.extract(rng.choice(names))
        elif x < grow + .48 and not blind:
            s.close()
            s.open()
    s.look()
    s.close()


def run_edit(prop):
    ctx = Ctx(prop)
    drv = Driver(build_driver())
    inp = Inputs()
    for f in ("absent",):
        pass
    d = sub("pk")
    small = dict(PNames='{"P", "Q", "R"}', Files='{"f513", "f5000"}', KeyNames='{}', MNames='{"M"}', Flags="{0, 1}",
                 MaxLive=4, Emit="FALSE", WithTree="FALSE")
    check_model(ctx, "design", "BpakPackageMC", "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nINVARIANTS HashCurrent HandleIsFile "
                "Unique\nPROPERTY FrameMC\n" + consts(dict(REAL, **small)), workers=8)
    scripts = []
    if prop == "C04":
        a, p = graph(ctx, "parts-and-metadata", dict(small, Files='{"f5000", "f0"}', Flags="{0}", MaxLive=3, Emit="TRUE",
                     KeyNames='{"ec256a"}'))
        scripts += graph_scripts(a, p, inp, d, "g", None if THOROUGH else 70)
        a, p = graph(ctx, "hash-trees", dict(small, PNames='{"P", "Q"}', Files='{"f8192", "f513"}', Flags="{0}", MaxLive=6,
                     Emit="TRUE", WithTree="TRUE", MNames="{}"))
        scripts += graph_scripts(a, p, inp, d, "t", None if THOROUGH else 40)
    else:
        a, p = graph(ctx, "hashed-and-excluded", dict(small, MNames="{}", MaxLive=3, Emit="TRUE"))
        scripts += graph_scripts(a, p, inp, d, "h", None if THOROUGH else 90)
    ctx.sample({"script_from_model": scripts[-1].lines()[:10]})
    run_scripts(ctx, "model-scripts", drv, scripts)
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    n, k = (110, 50) if not THOROUGH else (900, 90)
    rs = []
    for j in range(n):
        s = PScript("r%d" % j, inp, d)
        random_history(s, rng, k, False)
        rs.append(s)
    # the same without looking in between: what is only in the handle must reach the file
    for j in range(n // 2):
        s = PScript("b%d" % j, inp, d, blind=True)
        random_history(s, rng, k, True)
        rs.append(s)
    rs += coded_scripts(rng, inp, d, 60 if not THOROUGH else 500)
    ctx.sample({"random_history": rs[0].lines()[:10]})
    run_scripts(ctx, "random-histories", drv, rs)
    if prop == "C05":
        run_scripts(ctx, "digests", drv, digest_scripts(rng, inp, d, 100 if not THOROUGH else 800))
    ctx.assumptions += ["contents are compared by SHA-256 digest", "no other process changes the file while it is open",
                        "signature bytes and hash values come from Python's hashlib and openssl"]
    from . import vast
    if prop == "C05":
        vast.run(ctx, vast.pick(2))
    elif THOROUGH:
        vast.run(ctx, [], [], True)
    return ctx.finish()


def crafted(rng, names, coded=True, metas=(), hk=1, stale=False):
    """A well-formed package, some parts transport coded."""
    h = bytearray(4096)
    struct.pack_into("<I", h, 0, 0x42504132)
    h[3464], h[3465] = hk, 2
    struct.pack_into("<H", h, 3466, 512)
    off, body, hv = 4096, b"", b""
    for k, nme in enumerate(names):
        s = rng.choice(SIZES)
        d = -s % 512
        f = odd(rng, rng.choice([0, 1, 2, 3] if coded else [0, 1]))
        if f & 2:
            t = rng.choice([0, 1, 100, 511, 512, 4095, 4097, 5000, 30000])
            b = rng.randbytes(t)
        else:
            t = rng.choice([0, 0, 0, 1, 700])  # says nothing where the flag is not set
            b = rng.randbytes(s) + bytes(d)
        struct.pack_into("<IQQQHB", h, 520 + 32 * k, int(nid(nme), 16), s, off, t, d, f)
        off += s + d
        body += b
        if not f & 1:
            hv += b
    o = 0
    for k, (i, r, b) in enumerate(metas):
        struct.pack_into("<IHHI", h, 8 + 16 * k, int(nid(i), 16), len(b), o, int(nid(r), 16))
        h[1544 + o:1544 + o + len(b)] = b
        o += len(b) + (-len(b) % 8)
    v = digest(hk, hv)
    h[3468:3468 + len(v)] = bytes(len(v)) if stale else v
    return bytes(h) + body


def noise(rng, b):
    """Arbitrary bytes where a header has no field in use, and in the signature field."""
    h = bytearray(b[:4096])
    np_ = next((k for k in range(32) if h[520 + 32 * k:524 + 32 * k] == bytes(4)), 32)
    nm = next((k for k in range(32) if h[8 + 16 * k:12 + 16 * k] == bytes(4)), 32)
    end = max([0] + [sum(struct.unpack_from("<HH", h, 12 + 16 * k)) for k in range(nm)])
    free = list(range(4, 8)) + [20 + 16 * k + j for k in range(nm) for j in range(4)] + [551 + 32 * k for k in range(np_)] + \
        list(range(1544 + end, 3464)) + list(range(3540, 3582))
    for lo, hi, pr in ((4, 3464, .5), (3540, 3582, .7), (3582, 4094, .5)):
        if rng.random() < pr:
            at = [k for k in (free if hi < 3582 or lo < 3582 else range(lo, hi)) if lo <= k < hi]
            for k in (at if rng.random() < .4 else rng.sample(at, 1)):
                h[k] = rng.randrange(256)
    if rng.random() < .5:
        struct.pack_into("<H", h, 4094, rng.choice([0, 1, 64, 512, 513, 65535]))
    return bytes(h) + b[4096:]


def digest_scripts(rng, inp, d, n):
    out = []
    for j in range(n):
        s = PScript("e%d" % j, inp, d)
        names = ["c%d" % k for k in range(rng.choice([0, 1, 2, 32]))]
        base = crafted(rng, names, metas=[("m%d" % k, "0", rng.randbytes(8)) for k in range(rng.choice([0, 1, 3]))],
                       hk=1 + j % 3, stale=rng.random() < .5)
        for k in range(3):
            with open(inp.path("noise%d-%d" % (j, k)), "wb") as f:
                f.write(noise(rng, base))
            s.load(inp.path("noise%d-%d" % (j, k)))
            s.open()
            s.updhash(rng.choice([64, 64, 32, 48, 31, 47, 63, rng.randrange(64)]))
            s.close()
        out.append(s)
    return out


def coded_scripts(rng, inp, d, n):
    """Packages with transport coded parts come in from outside and are edited."""
    out = []
    for j in range(n):
        names = ["c%d" % k for k in range(rng.choice([1, 2, 3, 4, 6, 6, 31, 32]))]
        s = PScript("c%d" % j, inp, d)
        metas = [("m%d" % k, rng.choice(["0"] + names), rng.randbytes(rng.choice([4, 8, 21]))) for k in range(rng.choice([0, 1, 4]))]
        src = inp.path("coded%d" % j)
        with open(src, "wb") as f:
            f.write(crafted(rng, names, metas=metas, hk=rng.choice([1, 1, 2, 3]), stale=rng.random() < .3))
            if rng.random() < .3:
                f.write(rng.randbytes(rng.choice([1, 512, 9000])))
        s.load(src)
        s.open()
        live = list(names)
        for _ in range(rng.choice([3, 8, 14])):
            x = rng.random()
            if x < .3 and live:
                i = live.pop(rng.randrange(len(live)))
                s.delpart(i, rng.random() < .5)
            elif x < .5:
                i = rng.choice(["c0", "c1", "new0", "new1", "new2"])
                s.addfile(i, "r%d" % rng.choice(SIZES), odd(rng, rng.choice([0, 1])))
                live.append(i)
            elif x < .53:
                i = rng.choice(["c1", "new0", "new3"])
                s.addkey(i, rng.choice(GOODKEYS + BADKEYS), odd(rng, rng.choice([0, 1])))
                live.append(i)
            elif x < .58:
                s.addmerkle(rng.choice(["fs", "c0"]), rng.choice(["t4096", "t8192", "u5000"]))
            elif x < .75 and live:
                s.extract(rng.choice(live))
            elif x < .85 and live:
                s.psha(rng.choice(live), rng.choice([32, 32, 40, rng.randrange(32), 31]))
            elif x < .9:
                s.psize()
            elif x < .95:
                s.updhash(rng.choice([64, 64, 32, 48, 31, 47, 63, rng.randrange(64)]))
            else:
                s.delall(rng.random() < .5)
                live = []
        s.close()
        out.append(s)
    return out
