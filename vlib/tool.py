"""C17: histories of commands of the tool against BpakTool.tla."""
import json, os, random, re, shutil, struct, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .core import *
from .header import REAL, consts, wide
from . import compare as cmp, package as pk, raw, transport as tr
from .package import GOODKEYS, BADKEYS, KEYDIR, HASHES, tok, ctok

FILES = {"A": "A.bpak", "B": "B.bpak", "C": "C.bpak", "O": "out"}
BACK = {v: k for k, v in FILES.items()}
NOWHERE = "no/such/directory/out"
HK = {1: "sha256", 2: "sha384", 3: "sha512", 0: "md5"}
SK = {1: "rsa4096", 2: "prime256v1", 3: "secp384r1", 4: "secp521r1", 0: "ed25519"}
ALGS = [("bsdiff", "bspatch"), ("bsdiff-lzma", "bspatch-lzma"), ("bsdiff-no-comp", "bspatch-no-comp"), ("remove-data", "merkle-generate")]
NOREF = {"name": "00000000", "hex": "", "given": False}


def nm(arg):
    """an argument that may be a name or an id"""
    if arg is None:
        return dict(NOREF)
    h = ""
    if re.fullmatch(r"0x[0-9a-fA-F]{1,8}", arg):
        h = "%08x" % int(arg, 16)
    return {"name": id32(crc32_id(arg)), "hex": h, "given": True}


def ident(x):
    return x["hex"] or x["name"]


def words(i):
    v = int(i, 16)
    return [v >> 16, v & 0xffff]


def integer(s):
    """what C's strtol makes of the whole of s; None: nothing"""
    m = re.fullmatch(r"[ \t]*([+-]?)(0[xX][0-9a-fA-F]+|[0-9]+)[ \t\r\n]*", s)
    if not m:
        return None
    d = m.group(2)
    if d[:2] in ("0x", "0X"):
        v = int(d, 16)
    elif d[0] == "0":
        if re.search("[89]", d):
            return None
        v = int(d, 8)
    else:
        v = int(d)
    v = -v if m.group(1) == "-" else v
    return v if -2 ** 63 <= v < 2 ** 63 else None


def value(enc, b):
    """[ok, s, d] of the input bytes b (without the end of a string)"""
    s = b.split(b"\0")[0]
    try:
        t = s.decode("ascii")
    except UnicodeDecodeError:
        t = "\0"
    no = {"ok": False, "s": 0, "d": ""}
    if enc == "integer":
        v = integer(t)
        return no if v is None else {"ok": True, "s": 8, "d": struct.pack("<q", v).hex()}
    if enc == "uuid":
        return {"ok": True, "s": 16, "d": t.replace("-", "").lower()} if re.fullmatch(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}", t) else no
    if enc == "id":
        return {"ok": True, "s": 4, "d": struct.pack("<I", crc32_id(s)).hex()}
    return no


class World:
    """Where histories are run: input files that are never changed, and the tool."""

    def __init__(self):
        self.tool = build_tool(True)
        self.inp = pk.Inputs("tool-inputs")
        for n in ("f0", "f513", "f8192"):
            self.inp.get(n)
        self.store = self.keystore()

    def keystore(self):
        keys = [("k1", "ec256a"), ("k2", "rsa4096a"), ("k3", "ec521")]
        b = raw.package([raw.Part(n, pk.der(k)) for n, k in keys],
                        [("bpak-package", 0, bytes(range(16))), ("keystore-provider-id", 0, struct.pack("<I", crc32_id("s1")))])
        self.inp.put("keystore", b)
        return {"sid": id32(crc32_id("s1")), "keys": [{"id": id32(crc32_id(n)), "key": k} for n, k in keys]}


class History:
    def __init__(self, world, name, steps):
        self.w, self.name, self.steps = world, name, steps
        self.log = []

    # ---------------------------------------------------------- running
    def read(self):
        res = {}
        for n in os.listdir(self.d):
            p = os.path.join(self.d, n)
            with open(p, "rb") as f:
                res[n] = f.read()
        return res

    def run(self, argv, stdin=b""):
        self.log.append(" ".join(argv))
        try:
            p = subprocess.run([self.w.tool] + argv, cwd=self.d, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=SAN_ENV, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode < 0 or p.returncode == 99:
            self.crash = "exit %d %s" % (p.returncode, p.stderr.decode("latin1")[-1500:])
            return None
        return p

    def project(self, b):
        k = sha(b)
        if k not in self.cache:
            self.cache[k] = pk.project(b)
        return self.cache[k]

    def state(self, b):
        if b is None:
            return {"k": "none"}
        if len(b) < 4096 or b[:4] != struct.pack("<I", 0x42504132) or raw.malformed(b):
            return {"k": "other", "tok": sha(b)}
        proj, hf, parts = self.project(b)
        return {"k": "pkg", "proj": proj, "hf": hf}

    def changes(self):
        new = self.read()
        obs = {}
        for n in sorted(set(new) | set(self.files)):
            if new.get(n) != self.files.get(n):
                obs[BACK.get(n, "stray: " + n)] = self.state(new.get(n)) if n in BACK else {"k": "stray"}
        self.files = new
        return obs

    def record(self):
        self.d = tempfile.mkdtemp(prefix="h-", dir=sub("tool-run"))
        self.files, self.cache, self.log, self.crash = {}, {}, [], ""
        out = []
        for c in self.steps:
            try:
                e = self.step(dict(c))
            except Unreadable as x:
                self.crash, e = "unreadable output: %s" % x, None
            if e is None:
                out.append({"a": "crash", "why": self.crash or "no end", "obs": {}})
                break
            out.append(e)
        shutil.rmtree(self.d, True)
        return out

    # ---------------------------------------------------------- commands
    def content(self, c):
        return self.files.get(FILES[c["f"]])

    def step(self, c):
        a = c["a"]
        f = FILES.get(c.get("f"), "")
        v = ["-v"] * c.pop("verbose", 0)
        before = self.content(c) if f else None
        pkg = self.state(before)["k"] == "pkg"
        inp = self.w.inp
        ref = lambda x: x["arg"]
        if a == "load":
            if c["bytes"] is None:
                if f in self.files:
                    os.unlink(os.path.join(self.d, f))
            else:
                with open(os.path.join(self.d, f), "wb") as h:
                    h.write(c["bytes"])
            self.log.append("(put %s)" % f)
            return {"a": "load", "obs": self.changes()}
        if a == "keep":
            self.kept = dict(self.files)
            return {"a": "keep", "obs": {}}
        if a == "bring":
            for n in self.read():
                os.unlink(os.path.join(self.d, n))
            for n, b in self.kept.items():
                with open(os.path.join(self.d, n), "wb") as h:
                    h.write(b)
            self.files = self.read()
            self.log.append("(as before)")
            return {"a": "bring", "obs": {}}
        if a == "extsign":
            if not pkg:
                return {"a": "keep", "obs": {}}
            return self.extsign(c, f, before)
        e = {k: x for k, x in c.items() if k not in ("bytes", "val", "file", "argv")}
        if a == "create":
            argv = ["create", f] + v + (["--hash-kind", HK[c["hk"]]] if c["hk"] != 1 or c.get("spell") else []) + \
                (["--signature-kind", SK[c["sk"]]] if c["sk"] != 2 or c.get("spell") else []) + (["--force"] if c["force"] else [])
            p = self.run(argv, c["answer"].encode())
        elif a == "add" and c["what"] == "meta":
            argv = ["add", f, "--meta", c["i"]] + v + ([] if c["r"] == "0" else ["--part-ref", c["r"]]) + \
                ([] if c["enc"] == "text" else ["--encoder", c["enc"]])
            b = c["val"]
            if c.get("from") == "file":
                argv += ["--from-file", inp.path(c["file"])]
                there = 1 <= len(b) <= 1920
                e["v"] = ({"ok": True, "s": len(b), "d": tok(b)} if c["enc"] == "text" else value(c["enc"], b)) if there else \
                    {"ok": False, "s": 0, "d": ""}
            else:
                argv += ["--from-string", b.decode()]
                e["v"] = {"ok": len(b) < 1920, "s": len(b) + 1, "d": tok(b + b"\0")} if c["enc"] == "text" else value(c["enc"], b)
                if len(b) >= 1920:
                    e["v"]["ok"] = False
            e["i"], e["r"] = id32(crc32_id(c["i"])), "00000000" if c["r"] == "0" else id32(crc32_id(c["r"]))
            p = self.run(argv)
        elif a == "add":
            flag = ["--set-flag", "dont-hash"] if c["fl"] else []
            argv = ["add", f, "--part", c["i"]] + v + flag
            if c["what"] == "key":
                path = KEYDIR + "/%s.pub" % c["file"]
                e["there"] = c["file"] in GOODKEYS
                b = pk.der(c["file"]) if e["there"] else b""
                argv += ["--from-file", path, "--encoder", "key"]
            else:
                e["there"] = c["file"] not in ("absent", "directory")
                b = inp.get(c["file"]) if e["there"] else b""
                argv += ["--from-file", inp.path(c["file"])] + (["--encoder", "merkle"] if c["what"] == "merkle" else [])
            e.update(i=id32(crc32_id(c["i"])), ti=id32(crc32_id(c["i"] + "-hash-tree")), s=wide(len(b)), c=ctok(b))
            p = self.run(argv)
        elif a == "set":
            argv = ["set", f] + v
            e["m"], e["pads"], e["v"] = "", [], {"ok": True, "s": 0, "d": ""}
            if c["m"]:
                b = c["val"]
                e["m"] = id32(crc32_id(c["m"]))
                argv += ["--meta", c["m"], "--from-string", b.decode()] + ([] if c["enc"] == "text" else ["--encoder", c["enc"]])
                if c["enc"] == "text":
                    e["v"] = {"ok": True, "s": len(b) + 1, "d": tok(b + b"\0")}
                    sizes = {m["s"] for m in self.project(before)[0]["m"]} if pkg else set()
                    e["pads"] = [{"s": s, "d": tok(b + bytes(s - len(b)))} for s in sorted(sizes) if s > len(b)]
                else:
                    e["v"] = value(c["enc"], b)
            for k, o in (("kid", "--key-id"), ("sid", "--keystore-id")):
                e[k] = nm(c[k])
                if c[k] is not None:
                    argv += [o, c[k]]
            p = self.run(argv)
        elif a == "delete":
            e["p"] = nm(c["p"])
            argv = ["delete", f] + v + (["--all"] if c["all"] else []) + (["--keep-meta"] if c["keep"] else []) + \
                (["--part", c["p"]] if c["p"] is not None else [])
            p = self.run(argv)
        elif a == "tadd":
            e["p"] = nm(c["p"])
            e["v"] = {"ok": True, "s": 32, "d": (struct.pack("<II", *[crc32_id(x) for x in c["algs"]]) + bytes(24)).hex()}
            del e["algs"]
            argv = ["transport", f, "--add", "--encoder", c["algs"][0], "--decoder", c["algs"][1]] + v + \
                (["--part-ref", c["p"]] if c["p"] is not None else [])
            p = self.run(argv)
        elif a == "sign" and c["by"] == "file":
            if c.get("sig") == "sig.bin":
                b = getattr(self, "sigbytes", b"\1" * 70)
            else:
                b = c["bytes"]
            n = "sig-%s" % sha(b)
            e["there"] = not c.get("absent")
            if e["there"]:
                inp.put(n, b)
            e["sg"] = [len(b), tok(b)]
            p = self.run(["sign", f, "--signature", inp.path(n if e["there"] else "absent")] + v)
        elif a == "sign":
            e["able"] = c["key"] in GOODKEYS
            p = self.run(["sign", f, "--key", KEYDIR + "/%s.pem" % c["key"]] + v)
        elif a == "verify":
            e["able"], e["store"] = c["key"] in GOODKEYS, self.w.store
            argv = ["verify", f] + v
            argv += ["--key", KEYDIR + "/%s.pub" % c["key"]] if c["by"] == "key" else ["--keystore", inp.path("keystore")]
            p = self.run(argv)
        elif a == "extract":
            for k in "mpr":
                e[k] = nm(c[k])
            argv = ["extract", f] + (v if c["out"] else [])
            for k, o in (("m", "--meta"), ("p", "--part"), ("r", "--part-ref")):
                argv += [o, c[k]] if c[k] is not None else []
            if c["out"]:
                argv += ["--output", NOWHERE if c["out"] == "nowhere" else FILES[c["out"]]]
            p = self.run(argv)
        elif a == "show":
            for k in "mp":
                e[k] = nm(c.get(k))
            opt = {"all": [], "hash": [c.get("how", "--hash")], "meta": ["--meta", c.get("m")], "part": ["--part", c.get("p")],
                   "parthash": ["--part-hash", c.get("p")]}[c["what"]]
            if c["what"] == "meta" and c.get("p") is not None:
                opt += ["--part", c["p"]]
            p = self.run(["show", f] + opt + (v if c["what"] == "all" else []))
        elif a == "compare":
            e.update(tA=[], tB=[], known=[], out={"m": [], "p": []})
            p = self.run(["compare", f, FILES[c["g"]]] + v)
        elif a in ("tenc", "tdec"):
            argv = ["transport", f, "--encode" if a == "tenc" else "--decode", "--output", FILES[c["o"]]] + v
            org = None
            if c["org"]:
                argv += ["--origin", FILES[c["org"]]]
                org = self.files.get(FILES[c["org"]])
            readable = pkg and (not c["org"] or self.state(org)["k"] == "pkg")
            e.update(readable=readable, parts=[], uuid="", res=[], hdr="", reshdr="", len=0)
            e["org"] = tr.origin_facts(org if readable else None)
            if readable:
                e["parts"], e["uuid"] = tr.describe(before, org, a == "tenc")
                e["hdr"] = tr.masked(before)
            p = self.run(argv)
        elif a in ("bad", "help"):
            p = self.run([f if x == "@" else x for x in c["argv"]])
        elif a == "genid":
            p = self.run(["generate", "id", c["text"]])
            e["want"] = 'id("%s") = 0x%s\n' % (c["text"], id32(crc32_id(c["text"])))
        else:
            raise ModelError("command " + a)
        if p is None:
            return None
        e["ok"], e["cmd"] = p.returncode == 0, self.log[-1]
        e["obs"] = self.changes()
        now = self.files.get(f) if f else None
        if a == "genid":
            e["text"] = p.stdout.decode("latin1")
        if a == "add" and c["what"] == "merkle":
            e["g"] = {"salt": "", "root": "", "tree": ""}
            if e["ok"] and self.state(now)["k"] == "pkg":
                for m in self.project(now)[0]["m"]:
                    if m["i"] == pk.SALT_ID and m["r"] == e["i"] and len(m["d"]) == 64:
                        g = pk.merkle(b, bytes.fromhex(m["d"]))
                        e["g"] = {"salt": m["d"], "root": tok(g[0]) if g else "?", "tree": ctok(g[1]) if g else "?"}
        if a == "sign" and c["by"] == "key":
            e["sg"], e["hd"], e["ext"] = [0, ""], "", False
            if e["ok"] and self.state(now)["k"] == "pkg":
                proj = self.project(now)[0]
                e["sg"], e["hd"] = proj["sg"], sha(now[:3582])
                e["ext"] = bool(e["able"] and pk.ext_verify(c["key"], now[3464], pk.header_digest(now), now[3582:3582 + min(512, proj["sg"][0])]))
        if a == "extract":
            got = p.stdout if not c["out"] else self.files.get(FILES.get(c["out"]), b"")
            e["mtok"], e["ptok"] = tok(got), ctok(got)
        if a in ("show", "verify") and pkg:
            e["x"] = self.facts(before, a)
        if a == "compare":
            o = self.files.get(FILES[c["g"]])
            if pkg and self.state(o)["k"] == "pkg":
                e["tA"], e["tB"] = cmp.texts(before), cmp.texts(o)
                e["known"] = cmp.known(self.project(before)[2], self.project(o)[2])
            if e["ok"]:
                try:
                    e["out"] = cmp.report(p.stdout)
                except cmp.Unreadable as x:
                    raise Unreadable(str(x))
        if a == "verify":
            e["says"] = b"Verification OK" in p.stdout
        if a == "show":
            e["out"] = self.printed(c, p.stdout) if e["ok"] else {}
        if a in ("tenc", "tdec") and e["ok"] and readable:
            res = self.files.get(FILES[c["o"]], b"")
            if self.state(res)["k"] == "pkg":
                e["res"], e["reshdr"], e["len"] = tr.describe(res, org, a == "tenc")[0], tr.masked(res), len(res)
        return e

    def extsign(self, c, f, before):
        p = self.run(["show", f, "--binary-hash"])
        if p is None:
            return None
        proj, hf, parts = self.project(before)
        h = self.hashed(before, hf)
        want = pk.header_digest(h)
        if p.returncode or p.stdout != want:
            return {"a": "show", "f": c["f"], "what": "hash", "m": nm(None), "p": nm(None), "ok": p.returncode == 0, "obs": self.changes(),
                    "out": {"text": p.stdout.hex()}, "x": self.facts(before, "show")}
        self.sigbytes = pk.ext_sign(c["key"], before[3464], want)
        return {"a": "extsign", "key": c["key"], "sg": [len(self.sigbytes), tok(self.sigbytes)], "hd": sha(h[:3582]), "obs": self.changes()}

    # ---------------------------------------------------------- facts
    def hashed(self, b, hf):
        v = bytes.fromhex(hf["v"]) if hf["v"] != "EOF" else b""
        return b[:3468] + v + b[3468 + len(v):4096]

    def facts(self, b, a):
        proj, hf, parts = self.project(b)
        x = {"hf": hf}
        if a == "verify":
            x["hd"] = sha(b[:3582])
            x["mf"], x["tids"] = pk.merkle_facts(proj, parts, b)
        else:
            x["hd1"] = pk.header_digest(self.hashed(b, hf)).hex()
            x["mb"] = [{"id": words(m["i"]), "b": list(b[1544 + m["o"]:1544 + m["o"] + m["s"]])} for m in proj["m"]]
        return x

    def printed(self, c, o):
        t = o.decode("latin1")
        w = c["what"]
        try:
            if w == "meta":
                return {"text": list(o[:-1] if o.endswith(b"\n") else o)}
            if w == "part":
                m = re.fullmatch(r"Found 0x([0-9a-f]+), (\d+) bytes\n", t)
                return {"i": "%08x" % int(m.group(1), 16), "s": wide(int(m.group(2)))}
            if w == "parthash":
                return {"text": re.fullmatch(r"([0-9a-f]{64})\n", t).group(1)[:16]}
            if w == "hash":
                return {"text": t[:-1] if c.get("how", "--hash") == "--hash" else o.hex()}
            r = {k: re.search(r"^%s: +(\S+)$" % s, t, re.M).group(1) for k, s in
                 (("hash", "Hash"), ("sign", "Signature"), ("kid", "Key ID"), ("sid", "Keystore ID"), ("hd", "Header hash"), ("ph", "Payload hash"))}
            r["warn"] = "Warning: Computed payload hash" in t
            ms, rest = t[t.index("\nMetadata:\n"):].split("\nParts:\n")
            r["m"], r["p"] = [], []
            for l in ms.split("\n")[3:]:
                if l:
                    m = re.fullmatch(r"    ([0-9a-f]{8})   (\d+) *    (.{20}) (.{8})   (.*)", l)
                    r["m"].append({"i": m.group(1), "s": int(m.group(2)), "n": list(m.group(3).rstrip().encode()), "r": m.group(4).strip(),
                                   "d": list(m.group(5).encode("latin1"))})
            for l in rest.split("\n\n")[0].split("\n")[1:]:
                if l:
                    m = re.fullmatch(r"    ([0-9a-f]{8})   (\d+) +(\d+) +([hT-]{8}) +(\d+) *", l)
                    r["p"].append({"i": m.group(1), "s": wide(int(m.group(2))), "d": int(m.group(3)), "x": m.group(4)[0] == "h",
                                   "t": m.group(4)[1] == "T", "ts": wide(int(m.group(5)))})
            m = re.search(r"Metadata usage: (\d+)/1920 bytes\nTransport size: (\d+) bytes\nInstalled size: (\d+) bytes", t)
            if m:
                r.update(used=int(m.group(1)), size=wide(int(m.group(2))), inst=wide(int(m.group(3))))
            return r
        except (AttributeError, ValueError) as x:
            raise Unreadable("%s: %s" % (c, t[:3000]))


class Unreadable(Exception):
    pass


# ------------------------------------------------------------ histories
def from_model(x):
    """a command of the model as a command line"""
    c = dict(x)
    arg = lambda y: y["name"] if y["given"] else None
    for k in ("kid", "sid", "m", "p", "r"):
        if isinstance(c.get(k), dict):
            c[k] = arg(c[k])
    v = c.pop("v", None)
    if c["a"] == "add" and c["what"] == "meta":
        c["r"] = "0" if c["r"] == "00000000" else c["r"]
        c["enc"] = c["enc"][0]
        c["val"] = b"42" if c["enc"] == "integer" else b"abcdefghijkl"[:c["n"] - 1]
    if c["a"] == "set":
        c["val"] = b"0x77" if c["enc"] == "integer" else b"ABCDEFGHIJKL"[:c["n"] - 1]
    if c["a"] == "tadd":
        c["algs"] = ["bsdiff", "bspatch"]
    if c["a"] == "sign":
        c["bytes"] = bytes(range(256)) * 3
        c["bytes"] = c["bytes"][:c["n"]]
    for k in ("n", "pads", "s", "c", "there", "sg"):
        c.pop(k, None)
    return c


NAMES = ["kernel", "fs", "dtb", "P", "0xzz", "0x12-boot", "0x1ffffffff", "a name", "x" * 300] + ZERO_NAMES[:1] + [ZERO_TREE]
METAS = ["m1", "m2", "bpak-package", "bpak-version", "pb-load-addr", "keystore-provider-id", "merkle-salt", "0xq"] + ZERO_NAMES[:1]
VALS = [b"", b"a", b"ab", b"1.2.3", b"hello world", b"x" * 30, b"y" * 100, b"-vv", b"0x22", b"17"]
NUMS = [b"0", b"1", b"-1", b"0x22", b"017", b"0xCAFE", b" 5", b"7 ", b"9223372036854775807", b"-9223372036854775808", b"0x7fffffffffffffff",
        b"9223372036854775808", b"99999999999999999999", b"abc", b"", b"12abc", b"0x", b"1 2", b"08", b"+3", b"  ",
        b"-9223372036854775809", b"-99999999999999999999", b"0x8000000000000000", b"-0x8000000000000000", b"-017", b"-0x10", b"-0", b"00", b"0x1g",
        b"-0x", b"\t5", b"+0x7", b"--5", b"5-", b"4294967296", b"-4294967297"]
UUIDS = [b"0b3c7f0e-9a2d-4c11-8f57-d1e2a3b4c5d6", b"0B3C7F0E-9A2D-4C11-8F57-D1E2A3B4C5D6", b"0b3c7f0e9a2d4c118f57d1e2a3b4c5d6", b"no",
         b"0b3c7f0e-9a2d-4c11-8f57-d1e2a3b4c5d", b"0b3c7f0e-9a2d-4c11-8f57-d1e2a3b4c5d67", b"0b3c7f0g-9a2d-4c11-8f57-d1e2a3b4c5d6", b""]
BAD = [["add", "@"], ["add", "@", "--part", "x"], ["add", "@", "--meta", "x"], ["add", "@", "--part", "x", "--from-string", "y"], ["add"], ["set", "@"],
       ["set", "@", "--meta", "m1"], ["set"], ["delete", "@"], ["delete"], ["sign", "@"], ["sign", "--key"], ["verify", "@"], ["verify"],
       ["extract", "@"], ["extract"], ["show"], ["show", "@", "--nonsense"], ["transport", "@"], ["transport", "@", "--add"], ["transport", "@", "--encode"],
       ["transport", "@", "--decode"], ["transport", "@", "--encode", "--decode", "--output", "out"], ["transport"], ["compare", "@"], ["compare"],
       ["compare", "@", "nothing"], ["nonsense", "@"], ["create"], ["create", "@", "--nonsense"], ["generate"], ["generate", "nothing"], ["generate", "id"],
       ["generate", "keystore"], ["generate", "keystore", "@"], ["add", "@", "--part", "x", "--from-file", "y", "--set-flag", "nonsense"],
       ["transport", "@", "--add", "--encoder", "bsdiff"], ["--nonsense"], ["add", "@", "--part", "x", "--from-file", "/nonexistent", "--encoder", "nonsense"],
       ["add", "@", "--meta", "m9", "--from-string", "z", "--encoder", "nonsense"], ["add", "@", "--meta", "m9", "--from-file", "/nonexistent"],
       ["show", "absent.bpak"], ["set", "absent.bpak", "--key-id", "x"], ["verify", "absent.bpak", "--key", "x"],
       ["transport", "@", "--encode", "--origin", "absent.bpak", "--output", "out"]]
HELP = [["--help"], ["--version"], ["-h"], ["-V"], []] + [[x, "--help"] for x in
        ("create", "add", "set", "delete", "sign", "verify", "extract", "show", "transport", "compare", "generate")]


def junk(rng):
    k = rng.random()
    if k < .2:
        return b""
    if k < .5:
        return rng.randbytes(rng.choice([1, 100, 4095, 4096, 6000]))
    b = bytearray(raw.package([raw.Part("kernel", rng.randbytes(600))], [("m1", 0, b"12345678")]))
    b[rng.randrange(4)] ^= 1 << rng.randrange(8)
    return bytes(b) if k < .8 else bytes(b[:rng.choice([4, 520, 4095])])


class Gen:
    def __init__(self, rng, world):
        self.rng, self.w = rng, world
        self.names = rng.sample(NAMES, rng.choice([2, 3, 5]))
        self.metas = rng.sample(METAS, rng.choice([2, 3, 5]))
        self.n = 0

    def name(self):
        return self.rng.choice(self.names)

    def ref(self, pool=None):
        """a name, or its id"""
        n = self.rng.choice(pool or self.names)
        if self.rng.random() < .25:
            i = crc32_id(n)
            return self.rng.choice(["0x%x", "0x%08x", "0x%X"]) % i
        return n

    def blob(self, b):
        n = "blob-" + sha(b)
        self.w.inp.put(n, b)
        return n

    def meta(self, f):
        rng = self.rng
        enc = rng.choice(["text", "text", "integer", "integer", "uuid", "id"])
        m = rng.choice(self.metas)
        if rng.random() < .6:
            enc = {"bpak-package": "uuid", "pb-load-addr": "integer", "keystore-provider-id": "id"}.get(m, enc)
        b = rng.choice({"text": VALS, "integer": NUMS, "uuid": UUIDS, "id": VALS}[enc])
        c = {"a": "add", "what": "meta", "f": f, "i": m, "r": rng.choice(["0", "0", self.name()]), "enc": enc, "val": b}
        if rng.random() < .3:
            c["from"] = "file"
            k = rng.random()
            if enc == "text" and m != "bpak-version":
                b = rng.randbytes(rng.choice([0, 1, 4, 8, 31, 32, 33, 500])) if k < .9 else bytes([65]) * rng.choice([1919, 1920, 1921, 3000])
            elif k < .5 and enc != "text":
                b += b"\n"
            c["val"], c["file"] = b, self.blob(b)
        elif enc == "text" and rng.random() < .03:
            c["val"] = b"z" * rng.choice([1918, 1919, 1920, 2500])
        return c

    def one(self):
        rng = self.rng
        f = rng.choice(["A", "A", "A", "B", "B", "C"])
        x = rng.random()
        c = {"f": f}
        if rng.random() < .15:
            c["verbose"] = rng.choice([1, 2, 4])
        if x < .06:
            c.update(a="create", hk=rng.choice([1, 1, 2, 3, 0]), sk=rng.choice([2, 2, 1, 3, 4, 0]), force=rng.random() < .5,
                     answer=rng.choice(["Y", "N", "", "y", "\nY", "no"]))
        elif x < .2:
            c.update(a="add", what="file", i=self.name(), file="r%d" % rng.choice(pk.SIZES) if rng.random() < .93 else rng.choice(["absent", "directory"]),
                     fl=rng.choice([0, 0, 1]))
        elif x < .23:
            c.update(a="add", what="key", i=self.name(), file=rng.choice(GOODKEYS + BADKEYS), fl=0)
        elif x < .27:
            c.update(a="add", what="merkle", i=self.name(), file=rng.choice(["t4096", "t8192", "t20480", "u5000", "t0", "absent"]), fl=rng.choice([0, 1]))
        elif x < .4:
            c.update(self.meta(f))
        elif x < .5:
            m = rng.choice(self.metas + [""])
            enc = rng.choice(["text", "text", "integer", "integer", "id", "unknown"])
            c.update(a="set", m=m, enc=enc, val=rng.choice({"text": VALS, "integer": NUMS, "id": VALS, "unknown": VALS}[enc]),
                     kid=self.ref(["k1", "k2", "k3", "k4"]) if rng.random() < .5 or (m == "" and rng.random() < .5) else None,
                     sid=self.ref(["s1", "s2"]) if rng.random() < .3 else None)
        elif x < .57:
            al = rng.random() < .15
            c.update(a="delete", all=al, p=self.ref() if not al else None, keep=rng.random() < .5)
            if rng.random() < .1:
                c["p"] = rng.choice(["0x0", "0x00000000", self.name() + "-hash-tree"])
        elif x < .62:
            p = self.ref() if rng.random() < .9 else None
            if rng.random() < .4:
                c.update(a="tadd", p=self.name() + "-hash-tree", algs=list(ALGS[3]))
            else:
                c.update(a="tadd", p=p, algs=list(rng.choice(ALGS[:3])))
        elif x < .67:
            c.update(a="sign", by="key", key=rng.choice(GOODKEYS + BADKEYS + ["absent"]))
        elif x < .69:
            c.update(a="extsign", key=rng.choice(GOODKEYS))
            if "verbose" in c:
                del c["verbose"]
            return [c, {"a": "sign", "f": f, "by": "file", "sig": "sig.bin", "bytes": b""}]
        elif x < .71:
            c.update(a="sign", by="file", bytes=rng.randbytes(rng.choice([0, 1, 64, 511, 512, 513, 1024, 2000])), absent=rng.random() < .2)
        elif x < .76:
            c.update(a="verify", by=rng.choice(["key", "key", "store"]), key=rng.choice(GOODKEYS + BADKEYS + ["absent"]))
        elif x < .82:
            k = rng.random()
            c.update(a="extract", m=self.ref(self.metas) if k < .4 or k > .95 else None, p=self.ref() if .4 <= k < .95 or k > .97 else None,
                     r=self.ref() if rng.random() < .3 else None, out=rng.choice(["", "O", "O", "nowhere"]))
        elif x < .92:
            w = rng.choice(["all", "all", "meta", "part", "parthash", "hash"])
            c.update(a="show", what=w)
            if w == "meta":
                c.update(m=self.ref(self.metas), p=self.ref() if rng.random() < .4 else None)
            elif w in ("part", "parthash"):
                c["p"] = self.ref() if rng.random() < .85 else self.name() + "-hash-tree"
            elif w == "hash":
                c["how"] = rng.choice(["--hash", "--binary-hash"])
        elif x < .93:
            c.update(a="compare", g=rng.choice("ABC"))
        elif x < .945:
            o = rng.choice([n for n in ("A", "B", "C") if n != f])
            g = [n for n in ("A", "B", "C") if n != o]
            c.update(a=rng.choice(["tenc", "tdec"]), o=o, org=rng.choice(g + [""]))
        elif x < .96:
            return [{"a": "bad", "f": f, "argv": rng.choice(BAD)}]
        elif x < .97:
            return [{"a": "help", "f": f, "argv": rng.choice(HELP)}]
        elif x < .98:
            return [{"a": "genid", "text": rng.choice(NAMES + METAS)}]
        else:
            return [{"a": "load", "f": f, "bytes": self.outside()}]
        return [c]

    def outside(self):
        rng = self.rng
        k = rng.random()
        if k < .2:
            return None
        if k < .4:
            return junk(rng)
        names = [x for x in self.names if crc32_id(x)]
        rng.shuffle(names)
        b = pk.crafted(rng, names[:rng.choice([0, 1, 2, 3])], metas=[(m, rng.choice(["0", self.name()]), rng.randbytes(rng.choice([1, 4, 8, 16, 32])))
                          for m in self.metas if crc32_id(m) and m not in ("bpak-version", "merkle-salt")][:2], hk=rng.choice([1, 1, 2, 3]), stale=rng.random() < .3)
        return b if k > .5 else raw.spoil_header(rng, b)

    def history(self, n):
        out = [{"a": "create", "f": "A", "hk": 1, "sk": 2, "force": False, "answer": ""}]
        if self.rng.random() < .7:
            out.append({"a": "create", "f": "B", "hk": self.rng.choice([1, 2, 3]), "sk": 2, "force": False, "answer": ""})
        while len(out) < n:
            out += self.one()
        return out


def shipping(rng, world):
    """a release: built, signed, verified, coded for transport, decoded, verified again"""
    g = Gen(rng, world)
    nm_ = ["kernel", "fs", "dtb"]
    key = rng.choice([("k1", "ec256a"), ("k2", "rsa4096a"), ("k3", "ec521")])
    out = []
    pair = rng.choice(ALGS[:3])
    for f in ("A", "B"):
        out += [{"a": "create", "f": f, "hk": rng.choice([1, 1, 2, 3]), "sk": 2, "force": True, "answer": ""},
                {"a": "add", "what": "meta", "f": f, "i": "bpak-package", "r": "0", "enc": "uuid", "val": UUIDS[0]},
                {"a": "add", "what": "file", "f": f, "i": "kernel", "file": "r%d" % rng.choice(pk.SIZES), "fl": 0},
                {"a": "add", "what": "merkle", "f": f, "i": "fs", "file": rng.choice(["t8192", "t4096", "t20480"]), "fl": 0},
                {"a": "add", "what": "file", "f": f, "i": "dtb", "file": "r%d" % rng.choice(pk.SIZES), "fl": rng.choice([0, 1])},
                {"a": "tadd", "f": f, "p": "kernel", "algs": list(pair)},
                {"a": "tadd", "f": f, "p": "fs-hash-tree", "algs": list(ALGS[3])},
                {"a": "set", "f": f, "m": "", "enc": "text", "val": b"", "kid": key[0], "sid": "s1"}]
        if f == "B":
            out += [g.one()[0] for _ in range(rng.choice([0, 0, 2]))]
        out += [{"a": "sign", "f": f, "by": "key", "key": key[1]}] if rng.random() < .7 else \
            [{"a": "extsign", "f": f, "key": key[1]}, {"a": "sign", "f": f, "by": "file", "sig": "sig.bin", "bytes": b""}]
        out += [{"a": "verify", "f": f, "by": "store", "key": ""}, {"a": "verify", "f": f, "by": "key", "key": key[1]}]
    # B is the new release, A what is installed
    out += [{"a": "tenc", "f": "B", "o": "C", "org": "A"}, {"a": "show", "f": "C", "what": "all", "verbose": 1}, {"a": "load", "f": "B", "bytes": None}]
    out += [g.one()[0] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    out += [{"a": "compare", "f": "A", "g": "C"}, {"a": "tdec", "f": "C", "o": "B", "org": rng.choice(["A", "A", "A", "A", ""])}, {"a": "verify", "f": "B", "by": "store", "key": ""},
            {"a": "show", "f": "B", "what": "all"}, {"a": "compare", "f": "B", "g": "A"}, {"a": "compare", "f": "C", "g": "B"}]
    return [c for c in out if c.get("f") or c["a"] in ("genid",)]


def perform(ctx, name, hs):
    """carries histories out and judges them"""
    with ThreadPoolExecutor(8) as ex:
        traces = list(ex.map(lambda h: h.record(), hs))
    for t in traces:
        for e in t:
            ctx.count("%s:%s" % (e["a"], {True: "ok", False: "refused"}.get(e.get("ok"), "-")))
    judge(ctx, name, "BpakToolTrace", traces, lambda t, l: "\n".join(hs[t].log), lambda t: hs[t].record(), consts(REAL),
          key=lambda e: "%s:%s" % (e["a"], e.get("what", "")), maxbad=2)


def outside_histories(w, rng, n):
    """signatures made outside and put in by the tool"""
    hs = []
    lens = [0, 1, 69, 70, 72, 139, 511, 512, 513, 514, 600, 1023, 1024, 1025, 4096, 70000]
    for k in range(n):
        key = GOODKEYS[k % len(GOODKEYS)]
        st = [{"a": "load", "f": "A", "bytes": pk.crafted(rng, ["kernel", "fs"][:rng.choice([0, 1, 2])], coded=False, hk=1 + k % 3, stale=rng.random() < .3)},
              {"a": "extsign", "f": "A", "key": key}, {"a": "sign", "f": "A", "by": "file", "sig": "sig.bin", "bytes": b""},
              {"a": "verify", "f": "A", "by": "key", "key": key}]
        for z in rng.sample(lens, 6):
            st += [{"a": "sign", "f": "A", "by": "file", "bytes": rng.randbytes(z)}, {"a": "verify", "f": "A", "by": "key", "key": key}]
            if rng.random() < .5:
                st += [{"a": "sign", "f": "A", "by": "file", "sig": "sig.bin", "bytes": b""},
                       {"a": "verify", "f": "A", "by": "key", "key": rng.choice(GOODKEYS + [key] * 5)}]
        st += [{"a": "sign", "f": "A", "by": "file", "bytes": b"x", "absent": True}, {"a": "sign", "f": "A", "by": "key", "key": rng.choice(GOODKEYS)},
               {"a": "verify", "f": "A", "by": "key", "key": key}]
        hs.append(History(w, "outside-%d" % k, st))
    return hs


def lookups(w, rng, n):
    """entries of one name that differ in what they belong to, in every order; each of them asked for"""
    hs = []
    for k in range(n):
        parts = rng.sample(["P", "Q", "kernel"], rng.choice([1, 2, 3]))
        metas = rng.sample(["M", "note", "bpak-version", "x"], 2)
        keys = [(m, r) for m in metas for r in ["0"] + parts]
        rng.shuffle(keys)
        keys = keys[:rng.choice([2, 3, 5, 8])]
        if rng.random() < .5:
            st = [{"a": "load", "f": "A", "bytes": pk.crafted(rng, parts, metas=[(m, r, b"v%d" % j + bytes(1)) for j, (m, r) in enumerate(keys)], hk=1)}]
        else:
            st = [{"a": "create", "f": "A", "hk": 1, "sk": 2, "force": False, "answer": ""}]
            todo = [("p", p) for p in parts] + [("m", j) for j in range(len(keys))]
            rng.shuffle(todo)
            for a, x in todo:
                st.append({"a": "add", "what": "file", "f": "A", "i": x, "file": "r%d" % rng.choice(pk.SIZES), "fl": 0} if a == "p" else
                          {"a": "add", "what": "meta", "f": "A", "i": keys[x][0], "r": keys[x][1], "enc": "text", "val": b"value %d" % x})
        if rng.random() < .5:
            st.append({"a": "delete", "f": "A", "all": False, "p": rng.choice(parts), "keep": rng.random() < .5})
        if rng.random() < .5:
            st.append({"a": "set", "f": "A", "m": rng.choice(metas), "enc": "text", "val": b"w", "kid": None, "sid": None})
        for m in metas:
            for p in [None] + parts:
                st += [{"a": "show", "f": "A", "what": "meta", "m": m, "p": p}, {"a": "extract", "f": "A", "m": m, "p": None, "r": p, "out": ""}]
        for p in parts:
            st += [{"a": "show", "f": "A", "what": x, "p": p} for x in ("part", "parthash")]
            st.append({"a": "extract", "f": "A", "m": None, "p": p, "r": None, "out": ""})
        st.append({"a": "show", "f": "A", "what": "all"})
        hs.append(History(w, "lookup-%d" % k, st))
    return hs


def settings(w, rng, n):
    """entries of all sizes given texts about as long as they are, numbers of all kinds, and the two ids of the header"""
    hs = []
    for k in range(n):
        names = rng.sample(["m1", "m2", "m3", "pb-load-addr", "keystore-provider-id", "last"], rng.choice([1, 2, 4, 6]))
        sizes = [rng.choice([1, 2, 3, 4, 7, 8, 8, 9, 15, 16, 17, 24, 31, 100]) for _ in names]
        if rng.random() < .2:
            # hardly any room left
            names.append("filler")
            sizes.append(1920 - sum(-(-s // 8) * 8 for s in sizes) - rng.choice([0, 8, 16]))
        both = list(zip(names, sizes))
        rng.shuffle(both)
        refs = {m: rng.choice(["0", "0", "0", "kernel"]) for m, _ in both}
        b = pk.crafted(rng, ["kernel", "fs"][:rng.choice([0, 1, 2])], metas=[(m, refs[m], rng.randbytes(s)) for m, s in both], hk=rng.choice([1, 2, 3]))
        st = [{"a": "load", "f": "A", "bytes": b}]
        have = dict(both)
        ids = [None, "k1", "0xffffffff", "0x0", "0x12345678", "s1"]
        for _ in range(14):
            m = rng.choice(names)
            if rng.random() < .25:
                enc, v = "integer", rng.choice(NUMS)
                if rng.random() < .7:
                    m = rng.choice([x for x in names if have[x] == 8] or [m])
            elif rng.random() < .1:
                enc, v = "id", rng.choice(VALS)
            else:
                enc, v = "text", b"v" * max(0, have[m] + rng.choice([-3, -2, -1, -1, 0, 0, 1, 2, 8]))
            x = rng.random()
            st.append({"a": "set", "f": "A", "m": m if x > .15 else "", "enc": enc, "val": v, "kid": rng.choice(ids) if x < .4 else None,
                       "sid": rng.choice(ids) if x < .4 else None})
            if not st[-1]["m"] and st[-1]["kid"] is None and st[-1]["sid"] is None:
                st[-1]["kid"] = "k2"
            elif st[-1]["m"] and enc == "text" and refs[m] == "0":
                have[m] = max(have[m], len(v) + 1)
            if rng.random() < .2:
                st.append({"a": "show", "f": "A", "what": "all"})
        for enc, v in [("integer", x) for x in rng.sample(NUMS, 4)] + [("uuid", rng.choice(UUIDS[:2])), ("id", rng.choice(VALS)), ("text", rng.choice(VALS))]:
            c = {"a": "add", "what": "meta", "f": "A", "i": "n%d" % len(st), "r": rng.choice(["0", "kernel", "fs", ""]), "enc": enc, "val": v}
            if rng.random() < .5 and v:
                c.update({"from": "file", "file": "value-" + sha(v)})
                w.inp.put(c["file"], v)
            st.append(c)
        hs.append(History(w, "settings-%d" % k, st + [{"a": "show", "f": "A", "what": "all"}]))
    return hs


def overviews(w, rng, n):
    """what is shown of packages from elsewhere: parts of all kinds in all orders, metadata of known and unknown names, texts that are none"""
    hs = []
    known = {"bpak-package": [16, 8, 17], "bpak-version": [6, 1], "bpak-transport": [32, 31, 33], "pb-load-addr": [8, 7, 4, 16], "keystore-provider-id": [4, 3, 8],
             "merkle-salt": [32, 31, 4], "merkle-root-hash": [32, 64], "unknown": [1, 20], "other": [5]}
    for k in range(n):
        parts = rng.sample(["kernel", "fs", "dtb", "P", "Q", "fs-hash-tree"], rng.choice([0, 1, 2, 4, 6]))
        metas = []
        for m in rng.sample(sorted(known), rng.choice([1, 2, 4, 9])):
            for r in rng.sample(["0"] + parts, rng.choice([1, 1, 2]) if parts else 1):
                s = rng.choice(known[m])
                metas.append((m, r, (b"1.2.3" + bytes(1))[-s:] if m == "bpak-version" else rng.randbytes(s)))
        rng.shuffle(metas)
        b = pk.crafted(rng, parts, metas=metas, hk=rng.choice([1, 2, 3]), stale=rng.random() < .3)
        if rng.random() < .4:
            b = pk.noise(rng, b)
        st = [{"a": "load", "f": "A", "bytes": b}] + [{"a": "show", "f": "A", "what": "all", "verbose": v} for v in (0, 1)]
        st += [{"a": "show", "f": "A", "what": "hash", "how": h} for h in ("--hash", "--binary-hash")]
        st += [{"a": "show", "f": "A", "what": "meta", "m": m, "p": p} for m in sorted({m for m, _, _ in metas}) for p in [None] + parts[:2]]
        st += [{"a": "show", "f": "A", "what": x, "p": p} for x in ("part", "parthash") for p in parts]
        hs.append(History(w, "overview-%d" % k, st))
    return hs


def refusals(w, rng, n):
    """every command with a file that is no package, as the first and as the second one"""
    hs = []
    for k in range(n):
        b = pk.crafted(rng, ["kernel", "fs"][:rng.choice([1, 2])], metas=[("m1", "0", bytes(8)), ("bpak-package", "0", bytes(16)), ("m2", "kernel", b"text\0")])
        bad = raw.spoil_header(rng, b) if k % 4 else junk(rng)
        none = {"m": None, "p": None, "r": None}
        st = [{"a": "load", "f": "A", "bytes": bad}, {"a": "load", "f": "B", "bytes": b}]
        for c in ([{"a": "add", "what": "file", "i": "new", "file": "r5000", "fl": 0}, {"a": "add", "what": "key", "i": "new", "file": GOODKEYS[0], "fl": 0},
                   {"a": "add", "what": "merkle", "i": "new", "file": "t4096", "fl": 0},
                   {"a": "add", "what": "meta", "i": "new", "r": "0", "enc": "text", "val": b"abc"},
                   {"a": "set", "m": "m1", "enc": "integer", "val": b"5", "kid": None, "sid": None}, {"a": "set", "m": "", "enc": "text", "val": b"", "kid": "k1", "sid": "s1"},
                   {"a": "delete", "all": False, "p": "kernel", "keep": False}, {"a": "delete", "all": True, "p": None, "keep": False},
                   {"a": "tadd", "p": "kernel", "algs": list(ALGS[0])}, {"a": "sign", "by": "key", "key": "ec256a"}, {"a": "sign", "by": "file", "bytes": b"x" * 70},
                   {"a": "verify", "by": "key", "key": "ec256a"}, {"a": "verify", "by": "store", "key": ""},
                   dict(none, a="extract", p="kernel", out="O"), dict(none, a="extract", m="m1", out=""), {"a": "show", "what": "all"}, {"a": "show", "what": "hash"},
                   {"a": "show", "what": "meta", "m": "m1", "p": None}, {"a": "show", "what": "part", "p": "kernel"}, {"a": "show", "what": "parthash", "p": "kernel"},
                   {"a": "compare", "g": "A"}, {"a": "compare", "g": "B"}, {"a": "tenc", "o": "C", "org": "B"}, {"a": "tdec", "o": "C", "org": ""},
                   {"a": "create", "hk": 1, "sk": 2, "force": False, "answer": "N"}]):
            st.append(dict(c, f="A"))
        st += [{"a": "compare", "f": "B", "g": "A"}, {"a": "tenc", "f": "B", "o": "C", "org": "A"}, {"a": "tdec", "f": "B", "o": "C", "org": "A"}]
        if rng.random() < .5:
            st[2:] = rng.sample(st[2:], len(st) - 2)
        hs.append(History(w, "refusals-%d" % k, st))
    return hs


def run():
    ctx = Ctx("C17")
    w = World()
    rng = random.Random(SEED * 911 + 17)
    mc = "SPECIFICATION MCSpec\nVIEW MCView\nCHECK_DEADLOCK FALSE\nINVARIANTS HashCurrent Unique EmitInv\nPROPERTIES Contained Frame\n"
    small = dict(REAL, Packages='{"A", "B"}', PNames='{"P", "Q"}', MNames='{"M"}', Files='{"f513"}', MaxLive=2, Emit="FALSE")
    check_model(ctx, "two-packages", "BpakToolMC", mc + consts(dict(small, MaxLive=3 if THOROUGH else 2)))
    r = check_model(ctx, "one-package", "BpakToolMC", mc + consts(dict(small, Packages='{"A"}', MaxLive=3, Emit="TRUE")))
    alpha = sorted([x["alphabet"] for x in r.prints if "alphabet" in x][0], key=lambda x: json.dumps(x, sort_keys=True))
    paths = [x["path"] for x in r.prints if "path" in x]
    rng.shuffle(paths)
    paths.sort(key=lambda p: len(p) > 2)
    hs = []
    for k, p in enumerate(paths[:24 if not THOROUGH else 300]):
        steps = [from_model(c) for c in p] + [{"a": "keep"}]
        for c in alpha:
            steps.append(from_model(c))
            if c["a"] in ("add", "set", "delete", "create", "tadd", "sign", "extract"):
                steps.append({"a": "bring"})
        hs.append(History(w, "model-%d" % k, steps))
    for k in range(90 if not THOROUGH else 1200):
        hs.append(History(w, "random-%d" % k, Gen(rng, w).history(25)))
    for k in range(40 if not THOROUGH else 500):
        hs.append(History(w, "release-%d" % k, shipping(rng, w)))
    bad = [History(w, "usage", [{"a": "load", "f": "A", "bytes": pk.crafted(rng, ["kernel"], coded=False)}] +
                   [{"a": "bad", "f": f, "argv": x} for x in BAD for f in ("A", "B")] + [{"a": "help", "f": "A", "argv": x} for x in HELP])]
    hs += bad + lookups(w, rng, 30 if not THOROUGH else 300) + settings(w, rng, 40 if not THOROUGH else 500) + overviews(w, rng, 30 if not THOROUGH else 400) + \
        refusals(w, rng, 16 if not THOROUGH else 200)
    perform(ctx, "commands", hs)
    ctx.sample({"history": hs[30].log[:20]})
    ctx.sample({"release": hs[-5].log[:30]})
    ctx.assumptions += ["contents are compared by SHA-256 digest", "signatures and digests are checked with openssl and Python's hashlib",
                        "options are given once; numbers are decimal, octal or hexadecimal as for strtol"]
    return ctx.finish()
