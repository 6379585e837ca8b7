"""C15: keystores against BpakKeystore.tla."""
import os, random, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import core, raw

KEYS = os.path.join(VERIF, "keys")
GOOD = {"ec256a": 1, "ec256b": 1, "ec384": 2, "ec521": 3, "rsa4096a": 4, "rsa4096b": 4}
KIND = {"BPAK_KEY_PUB_PRIME256v1": 1, "BPAK_KEY_PUB_SECP384r1": 2, "BPAK_KEY_PUB_SECP521r1": 3, "BPAK_KEY_PUB_RSA4096": 4}
OTHER = ["ec224", "ed25519", "rsa2048", "bp256", "secp256k1"]
PROVIDER = "keystore-provider-id"
NO = {"ok": "no", "kind": 0, "tok": ""}


def der(name):
    with open(os.path.join(KEYS, name + ".der"), "rb") as f:
        return f.read()


def kinds():
    """numbers of the kinds in the header being built against"""
    d = sub("kinds")
    with open(d + "/k.c", "w") as f:
        f.write("#include <stdio.h>\n#include <bpak/bpak.h>\n#include <bpak/key.h>\nint main(void){printf(\"%s\\n\",%s);return 0;}\n" %
                (" ".join(["%d"] * 4), ",".join(KIND)))
    _ = subprocess.run(["gcc", "-I", REPO + "/include", "-I", core._config_dir(), "-o", d + "/k", d + "/k.c"], stderr=subprocess.PIPE, text=True)
    if _.returncode:
        raise ModelError("kinds: " + _.stderr[-1000:])
    out = subprocess.run([d + "/k"], stdout=subprocess.PIPE, text=True).stdout.split()
    return {int(n): k for n, k in zip(out, KIND.values())}


def good(rng):
    n = rng.choice(sorted(GOOD))
    b = der(n)
    return b, {"ok": "yes", "kind": GOOD[n], "tok": sha(b)}


def spoiled(rng):
    """bytes that are no key, or one that is not supported"""
    k = rng.choice(["other", "cut", "empty", "random", "point", "private", "zero", "tag", "long"])
    b = der(rng.choice(sorted(GOOD)))
    if k == "other":
        return der(rng.choice(OTHER)), NO
    if k == "cut":
        return b[:rng.choice([1, 2, len(b) - 1, rng.randrange(1, len(b))])], NO
    if k == "empty":
        return b"", NO
    if k == "random":
        return bytes([rng.choice([0, 1, 0x31, 255])]) + rng.randbytes(rng.choice([1, 90, 1000])), NO
    if k == "point":
        b = bytearray(der(rng.choice(["ec256a", "ec384", "ec521"])))
        b[-rng.randrange(2, 30)] ^= 1 << rng.randrange(8)
        return bytes(b), NO
    if k == "private":
        with open(KEYS + "/ec256a.pem", "rb") as f:
            return f.read(), NO
    if k == "zero":
        return bytes(len(b)), NO
    if k == "long":
        return bytes(rng.choice([1025, 4000])), NO
    b = bytearray(b)
    b[rng.choice([0, 1])] ^= 1 << rng.randrange(7)
    return bytes(b), {"ok": "maybe" if b[0] == 0x30 else "no", "kind": 0, "tok": ""}


class Case:
    """x: what the model asks for; real keys, ids and files are put in its place"""

    def __init__(self, x, rng, k, w):
        self.x, self.k = x, k
        self.kept = True
        ids, st = {"": 0}, {}
        used = set()

        def rid(t):
            if t not in ids:
                while True:
                    v = rng.choice([crc32_id(t + str(k)), rng.getrandbits(32) or 1, 1, 0xffffffff, 0x80000000 | rng.getrandbits(8)])
                    if v not in used:
                        break
                used.add(v)
                ids[t] = v
            return ids[t]

        def sid(t):
            if t not in st:
                st[t] = rng.choice([crc32_id(t), rng.getrandbits(32) or 1, rng.randrange(1 << 32) | 0x80000000])
                while list(st.values()).count(st[t]) > 1:
                    st[t] = rng.getrandbits(32)
            return st[t]
        parts, self.parts = [], []
        for p in x["parts"]:
            b, fact = good(rng) if p["key"]["ok"] == "yes" else spoiled(rng)
            parts.append(raw.Part(rid(p["id"]), b, rng.choice([0, 0, 1]), pad=None))
            self.parts.append({"id": id32(rid(p["id"])), "key": fact})
        if parts and x.get("far"):
            # nothing behind this one is in reach
            i = rid("far")
            n = rng.randrange(len(parts))
            parts.insert(n, raw.Part(i, b"", 2, size=0, pad=0, t=rng.choice([1 << 40, 1 << 62, (1 << 63) - 4096, (1 << 63) - 512, 1 << 63, (1 << 64) - 8192])))
            self.parts.insert(n, {"id": id32(i), "key": NO})
            for p in self.parts[n:]:
                p["key"] = NO
        metas = [("bpak-package", 0, rng.randbytes(16))]
        self.named = True
        if x.get("nameless"):
            metas, self.named = [], False
        prov = [sid(s) for s in x["prov"]]
        self.prov = [id32(p) for p in prov]
        if prov:
            metas.append((PROVIDER, 0, struct.pack("<I", prov[0]) + rng.randbytes(rng.choice([0, 0, 4]))))
        elif rng.random() < .5:
            # of a part, or with too few bytes
            if rng.random() < .5:
                metas.append((PROVIDER, rid("i1"), struct.pack("<I", sid("s1"))))
            else:
                metas.append((PROVIDER, 0, struct.pack("<I", sid("s1"))[:rng.choice([1, 2, 3])]))
        rng.shuffle(metas)
        self.ks, self.id = sid(x["ks"]), rid(x["id"])
        b = raw.package(parts, metas, hk=rng.choice([1, 2, 3]))
        for j, m in enumerate(metas):
            if m[0] == PROVIDER and m[1] == 0 and len(m[2]) < 4 and rng.random() < .8:
                # what follows it would make it the id asked for
                b, o = bytearray(b), struct.unpack_from("<H", b, 8 + 16 * j + 6)[0]
                struct.pack_into("<I", b, 1544 + o, self.ks)
                b = bytes(b)
        wf = True
        if x["form"] != "fine":
            b = bytearray(raw.package(parts, metas + [(PROVIDER, 0, struct.pack("<I", self.ks))] if not prov else metas))
            wf = False
            if x["form"] == "cut":
                b = b[:rng.choice([1, 4095, rng.randrange(1, 4096)])]
            elif x["form"] == "bad":
                if rng.random() < .4:
                    b[rng.randrange(4)] ^= 1 << rng.randrange(8)
                elif rng.random() < .5:
                    struct.pack_into("<H", b, 8 + 6, 1920)         # metadata outside
                else:
                    struct.pack_into("<H", b, 8 + 4, 65535)
        elif parts and x.get("short"):
            # the last part is not all there
            n = len(parts[-1].body)
            body = parts[-1].size
            if body:
                b = b[:len(b) - n + rng.randrange(body)]
                self.parts[-1]["key"] = NO
        self.wf = wf
        self.bytes = bytes(b)
        self.file = os.path.join(w, "k%d.bpak" % k)
        if x["form"] != "gone":
            with open(self.file, "wb") as f:
                f.write(self.bytes)
        self.cbrc = rng.choice(["-1", "-30", "1", "-99"])

    def line(self):
        cb = {"none": "-", "agrees": "0", "refuses": self.cbrc}[self.x["cb"]]
        return ["ksload %s %08x %08x %s" % (self.file, self.ks, self.id, cb)]

    def fact(self):
        return {"wf": self.wf, "prov": self.prov, "parts": self.parts, "named": self.named}

    def same(self):
        if self.x["form"] == "gone":
            return not os.path.exists(self.file)
        with open(self.file, "rb") as f:
            return f.read() == self.bytes

    def event(self, r):
        if "crash" in r[-1]:
            return {"a": "crash", "why": r[-1]["crash"]}
        r = r[0]
        res = {"ok": r["rc"] == 0, "id": r["id"], "kind": KINDS.get(r["kind"], 0), "tok": sha(bytes.fromhex(r["k"]))}
        return {"a": "load", "f": self.fact(), "ks": id32(self.ks), "id": id32(self.id), "cb": self.x["cb"], "calls": r["calls"], "res": res,
                "kept": self.same()}


KINDS = {}
PRINT = """#include <stdio.h>
#include <bpak/bpak.h>
#include <bpak/keystore.h>
extern const struct bpak_keystore keystore_%s;
int main(void) { const struct bpak_keystore *s = &keystore_%s;
 printf("%%u %%d %%d\\n", s->id, s->verified, s->no_of_keys);
 for (int i = 0; i < s->no_of_keys; i++) { printf("%%u %%d ", s->keys[i]->id, s->keys[i]->kind);
  for (int j = 0; j < s->keys[i]->size; j++) printf("%%02x", s->keys[i]->data[j]); printf("\\n"); } return 0; }
"""


def source_event(c, tool, w, name, deco):
    """what the source generated for a case defines"""
    p = subprocess.run([tool, "generate", "keystore", c.file, "--name", name] + (["--decorate"] if deco else []), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=SAN_ENV, timeout=60)
    if p.returncode < 0 or p.returncode == 99:
        return {"a": "crash", "why": p.stderr.decode()[-300:]}
    e = {"a": "source", "f": c.fact(), "ok": p.returncode == 0, "kept": c.same(), "src": {"id": "", "verified": False, "keys": []}}
    if e["ok"]:
        d = os.path.join(w, "src%d" % c.k)
        os.makedirs(d, exist_ok=True)
        with open(d + "/s.c", "wb") as f:
            f.write(p.stdout)
        sym = name.replace("-", "_")
        with open(d + "/m.c", "w") as f:
            f.write(PRINT % (sym, sym))
        q = subprocess.run(["gcc", "-w", "-I", REPO + "/include", "-I", core._config_dir(), "-o", d + "/m", d + "/s.c", d + "/m.c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 0:
            o = [l.split(" ") for l in subprocess.run([d + "/m"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
            e["src"] = {"id": id32(int(o[0][0])), "verified": o[0][1] != "0",
                        "keys": [{"id": id32(int(x[0])), "kind": KINDS.get(int(x[1]), 0), "tok": sha(bytes.fromhex(x[2]))} for x in o[1:]]}
        shutil.rmtree(d, True)
    return e


def run():
    ctx = Ctx("C15")
    drv = Driver(build_driver())
    tool = build_tool(True)
    KINDS.update(kinds())
    rng = random.Random(SEED * 73 + 15)
    r = check_model(ctx, "loading", "BpakKeystoreMC", 'SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound EmitInv\nCONSTANTS MaxParts=2\n'
                    ' Ids={"i1","i2"}\n Stores={"s1","s2"}\n Emit=TRUE\n')
    check_model(ctx, "loading-3", "BpakKeystoreMC", 'SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound\nCONSTANTS MaxParts=3\n'
                ' Ids={"i1","i2","i3"}\n Stores={"s1","s2"}\n Emit=FALSE\n')
    w = sub("w")
    todo = list(r.prints) * (2 if not THOROUGH else 12)
    for _ in range(600 if not THOROUGH else 8000):
        ids = ["i%d" % j for j in range(1, rng.choice([2, 4, 9, 31]))]
        rng.shuffle(ids)
        ps = [{"id": i, "key": {"ok": rng.choice(["yes", "yes", "no"])}} for i in ids]
        todo.append({"form": "fine", "prov": rng.choice([["s1"], ["s1"], ["s1"], ["s2"], []]), "parts": ps, "ks": "s1",
                     "id": rng.choice(ids + ["i99"]), "cb": rng.choice(["none", "none", "agrees", "refuses"]), "short": rng.random() < .3,
                     "nameless": rng.random() < .1, "far": rng.random() < .15})
    cases = [Case(x, rng, k, w) for k, x in enumerate(todo)]
    reps = drv.run([c.line() for c in cases], w, jobs=8)
    ev = [[c.event(q)] for c, q in zip(cases, reps) if q is not None]
    have = [c for c, q in zip(cases, reps) if q is not None]
    for e in ev:
        ctx.count("load:%s" % e[0].get("res", {}).get("ok"))
    ctx.sample({"case": todo[0], "event": ev[0][0]})
    judge(ctx, "loading", "BpakKeystoreTrace", ev, lambda t, l: "%s\n%s\n%s" % (have[t].x, have[t].line(), have[t].bytes.hex()),
          lambda t: [have[t].event(drv.run([have[t].line()], w)[0])])

    # keystores in memory
    gets = []
    base = [1, 2, 3, 0, 0xffffffff, 0x80000000]
    for n in range(0, 4):
        for v in (0, 1):
            for _ in range(40 if not THOROUGH else 400):
                ids = [rng.choice(base) for _ in range(n)]
                gets.append((v, ids, rng.choice(base)))
    for _ in range(60 if not THOROUGH else 1000):
        ids = [rng.getrandbits(32) for _ in range(rng.choice([5, 20, 64]))]
        gets.append((rng.choice([0, 1, 1]), ids, rng.choice(ids + [rng.getrandbits(32), ids[-1], ids[0] ^ 1])))
    line = lambda g: ["ksget %d %s %08x" % (g[0], ",".join("%08x" % i for i in g[1]) or "-", g[2])]

    def gev(g, q):
        if "crash" in q[-1]:
            return [{"a": "crash", "why": q[-1]["crash"]}]
        return [{"a": "get", "verified": bool(g[0]), "ids": [id32(i) for i in g[1]], "id": id32(g[2]), "ok": q[0]["rc"] == 0, "at": q[0]["k"]}]
    reps = drv.run([line(g) for g in gets], w, jobs=8)
    gets, reps = alive(gets, reps)
    judge(ctx, "memory", "BpakKeystoreTrace", [gev(g, q) for g, q in zip(gets, reps)], lambda t, l: str(line(gets[t])),
          lambda t: gev(gets[t], drv.run([line(gets[t])], w)[0]))

    # source
    src = [c for c in have if (not c.x.get("short") or rng.random() < .2) and c.x["cb"] == "none"]
    src = rng.sample(src, min(len(src), 150 if not THOROUGH else 1500))
    args = [(c, tool, w, rng.choice(["x", "internal", "my-key-store", "a_1", "a-", "-b", "--", "-", "a--b", "k" * 200 + "-"]), rng.random() < .4) for c in src]
    with ThreadPoolExecutor(8) as ex:
        sev = list(ex.map(lambda a: source_event(*a), args))
    for e in sev:
        ctx.count("source:%s" % e.get("ok"))
    judge(ctx, "source", "BpakKeystoreTrace", [[e] for e in sev], lambda t, l: "generate keystore %s\n%s" % (args[t][0].x, args[t][0].bytes.hex()),
          lambda t: [source_event(*args[t])])
    ctx.assumptions += ["which bytes are a supported public key is known by construction (keys made with openssl)"]
    return ctx.finish()
