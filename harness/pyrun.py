"""Command interpreter over the bpak Python module: one command per line on
stdin, one JSON reply per line on stdout.  It speaks the language of the C
driver as far as the module offers the same, and decides nothing."""
import contextlib, ctypes, gc, hashlib, json, os, pathlib, shutil, sys
sys.path.insert(0, sys.argv[1])
import bpak

libc = ctypes.CDLL(None)
held = libc.__sanitizer_get_current_allocated_bytes
held.restype = ctypes.c_size_t


class Usage(Exception):
    pass


class NoObject(Exception):
    pass


class Objects(dict):
    def __missing__(self, k):
        raise NoObject(k)


sys.unraisablehook = lambda u: None
P, O, STACK, LOG = Objects(), Objects(), {}, []


TURN, OUT = [0], object()
PATHS = {"filename", "verify_key_path", "sign_key_path"}


def ask(fn, **kw):
    """The same request in one of the ways Python has for it: by place or by name,
    a file by text, bytes or path.  OUT: left out."""
    TURN[0] = n = TURN[0] + 1
    vals = {k: v for k, v in kw.items() if v is not OUT}
    for k in PATHS & set(vals):
        vals[k] = [str, os.fsencode, pathlib.Path][n % 3](vals[k])
    gap = False
    m = [len(kw), 0, 1, len(kw)][n % 4]
    pos, named = [], {}
    for k, v in kw.items():
        gap = gap or k not in vals
        if k in vals:
            if len(pos) < m and not gap:
                pos.append(vals[k])
            else:
                named[k] = vals[k]
    return fn(*pos, **named)


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def num(s):
    return int(s, 16)


def value(s):
    try:
        return value_of(s)
    except ValueError:
        raise Usage(s)


def value_of(s):
    k, _, v = s.partition(":")
    if k == "i":
        return int(v)
    if k == "b":
        return bytes.fromhex(v)
    if k == "s":
        return bytes.fromhex(v).decode("utf-8")
    if k == "a":
        return bytearray.fromhex(v)
    if k == "n":
        return None
    if k == "f":
        return float(v)
    if k == "t":
        return v == "1"
    raise Usage(s)


def give(obj, attr, s):
    if s == "del":
        delattr(obj, attr)
    else:
        setattr(obj, attr, value(s))


def fds(path):
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + f) == os.path.realpath(path)
        except OSError:
            pass
    return n


def content(b):
    return {"n": len(b), "h": hashlib.sha256(b).hexdigest()[:16]}


def meta(m):
    return {"i": "%08x" % m.id, "r": "%08x" % m.part_id_ref, "s": m.size, "d": list(m.raw_data)}


def part(p):
    return {"i": "%08x" % p.id, "s": p.size, "o": p.offset, "t": p.is_transport_encoded}


def view(p):
    return {"m": [meta(x) for x in p.meta], "p": [part(x) for x in p.parts], "hk": p.hash_kind, "sk": p.signature_kind,
            "kid": "%08x" % p.key_id, "sid": "%08x" % p.keystore_id, "sg": p.signature.hex(), "size": p.size, "inst": p.installed_size}


def c_open(v):
    P.pop(v[1], None)
    O.clear()
    P[v[1]] = ask(bpak.Package, filename=v[2], mode=v[3])


def c_with(v):
    """the same as a context"""
    P.pop(v[1], None)
    O.clear()
    st = contextlib.ExitStack()
    P[v[1]] = st.enter_context(ask(bpak.Package, filename=v[2], mode=v[3]))
    STACK[v[1]] = st


def c_reinit(v):
    """reinit slot path mode"""
    ask(P[v[1]].__init__, filename=v[2], mode=v[3])


def c_hsame(v):
    """hsame slot file: does the package answer as the file does"""
    libc.fflush(None)
    with bpak.Package(v[2], "rb") as p:
        return {"same": view(P[v[1]]) == view(p)}


def c_bare(v):
    P[v[1]] = bpak.Package.__new__(bpak.Package)


def c_close(v):
    st = STACK.pop(v[1], None)
    if st:
        st.close()
    else:
        P[v[1]].close()


def c_raiseclose(v):
    """leave the with block by an exception"""
    try:
        with STACK.pop(v[1]):
            raise KeyError("inside")
    except KeyError:
        pass


def c_drop(v):
    """let go of the package and of the objects made from it: drop slot path var..."""
    STACK.pop(v[1], None)
    for x in v[3:]:
        O.pop(x, None)
    P.pop(v[1], None)
    gc.collect()
    return {"fds": fds(v[2])}


def c_letgo(v):
    """let go of the package alone, or of objects: letgo slot|- path var..."""
    O.pop("last", None)
    if v[1] != "-":
        STACK.pop(v[1], None)
        P.pop(v[1], None)
    for x in v[3:]:
        O.pop(x, None)
    gc.collect()
    return {"fds": fds(v[2])}


def snap(src, dst):
    libc.fflush(None)
    try:
        shutil.copyfile(src, dst)
        return {"there": True, "open": False}
    except FileNotFoundError:
        open(dst, "wb").close()
        return {"there": False, "open": False}


def c_rewrite(v):
    """poke file offset hex, from outside"""
    with open(v[1], "r+b") as f:
        f.seek(int(v[2]))
        f.write(unhex(v[3]))


def flag(v, k):
    if int(v[k]):
        raise Usage("flags")


def c_addfile(v):
    flag(v, 4)
    O["last"] = ask(P[v[1]].add_file, part_name=v[3], filename=v[2], with_merkle_tree=[OUT, False][TURN[0] % 2])


def c_addmerkle(v):
    flag(v, 4)
    O["last"] = ask(P[v[1]].add_file, part_name=v[3], filename=v[2], with_merkle_tree=True)


def c_addkey(v):
    flag(v, 4)
    O["last"] = ask(P[v[1]].add_key, part_name=v[3], filename=v[2])


def c_addto(v):
    """addto slot var file|key|tree name path"""
    O.pop(v[2], None)
    p = P[v[1]]
    if v[3] == "key":
        O[v[2]] = ask(p.add_key, part_name=v[4], filename=v[5])
    else:
        O[v[2]] = ask(p.add_file, part_name=v[4], filename=v[5], with_merkle_tree=True if v[3] == "tree" else [OUT, False][TURN[0] % 2])


def c_pdelpart(v):
    if v[3] != "1":
        raise Usage("delete keeps metadata")
    P[v[1]].get_part(num(v[2])).delete()


def c_paddmeta(v):
    P[v[1]].add_meta(num(v[2]), num(v[3]), unhex(v[4]))


def c_pdelmeta(v):
    P[v[1]].get_meta(num(v[2]), num(v[3])).delete()


def c_addmeta(v):
    """addmeta slot var id ref|- data|- size|-"""
    O.pop(v[2], None)
    kw = {"id": int(v[3])}
    if v[4] != "-":
        kw["part_id_ref"] = int(v[4])
    if v[5] != "-":
        kw["data"] = value(v[5])
    if v[6] != "-":
        kw["size"] = int(v[6])
    O[v[2]] = ask(P[v[1]].add_meta, id=kw["id"], part_id_ref=kw.get("part_id_ref", OUT), data=kw.get("data", OUT), size=kw.get("size", OUT))


def c_getm(v):
    O.pop(v[2], None)
    O[v[2]] = ask(P[v[1]].get_meta, id=int(v[3]), part_id_ref=OUT if v[4] == "-" else int(v[4]))


def c_getp(v):
    O.pop(v[2], None)
    O[v[2]] = ask(P[v[1]].get_part, id=int(v[3]))


def c_listm(v):
    O.pop(v[2], None)
    O[v[2]] = P[v[1]].meta[int(v[3])]


def c_listp(v):
    O.pop(v[2], None)
    O[v[2]] = P[v[1]].parts[int(v[3])]


def c_attr(v):
    give(P[v[1]], v[2], v[3])


def c_oattr(v):
    give(O[v[1]], v[2], v[3])


def c_call(v):
    """call 0|var|module method value..."""
    o = bpak if v[1] == "module" else P[v[1]] if v[1].isdigit() else O[v[1]]
    # a name of its own each time would stay in the cache of the type
    getattr(o, sys.intern(v[2]))(*[P[x[2:]] if x.startswith("p:") else O[x[2:]] if x.startswith("o:") else value(x) for x in v[3:]])


def c_look(v):
    o = O[v[1]]
    repr(o)
    if isinstance(o, bpak.Part):
        r = part(o)
        r.update(content(o.read_data()))
        return {"o": r}
    return {"o": meta(o)}


def c_text(v):
    return {"t": list(O[v[1]].as_string().encode())}


def c_uuid(v):
    return {"u": list(O[v[1]].as_uuid().bytes)}


def c_attrs(v):
    """everything that can be asked of a package, one by one"""
    p = P[v[1]]
    return {"v": view(p)}


def c_pset(v):
    f = {"keyid": "key_id", "ksid": "keystore_id", "hash": "hash_kind", "sigkind": "signature_kind"}[v[2]]
    setattr(P[v[1]], f, int(v[3], 16 if "id" in f and f != "signature_kind" else 10))


class Closing:
    """a path that closes the package when it is asked for"""
    def __init__(self, p, path):
        self.p, self.path = p, path

    def __fspath__(self):
        self.p.close()
        return self.path


def c_closing(v):
    """closing slot file|tree|key|sign|verify name path: a statement whose argument
    closes the package it is about"""
    p = P[v[1]]
    arg = Closing(p, v[4])
    try:
        if v[2] == "key":
            p.add_key(v[3], arg)
        elif v[2] in ("file", "tree"):
            p.add_file(v[3], arg, v[2] == "tree")
        elif v[2] == "sign":
            p.sign(arg)
        else:
            p.verify(arg)
    except Exception:
        pass
    else:
        raise ValueError("carried out on a closed package")
    finally:
        p.close()


def c_log(v):
    def busy(level, text):
        for again in (lambda p: p.close(), lambda p: p.__init__("/nonexistent/dir/file", "rb+"), lambda p: p.__exit__(None, None, None)):
            try:
                again(P["0"])
            except Exception:
                pass

    def keep(level, text):
        LOG.append((level, text))

    def fail(level, text):
        raise ValueError("from the log function")

    if v[1] == "none":
        bpak.set_log_func(None)
    elif v[1] == "keep":
        bpak.set_log_func(keep)
    elif v[1] == "gone":
        bpak.set_log_func(lambda level, text: LOG.append(text + "!"))
    elif v[1] == "fail":
        bpak.set_log_func(fail)
    elif v[1] == "busy":
        bpak.set_log_func(busy)
    else:
        bpak.set_log_func()
    del LOG[:]


def c_vfile(v):
    with bpak.Package(v[1], "r") as p:
        p.verify(v[2])


def c_reset(v):
    STACK.clear()
    O.clear()
    P.clear()
    bpak.set_log_func(None)
    del LOG[:]


def c_heap(v):
    c_reset(v)
    gc.collect()
    return {"heap": held(), "files": len(os.listdir("/proc/self/fd"))}


CMD = {
    "open": c_open, "reinit": c_reinit, "hsame": c_hsame, "with": c_with, "bare": c_bare, "close": c_close, "closing": c_closing, "raiseclose": c_raiseclose, "drop": c_drop, "letgo": c_letgo,
    "snap": lambda v: snap(v[2], v[3]), "cp": lambda v: snap(v[1], v[2]), "poke": c_rewrite,
    "addfile": c_addfile, "addmerkle": c_addmerkle, "addkey": c_addkey, "addto": c_addto, "pdelpart": c_pdelpart,
    "paddmeta": c_paddmeta, "pdelmeta": c_pdelmeta, "addmeta": c_addmeta, "getm": c_getm, "getp": c_getp, "listm": c_listm,
    "listp": c_listp, "attr": c_attr, "oattr": c_oattr, "odel": lambda v: O[v[1]].delete(), "look": c_look, "call": c_call, "text": c_text,
    "uuid": c_uuid, "view": c_attrs, "pset": c_pset,
    "psize": lambda v: {"size": P[v[1]].size, "inst": P[v[1]].installed_size},
    "updhash": lambda v: {"h": P[v[1]].digest.hex()},
    "rawsig": lambda v: setattr(P[v[1]], "signature", unhex(v[2])),
    "sign": lambda v: {"is": ask(P[v[1]].sign, sign_key_path=v[2]) is True}, "verify": lambda v: {"is": ask(P[v[1]].verify, verify_key_path=v[2]) is True}, "vfile": c_vfile,
    "tenc": lambda v: ask(bpak.transport_encode, input=P[v[1]], output=P[v[2]], origin=OUT if v[3] == "-" else P[v[3]]),
    "tdec": lambda v: ask(bpak.transport_decode, input=P[v[1]], output=P[v[2]], origin=OUT if v[3] == "-" else P[v[3]]),
    "id": lambda v: {"i": "%08x" % bpak.id(unhex(v[1]).decode("utf-8"))}, "log": c_log, "heap": c_heap,
}


def main():
    out = sys.stdout
    for line in sys.stdin:
        v = line.split()
        if not v:
            continue
        if v[0] == "reset":
            c_reset(v)
            TURN[0] = 0
            r = {"reset": int(v[1])}
        else:
            r = {"rc": 0}
            try:
                r.update(CMD[v[0]](v) or {})
            except (Usage, MemoryError):
                sys.exit(3)
            except NoObject:
                r = {"rc": -2}
            except SystemError as e:
                r = {"crash": "SystemError %s" % e}
            except Exception as e:
                r = {"rc": -1, "exc": type(e).__name__, "msg": str(e)[:200]}
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
