"""Package files put together byte by byte."""
import hashlib, os, struct
from .core import crc32_id
HK = {1: "sha256", 2: "sha384", 3: "sha512"}
MASK = 0  # what the hash functions plugged in do to every byte of a digest
LIGHT = False  # the light hash of harness/drv_plug.c


class Sparse:
    """A long string of bytes, most of them zero: pieces at their places."""
    LONG = 1 << 26

    def __init__(self, n, at=()):
        self.n, self.at = n, sorted((o, b) for o, b in at if b)

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        lo, hi, _ = s.indices(self.n)
        hi = max(lo, hi)
        at = [(max(o, lo) - lo, b[max(0, lo - o):hi - o]) for o, b in self.at if o < hi and o + len(b) > lo]
        x = Sparse(hi - lo, at)
        return x if x.n > Sparse.LONG else x.whole()

    def whole(self):
        b = bytearray(self.n)
        for o, x in self.at:
            b[o:o + len(x)] = x
        return bytes(b)

    def __add__(self, x):
        y = x if isinstance(x, Sparse) else Sparse(len(x), [(0, x)])
        return Sparse(self.n + y.n, self.at + [(self.n + o, b) for o, b in y.at])

    def __radd__(self, x):
        return Sparse(len(x), [(0, x)]) + self

    def __iter__(self):
        for _, b in self.at:
            yield from b

    def key(self):
        """the same for the same bytes, however they are cut into pieces"""
        blocks = {}
        for o, b in self.at:
            for k in range(o // 512, (o + len(b) + 511) // 512):
                x = b[max(0, 512 * k - o):512 * k + 512 - o]
                if x.count(0) < len(x):
                    at = max(0, o - 512 * k)
                    blocks.setdefault(k, bytearray(512))[at:at + len(x)] = x
        h = hashlib.sha256(b"%d" % self.n)
        for k in sorted(blocks):
            h.update(b"%d:" % k + blocks[k])
        return h.digest()

    def __eq__(self, x):
        return isinstance(x, Sparse) and self.key() == x.key()


def slurp(name):
    """what is in a file, which may have holes"""
    n = os.path.getsize(name)
    with open(name, "rb") as f:
        if n <= Sparse.LONG:
            return f.read()
        fd, at, p = f.fileno(), [], 0
        while p < n:
            try:
                p = os.lseek(fd, p, os.SEEK_DATA)
            except OSError:
                break
            e = os.lseek(fd, p, os.SEEK_HOLE)
            while p < e:
                b = os.pread(fd, min(1 << 20, e - p), p)
                if b.count(0) < len(b):
                    at.append((p, b))
                p += len(b)
        return Sparse(n, at)


def spill(name, b):
    with open(name, "wb") as f:
        for o, x in (b.at if isinstance(b, Sparse) else [(0, b)]):
            f.seek(o)
            f.write(x)
        f.truncate(len(b))


def light(b):
    n, acc, m = len(b), 0, (1 << 64) - 1
    for o, x in (b.at if isinstance(b, Sparse) else [(0, b)]):
        lead = len(x) - len(x.lstrip(b"\0"))
        for k, v in enumerate(x.strip(b"\0"), o + lead):
            if v:
                y = (k * 0x9e3779b97f4a7c15 + v * 0xc2b2ae3d27d4eb4f) & m
                acc += (y ^ y >> 29) * 0x165667b19e3779f9
    return struct.pack("<QQ", n, acc & m) if n else b""


def content(b):
    """the token of a content is its digest, where it may be asked for"""
    if isinstance(b, Sparse) and sum(len(x) - x.count(0) for _, x in b.at) > 1 << 20 or len(b) > 1 << 20 and not isinstance(b, Sparse):
        return hashlib.sha256(b.key() if isinstance(b, Sparse) else b).hexdigest()[:16]
    return digest(1, b).hex()[:16]


def digest(hk, b):
    if LIGHT:
        b = light(b)
    d = hashlib.new(HK[hk], b).digest()
    return bytes(x ^ MASK for x in d) if MASK else d


def odd(rng, f):
    """f with, at times, flags that mean nothing: only bit 0 keeps a part out of
    the payload hash, only bit 1 says that it is coded"""
    return f | rng.choice([0, 0, 0, 4, 8, 0x80, 0xfc])


def ident(x):
    return crc32_id(x) if isinstance(x, str) else x


class Part:
    """body: the bytes stored; size/pad default to those of an uncoded part"""

    def __init__(self, name, body, flags=0, size=None, pad=None, t=0):
        self.id, self.flags, self.t = ident(name), flags, t
        self.size = len(body) if size is None else size
        self.pad = -self.size % 512 if pad is None else pad
        self.body = body if flags & 2 else body + bytes(max(0, self.size + self.pad - len(body)))


def package(parts, metas, hk=1, phash=None, tail=b"", gap=None, sigkind=2):
    """metas: (id, ref, bytes).  phash None: the right one."""
    h = bytearray(4096)
    struct.pack_into("<I", h, 0, 0x42504132)
    h[3464], h[3465] = hk, sigkind
    struct.pack_into("<H", h, 3466, 512)
    o = 0
    for k, (i, r, b) in enumerate(metas):
        struct.pack_into("<IHHI", h, 8 + 16 * k, ident(i), len(b), o, ident(r))
        h[1544 + o:1544 + o + len(b)] = b
        o += len(b) + (-len(b) % 8)
    off, hv, out = 4096, b"", b""
    for k, p in enumerate(parts):
        struct.pack_into("<IQQQHB", h, 520 + 32 * k, p.id, p.size, off, p.t, p.pad, p.flags)
        off += p.size + p.pad
        out += p.body
        if not p.flags & 1:
            hv += p.body
    v = digest(hk, hv) if phash is None else phash
    h[3468:3468 + len(v)] = v
    return bytes(h) + out + tail


MALFORMED = set()  # headers spoiled below


def malformed(b):
    return b[:4096] in MALFORMED


def spoil_header(rng, b):
    """b with one thing in its header that may not be; None: there is nothing in it to spoil"""
    b = bytearray(b)
    ps = [k for k in range(32) if b[520 + 32 * k:524 + 32 * k] != bytes(4)]
    ms = [k for k in range(32) if b[8 + 16 * k:12 + 16 * k] != bytes(4)]
    if not ps and not ms:
        return None
    if ps and (not ms or rng.random() < .5):
        at = 520 + 32 * rng.choice(ps)
        if rng.random() < .5:
            struct.pack_into("<H", b, at + 28, struct.unpack_from("<H", b, at + 28)[0] + rng.choice([1, 8, 256, 511]) & 65535)
        else:
            struct.pack_into("<Q", b, at + 4, struct.unpack_from("<Q", b, at + 4)[0] + rng.choice([1, 8, 256, 511]))
    else:
        at = 8 + 16 * rng.choice(ms)
        s, o = struct.unpack_from("<HH", b, at + 4)
        if rng.random() < .5:
            struct.pack_into("<H", b, at + 4, rng.choice([1921 - o, 1921, 2000, 65535, 65536 - o if o else 1921]))
        elif s:
            struct.pack_into("<H", b, at + 6, rng.choice([1921 - s, 1920, 65535, 65536 - s]))
        else:
            struct.pack_into("<H", b, at + 6, rng.choice([1921, 65535]))
    MALFORMED.add(bytes(b[:4096]))
    return bytes(b)


def parse(b):
    """(parts, metas): parts as dicts with position in the file, metas as (id, ref) -> bytes"""
    parts, metas = [], {}
    pos = 4096
    for k in range(32):
        i, s, o, t, pad, fl = struct.unpack_from("<IQQQHB", b, 520 + 32 * k)
        if i == 0:
            break
        n = t if fl & 2 else s + pad
        parts.append({"id": i, "size": s, "off": o, "t": t, "pad": pad, "f": fl, "pos": pos, "n": n})
        pos += n
    for k in range(32):
        i, s, o, r = struct.unpack_from("<IHHI", b, 8 + 16 * k)
        if i == 0:
            break
        metas.setdefault((i, r), b[1544 + o:1544 + o + s])
    return parts, metas
