"""Shared machinery: scratch space, builds of /repo, TLC runs, verdicts, evidence."""
import atexit, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BPAK_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()


class ModelError(Exception):
    """The machinery itself failed; never a verdict."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="bpakv-")
        os.chmod(_scratch, 0o755)
        if not os.environ.get("BPAKV_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sub(name):
    p = os.path.join(scratch(), name)
    os.makedirs(p, exist_ok=True)
    return p


# ---------------------------------------------------------------- building

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def _compile_all(jobs):
    def one(j):
        r = _run(j)
        if r.returncode != 0:
            raise ModelError("compile failed: %s\n%s" % (" ".join(j), r.stdout[-4000:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def _config_dir():
    d = sub("gen/bpak")
    with open(os.path.join(REPO, "lib", "build_config.h.in")) as f:
        t = re.sub(r"@BPAK_CONFIG_[A-Z0-9_]+@", "1", f.read())
    with open(os.path.join(d, "build_config.h"), "w") as f:
        f.write(t)
    return os.path.dirname(d)


def cflags(san):
    f = ["-std=gnu99", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-D_GNU_SOURCE",
         "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "ext/uuid"),
         "-I", os.path.join(REPO, "lib"), "-I", _config_dir()]
    if san:
        f += ["-fsanitize=address"]
    return f


_libs = {}


def lib_objects(san=True):
    """Compile the library from /repo's working tree; returns the object list."""
    if san in _libs:
        return _libs[san]
    d = sub("lib-asan" if san else "lib-plain")
    srcs = sorted(glob.glob(REPO + "/lib/*.c") + glob.glob(REPO + "/lib/heatshrink/*.c") +
                  glob.glob(REPO + "/ext/uuid/*.c"))
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(d, s[len(REPO) + 1:].replace("/", "_")[:-2] + ".o")
        jobs.append(["gcc"] + cflags(san) + ["-fPIC", "-c", s, "-o", o])
        objs.append(o)
    _compile_all(jobs)
    _libs[san] = objs
    return objs


def build_driver():
    d = sub("drv")
    objs = lib_objects(True)
    out = os.path.join(d, "drv")
    with open(HARNESS + "/drv_lane.c") as f:
        wraps = ["-Wl,--wrap=" + n for n in re.findall(r"^TURNS(?:_AS_IS)?\((?:[^,\n]*, )?(\w+)[,)]", f.read(), re.M) if n != "name"]
    jobs, os_ = [], []
    for s in sorted(glob.glob(HARNESS + "/drv*.c")):
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        jobs.append(["gcc"] + cflags(True) + ["-c", s, "-o", o])
        os_.append(o)
    _compile_all(jobs)
    _compile_all([["gcc", "-fsanitize=address", "-o", out] + os_ + objs +
                  ["-llzma", "-lmbedcrypto", "-lpthread"] + wraps])
    return out


def build_python():
    """The Python module, with the library compiled in."""
    d = sub("pymod")
    inc = _run(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).stdout.strip()
    jobs, os_ = [], []
    for s in sorted(glob.glob(REPO + "/python/*.c")):
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        jobs.append(["gcc"] + cflags(True) + ["-fPIC", "-I", inc, "-I", REPO + "/python", "-c", s, "-o", o])
        os_.append(o)
    objs = lib_objects(True)
    _compile_all(jobs)
    _compile_all([["gcc", "-shared", "-fsanitize=address", "-o", d + "/bpak.so"] + os_ + objs + ["-llzma", "-lmbedcrypto"]])
    return d


def build_tool(san=True):
    d = sub("tool-asan" if san else "tool")
    objs = lib_objects(san)
    out = os.path.join(d, "bpak")
    jobs, os_ = [], []
    for s in sorted(glob.glob(REPO + "/src/*.c")):
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        jobs.append(["gcc"] + cflags(san) + ["-I", REPO + "/src", "-c", s, "-o", o])
        os_.append(o)
    _compile_all(jobs)
    _compile_all([["gcc"] + (["-fsanitize=address"] if san else []) + ["-o", out] + os_ + objs +
                  ["-llzma", "-lmbedcrypto"]])
    return out


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           "LC_ALL": "C.UTF-8", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}


class Driver:
    """Feeds a batch of scripts (lists of command lines) to one or more driver
    processes; returns, per script, the list of JSON replies.  A process that
    dies yields a final {"crash": ...} reply for the script it was running."""

    def __init__(self, path):
        self.cmd, self.env = [path], SAN_ENV

    HANG = 20      # seconds without a reply
    DEATHS = 4     # after so many dead scripts the rest of a batch is dropped (replies None)

    def run(self, scripts, cwd, timeout=800, jobs=1):
        if jobs > 1 and len(scripts) > jobs:
            parts = [list(range(k, len(scripts), jobs)) for k in range(jobs)]
            res = [None] * len(scripts)

            def go(k):
                dd = os.path.join(cwd, "j%d" % k)
                os.makedirs(dd, exist_ok=True)
                for i, r in zip(parts[k], self.run([scripts[i] for i in parts[k]], dd, timeout)):
                    res[i] = r
            with ThreadPoolExecutor(jobs) as ex:
                list(ex.map(go, range(jobs)))
            return res
        out, todo, deaths = [], list(scripts), 0
        while todo:
            if deaths >= self.DEATHS:
                return out + [None] * len(todo)
            txt = "".join("reset %d\n" % i + "".join(l + "\n" for l in s)
                          for i, s in enumerate(todo)) + "reset -1\n"
            so = os.path.join(cwd, ".drv.out")
            se = os.path.join(cwd, ".drv.err")
            rc = self._exec(txt, so, se, cwd, timeout)
            reps, cur = [], None
            with open(so) as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        j = json.loads(line)
                    except ValueError:
                        if rc == 0:
                            raise ModelError("bad driver output: " + line[:300])
                        continue
                    if "reset" in j:
                        cur = []
                        if j["reset"] >= 0:
                            reps.append(cur)
                    else:
                        cur.append(j)
            if rc == 0:
                if len(reps) != len(todo):
                    raise ModelError("driver answered %d of %d scripts" % (len(reps), len(todo)))
                return out + reps
            with open(se) as f:
                err = f.read()
            if not reps:
                raise ModelError("driver died before any script: %s %s" % (rc, err[-2000:]))
            why = "timeout" if rc == -999 else "exit %d: %s" % (rc, _san_summary(err))
            if rc == 3:
                raise ModelError("driver usage error: " + err[-500:])
            reps[-1].append({"crash": why})
            deaths += 1
            out += reps
            todo = todo[len(reps):]
        return out

    def _exec(self, txt, so, se, cwd, timeout):
        si = os.path.join(cwd, ".drv.in")
        with open(si, "w") as f:
            f.write(txt)
        with open(si) as fi, open(so, "w") as fo, open(se, "w") as fe:
            p = subprocess.Popen(self.cmd, stdin=fi, stdout=fo, stderr=fe, cwd=cwd, env=self.env)
            t0 = last = time.time()
            size = -1
            while True:
                try:
                    return p.wait(0.25 if time.time() - t0 > 1 else 0.02)
                except subprocess.TimeoutExpired:
                    now = time.time()
                    n = os.fstat(fo.fileno()).st_size
                    if n != size:
                        size, last = n, now
                    if now - last > self.HANG or now - t0 > timeout:
                        p.kill()
                        p.wait()
                        return -999


class PyDriver(Driver):
    """The same over the Python module."""

    def __init__(self, moddir):
        self.cmd = ["/usr/bin/python3", "-B", "-S", os.path.join(HARNESS, "pyrun.py"), moddir]
        self.env = dict(SAN_ENV, LD_PRELOAD=_run(["gcc", "-print-file-name=libasan.so"]).stdout.strip(), PYTHONMALLOC="malloc")


def alive(scripts, replies):
    """Without the scripts a dying driver never got to."""
    k = [i for i, r in enumerate(replies) if r is not None]
    return [scripts[i] for i in k], [replies[i] for i in k]


def _san_summary(err):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err)
    fr = [f"{a} {b.split('/repo/')[-1]}" for a, b in frames if "/repo/" in b][:3]
    return ((m.group(1) if m else err[-200:].strip()) + " | " + " < ".join(fr)) if (m or err) else ""


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.ok = False
        self.generated = self.distinct = self.depth = 0
        self.out = ""
        self.violation = None      # text
        self.prints = []           # JSON values printed by the model
        self.coverage = {}         # action -> (distinct, generated)
        self.wall = 0.0


def tlc(module, cfg, files=None, workers=8, simulate=None, depth=None, timeout=900,
        coverage=False, seed=None, tag=None, xmx="6g", extra_modules=()):
    """Run TLC on specs/<module>.tla with config text `cfg`."""
    d = tempfile.mkdtemp(prefix="tlc-%s-" % (tag or module), dir=scratch())
    for f in glob.glob(SPECS + "/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as f:
            f.write(text)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m", "-cp", TLA_JAR + ":" + TLA_CM, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", "run.cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
        cmd += ["-workers", "1"]
    else:
        cmd += ["-workers", str(workers)]
        cmd += ["-fp", "0", "-seed", str(seed if seed is not None else SEED)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += [module + ".tla"]
    t = time.time()
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        r.out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        raise ModelError("TLC timeout on %s" % module)
    r.wall = time.time() - t
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            try:
                r.prints.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                raise ModelError("bad TLC print: " + line[:200])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"Progress: (\d+) states checked, (\d+) traces generated", r.out)
    if simulate:
        m2 = re.findall(r"The number of states generated: (\d+)", r.out)
        r.generated = int(m2[-1]) if m2 else (int(m[-1][0]) if m else 0)
    m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    if coverage:
        for a, mod, x, y in re.findall(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)",
                                       r.out, re.M):
            ox, oy = r.coverage.get(a, (0, 0))
            r.coverage[a] = (ox + int(x), oy + int(y))
    finished = "Model checking completed. No error has been found" in r.out or \
        (simulate and rc == 0)
    if finished:
        r.ok = True
    elif rc in (10, 11, 12, 13):
        r.violation = _tlc_error(r.out)
    else:
        raise ModelError("TLC failed (%s) on %s in %s:\n%s" % (rc, module, d, _clip(r.out)))
    shutil.rmtree(os.path.join(d, "meta"), True)
    if os.environ.get("BPAKV_TLC"):
        print(module, r.distinct, round(r.wall, 1), d)
    return r


def _clip(o):
    o = "\n".join(l for l in o.splitlines() if not l.startswith('"@@') and
                  not re.match(r"Parsing file|Semantic processing|TLC2 Version|Running |$", l))
    return o[:3500]


def _tlc_error(out):
    lines = [l for l in out.splitlines() if not l.startswith('"@@')]
    for i, l in enumerate(lines):
        if l.startswith("Error:"):
            return "\n".join(lines[i:])
    return out[-4000:]


# ---------------------------------------------------------------- trace validation

def check_model(ctx, name, module, cfg, **kw):
    """Exhaustive (or simulated) check of the design; a violation here is an
    error of the specification, not of the code."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ModelError("the specification %s violates its own property:\n%s" % (module, _clip(r.out)))
    ctx.states += r.distinct or r.generated
    ctx.transitions += r.generated
    ctx.models.append({"model": name, "module": module, "distinct": r.distinct,
                       "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
    return r


def validate(ctx, name, module, traces, consts="", timeout=800, par=4, data=None, maxbad=1, spec="TraceSpec"):
    """Check recorded traces (list of lists of events) against <module>, which
    reads traces.json and deadlocks at the first event no action explains.
    Returns a list of (trace index, position, tlc text)."""
    if not traces:
        raise ModelError("no traces for " + name)
    total = sum(len(t) for t in traces)
    par = max(1, min(par, len(traces), total // 1500 + 1))
    size = [len(t) + 1 for t in traces]
    parts = [[] for _ in range(par)]
    load = [0] * par
    for i in sorted(range(len(traces)), key=lambda i: -size[i]):
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += size[i]

    def go(idx):
        bad, st, tr = [], 0, 0
        idx = sorted(idx)
        while idx:
            files = {"traces.json": json.dumps([traces[i] for i in idx])}
            for k, v in (data or {}).items():
                files[k] = json.dumps(v)
            cfg = "SPECIFICATION " + spec + "\nCHECK_DEADLOCK TRUE\n" + consts
            r = tlc(module, cfg, files=files, workers=max(1, 8 // par), timeout=timeout, tag="tr", xmx="5g")
            if r.ok:
                st += r.distinct
                tr += r.generated
                exp = sum(size[i] for i in idx)
                if r.distinct != exp:
                    raise ModelError("trace spec %s: %d distinct states, expected %d" % (module, r.distinct, exp))
                break
            v = r.violation or ""
            tids = re.findall(r"^/\\ tid = (\d+)", v, re.M)
            ls = re.findall(r"^/\\ l = (\d+)", v, re.M)
            if "Deadlock reached" not in v and "Invariant" not in v and "property" not in v:
                raise ModelError("trace spec %s failed to evaluate:\n%s" % (module, v[:3000]))
            if not tids:
                raise ModelError("cannot locate rejected trace:\n" + v[:3000])
            t, l = idx[int(tids[-1]) - 1], int(ls[-1])
            bad.append((t, l, v))
            idx.remove(t)
            if len(bad) >= maxbad:
                break
        return bad, st, tr

    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(go, parts))
    bad = [x for r in res for x in r[0]]
    ctx.states += sum(r[1] for r in res)
    ctx.transitions += sum(r[2] for r in res)
    ctx.traces += len(traces) - len(bad)
    ctx.events += total
    ctx.batches.append({"batch": name, "module": module, "traces": len(traces), "events": total,
                        "rejected": len(bad)})
    return bad


OURS = ("timeout", "exit -9:")     # a run ended by this machinery or for lack of memory


def settled(ctx, name, traces, again, check, tries=3):
    """The rejected traces, each with a note on whether its history was rejected
    again when run on its own.  What the real code was seen to do counts also
    when it does so only sometimes (an unset variable, something left over from
    another history of the same process); only a run that was cut short from
    outside, and not again, is replaced by its repetition."""
    for _ in range(tries):
        bad, out, redo = check(ctx, name, traces), [], False
        for t, l, txt in bad:
            for k in range(tries):
                tr = again(t)
                if check(Ctx(ctx.prop), name + "-repeat", [tr]):
                    out.append((t, l, txt, ""))
                    break
            else:
                if any("why" in e and str(e["why"]).startswith(OURS) for e in traces[t]):
                    traces[t], redo = tr, True
                else:
                    out.append((t, l, txt, " (seen once, not in %d runs on its own)" % tries))
        if out or not redo:
            return out
    raise ModelError("histories of %s keep being cut short" % name)


def judge(ctx, name, module, traces, replay, again, consts="", key=None, **kw):
    """Validate; a rejected trace is recorded anew (see `settled`)."""
    bad = settled(ctx, name, traces, again, lambda c, n, ts: validate(c, n, module, ts, consts, **kw))
    for t, l, txt, note in bad:
        e = traces[t][min(l, len(traces[t])) - 1]
        ctx.report(key(e) if key else "%s:%s" % (name, e.get("a")),
                   "%s: not what the specification allows%s: %s" % (name, note, json.dumps(e)[:1500]),
                   replay(t, l) + "\n" + json.dumps(traces[t][:l])[-60000:] + "\n" + txt[-3000:])
    return bad


# ---------------------------------------------------------------- verdict & evidence

class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.batches, self.samples = [], [], []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(prop)
        self.known_hit = []
        self.action_counts = {}

    def count(self, key, n=1):
        self.action_counts[key] = self.action_counts.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def report(self, key, what, replay):
        """A violation, confirmed by a repeat.  `key` identifies it against the
        known-findings file."""
        for k in self.known:
            if k and k in key:
                self.known_hit.append((k, what))
                return
        self.violations.append((key, what, replay))

    def finish(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        for b in self.batches:
            pass
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "models": self.models, "batches": self.batches,
               "actions_observed": dict(sorted(self.action_counts.items())),
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(set(self.known_hit)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        seen = set()
        for n, (key, what, replay) in enumerate(self.violations):
            if key in seen:
                continue
            seen.add(key)
            d = VERIF + "/replay/%s" % self.prop
            os.makedirs(d, exist_ok=True)
            p = "%s/%03d.txt" % (d, n)
            with open(p, "w") as f:
                f.write("property %s\nwhat: %s\nkey: %s\nseed: %d tier: %s\n\n%s\n" %
                        (self.prop, what, key, SEED, TIER, replay))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:600])
        print("%s: %d model states, %d traces (%d events) validated, %d violations, %.1fs" %
              (self.prop, self.states, self.traces, self.events, len(self.violations), time.time() - T0))
        return 1 if self.violations else 0


def load_known(prop):
    res = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]


def hexs(b):
    return b.hex() if b else "-"


def id32(x):
    return "%08x" % x


# names whose id is 0, the mark of a free slot, and one for whose hash tree that holds
ZERO_NAMES, ZERO_TREE = ["rdtftsja", "qjcvbeua"], "ilnonuwa"


def crc32_id(s):
    """bpak ids: CRC-32 with zero init and no final inversion."""
    import zlib
    b = s if isinstance(s, bytes) else s.encode()
    # zlib.crc32(d, v) computes with register v ^ ffffffff and inverts the result
    return (zlib.crc32(b, 0xffffffff) ^ 0xffffffff) & 0xffffffff


def crc32_cont(v, s):
    import zlib
    return (zlib.crc32(s, v ^ 0xffffffff) ^ 0xffffffff) & 0xffffffff
