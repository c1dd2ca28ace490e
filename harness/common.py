"""Building the assembler, running it, and having TLC compare what it did with
the specification in /verif/spec."""

import hashlib
import json
import multiprocessing
import multiprocessing.pool
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("ASM_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
RUN_TIMEOUT = 10


class Trouble(Exception):
    """The check itself could not be carried out."""


# --- Building --------------------------------------------------------------

def _configured(d):
    return all(os.path.exists(os.path.join(d, f))
               for f in ("Makefile", "config.h", "gnulib/Makefile", "src/Makefile", "dt101/Makefile"))


def _make(d, cflags, env):
    for sub in ("src", "dt101", "gnulib"):
        for root, _, names in os.walk(os.path.join(d, sub)):
            for n in names:
                if n.endswith((".o", ".a")) or (sub == "src" and n in ("lex.c", "grammar.c", "grammar.h", "asm6809")):
                    os.unlink(os.path.join(root, n))
    never = ["AUTOCONF=:", "AUTOMAKE=:", "AUTOHEADER=:", "ACLOCAL=:"]
    for sub in ("gnulib", "dt101", "src"):
        r = subprocess.run(["make", "-s", "-j%d" % JOBS, "CC=gcc", "CFLAGS=" + cflags] + never,
                           cwd=os.path.join(d, sub), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            return r.stdout
    return None


def build(scratch, cflags="-g -O2", name="asm6809"):
    """Builds the working tree's assembler in a scratch copy; returns its path."""
    env = dict(os.environ, LC_ALL="C")
    for v in ("MAKEFLAGS", "CPPFLAGS", "LDFLAGS", "YFLAGS", "LFLAGS"):
        env.pop(v, None)
    d = os.path.join(scratch, "build-" + name)

    def copy():
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "_build", "autom4te.cache"))
    copy()
    err = "not configured"
    if _configured(d):
        err = _make(d, cflags, env)
    if err is not None:
        copy()
        r = subprocess.run("./autogen.sh && ./configure --quiet", shell=True, cwd=d, env=dict(env, CC="gcc"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise Trouble("configure failed:\n" + r.stdout[-2000:])
        err = _make(d, cflags, env)
    if err is not None:
        raise Trouble("build failed:\n" + err[-2000:])
    exe = os.path.join(scratch, name)
    shutil.copy2(os.path.join(d, "src", "asm6809"), exe)
    shutil.rmtree(d, ignore_errors=True)
    return exe


# --- Cases -----------------------------------------------------------------

def latin(b):
    return b.decode("latin-1")


def split_lines(data):
    """Lines of a source file, as the assembler counts them."""
    ls = data.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return [l[:-1] if l.endswith(b"\r") else l for l in ls]


def expand(text):
    """Tabs as shown in a listing."""
    out = []
    for ch in text:
        if ch == "\t":
            out.append(" ")
            while len(out) % 8:
                out.append(" ")
        else:
            out.append(ch)
    return "".join(out)


def low(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def line_rec(b):
    s = latin(b)
    return {"c": list(b), "s": s, "l": low(s), "x": expand(s)}


def word(s):
    b = s.encode("latin-1")
    return {"c": list(b), "s": s}


class Run:
    """One execution.  argv without the program's name; cannot: outputs that
    can't be written."""
    def __init__(self, argv, cannot=()):
        self.argv = list(argv)
        self.cannot = list(cannot)

    def outputs(self):
        return parse_outputs(self.argv)


LONG = {"output": "out", "listing": "lst", "exports": "exp", "symbols": "sym"}
SHORT = {"o": "out", "l": "lst", "E": "exp", "s": "sym"}
LONGARG = ["exec", "define", "setdp", "max-passes", "output", "listing", "exports", "symbols"]
LONGALL = LONGARG + ["bin", "dragondos", "coco", "srec", "hex", "6809", "6309", "quiet", "verbose", "help", "version"]


def parse_outputs(argv):
    """Names of the output files asked for, only to know where to look."""
    res = {}
    i = 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if a == "--":
            break
        if a.startswith("--"):
            name, eq, val = a[2:].partition("=")
            cand = [n for n in LONGALL if n == name] or [n for n in LONGALL if n.startswith(name)]
            if len(cand) != 1 or cand[0] not in LONGARG:
                continue
            if not eq:
                val = argv[i] if i < len(argv) else ""
                i += 1
            if cand[0] in LONG:
                res[LONG[cand[0]]] = val
        elif a.startswith("-") and len(a) > 1:
            j = 1
            while j < len(a):
                if a[j] in "edPolEs":
                    val = a[j + 1:]
                    if not val:
                        val = argv[i] if i < len(argv) else ""
                        i += 1
                    if a[j] in SHORT:
                        res[SHORT[a[j]]] = val
                    break
                j += 1
    return res


class Case:
    def __init__(self, id, files, runs, bins=None, note=None, ref=None, again=False):
        self.id = id
        self.files = {k: (v.encode("latin-1") if isinstance(v, str) else v) for k, v in files.items()}
        self.bins = dict(bins or {})
        self.runs = runs
        self.note = note
        self.ref = ref        # bytes that the plain binary is to equal
        self.again = again    # check that another pass changes nothing

    def dump(self):
        return {"id": self.id, "note": self.note,
                "files": {k: latin(v) for k, v in self.files.items()},
                "bins": {k: list(v) for k, v in self.bins.items()},
                "runs": [{"argv": r.argv, "cannot": r.cannot} for r in self.runs],
                "ref": None if self.ref is None else list(self.ref), "again": self.again}

    @staticmethod
    def load(d):
        return Case(d["id"], d["files"], [Run(r["argv"], r.get("cannot", ())) for r in d["runs"]],
                    {k: bytes(v) for k, v in d.get("bins", {}).items()}, d.get("note"),
                    None if d.get("ref") is None else bytes(d["ref"]), d.get("again", False))


# --- Running the assembler --------------------------------------------------

DIAG = re.compile(r"^(warning|syntax error|error): (.*)$", re.S)
LOC = re.compile(r"^(\S[^:]*):(\d+): ")
BARE = re.compile(r"^([^\s:]+): ")


def parse_diag(text, outs):
    """Messages as (category, file or macro, line); and whether any output
    was not of that form."""
    res = []
    other = False
    for l in text.split("\n"):
        if not l:
            continue
        mm = DIAG.match(l)
        if not mm:
            other = True
            continue
        cat = {"warning": "w", "syntax error": "s", "error": "e"}[mm.group(1)]
        rest = mm.group(2)
        loc = LOC.match(rest)
        if loc:
            res.append([cat, loc.group(1), int(loc.group(2))])
            continue
        b = BARE.match(rest + " ")
        if b and b.group(1) not in outs:
            res.append([cat, b.group(1), 0])
        else:
            res.append([cat, "", 0])
    return res, other


MAXOUT = 1 << 20


def execute(exe, case, base):
    """Runs a case's runs, each in a directory of its own; returns observations.

    What the assembler does is not to depend on what is in memory that it has
    not written to or has given back: in every other run that is filled."""
    obs = []
    odd = zlib.crc32(case.id.encode())
    for k, run in enumerate(case.runs):
        env = dict(os.environ, UBSAN_OPTIONS="exitcode=99", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
        for v in ("GLIBC_TUNABLES", "MALLOC_PERTURB_"):
            env.pop(v, None)
        if (odd + k) % 2:
            env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.perturb=%d" % (1 + odd % 254)
        d = tempfile.mkdtemp(dir=base)
        try:
            for n, v in list(case.files.items()) + list(case.bins.items()):
                p = os.path.join(d, n)
                if os.path.dirname(n):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v)
            outs = run.outputs()
            try:
                r = subprocess.run([exe] + [a.encode("latin-1") for a in run.argv], cwd=d, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE,
                                   timeout=2 if _slow is not None and _slow.value > 16 else RUN_TIMEOUT)
                rc, err = r.returncode, latin(r.stderr)
            except subprocess.TimeoutExpired:
                rc, err = 999, ""
                if _slow is not None:
                    with _slow.get_lock():
                        _slow.value += 1
            diag, _ = parse_diag(err, set(outs.values()))
            o = {"rc": rc, "diag": diag, "msg": bool(err.strip()), "wrote": [], "err": err[:2000],
                 "text": hashlib.sha256(err.encode("latin-1")).hexdigest()}
            for kind, name in sorted(outs.items()):
                p = os.path.join(d, name)
                if name and not name.startswith("/") and os.path.isfile(p) and name not in case.files \
                        and name not in case.bins:
                    with open(p, "rb") as f:
                        data = f.read(MAXOUT)
                    o["wrote"].append(kind)
                    o[kind] = data
            obs.append(o)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return obs


_exe = None
_base = None
_slow = None        # runs that did not end in time


def _init(exe, base, slow, memory):
    global _exe, _base, _slow
    _exe, _base, _slow = exe, base, slow
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if memory:
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))


def _work(c):
    return execute(_exe, c, _base)


def execute_all(exe, cases, scratch, memory=2 << 30):
    base = tempfile.mkdtemp(dir=scratch)
    slow = multiprocessing.Value("i", 0)
    with multiprocessing.Pool(JOBS, _init, (exe, base, slow, memory)) as pool:
        res = pool.map(_work, cases, chunksize=max(1, min(32, len(cases) // (JOBS * 4) + 1)))
    shutil.rmtree(base, ignore_errors=True)
    return res


# --- Checking with TLC ------------------------------------------------------

def memory_errors(scratch, cases, obs):
    """Has an assembler that stops at every access outside of what it has
    allocated do the same; where it stops, that is what is observed."""
    exe = build(scratch, "-g -O1 -fsanitize=address,bounds -fno-sanitize-recover=bounds", "asm6809-memory")
    for k, o in enumerate(execute_all(exe, cases, scratch, None)):
        if any(x["rc"] not in (0, 1, 999) for x in o):
            obs[k] = o


def text_lines(data):
    ls = data.split(b"\n")
    if ls and ls[-1] == b"":
        ls.pop()
    return ls


def to_json(case, obs):
    files = {n: [line_rec(l) for l in split_lines(v)] for n, v in case.files.items()}
    bins = {k: list(v) for k, v in case.bins.items()}
    # a source included as a binary and the other way round
    whole = b"\n".join(case.files.values())
    for n in re.findall(rb"(?i)includebin\s+[\"/]([^\"/\n]*)[\"/]", whole):
        n = latin(n)
        if n in case.files:
            bins[n] = list(case.files[n])
    for n in re.findall(rb"(?i)(?:include|lib)\s+[\"/]([^\"/\n]*)[\"/]", whole):
        n = latin(n)
        if n in case.bins:
            files[n] = [line_rec(l) for l in split_lines(case.bins[n])]
    first = next((a for a in case.runs[0].argv if a in case.files), None)
    if first and not case.files[first]:
        files[first] = [line_rec(b"")]      # the first file read has at least one line
    runs = []
    for run, o in zip(case.runs, obs):
        r = {"argv": [word(a) for a in run.argv], "cannot": run.cannot, "rc": o["rc"],
             "diag": o["diag"], "msg": o["msg"], "wrote": o["wrote"], "text": o["text"]}
        if "out" in o:
            r["out"] = list(o["out"])
        if "lst" in o:
            r["lst"] = [latin(l) for l in text_lines(o["lst"])]
        for k in ("sym", "exp"):
            if k in o:
                r[k] = [line_rec(l) for l in text_lines(o[k])]
        runs.append(r)
    j = {"id": case.id, "files": files, "bins": bins, "runs": runs}
    if case.ref is not None:
        j["ref"] = list(case.ref)
    if case.again:
        j["again"] = True
    return j


def tlc(module, cfg, scratch, env=None, timeout=800, args=(), heap="3g", workers=1, quick=True):
    """Runs TLC; returns its exit status and output."""
    meta = tempfile.mkdtemp(dir=scratch)
    jvm = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    if quick:
        jvm.append("-XX:TieredStopAtLevel=1")
    cmd = ["java"] + jvm + ["-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 999, "TLC did not finish in %d s" % timeout
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def verdict_lines(out):
    for l in out.split("\n"):       # not splitlines(), which has opinions on other characters
        l = l.strip()
        if l.startswith('"@@'):
            yield json.loads(json.loads(l, strict=False)[2:], strict=False)
        elif l.startswith("@@"):
            yield json.loads(l[2:], strict=False)


def _states(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


def _conform_part(job):
    """Verdicts of some cases, states, and what went wrong."""
    part, scratch, quick, timeout = job
    fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
    with os.fdopen(fd, "w") as f:
        json.dump([to_json(c, o) for c, o in part], f)
    rc, out = tlc("Conform.tla", "Conform.cfg", scratch, {"CASES": path}, timeout=timeout, quick=quick)
    os.unlink(path)
    vs = list(verdict_lines(out))
    if rc == 0 and len(vs) == len(part):
        return vs, _states(out), []
    if len(part) > 1 and rc != 999:
        # find out which case it is that TLC cannot cope with
        k = len(part) // 2
        v1, n1, e1 = _conform_part((part[:k], scratch, quick, timeout))
        v2, n2, e2 = _conform_part((part[k:], scratch, quick, timeout))
        return v1 + v2, (n1[0] + n2[0], n1[1] + n2[1]), e1 + e2
    return [], (0, 0), [(part[0][0].id, rc, "\n".join(l for l in out.split("\n") if not l.startswith('"@@'))[-3000:])]


def conform(cases, obs, scratch, stats=None, quick=True, per=250, timeout=600):
    """Verdicts by case id.  Cases that TLC could not decide are missing."""
    todo = sorted(zip(cases, obs), key=lambda co: -sum(len(v) for v in co[0].files.values()))
    n = max(1, min(len(todo), max(JOBS, -(-len(todo) // per))))
    jobs = [(todo[k::n], scratch, quick, timeout) for k in range(n)]
    jobs = [j for j in jobs if j[0]]
    res = {}
    with multiprocessing.pool.ThreadPool(JOBS) as pool:
        for vs, states, errs in pool.imap_unordered(_conform_part, jobs):
            for v in vs:
                res[v["id"]] = v
            if stats is not None:
                stats["states"] = stats.get("states", 0) + states[0]
                stats["transitions"] = stats.get("transitions", 0) + states[1]
                stats.setdefault("undecided", []).extend(errs)
            elif errs:
                raise Trouble("TLC failed on %s (%d):\n%s" % errs[0])
    return res


def sany(module, scratch):
    """What is wrong with a module, or None."""
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + scratch, "-cp", CP, "tla2sany.SANY", os.path.join(SPEC, module)],
                       cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout if r.returncode != 0 or "*** Errors" in r.stdout else None
