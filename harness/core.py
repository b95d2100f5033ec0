"""Common machinery of the checks: running TLC, tokens, verdicts, evidence."""
import contextlib
import datetime
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NAPPY_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Hang(BaseException):
    """Raised in code that ran past its time limit."""


class CheckError(Exception):
    """The check itself could not give an answer."""


@contextlib.contextmanager
def time_limit(seconds):
    def on_alarm(signum, frame):
        raise Hang("no answer within %s s" % seconds)
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *args, limit=20, **kw):
    """(result, None) or (None, exception) of fn, which must end in `limit` seconds."""
    try:
        with time_limit(limit), quiet():
            return fn(*args, **kw), None
    except Hang as err:
        return None, err
    except (Exception, SystemExit) as err:
        return None, err


@contextlib.contextmanager
def quiet():
    """Discard what nappy prints (it reports on stdout)."""
    import io
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# ---------------------------------------------------------------- tokens
INT_RE = re.compile(r"[+-]?[0-9]+\Z")


def num(x):
    """Canonical text of a number."""
    f = float(x)
    if f != f:
        return "nan"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    if f == int(f) and abs(f) < 1e15:
        return str(int(f))
    return repr(f)


def is_number(tok):
    try:
        float(tok)
    except ValueError:
        return False
    return "_" not in tok


def item(tok):
    """An item of a line, as NAFormat wants it."""
    if not is_number(tok):
        return {"s": tok, "q": 0, "i": -1}
    q = 2 if INT_RE.match(tok) else 1
    f = float(tok)
    # i: the value of a small integer; -2 any other negative number; -1 anything else
    i = -1
    if f == f and abs(f) != float("inf"):
        if f < 0:
            i = -2
        elif f == int(f) and f <= 1000000:
            i = int(f)
    return {"s": num(tok), "q": q, "i": i}


BRACES = re.compile(r"(.+)\{[^{}]*\}\s*\Z", re.S)


def strip_annotation(line):
    m = BRACES.match(line)
    return m.group(1).rstrip() if m else line


def today():
    t = datetime.date.today()
    return ["%d" % x for x in (t.year, t.month, t.day)]


def line_rec(line):
    raw = line.strip()
    t = strip_annotation(line).strip()
    return {"r": raw, "t": t, "n": [item(w) for w in t.split()]}


def lines_of(text):
    """The lines of a file, as records; a final newline ends the last line."""
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return ls


def canon(v, fmt=None):
    if v is None:
        return "none"
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, str):
        return v
    if fmt:
        v = float(fmt % v)
    return num(v)


def flat(v, fmt=None):
    """A (nested) value as a flat sequence of strings."""
    if hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        out = ["["]
        for x in v:
            out += flat(x, fmt)
        return out + ["]"]
    return [canon(v, fmt)]


# ---------------------------------------------------------------- TLC
def tlc(module, env=None, cfg=None, workers="auto", timeout=800, args=(), heap="6g", check=True):
    # (a survey of many changes runs several checks at a time)
    workers, heap = os.environ.get("VERIF_TLC_WORKERS", workers), os.environ.get("VERIF_TLC_HEAP", heap)
    return tlc_run(module, env, cfg, workers, timeout, args, heap, check)


def limited():
    """Keep code that asks for endless memory from taking it."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def unlimited():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class SpecError(CheckError):
    """TLC could not evaluate the specification on a case."""

    def __init__(self, text, case):
        CheckError.__init__(self, text)
        self.case = case


def tlc_run(module, env, cfg, workers, timeout, args, heap, check):
    """Run TLC on spec/<module>.tla and return (records printed, output)."""
    spec = os.path.join(VERIF, "spec")
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8",
               "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + work,
               "-cp", JARS, "tlc2.TLC", "-metadir", work, "-workers", str(workers),
               "-config", os.path.join(spec, (cfg or module) + ".cfg"), "-noGenerateSpecTE"]
        cmd += list(args) + [os.path.join(spec, module + ".tla")]
        p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, encoding="utf-8", errors="replace", preexec_fn=unlimited)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    recs = []
    for ln in p.stdout.splitlines():
        if ln.startswith('"VERDICT ') or ln.startswith('"EXPORT '):
            recs.append(json.loads(json.loads(ln).split(" ", 1)[1]))
    if check and "No error has been found" not in p.stdout and "-simulate" not in args:
        text = "TLC failed on %s:\n%s" % (module, p.stdout[-4000:] if "Error:" not in p.stdout else p.stdout[p.stdout.index("Error:"):][:1500])
        at = re.findall(r"^/\\ c = (\d+)$", p.stdout, re.M)
        if at and "StackOverflow" not in p.stdout and "OutOfMemory" not in p.stdout:
            raise SpecError(text, int(at[-1]))
        raise CheckError(text)
    return recs, p.stdout


class Batch:
    """Cases judged by one trace specification, in one TLC run."""

    def __init__(self, ctx, module, cfg=None, chunk=400, timeout=800):
        self.ctx, self.module, self.cfg, self.chunk, self.timeout = ctx, module, cfg, chunk, timeout
        self.cases, self.info = [], {}

    def add(self, case, info):
        cid = "c%d" % len(self.cases)
        self.cases.append(dict(case, id=cid))
        self.info[cid] = info
        return cid

    def run(self):
        """{case id: verdict record}; every case must get a verdict."""
        verdicts = {}
        for k in range(0, len(self.cases), self.chunk):
            part = self.cases[k:k + self.chunk]
            for again in range(4):
                fd, path = tempfile.mkstemp(prefix="cases_", suffix=".json")
                with os.fdopen(fd, "w", encoding="utf-8") as fh:
                    json.dump(part, fh)
                try:
                    recs, out = tlc(self.module, env={"CASES": path}, cfg=self.cfg, timeout=self.timeout)
                except SpecError as err:
                    # what was recorded is not even of the form the specification speaks about
                    if again == 3 or err.case > len(part):
                        raise
                    case = part.pop(err.case - 1)
                    verdicts[case["id"]] = {"id": case["id"], "bad": ["outside the domain of the specification: %s" % str(err)[:400]]}
                    continue
                finally:
                    os.unlink(path)
                self.ctx.tlc_stats(out)
                for r in recs:
                    verdicts[r["id"]] = r
                break
        missing = [c["id"] for c in self.cases if c["id"] not in verdicts]
        if missing:
            raise CheckError("%s gave no verdict for %s" % (self.module, missing[:5]))
        self.ctx.count("cases_judged_by_" + self.module, len(self.cases))
        self.ctx.count("traces_validated_against_impl", len(self.cases))
        return verdicts

    def report(self, verdicts=None, what=None):
        verdicts = verdicts or self.run()
        for cid, v in verdicts.items():
            if v["bad"]:
                info = self.info[cid]
                self.ctx.violation("%s: %s" % (info.get("what", what or self.module),
                                               ", ".join(sorted(map(str, v["bad"])))[:600]),
                                   dict(info, verdict=v))
        return verdicts


# ---------------------------------------------------------------- context
def findings(prop):
    """Keys of the recorded genuine defects of a property."""
    out = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Ctx:
    def __init__(self, prop, tier=None, seed=None, level="model_checking"):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.known = findings(prop)
        self.seen_known = set()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self._tmp = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        k = thorough if self.thorough else quick
        return max(1, int(k * float(os.environ.get("VERIF_SCALE", "1")))) if k > 40 else k

    def sub(self, name):
        """An independent random stream."""
        return random.Random("%s/%s/%s" % (self.prop, self.seed, name))

    def tlc_stats(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
        if m:
            self.count("transitions", int(m[-1][0]))
            self.count("states", int(m[-1][1]))

    def sample(self, case):
        """Keep one of the first cases as a sample for the evidence file."""
        s = self.coverage.setdefault("samples", [])
        if len(s) < 3:
            s.append(json.loads(json.dumps(case, default=repr))
                     if len(json.dumps(case, default=repr)) < 6000
                     else json.dumps(case, default=repr)[:6000])

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="nappy_check_")
        return self._tmp

    def newdir(self, again=False):
        """A new empty folder; with `again`, the one that was given out and removed before."""
        if again:
            d = os.path.join(self.tmp, "again")
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            return d
        return tempfile.mkdtemp(dir=self.tmp)

    def violation(self, text, data=None, key=None):
        if key is not None and key in self.known:
            self.seen_known.add(key)
            return
        self.violations.append((text, data))

    def finish(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
        for key in sorted(self.seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + "_"):
                os.unlink(os.path.join(rdir, old))
        shown = 0
        for k, (text, data) in enumerate(self.violations[:10]):
            path = os.path.join(rdir, "%s_%d.json" % (self.prop, k + 1))
            with open(path, "w", encoding="utf-8") as fh:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": text,
                           "rerun": "VERIF_TIER=%s VERIF_SEED=%s /verif/check %s" % (self.tier, self.seed, self.prop),
                           "data": data}, fh, indent=1, default=repr, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("   " + text[:700])
            shown += 1
        if len(self.violations) > shown:
            print("   and %d more" % (len(self.violations) - shown))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.coverage, violations=len(self.violations)),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
        return 1 if self.violations else 0


def digest(path):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def tree(path):
    """{relative path: digest} of the files under a directory."""
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, path)] = digest(p)
    return out


def read_text(path):
    with open(path, encoding="utf-8") as fh:
        return fh.read()


def nappy():
    """The library under test, from the working tree of the repository."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import nappy as mod
    if not os.path.abspath(mod.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise CheckError("nappy imported from " + mod.__file__)
    return mod
