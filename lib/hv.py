"""Common machinery of the checks: build, run, validate with TLC, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"
JOBS = 8


class CheckError(Exception):
    """The check itself failed: it gives no verdict."""


class TlcTimeout(CheckError):
    """TLC took too long."""


# ---------------------------------------------------------------- build

def shell(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def build_hush():
    """Build /repo's working tree into our own target folder; the path of the binary."""
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    # Never trust what an earlier tree left behind.
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "hush-*")):
        shutil.rmtree(d, ignore_errors=True)
    r = shell(". /opt/vp/env.sh >/dev/null 2>&1; cd %s && cargo build --offline --locked "
              "--manifest-path %s/Cargo.toml --target-dir %s" % (REPO, REPO, target))
    exe = os.path.join(target, "debug", "hush")
    if r.returncode != 0 or not os.path.exists(exe):
        raise CheckError("hush does not build:\n" + r.stdout.decode(errors="replace")[-3000:])
    return exe


def build_helper(dst):
    """The helper program that commands under test run."""
    src = os.path.join(VERIF, "helpers", "hx.c")
    r = subprocess.run(["gcc", "-O1", "-o", dst, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise CheckError("helper does not build: " + r.stdout.decode(errors="replace"))
    return dst


# ---------------------------------------------------------------- running

def base_env(home):
    return {"PATH": "/usr/bin:/bin", "HOME": home, "RUST_BACKTRACE": "0", "LC_ALL": "C"}


LIMIT_OUT = 1 << 22


hung = []         # What ran out of its time.


def patience(timeout):
    """Once several programs have hung (which is a violation), the others are given less time."""
    return timeout if len(hung) < 8 else min(timeout, 2)


def run(argv, cwd, env, stdin=b"", timeout=20):
    """(exit code, stdout, stderr); the code is None on a timeout, -signal when killed."""
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=patience(timeout))
        code = p.returncode
    except subprocess.TimeoutExpired:
        code = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        hung.append(argv)
        out, err = out[:2000], err[:2000]
    return code, out[:LIMIT_OUT], err[:LIMIT_OUT]


def parallel(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


PANIC_RE = re.compile(rb"Panic in [^\n]*? \(line (\d+), column \d+\)")
FUN_RE = re.compile(rb"function<[^<>\n]*\(line \d+, column \d+\)>")


def normalise(b):
    """Positions: keep the line, drop the file and the column."""
    b = PANIC_RE.sub(rb"Panic@\1", b)
    return FUN_RE.sub(b"function<>", b)


class Scratch:
    """A scratch folder, removed at the end."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="hushv.")
        return self.path

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+rwx", self.path], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- TLC

LIT_RE = re.compile(r'"((?:[^"\\\n]|\\.)*)"')


def spec_texts():
    """The character codes of all the string literals of the specification."""
    texts = {}
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        for m in LIT_RE.finditer(open(f).read()):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            texts[s] = list(s.encode())
    texts.pop("", None)
    return texts


TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc_classpath():
    jars = [TLC_JAR] + glob.glob("/opt/veriftools/tla/*ommunity*.jar")
    return ":".join(jars)


class TlcResult:
    def __init__(self, out, code):
        self.out = out
        self.code = code
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        self.transitions = int(m.group(1).replace(",", "")) if m else 0
        self.states = int(m.group(2).replace(",", "")) if m else 0
        self.tuples = []
        for line in out.splitlines():
            if line.startswith("<<\""):
                self.tuples.append(line)

    def tagged(self, tag):
        """The first element after the tag, of all the tuples printed with it."""
        pat = re.compile(r'^<<"%s", (-?\d+)' % re.escape(tag))
        return [int(m.group(1)) for m in map(pat.match, self.tuples) if m]

    def lines(self, tag):
        return [t for t in self.tuples if t.startswith('<<"%s"' % tag)]


def tlc(module, cfg, files, workers=JOBS, heap="12g", timeout=800, collect=None, extra=(), stack="512m"):
    """Run TLC on a module of the specification, in a scratch folder with the given data files."""
    with Scratch() as d:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        if not cfg.endswith(".cfg"):
            with open(os.path.join(d, "X.cfg"), "w") as h:
                h.write(cfg)
            cfg = "X.cfg"
        else:
            shutil.copy(os.path.join(SPEC, cfg), d)
        with open(os.path.join(d, "texts.json"), "w") as h:
            json.dump(spec_texts(), h)
        for name, data in files.items():
            with open(os.path.join(d, name), "w") as h:
                if isinstance(data, str):
                    h.write(data)
                else:
                    for row in data:
                        h.write(json.dumps(row))
                        h.write("\n")
        cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp", tlc_classpath(),
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-config", cfg, *extra, module]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcTimeout("TLC on %s did not end in %d s" % (module, timeout))
        out = p.stdout.decode(errors="replace")
        res = TlcResult(out, p.returncode)
        if collect:
            res.files = {}
            for f in glob.glob(os.path.join(d, collect)):
                res.files[os.path.basename(f)] = open(f).read()
        return res


def tlc_ok(r, what):
    """TLC explored everything and found nothing wrong."""
    if r.code == 0 and "Model checking completed. No error has been found." in r.out:
        return True
    if r.code in (12, 13):      # Safety or liveness violation.
        return False
    raise CheckError("TLC failed (%d) on %s:\n%s" % (r.code, what, r.out[-4000:]))


def front(ck, sources, nodes=True, batch=1000):
    """The verdict of the specification's front end on each of the sources (lists of them, when a
    program has several modules): (is the first one valid?, the table of nodes and more, see HushFront)."""
    res = []
    for at in range(0, len(sources), batch):
        part = [s if isinstance(s, list) else [s] for s in sources[at:at + batch]]
        cases = [{"id": i, "srcs": [list(x) for x in s], "nodes": nodes} for i, s in enumerate(part)]
        r = tlc("HushFront.tla", "HushFront.cfg", {"cases.ndjson": cases}, collect="nodes*.json")
        tlc_ok(r, "HushFront")
        valid, invalid = set(r.tagged("VALID")), set(r.tagged("INVALID"))
        if len(valid) + len(invalid) != len(part):
            raise CheckError("the front end of the specification gave no verdict:\n" + r.out[-3000:])
        ck.add("states", r.states)
        ck.add("transitions", r.transitions)
        for i in range(len(part)):
            t = r.files.get("nodes%d.json" % i)
            res.append((i in valid, json.loads(t) if t else None))
    return res


# ---------------------------------------------------------------- reporting

class Check:
    """One run of the check of a property."""
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.violations = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay):
        """replay: a dict that describes how to reproduce it."""
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.prop, "what": what, **replay}, indent=1, default=repr)
        name = "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as h:
            h.write(body + "\n")
        self.violations.append((what, path))

    def finish(self):
        self.cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
        for what, path in self.violations[:5]:
            print("%s: %s" % (self.prop, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if self.violations:
            print("%s: %d violations" % (self.prop, len(self.violations)))
            return 1
        print("%s: held on everything explored (%s, %.0f s): %s" % (
            self.prop, self.tier, time.time() - self.t0,
            ", ".join("%s=%s" % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, int))))
        return 0


def main(fn, prop, level):
    ck = Check(prop, level)
    try:
        fn(ck)
        code = ck.finish()
    except CheckError as e:
        print("%s: error of the check: %s" % (prop, e))
        code = 2
    sys.stdout.flush()
    sys.exit(code)


# ---------------------------------------------------------------- known findings

def known_findings():
    """Lines `known: property=<id> probe=<name> <what fails>` of the committed file."""
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) probe=(\S+) (.*)", line)
            if m:
                res.append((m.group(1), m.group(2), m.group(3).strip()))
    return res
