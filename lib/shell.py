"""Conformance of programs that run commands to HushShell."""
import os
import re
import signal
import select
import subprocess
import time
import hv

CFG = "HushShellTrace.cfg"
SEP_RE = re.compile(rb"^-{50}\n", re.M)
POS_RE = re.compile(rb'(?:[^\s"()]*\.hsh|<stdin>) \(line (\d+), column \d+\)')
PATTERN_RE = re.compile(rb'pattern \([^\n]*\) has invalid UTF-8')
DIR = None          # A folder, in a tree of files.
EXE = 1             # A copy of the helper program.


def b(s):
    return s.encode() if isinstance(s, str) else s


class Case:
    """A program, and what it runs in: files (names to contents, DIR or EXE) below a root, the working directory, the
    environment, the standard input, and arguments.  modules: names of files in the root to sources;
    the first one is the program then.  argv: the command line, which may name another module, or the standard input."""
    def __init__(self, src, files=None, cwd="", env=None, stdin=b"", args=(), modules=None, home=None, tag="", argv=None, full=False):
        self.src = b(src)
        self.files = {b(k): (b(v) if isinstance(v, (str, bytes)) else v) for k, v in (files or {}).items()}
        self.cwd = b(cwd)
        self.env = {b(k): b(v) for k, v in (env or {}).items()}
        self.home = home
        self.stdin = b(stdin)
        self.args = [b(a) for a in args]
        self.modules = [(b(n), b(s)) for n, s in modules] if modules else None
        self.tag = tag
        self.full = full         # Standard output is a device that is full.
        self.argv = None if argv is None else [b(a) for a in argv]

    def tree(self):
        t = {b"bin": DIR, b"bin/hx": EXE}
        t.update(self.files)
        if self.modules:
            t.update(dict(self.modules))
        for n in list(t):
            while b"/" in n:
                n = n.rsplit(b"/", 1)[0]
                t.setdefault(n, DIR)
        return t

    def prepare(self, base, helper):
        """Create everything; then sources may contain the text of the root, written as {ROOT}."""
        self.root = os.path.join(base, b"r")
        os.makedirs(self.root)
        self.subst = lambda s: s.replace(b"{ROOT}", self.root)
        self.src = self.subst(self.src)
        if self.modules:
            self.modules = [(n, self.subst(s)) for n, s in self.modules]
        self.args = [self.subst(a) for a in self.args]
        self.stdin = self.subst(self.stdin)
        if self.argv is not None:
            self.argv = [self.subst(a) for a in self.argv]
        t = self.tree()
        for n in sorted(t):
            p = os.path.join(self.root, n)
            if t[n] is DIR:
                os.makedirs(p, exist_ok=True)
            elif t[n] is EXE:
                os.link(helper, p)
            else:
                with open(p, "wb") as h:
                    h.write(t[n])
        if self.modules:
            self.script = os.path.join(self.root, self.modules[0][0])
        else:
            os.makedirs(os.path.join(base, b"s"))
            self.script = os.path.join(base, b"s", b"main.hsh")
            with open(self.script, "wb") as h:
                h.write(self.src)
        env = {b"PATH": self.root + b"/bin", b"RUST_BACKTRACE": b"0", b"HOME": self.root + b"/home"}
        env.update({k: self.subst(v) for k, v in self.env.items()})
        if self.home is False:
            env.pop(b"HOME")
        self.environ = env

    def snapshot(self, helper):
        res = []
        ino = os.stat(helper).st_ino
        for d, ds, fs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            comps = [] if rel == b"." else rel.split(b"/")
            res.append({"p": [list(c) for c in comps], "t": "d", "c": []})
            for f in fs:
                p = os.path.join(d, f)
                exe = os.stat(p).st_ino == ino
                res.append({"p": [list(c) for c in comps + [f]], "t": "x" if exe else "f",
                            "c": [] if exe else list(open(p, "rb").read())})
        return res


def observe(exe, case, base, helper, timeout=25):
    case.prepare(base, helper)
    before = case.snapshot(helper)
    stdin = os.path.join(base, b"stdin")
    with open(stdin, "wb") as h:
        h.write(case.stdin)
    timeout = hv.patience(timeout)
    r, w = os.pipe()         # Held by everything that runs, so that we see when it's all over.
    start = time.monotonic()
    with open(stdin, "rb") as h, open("/dev/full" if case.full else os.devnull, "wb") as full:
        p = subprocess.Popen([b(exe), *(case.argv if case.argv is not None else [case.script, *case.args])], cwd=os.path.join(case.root, case.cwd) if case.cwd else case.root,
                             env=case.environ, stdin=h, stdout=full if case.full else subprocess.PIPE, stderr=subprocess.PIPE,
                             pass_fds=(w,), start_new_session=True)
    os.close(w)
    try:
        out, err = p.communicate(timeout=timeout)
        code = p.returncode
        case.ms = int((time.monotonic() - start) * 1000)
        if not select.select([r], [], [], timeout)[0]:
            raise subprocess.TimeoutExpired("hush", timeout)
    except subprocess.TimeoutExpired:
        code = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        hv.hung.append(case)
        out, err = (out or b"")[:2000], err[:2000]
        case.ms = 0
    os.close(r)
    out = out or b""
    after = case.snapshot(helper)
    return code, out, err, before, after


def normalise(s, root):
    s = hv.normalise(s)
    s = POS_RE.sub(rb"@\1", s)
    s = PATTERN_RE.sub(b"pattern has invalid UTF-8", s)
    return s


def drop_errors(s):
    """The reports of static errors of modules."""
    return b"".join(l for l in s.splitlines(True) if not l.startswith(b"Error: "))


def comps(p):
    return [list(c) for c in p.split(b"/")] if p else []


def run(ck, exe, cases, batch=300, cfg=CFG, module="HushShellTrace.tla", prefilter=True):
    """Runs the programs, and has TLC decide whether their behaviours are of the specification."""
    obs = []
    with hv.Scratch() as d:
        db = os.fsencode(d)
        helper = hv.build_helper(os.path.join(d, "hx"))
        obs = hv.parallel(lambda ic: observe(exe, ic[1], os.path.join(db, b"c%d" % ic[0]), b(helper)), list(enumerate(cases)))
    fronts = hv.front(ck, [[s for _, s in c.modules] + ([c.stdin] if c.argv is not None else []) if c.modules else c.src for c in cases])
    rows = []
    invalid = []
    for i, (c, (code, out, err, before, after), (valid, info)) in enumerate(zip(cases, obs, fronts)):
        if not valid and c.argv is None:
            if code != 2:
                ck.violation("the specification rejects the program, hush does not (exit %s)" % code,
                             {"source": c.src.decode("utf-8", "backslashreplace")})
            invalid.append(i)
            continue
        e = normalise(err, c.root)
        if c.modules:
            e = drop_errors(e)
            if code == 1 and e.startswith(b"error: "):        # A usage message.
                e = b""
        names = [n for n, _ in c.modules] if c.modules else [b""]
        paths = [comps(n) for n in names] + ([[[-2]]] if c.argv is not None else [])
        rows.append({"id": i, "nodes": info["nodes"], "code": -999 if code is None else code,
                     "mods": [{"p": n, "ok": bool(k), "root": r, "ns": s} for n, k, r, s in
                              zip(paths, info["ok"], info["roots"], info["nss"])],
                     "out": list(normalise(out, c.root)), "err": list(e), "stdin": list(c.stdin),
                     "env": [{"k": list(k), "v": list(v)} for k, v in sorted(c.environ.items())],
                     "args": [list(a) for a in c.args], "cli": c.argv is not None, "argv": [list(a) for a in c.argv or []], "rootdir": list(c.root), "cwd": comps(c.cwd),
                     "fs": before, "fsend": after, "ms": c.ms, "full": c.full,
                     "seps": [m.end() + 1 for m in SEP_RE.finditer(normalise(out, c.root))]})
    acc, outs, info = validate(ck, rows, batch, cfg, module)
    bad = 0
    for row in rows:
        i = row["id"]
        c = cases[i]
        code, out, err, before, after = obs[i]
        if i not in acc and i not in outs:
            bad += 1
            ck.violation("the behaviour is not one of the specification (exit %s)%s; %s" % (
                code, " [%s]" % c.tag if c.tag else "", info.get(i, "")),
                {"source": (c.modules or c.src), "exit": code, "stdin": c.stdin, "args": c.args, "files": sorted(c.tree().items()),
                 "stdout": out.decode("utf-8", "backslashreplace"), "stderr": err.decode("utf-8", "backslashreplace"),
                 "files_after": [(b"/".join(bytes(x) for x in f["p"]), bytes(f["c"])) for f in after if f["t"] == "f"],
                 "spec": info.get(i, "")})
    ck.add("traces_validated_against_impl", len(rows) - len(outs))
    ck.add("outside_the_specification", len(outs))
    if invalid:
        ck.add("rejected_programs", len(invalid))
    for row in rows[:2]:
        c, o = cases[row["id"]], obs[row["id"]]
        ck.sample({"source": c.src.decode("utf-8", "backslashreplace")[:500],
                   "stdout": o[1].decode("utf-8", "backslashreplace")[:300],
                   "stderr": o[2].decode("utf-8", "backslashreplace")[:300], "exit": o[0]})
    return acc, outs, invalid, obs


def validate(ck, rows, batch, cfg, module):
    acc, outs, info = set(), set(), {}
    deadline = time.time() + (500 if not ck.thorough else 36000)
    todo = [rows[at:at + batch] for at in range(0, len(rows), batch)]
    while todo:
        part = todo.pop(0)
        left = deadline - time.time()
        try:
            if left < 5:
                raise hv.TlcTimeout()
            r = hv.tlc(module, cfg, {"cases.ndjson": part}, timeout=min(left, 150 if len(part) > 1 else 60))
        except hv.TlcTimeout:
            if len(part) == 1 or left < 5:         # Too many interleavings; these are not decided.
                outs.update(x["id"] for x in part)
                ck.add("undecided", len(part))
            else:
                k = max(1, len(part) // 6)
                todo = [part[at:at + k] for at in range(0, len(part), k)] + todo
            continue
        if not hv.tlc_ok(r, module):
            raise hv.CheckError("an invariant of the specification does not hold:\n" + r.out[-3000:])
        acc.update(r.tagged("ACCEPT"))
        outs.update(r.tagged("OUTSIDE"))
        for tag in ("REJECT", "STUCK"):
            for i, line in zip(r.tagged(tag), r.lines(tag)):
                if i not in info or progress(line) > progress(info[i]):
                    info[i] = line
        ck.add("states", r.states)
        ck.add("transitions", r.transitions)
    outs -= acc
    rows = {r["id"]: r for r in rows}
    return acc, outs, {i: explain(l, rows[i]) for i, l in info.items()}


def progress(line):
    m = re.match(r'<<"\w+", -?\d+, (\d+), (\d+)', line)
    return (line.startswith('<<"REJECT'), int(m.group(1)) + int(m.group(2))) if m else (False, 0)


def explain(line, row):
    m = re.match(r'<<"(\w+)", -?\d+, (\d+), (\d+), (.*)>>', line)
    if not m:
        return line
    p, q = int(m.group(2)) - 1, int(m.group(3)) - 1
    out, err = bytes(row["out"]), bytes(row["err"])
    return "%s (%s) with stdout at %r|%r, stderr at %r|%r" % (
        m.group(1), m.group(4), out[max(0, p - 40):p], out[p:p + 60], err[max(0, q - 40):q], err[q:q + 60])
