"""Conformance of programs to the abstract machine (HushCore)."""
import os
import sys
import hv
from hast import Prog

CFG = "HushCoreTrace.cfg"


def observe(exe, d, i, src, env, timeout=20, args=()):
    path = os.path.join(d, "c%d.hsh" % i)
    with open(path, "wb") as h:
        h.write(src)
    code, out, err = hv.run([exe, path, *args], d, env, timeout=timeout)
    os.unlink(path)
    return code, out, err


def run_programs(ck, exe, programs, minimal=False, batch=400):
    """programs: lists of statements.  Reports violations; returns the number accepted."""
    progs = [p if isinstance(p, Prog) else Prog(p, minimal) for p in programs]
    with hv.Scratch() as d:
        env = hv.base_env(d)
        obs = hv.parallel(lambda ip: observe(exe, d, ip[0], ip[1].src, env), list(enumerate(progs)))
    cases = []
    for i, (p, (code, out, err)) in enumerate(zip(progs, obs)):
        c = p.case()
        c.update(id=i, code=-999 if code is None else code,
                 out=list(hv.normalise(out)), err=list(hv.normalise(err)))
        cases.append(c)
    # None of the generators makes values that contain themselves, so no behaviour ends by a signal; what the
    # specification makes of a program that overflows the stack may take as long.
    accepted = validate(ck, [c for c in cases if not -900 < c["code"] < 0], batch)
    outside = accepted[1]
    for i, p in enumerate(progs):
        if i not in accepted[0] and i not in outside:
            code, out, err = obs[i]
            ck.violation("the program's behaviour is not one of the specification (exit %s); %s"
                         % (code, accepted[2].get(i, "")),
                         {"source": p.src.decode("utf-8", "backslashreplace"), "exit": code,
                          "stdout": out.decode("utf-8", "backslashreplace"),
                          "stderr": err.decode("utf-8", "backslashreplace"),
                          "spec": accepted[2].get(i, ""), "case": cases[i]})
    ck.add("traces_validated_against_impl", len(progs) - len(outside))
    ck.add("outside_the_specification", len(outside))
    for p, o in list(zip(progs, obs))[:2]:
        ck.sample({"source": p.src.decode("utf-8", "backslashreplace")[:600],
                   "stdout": o[1].decode("utf-8", "backslashreplace")[:300], "exit": o[0]})
    return len(accepted[0])


def validate(ck, cases, batch=400, cfg=CFG, module="HushCoreTrace.tla"):
    acc, outs, info = set(), set(), {}
    for at in range(0, len(cases), batch):
        part = cases[at:at + batch]
        r = hv.tlc(module, cfg, {"cases.ndjson": part})
        if not hv.tlc_ok(r, module):
            raise hv.CheckError("an invariant of the specification does not hold:\n" + r.out[-3000:])
        acc.update(r.tagged("ACCEPT"))
        outs.update(r.tagged("OUTSIDE"))
        for tag in ("REJECT", "STUCK"):
            for i, line in zip(r.tagged(tag), r.lines(tag)):
                info[i] = explain(line, next((c for c in part if c["id"] == i), None))
        ck.add("states", r.states)
        ck.add("transitions", r.transitions)
    outs -= acc
    return acc, outs, info


def properties(ck, exe, programs):
    """The properties of the machine, step by step, along some of the behaviours observed."""
    progs = [p if isinstance(p, Prog) else Prog(p) for p in programs]
    with hv.Scratch() as d:
        env = hv.base_env(d)
        obs = hv.parallel(lambda ip: observe(exe, d, ip[0], ip[1].src, env), list(enumerate(progs)))
    cases = []
    for i, (p, (code, out, err)) in enumerate(zip(progs, obs)):
        c = p.case()
        c.update(id=i, code=-999 if code is None else code, out=list(hv.normalise(out)), err=list(hv.normalise(err)))
        if not -900 < c["code"] < 0:
            cases.append(c)
    r = hv.tlc("HushCoreTrace.tla", "HushCoreProps.cfg", {"cases.ndjson": cases})
    if not hv.tlc_ok(r, "HushCoreProps"):
        raise hv.CheckError("a property of the specification does not hold:\n" + r.out[-3000:])
    ck.add("states", r.states)
    ck.add("transitions", r.transitions)


def explain(line, case):
    """What the specification was about to do, readably."""
    import re
    m = re.match(r'<<"(STUCK|REJECT)", (-?\d+), (\d+)', line)
    if not m or case is None:
        return line[:200]
    pos = int(m.group(3))
    out = bytes(case["out"])
    res = "%s after %r, before %r" % (m.group(1), out[max(0, pos - 60):pos - 1], out[pos - 1:pos + 80])
    m = re.match(r'.*<<([\d, ]+)>>>>', line)
    if m:
        res += "; expected a panic: %r" % bytes(int(x) for x in m.group(1).split(","))
    return res


LAWS = {"C06": ["numbers", "floats"], "C07": ["values"], "C23": ["codec", "hex", "base", "json"], "C24": ["split"], "C28": ["regex"]}


def laws(ck):
    """The laws of the functions that the specification is made of (HushLaws)."""
    if ck.prop in LAWS:
        cfg = "CONSTANTS Kinds = {%s}\nLess = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" \
              "INVARIANTS Inverse Canonical Json Splitting Regex Order Division Floats\n" \
              % (", ".join('"%s"' % k for k in LAWS[ck.prop]), ck.n(1, 0))
        r = hv.tlc("HushLaws.tla", cfg, {"cases.ndjson": ""})
        if not hv.tlc_ok(r, "HushLaws"):
            raise hv.CheckError("a law of the specification does not hold:\n" + r.out[-3000:])
        ck.add("law_states", r.states)
