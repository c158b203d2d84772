"""The front end: sources against HushLexer and HushParser, and what valid ones do, against HushCore."""
import os
import re
import hv
import core
import fgen as G
import known
import profiles as P
from hast import Prog

REPORT = re.compile(rb"Error: [^\n]* \(line (\d+), column \d+\) - ([^\n]*)\n")

MOST = 20          # The errors that are reported at most.


def rng(ck, i, salt):
    return P.rng_of(ck, i, salt)


def text(b):
    return b.decode("utf-8", "backslashreplace")


def verdicts(ck, exe, srcs, modes=(), runinvalid=True, lines=True):
    """hush --check says of each source what the specification says, and executes nothing."""
    fr = hv.front(ck, srcs, nodes=False)
    with hv.Scratch() as d:
        env = hv.base_env(d)
        env["PATH"] = d + "/none"

        def one(i):
            work = os.path.join(d, "w%d" % i)
            os.mkdir(work)
            path = os.path.join(d, "c%d.hsh" % i)
            with open(path, "wb") as h:
                h.write(srcs[i])
            res = {"--check": hv.run([exe, "--check", path], work, env)}
            for m in modes:
                res[m] = hv.run([exe, m, "--check", path], work, env)
            if runinvalid and not fr[i][0]:
                res[""] = hv.run([exe, path], work, env, timeout=10)
            return res, os.listdir(work)
        obs = hv.parallel(one, range(len(srcs)))
    for i, (res, files) in enumerate(obs):
        ok, info = fr[i]
        want = 0 if ok else 2
        for m, (code, out, err) in res.items():
            bad = None
            if code != want:
                bad = "hush %s ends with %s on a program that the specification finds %s" % (m, code, "valid" if ok else "invalid")
            elif m in ("", "--check") and out != b"":
                bad = "hush %s executed something" % m
            elif not ok and not err.startswith(b"Error"):
                bad = "no error was reported for an invalid program"
            elif ok and err != b"":
                bad = "an error was reported for a valid program"
            elif lines and not ok and m == "--check" and info["errs"][0]:
                bad = reports(err, info["errs"][0])
            if bad:
                ck.violation(bad, {"source": text(srcs[i]), "bytes": list(srcs[i]), "exit": code, "stdout": text(out), "stderr": text(err)})
                break
        else:
            if files:
                ck.violation("a program that was not to be executed made files: %r" % files, {"source": text(srcs[i])})
    ck.add("sources_compared", len(srcs))
    ck.add("valid_sources", sum(1 for ok, _ in fr if ok))
    ck.add("executions", sum(len(r) for r, _ in obs))
    for i in range(min(3, len(srcs))):
        ck.sample({"source": text(srcs[i])[:400], "spec": "valid" if fr[i][0] else "invalid", "exit": obs[i][0]["--check"][0]})


def reports(err, breaches):
    """What is wrong with the reports of the violations of static rules?"""
    want = [(b["ln"], b["what"] + (" '%s'" % bytes(b["x"]).decode() if b["x"] else "")) for b in breaches]
    got = [(int(n), text(m)) for n, m in REPORT.findall(err)]
    if breaches[0]["what"] == "syntax":
        if not got or got[0][0] != want[0][0]:
            return "the first error reported is %s, but the first token that is wrong is at line %d" % (got[:1], want[0][0])
        return None
    if len(want) > MOST:
        if len(got) != MOST:
            return "%d errors were reported, of %d" % (len(got), len(want))
        want = want[:MOST]
    if got != want:
        return "the errors reported are %s, but the violations are %s" % (got, want)
    return None


def behaviours(ck, exe, srcs, batch=400):
    """Sources through the specification's front end and then its machine: what hush does is what they do."""
    fr = hv.front(ck, srcs)
    with hv.Scratch() as d:
        env = hv.base_env(d)
        env["PATH"] = d + "/none"
        obs = hv.parallel(lambda i: core.observe(exe, d, i, srcs[i], env), range(len(srcs)))
    cases = []
    for i, (code, out, err) in enumerate(obs):
        ok, t = fr[i]
        if not ok:
            if code != 2 or out != b"":
                ck.violation("a program that the specification finds invalid ended with %s" % code,
                             {"source": text(srcs[i]), "bytes": list(srcs[i]), "exit": code, "stdout": text(out), "stderr": text(err)})
            continue
        cases.append({"nodes": t["nodes"], "root": t["roots"][0], "ns": t["nss"][0], "id": i,
                      "code": -999 if code is None else code, "out": list(hv.normalise(out)), "err": list(hv.normalise(err))})
    acc, outs, info = core.validate(ck, cases, batch)
    for c in cases:
        i = c["id"]
        if i not in acc and i not in outs:
            code, out, err = obs[i]
            ck.violation("the program's behaviour is not one of the specification (exit %s); %s" % (code, info.get(i, "")),
                         {"source": text(srcs[i]), "bytes": list(srcs[i]), "exit": code, "stdout": text(out), "stderr": text(err),
                          "spec": info.get(i, "")})
    ck.add("traces_validated_against_impl", len(cases) - len(outs))
    ck.add("outside_the_specification", len(outs))
    ck.add("sources_compared", len(srcs))
    for i in range(min(3, len(srcs))):
        ck.sample({"source": text(srcs[i])[:400], "stdout": text(obs[i][1])[:200], "exit": obs[i][0]})


def rendered(ck, n, salt):
    """Random programs of the core, as sources."""
    return [Prog(p, True).src for p in P.gen_batch(ck, n, n, salt, wild=0.03, scenes=2)]


def c10(ck):
    exe = hv.build_hush()
    srcs = []
    for i in range(ck.n(2500, 20000)):
        r = rng(ck, i, "static")
        srcs.append(G.Static(r, r.choice([0.0, 0.02, 0.05, 0.1])).program())
    srcs += G.enumeration(rng(ck, 0, "enum"), ck.n(600, 30000))
    base = [b'std.println("RAN")\n' + s for s in G.corpus(600) + rendered(ck, ck.n(40, 300), "base")]
    for i in range(ck.n(1000, 8000)):
        r = rng(ck, i, "mut")
        srcs.append(G.mutate_tokens(r, r.choice(base if r.random() < 0.5 else srcs[:1000])))
    verdicts(ck, exe, srcs)
    known.report(ck, exe)
    ck.assumptions += ["an invalid program is run for real only in an empty scratch folder, with no programs in its PATH"]


def c11(ck):
    exe = hv.build_hush()
    srcs = []
    for i in range(ck.n(300, 6000)):
        r = rng(ck, i, "expr")
        srcs.append(G.relayout(r, Prog(G.Exprs(r).program(), True).src, r.choice([0, 0.1, 0.4])))
    srcs += G.triples(rng(ck, 0, "triples"))
    for i, s in enumerate(rendered(ck, ck.n(250, 4000), "gen")):
        r = rng(ck, i, "lay")
        srcs.append(G.relayout(r, s, r.choice([0.1, 0.3, 0.6])))
    behaviours(ck, exe, srcs)
    # Sources that are nearly valid, and every byte between tokens.
    base = srcs[:ck.n(300, 6000)]
    srcs = [G.place(rng(ck, i, "place"), [c], e, i % 2 == 0) for i, (c, e) in enumerate((c, e) for c in G.ECTX[:24] for e in G.EXPRS[16:31])]
    for i in range(ck.n(900, 12000)):
        r = rng(ck, i, "mut")
        srcs.append(G.mutate_tokens(r, r.choice(base)))
    srcs += G.bytewise(G.PLACES[:5] + G.PLACES[13:16])
    verdicts(ck, exe, srcs, lines=False)
    known.report(ck, exe)


def c12(ck):
    exe = hv.build_hush()
    srcs = [G.Literals(rng(ck, i, "lit")).program() for i in range(ck.n(1800, 25000))]
    srcs += G.bytewise(G.PLACES)
    behaviours(ck, exe, srcs, batch=1000)
    known.report(ck, exe)


def c26(ck):
    exe = hv.build_hush()
    base = G.corpus(1200) + rendered(ck, ck.n(20, 200), "base")
    srcs = []
    for i in range(ck.n(3000, 30000)):
        r = rng(ck, i, "any")
        k = r.random()
        if k < 0.4:
            s = G.mutate_bytes(r, r.choice(base))
        elif k < 0.55:
            s = G.mutate_tokens(r, r.choice(base))
        elif k < 0.7:
            s = G.soup(r)
        elif k < 0.8:
            s = G.mutate_bytes(r, G.Static(r).program())
        else:
            s = G.noise(r)
        srcs.append(s)
    srcs += G.bytewise(G.CPLACES if ck.tier == "quick" else G.CPLACES + G.PLACES)
    verdicts(ck, exe, srcs, modes=("--lex", "--ast", "--program"), runinvalid=False, lines=False)
    known.report(ck, exe)
    ck.assumptions += ["sources are nested at most some 100 levels deep"]


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C26": c26}
