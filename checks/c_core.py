"""The language core: programs against the abstract machine HushCore."""
import hv
import core
import known
import profiles as P
import rand
import fgen
import c_front
from hast import Prog


def core_check(build, also=None):
    def run(ck):
        exe = hv.build_hush()
        if also:
            also(ck, exe)
        progs = build(ck)
        core.run_programs(ck, exe, progs)
        core.properties(ck, exe, progs[:ck.n(24, 200)])
        core.laws(ck)
        known.report(ck, exe)
        ck.assumptions += ["values don't contain themselves, and recursion is at most about 100 deep"]
    return run


def places(ck, exe):
    """Where a panic is, in sources whose expressions go over many lines."""
    srcs = []
    for i, p in enumerate(P.batch(P.Panics, ck, 150, 4000, "lay")):
        r = P.rng_of(ck, i, "places")
        srcs.append(fgen.relayout(r, Prog(p, True).src, r.choice([0.2, 0.5])))
    c_front.behaviours(ck, exe, srcs)


CHECKS = {
    "C01": core_check(lambda ck: P.large("scopes", ck) + P.batch(P.Scope, ck, 700, 20000) + P.batch(P.DeepCapture, ck, 150, 3000)
                      + P.batch(P.Activations, ck, 100, 2000) + P.gen_batch(ck, 250, 6000, "gen", wild=0.01, letfun=2.5)),
    "C02": core_check(lambda ck: P.large("calls", ck) + P.batch(P.Calls, ck, 900, 20000) + P.batch(P.Activations, ck, 100, 2000)
                      + P.gen_batch(ck, 250, 6000, "gen", wild=0.05, letfun=2.5, call=5)),
    "C03": core_check(lambda ck: P.large("flow", ck) + P.batch(P.Flow, ck, 700, 20000) + P.gen_batch(ck, 300, 6000, "gen", wild=0.02)),
    "C04": core_check(lambda ck: P.large("errors", ck) + P.batch(P.Errors, ck, 900, 20000)
                      + P.gen_batch(ck, 200, 6000, "gen", wild=0.05, **{"try": 0.3})),
    "C05": core_check(lambda ck: P.large("panics", ck) + P.batch(P.Panics, ck, 800, 20000) + P.gen_batch(ck, 300, 8000, "gen", wild=0.12, catch=1.5), places),
    "C06": core_check(lambda ck: P.operator_programs(ck)),
    "C07": core_check(lambda ck: P.large("values", ck) + P.batch(P.Values, ck, 1000, 25000)),
    "C08": core_check(lambda ck: P.batch(P.Collections, ck, 900, 20000) + P.batch(P.BigCollections, ck, 24, 400)),
    "C09": core_check(lambda ck: P.large("iteration", ck) + P.batch(P.Iteration_, ck, 1000, 25000)),
    "C23": core_check(lambda ck: P.batch(P.Codecs, ck, 1000, 25000)),
    "C24": core_check(lambda ck: P.large("strings", ck) + P.batch(P.Strings, ck, 1000, 25000)),
    "C25": core_check(lambda ck: P.large("text", ck) + P.batch(P.Conversions, ck, 1000, 25000)),
    "C27": core_check(lambda ck: P.batch(P.Draws, ck, 300, 6000), lambda ck, exe: rand.check(ck, exe, ck.n(300, 5000))),
    "C28": core_check(lambda ck: P.batch(P.Regexes, ck, 900, 25000)),
}
