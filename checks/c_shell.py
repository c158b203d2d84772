"""Programs that run commands, against HushShell."""
import hv
import shell
import cgen as G
import known


def shell_check(build):
    def run(ck):
        exe = hv.build_hush()
        shell.run(ck, exe, build(ck))
        known.report(ck, exe)
        ck.assumptions += ["commands are the helper program hx, whose operations the specification defines",
                           "there are no symbolic links, and paths stay below the scratch root",
                           "each operation of hx that writes does one write, which the kernel does not split"]
    return run


def many(ck, cls, quick, thorough, salt="", **kw):
    r = G.rng(ck, cls.__name__ + salt)
    return [cls(r, **kw).case() for _ in range(ck.n(quick, thorough))]


CHECKS = {
    "C13": shell_check(lambda ck: many(ck, G.Arguments, 300, 6000) + G.argument_enum(ck.n(G.rng(ck, "words"), None))),
    "C14": shell_check(lambda ck: many(ck, G.Patterns, 300, 6000) + G.pattern_enum(True) + G.pattern_enum(False)),
    "C15": shell_check(lambda ck: many(ck, G.Pipelines, 320, 5000)),
    "C16": shell_check(lambda ck: many(ck, G.Sequences, 220, 4000) + G.sequencing_enum(ck, ck.n(2, 3))),
    "C17": shell_check(lambda ck: many(ck, G.Redirections, 300, 5000) + many(ck, G.Redirections, 2, 12, "large", large=True) + G.redirection_enum(ck, ck.n(1, 2))),
    "C18": shell_check(lambda ck: many(ck, G.Capture, 300, 4000) + many(ck, G.Capture, 4, 60, "large", big=1.0)),
    "C19": shell_check(lambda ck: many(ck, G.Async, 260, 4000)),
    "C20": shell_check(lambda ck: many(ck, G.Surroundings, 350, 6000)),
    "C21": shell_check(lambda ck: many(ck, G.Modules, 350, 6000)),
    "C22": shell_check(lambda ck: many(ck, G.Programs, 400, 8000)),
}
