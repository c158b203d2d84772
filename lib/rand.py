"""std.rand and its relatives: draws of real processes, against HushRand."""
import os
import re
import random
import hv

INTS = [0, 1, -1, 2, 5, 100, -100, 2**31, -2**31, 2**62, -2**62, 2**63 - 1, -2**63 + 1, -2**63]


def big(n):
    """The specification's integers: sign and limbs of four digits."""
    out, m = [], abs(n)
    while m:
        out.append(m % 10000)
        m //= 10000
    return [0] if n == 0 else [1 if n > 0 else -1] + out


def lit(n):
    return "(-9223372036854775807 - 1)" if n == -2**63 else str(n)


def call(op):
    k = op[0]
    if k == "seed":
        return "std.randseed(%s)" % lit(op[1])
    if k == "int":
        return "std.randint(%s, %s)" % (lit(op[1]), lit(op[2]))
    if k == "rand":
        return "std.rand()"
    return op[1]


BAD = ["std.randint(2, 1)", "std.randint(1.0, 2)", "std.randint(1, 2.0)", "std.randint(1)", "std.randint()", "std.rand(1)", "std.randseed()",
       'std.randseed("1")', "std.randseed(1, 2)", "std.randint(9223372036854775807, -9223372036854775807)", "std.randint(nil, nil)", "std.randseed(1.0)"]


def script(r, ops):
    """A program that makes the calls, in all sorts of places, and prints what each yields."""
    src = "let p = function(x) std.println(std.type(x), x) return x end\nlet o = @[]\no.f = function(a, b) p(std.randint(a, b)) end\nlet d = std.rand\n" \
          "let e = std.randint\nlet s = std.bind(nil, std.randseed)\n"
    i = 0
    while i < len(ops):
        op = ops[i]
        n = 1
        while i + n < len(ops) and ops[i + n] == op:
            n += 1
        if n > 3 and r.random() < 0.9:
            src += "for i in std.range(0, %d, 1) do p(%s) end\n" % (n, call(op))
            i += n
            continue
        c = call(op)
        if op[0] == "bad":
            src += "p(std.catch(function() return %s end))\n" % c
        elif op[0] == "int" and r.random() < 0.3:
            src += "o.f(%s, %s)\n" % (lit(op[1]), lit(op[2])) if r.random() < 0.5 else "p(e(%s, %s))\n" % (lit(op[1]), lit(op[2]))
        elif op[0] == "rand" and r.random() < 0.3:
            src += "p(d())\n"
        elif op[0] == "seed" and r.random() < 0.3:
            src += "p(s(%s))\n" % lit(op[1])
        else:
            src += r.choice(["p(%s)\n", "p(%s)\n", "let x%d = %%s p(x%d)\n" % (i, i), "std.catch(function() p(%s) let z = 1 / 0 end)\n",
                             "for i in std.iter([1]) do p(%s) end\n", "(function() p(%s) end)()\n" if False else "p(%s)\n", "p([%s][0])\n"]) % c
        i += 1
    return src


def draws(r, n):
    ops = []
    while len(ops) < n:
        k = r.random()
        if k < 0.4:
            a, b = sorted([r.choice(INTS), r.choice(INTS)])
            if r.random() < 0.5:
                b = min(a + r.randint(0, 6), 2**63 - 1)
            ops += [("int", a, b)] * r.choice([1, 1, 1, 2, 5])
        elif k < 0.8:
            ops += [("rand",)] * r.choice([1, 1, 2, 4, 8])
        elif k < 0.9:
            ops.append(("bad", r.choice(BAD)))
        else:
            ops.append(("seed", r.choice(INTS + [r.randint(0, 5)])))
    return ops


def case(r):
    """Runs that share seeds and calls, so that they're comparable."""
    k = r.random()
    if k < 0.25:        # A distribution.
        a = r.choice([0, 1, -3, 2**63 - 4, -2**63, -2**62])
        w = r.randint(1, 3)
        rng = ("int", a, a + w)
        return [[rng] * 300 + [("rand",)] * 300], [{"op": "int", "a": big(a), "b": big(a + w)}, {"op": "rand"}] if small(a) and small(a + w) else [{"op": "rand"}]
    if k < 0.35:        # Processes of their own seed.
        return [[("rand",)] * 6 + draws(r, 4) for _ in range(3)], []
    if k < 0.5:         # Many seeds.
        ss = r.sample(sorted(set(INTS + [2**32, 2**32 + 1, 3, 4, 7, -2])), 6)
        ops = [("rand",)] * 4
        return [sum(([("seed", s)] + ops for s in ss), []), sum(([("seed", s)] + ops for s in reversed(ss)), [])], []
    runs = []
    seeds = [r.choice(INTS), r.choice(INTS)]
    bodies = [draws(r, r.randint(3, 12)) for _ in range(2)]
    for _ in range(r.randint(2, 4)):
        ops = draws(r, r.choice([0, 0, 3]))
        for _ in range(r.randint(1, 4)):
            body = r.choice(bodies)
            ops += [("seed", r.choice(seeds))] + body[:r.randint(1, len(body))] + (draws(r, 2) if r.random() < 0.3 else [])
            if r.random() < 0.3:       # What fails draws nothing.
                ops.insert(r.randint(0, len(ops)), ("bad", r.choice(BAD)))
        runs.append(ops)
    return runs, []


def small(n):
    return abs(n) < 10**8


LINE = re.compile(rb"([a-z]+)\t(.*)")


def events(ops, out):
    """The calls with their results, as far as they were printed."""
    rows, lines = [], out.split(b"\n")[:-1]
    for i, op in enumerate(ops):
        m = LINE.fullmatch(lines[i]) if i < len(lines) else None
        t, v = (m.group(1).decode(), m.group(2)) if m else ("missing", b"")
        want = {"seed": "nil", "int": "int", "rand": "float", "bad": "error"}[op[0]]
        if op[0] == "bad" or t != want:
            rows.append({"op": "bad", "want": want, "got": t})
        elif op[0] == "seed":
            rows.append({"op": "seed", "a": big(op[1])})
        elif op[0] == "int":
            rows.append({"op": "int", "a": big(op[1]), "b": big(op[2]), "r": list(v)})
        else:
            rows.append({"op": "rand", "r": list(v)})
    if len(lines) > len(ops):
        rows.append({"op": "bad", "want": "no more output", "got": "more"})
    return rows


def check(ck, exe, n):
    cases = []
    with hv.Scratch() as d:
        env = hv.base_env(d)

        def one(i):
            r = random.Random("%s/%d/rand/%d" % (ck.prop, ck.seed, i))
            runs, cover = case(r)
            res = []
            for j, ops in enumerate(runs):
                src = script(r, ops)
                path = os.path.join(d, "c%d_%d.hsh" % (i, j))
                with open(path, "w") as h:
                    h.write(src)
                code, out, err = hv.run([exe, path], d, env)
                res.append((src, ops, out, code, err))
            return res, cover
        obs = hv.parallel(one, range(n))
    for i, (res, cover) in enumerate(obs):
        runs = []
        for src, ops, out, code, err in res:
            ev = events(ops, out)
            if code != 0 or err != b"":
                ev.append({"op": "bad", "want": "exit status 0", "got": "exit status %s" % code})
            runs.append(ev)
        cases.append({"id": i, "runs": runs, "cover": cover})
    r = hv.tlc("HushRand.tla", "HushRand.cfg", {"cases.ndjson": cases})
    if not hv.tlc_ok(r, "HushRand"):
        raise hv.CheckError("an invariant of the specification does not hold:\n" + r.out[-3000:])
    ok = set(r.tagged("ACCEPT"))
    ck.add("states", r.states)
    ck.add("transitions", r.transitions)
    for i, (res, cover) in enumerate(obs):
        if i not in ok:
            why = next((t for t in r.lines("STUCK") if t.startswith('<<"STUCK", %d,' % i)), "")
            ck.violation("the draws of these processes are not those of one generator per seed, in range: %s" % why,
                         {"runs": [{"source": s, "stdout": o.decode("utf-8", "replace"), "exit": c, "stderr": e.decode("utf-8", "replace")}
                                   for s, _, o, c, e in res], "case": cases[i]})
    ck.add("traces_validated_against_impl", sum(len(res) for res, _ in obs))
    ck.add("draws", sum(len(ops) for res, _ in obs for _, ops, *_ in res))
