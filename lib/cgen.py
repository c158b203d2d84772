"""Generators of programs that run commands (see shell.Case).  All the commands run the helper program hx."""
import itertools
import random
from hast import strlit, charlit
from shell import Case, DIR, EXE


def rng(ck, name):
    return random.Random("%s-%d" % (name, ck.seed))


def block(r, body, kind=b"{", wrap=True):
    """An expression that prints what the block is worth; panics are caught."""
    e = kind + b" " + body + b" }"
    if wrap:
        return b"std.println(std.catch(function () " + e + b" end))\n"
    return b"std.println(" + e + b")\n"


# ------------------------------------------------------------------ values and arguments

ODD = [b"", b" ", b"a b", b"x", b"*", b"?", b"%", b"$v0", b"${v0}", b"~/", b"; hx o:oops", b"| hx", b"> oops", b"2>1", b"'", b'"',
       b"\\", b"\n", b"\t", b"a\nb", b"[a]", b"{x}", b"#c", b"&", b"=", b"k=v", b"-n", b"--", b"\xc3\xa9", b"\xe2\x82\xac",
       b"\xf0\x9f\x90\xa2", b"\xff\xfe", b"\x80", b"a\xffb", b"..", b".", b"/", b"$", b"`ls`", b"$(ls)", b"\x01\x7f", b"0", b"**", b"a*b"]


def text(r):
    k = r.random()
    if k < 0.6:
        return r.choice(ODD)
    if k < 0.75:
        return r.choice(ODD) + r.choice(ODD)
    return bytes(r.choice(b"ab \t$*?%;|<>'\"\\~#=&(){}[]\n\xc3\xa9.,/:+-1\xff") for _ in range(r.randint(0, 6)))


def basic(r, nul=0.02):
    """The source of a value that can be an argument."""
    k = r.random()
    if k < nul:
        return strlit(b"a\0b")
    if k < 0.55:
        return strlit(text(r))
    if k < 0.62:
        return charlit(r.choice(b"a $*\\'\"\n~0"))
    if k < 0.72:
        return b"%d" % r.choice([0, 1, -1, 42, -17, 255, 9223372036854775807, -9223372036854775807])
    if k < 0.80:
        return r.choice([b"1.5", b"0.25", b"-3.0", b"0.0", b"100.0", b"1.0 / 0.0", b"-0.0", b"0.0 / 0.0"])
    if k < 0.90:
        return r.choice([b"true", b"false"])
    return b"nil"


def anyval(r, odd=0.08):
    k = r.random()
    if k < odd:
        return r.choice([b"@[]", b"@[a: 1]", b"std.print", b"function () end", b'std.error("e", 1)', b"[[1]]", b"[1, @[]]"])
    if k < odd + 0.25:
        return b"[" + b", ".join(basic(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))) + b"]"
    return basic(r)


PLAIN = b"abcXYZ019_-+./:,@^!&()|~]\xc3\xa9\xff"


ESCAPES = [b"#", b"'", b'"', b">", b"<", b"?", b";", b"$", b"=", b" ", b"n", b"t", b"\\", b"\n"]


def word(r):
    out = b""
    for _ in range(r.randint(1, 5)):
        if r.random() < 0.2:
            out += b"\\" + r.choice([b"#", b"'", b'"', b">", b"<", b"?", b";", b"$", b"=", b" ", b"n", b"t", b"\\"])
        else:
            c = bytes([r.choice(PLAIN)])
            out += c
    if out[:1] in b"|&":       # An operator, at the beginning of a word; and an async block.
        out = b"w" + out
    return out


def single(r):
    return b"'" + text(r).replace(b"\\", b"\\\\").replace(b"'", b"\\'") + b"'"


def double(r, names):
    out = b""
    for _ in range(r.randint(0, 3)):
        if r.random() < 0.4:
            n = r.choice(names)
            out += r.choice([b"", b"", b"\\$", b"\\\\", b'\\"', b"\\n"])
            out += b"${" + n + b"}" if r.random() < 0.5 else b"$" + n + r.choice([b"-", b" ", b".", b"$" + r.choice(names) + b" "])
        else:
            out += text(r).replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"$", b"\\$")
    return b'"' + out + b'"'


def part(r, names, first):
    k = r.random()
    if k < 0.30:
        return word(r)
    if k < 0.48:
        return single(r)
    if k < 0.66:
        return double(r, names)
    if k < 0.70 and first:
        return b"~/"
    if k < 0.74 and not first:
        return b"="
    n = r.choice(names)
    if k < 0.82:               # What follows an escape is special as ever.
        return b"\\" + r.choice(ESCAPES) + r.choice([b"${" + n + b"}", b"$" + n + b"-", b"*", b"%", b"=", b"\\$" + n])
    return b"${" + n + b"}"


def arg(r, names):
    k = r.random()
    if k < 0.08:
        return r.choice([b"''", b'""', b"'x'\"\"", b"''''"])
    n = r.choice([1, 1, 2, 2, 3, 4])
    return b"".join(part(r, names, j == 0) for j in range(n))


def variables(r, n, odd=0.08):
    names = [b"v%d" % i for i in range(n)]
    return names, b"".join(b"let %s = %s\n" % (v, anyval(r, odd)) for v in names)


class Arguments:
    """C13: what a program receives."""
    def __init__(self, r):
        self.r = r

    def command(self, names):
        r = self.r
        out = b""
        if r.random() < 0.2:
            k = r.choice([b"K", b"K", b"${" + r.choice(names) + b"}", b"$" + r.choice(names)])
            val = arg(r, names) if r.random() < 0.8 else b""
            out += k + b"=" + val + b" hx v:K a"
        elif r.random() < 0.12:
            out += r.choice([b"h'x'", b'"hx"', b"h\\\nx"[:1] + b"x", b"$prog", b'"$prog"', b"${prog}", b"$progs", b"$none", b"h${none}x",
                             b"bin/hx", b"./bin/hx", b"~/hx", b"{ROOT}/bin/hx"]) + b" a"
        else:
            out += b"hx a"
        for _ in range(r.randint(0, 4)):
            out += r.choice([b" ", b" ", b"  ", b"\n", b"\t"]) + arg(r, names)
        if r.random() < 0.06:
            out += b" # a comment } ; | $"
            out += b"\n"
        return out

    def case(self):
        r = self.r
        names, src = variables(r, r.randint(2, 5))
        src += b'let prog = "hx"\nlet progs = ["hx", "a"]\nlet none = []\n'
        for _ in range(r.randint(2, 5)):
            cmds = [self.command(names) for _ in range(r.choice([1, 1, 1, 2]))]
            src += block(r, r.choice([b"; ", b" ;\n"]).join(cmds), kind=r.choice([b"{", b"{", b"${"]))
            if r.random() < 0.2:
                src += r.choice(names) + b" = " + anyval(r) + b"\n"
        return Case(src, files={"home/hx": EXE, "oops": "x"})


def argument_enum(r=None):
    """All the arguments of one or two parts, with one variable of each kind."""
    vals = [b"nil", b"true", b"-5", b"2.5", b"'c'", strlit(b"a b"), strlit(b"*"), strlit(b""), b"[]", b'["p"]', b'["p", "q r"]', b"@[]",
            b'[1, nil, "*"]']
    parts = [b"w", b"'s $v *'", b'"d $v"', b"${v}", b'"${v}"', b"''", b"\\ ", b"=", b"~/", b"\\*x"[:0] + b"-"]
    cases = []
    for v in vals:
        combos = [a + c for a, c in itertools.product(parts, parts + [b"", b"${u}"])]
        for at in range(0, len(combos), 30):
            src = b"let v = " + v + b"\nlet u = [\"1\", \"2\"]\n"
            for c in combos[at:at + 30]:
                src += block(None, b"hx a " + c + b" end")
            cases.append(Case(src))
    # With patterns: nothing that was substituted or quoted is special, wherever it is in the word.
    vals = [strlit(b"*"), strlit(b"?"), strlit(b"[1]"), strlit(b"]"), strlit(b"1"), b"[]", b'["1", "?", "*"]', b'["[1]", "1", "]"]', b"'*'"]
    parts = [b"*", b"%", b"${v}", b"${u}", b"'?'", b'"[1]"', b"1"]
    words = [w for n in (1, 2, 3) for w in itertools.product(parts, repeat=n) if {b"*", b"%"} & set(w) and w.count(b"*") < 2]
    files = {n: "" for n in [b"1", b"2", b"*", b"?", b"[1]", b"]", b"11", b"1*", b"*1", b"1?", b"?1", b"1[1]", b"[1]1", b"1]", b"12", b"1**", b"?*1", b"1[1]*"]}
    for v in vals:
        ws = r.sample(words, len(words) // 4) if r else words
        for at in range(0, len(ws), 40):
            src = b"let v = " + v + b"\nlet u = [\"1\", \"?\", \"*\"]\n"
            for w in ws[at:at + 40]:
                src += block(None, b"hx a " + b"".join(w) + b" end")
            cases.append(Case(src, files=files))
    return cases


# ------------------------------------------------------------------ patterns

NAMES = [b"a", b"b", b"ab", b"ba", b"aab", b"abc", b".a", b".ab", b"...", b"a.b", b"*", b"?", b"[a]", b"a*b", b"\xc3\xa9", b"a\xc3\xa9b", b"\xff",
         b"a\xffb", b"B", b"A", b" ", b"a b", b"-n", b"\xe2\x82\xac"]


def tree(r, depth=2, width=4, prefix=b""):
    t = {}
    for n in r.sample(NAMES, r.randint(0, width)):
        if depth > 0 and r.random() < 0.45:
            t[prefix + n] = DIR
            t.update(tree(r, depth - 1, width - 1, prefix + n + b"/"))
        else:
            t[prefix + n] = b"c"
    return t


class Patterns:
    """C14: patterns become the names of the files that match."""
    def __init__(self, r):
        self.r = r

    def component(self, shell):
        r = self.r
        if r.random() < 0.1:
            return b"**"
        if r.random() < 0.1:
            return r.choice([b".", b".."])
        any1 = b"%" if shell else b"?"
        out = b""
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.4:
                out += b"*"
            elif k < 0.55:
                out += any1
            elif shell and k < 0.63:
                out += r.choice([b"'*'", b'"?"', b"'[a]'", b"${m}", b"${n}", b"$n\"\"", b"'%'", b'"${m}"'])
            else:
                out += r.choice([b"a", b"b", b"ab", b".", b"\xc3\xa9", b"c"])
        return out

    def pattern(self, shell):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        p = b"/".join(self.component(shell) for _ in range(n))
        if r.random() < 0.15:
            p += b"/"
        k = r.random()
        if k < 0.08:
            p = b"{ROOT}/" + p
        elif k < 0.13:
            p = b"./" + p
        elif k < 0.16:
            p = b"../" + p
        elif k < 0.19 and shell:
            p = b"~/" + p
        return p

    def case(self):
        r = self.r
        files = {b"w/" + k: v for k, v in tree(r, 3, 5).items()}
        files[b"w"] = DIR
        src = b'let m = "*"\nlet n = ["a", "b*"]\n'
        for _ in range(r.randint(3, 6)):
            k = r.random()
            if k < 0.5:
                src += block(r, b"hx a " + b" ".join(self.pattern(True) for _ in range(r.choice([1, 1, 2]))))
            elif k < 0.6:
                src += block(r, b"hx t:new" + b"%d" % r.randint(0, 2) + b" ; hx a new* " + self.pattern(True))
            elif k < 0.66:
                src += block(r, b"hx i < " + self.pattern(True))
            elif k < 0.70:
                src += block(r, b"K=" + self.pattern(True) + b" hx v:K")
            elif k < 0.74:
                src += block(r, self.pattern(True) + b" a b")
            elif k < 0.78:
                src += block(r, b"cd " + self.pattern(True) + b"; hx d")
            else:
                p = self.pattern(False)
                src += b"std.println(std.catch(function () std.glob(" + strlit(p) + b") end))\n"
        return Case(src, files=files, cwd=r.choice(["w", "w", "w", "w/a"]) if files.get(b"w/a", 0) is DIR else "w",
                    env={"HOME": "{ROOT}/w"})


def pattern_enum(shell):
    """Short patterns on one tree of files."""
    t = {b"z/w/" + k: v for k, v in {
        b"a": b"", b"ab": DIR, b"ab/a": b"", b"ab/.h": b"", b"b": DIR, b"b/ab": DIR, b"b/ab/b": b"", b".a": b"", b".d": DIR, b".d/a": b"",
        b"*": b"", b"a*": b"", b"\xc3\xa9": b""}.items()}
    any1 = "%" if shell else "?"
    comp = ["*", any1, "a", "a*", "*b", ".*", "." + any1, "**", any1 + any1, "*a*", "..", ".", "b"]
    pats = [a for a in comp] + [a + "/" for a in comp] + [a + "/" + c for a in comp for c in comp] \
        + [a + "/" + c + "/" for a in comp for c in ("*", "**", ".*")] + [a + "/**/" + c for a in comp for c in comp] \
        + ["***", "a**", "**a", "**/**", "**/**/a", "b/**", "./*", "*/./*"]
    cases = []
    for at in range(0, len(pats), 12):
        src = b""
        for p in pats[at:at + 12]:
            if shell:
                src += block(None, b"hx a " + p.encode())
            else:
                src += b"std.println(std.glob(" + strlit(p.encode()) + b"))\n"
        cases.append(Case(src, files=t, cwd="z/w"))
    return cases


# ------------------------------------------------------------------ processes

class Shell:
    """C15 to C19: blocks of pipelines of processes, which read, write, fail and wait for each other."""
    def __init__(self, r, rd=0.15, asyn=0.0, capture=0.3, stages=(1, 1, 2, 2, 3), pipelines=(1, 1, 2, 3), fail=0.25, missing=0.06,
                 gates=0.0, stdin=0.5, builtins=0.05, few=False):
        self.r = r
        self.rd, self.asyn, self.capture, self.stages, self.pipelines = rd, asyn, capture, stages, pipelines
        self.fail, self.missing, self.gates, self.stdin, self.builtins = fail, missing, gates, stdin, builtins
        self.few = few
        self.mark = 0
        self.gate = 0

    def tag(self):
        self.mark += 1
        return b"%c%d" % (97 + self.mark % 26, self.mark // 26) if self.mark >= 26 else b"%c" % (97 + self.mark)

    def ops(self, j, n):
        """The operations of stage j of n."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2] if self.few else [1, 1, 2, 2, 3])):
            k = r.random()
            if j > 0 and k < 0.45 or j == 0 and k < 0.08 * self.stdin:
                out.append(r.choice([b"i", b"i", b"p:" + self.tag(), b"r:1", b"r:3", b"I", b"h"]))
            elif k < 0.75:
                out.append(b"o:" + self.tag())
            elif k < 0.88:
                out.append(b"e:" + self.tag().upper())
            elif k < 0.92:
                out.append(b"'o:%s\\n'" % self.tag())
            elif k < 0.95:
                out.append(b"n:%d:%c" % (r.randint(1, 5), r.choice(b"xyz")))
            else:
                out.append(r.choice([b"t:" + r.choice([b"t1", b"t2"]), b"v:K", b"d", b"0"]))
        if r.random() < self.fail:
            out.append(r.choice([b"x:1", b"x:2", b"x:255", b"k:9", b"k:15", b"x:0", b"zz", b"x:77"]))
        if j == 0 and n > 1 and r.random() < (0.2 if self.few else 0.6):
            out.insert(0, b"o:" + self.tag())
        return out

    def redirection(self):
        r = self.r
        f = r.choice([b"f", b"f", b"g", b"g", b"sub/h"])
        if r.random() < 0.2:      # The same, spelled otherwise.
            f = r.choice([b"./f", b"sub/../f", b"sub/../g", b'"g"', b"sub/./h", b"g*", b"%", b"s*/h", b"sub/../sub/h", b"./sub/../f", b"'f'", b"f''"])
        k = r.random()
        if k < 0.5:
            return r.choice([b"> ", b">> ", b"1> ", b"2> ", b"2>> "]) + f
        if k < 0.68:
            return r.choice([b"2>1", b"1>2", b"2>1", b"1>1"])
        if k < 0.80:
            return b"< " + r.choice([b"f", b"g", b"data", b"data", b"d*", b"sub/../data", b"./f", b"*", b"sub/*", b"%"])
        if k < 0.92:
            return b"<< " + r.choice([b"lit", b"'two words'", b'"$v"', b"''", b"'line\n'", b'"$v\\n"', b'"\\n"', b"$nl"])
        return r.choice([b"> sub", b"< nofile", b"> nodir/x", b"3> f", b"2>3", b"< sub", b"> $e", b"> $a2", b"0> f", b">> $a2", b"2>> $e", b">> sub", b"< $a2", b"<< $a2"])

    def stage(self, j, n, ops=None):
        r = self.r
        prog = b"hx"
        if r.random() < self.missing:
            prog = r.choice([b"nope", b"./nope", b"sub", b"data/x", b"data", b"./data"])
        s = prog + b" " + b" ".join(ops or self.ops(j, n))
        if r.random() < 0.06:
            s = b"K=" + self.tag() + b" " + s
        while r.random() < self.rd:
            s += b" " + self.redirection()
        if r.random() < 0.3:
            s += b" ?"
        return s

    def pipeline(self, kind):
        r = self.r
        if kind == b"{" and r.random() < self.builtins:
            return r.choice([b"cd sub", b"cd nodir", b"cd .", b"spawn0 hx zero o:z 0", b"spawn0 hx zero x:3", b"spawn0 hx zero o:z k:15", b"spawn0 nope zero",
                             b"spawn0 hx", b"cd", b"cd a b", b"cd ..", b"cd {ROOT}", b"cd data"]) + r.choice([b"", b"", b" ?"])
        n = r.choice(self.stages)
        return b" | ".join(self.stage(j, n) for j in range(n))

    def block(self, kind):
        r = self.r
        return kind + b" " + b"; ".join(self.pipeline(kind) for _ in range(r.choice(self.pipelines))) + r.choice([b" }", b"; }", b"\n}"])

    def case(self, blocks=(1, 3)):
        r = self.r
        src = b'let v = "V v"\nlet e = []\nlet a2 = ["f", "g"]\nlet nl = "n\\nl\\n"\n'
        jobs = []
        for i in range(r.randint(*blocks)):
            k = r.random()
            if k < self.asyn:
                src += b"let j%d = %s\n" % (i, self.block(b"&{"))
                jobs.append(b"j%d" % i)
                continue
            kind = b"${" if r.random() < self.capture else b"{"
            src += b"std.println(std.catch(function ()\n" + self.block(kind) + b"\nend))\n"
            if jobs and r.random() < 0.4:
                src += self.join(jobs)
        while jobs and r.random() < 0.8:
            src += self.join(jobs)
        return Case(src, files={"data": "some\ndata", "sub": DIR, "f": "old contents"}, stdin=b"standard input\n" if r.random() < 0.7 else b"",
                    env={"K": "env"})

    def join(self, jobs):
        r = self.r
        j = r.choice(jobs)
        if r.random() < 0.85:
            jobs.remove(j)
        return b"std.println(std.catch(function () %s.join(%s) end))\n" % (j, r.choice([b"", b"", b"1, 2"]))


def sequencing_enum(ck, n):
    """Blocks of up to n pipelines, of all the ways to succeed and to fail."""
    alts = [b"hx o:%c", b"hx o:%c x:3", b"hx o:%c x:3 ?", b"hx o:%c k:9", b"no%c", b"no%c ?", b"hx o:%c x:2 | hx i x:4",
            b"hx o:%c x:2 ? | hx i x:4 ?", b"hx o:%c x:2 ? | hx i x:4", b"hx o:%c x:2 | hx i ?", b"hx o:%c | hx i x:4 ?", b"no%c ? | hx i e:E ?",
            b"hx o:%c | no", b"cd no%c ?", b"cd .", b"spawn0 hx z o:%c x:5 ?", b"spawn0 hx z o:%c x:5"]
    blocks = []
    for k in range(1, n + 1):
        for combo in itertools.product(alts, repeat=k):
            # Whatever aborts is only interesting in the last place but one.
            body = b"; ".join(c.replace(b"%c", b"%c" % (97 + i)) for i, c in enumerate(combo))
            kind = b"{"
            if not any(c.startswith((b"cd", b"spawn0")) for c in combo) and len(blocks) % 3 == 0:
                kind = b"${"
            blocks.append((kind, body))
    return pack(blocks, 6)


def pack(blocks, n, **kw):
    cases = []
    for at in range(0, len(blocks), n):
        src = b"".join(block(None, body, kind) for kind, body in blocks[at:at + n])
        cases.append(Case(src, **kw))
    return cases


def redirection_enum(ck, n):
    """All the sequences of up to n redirections of a command that reads and writes everything."""
    alts = [b"> f", b">> f", b"2> f", b"2>> f", b"2>1", b"1>2", b"> g", b"< data", b"<< lit", b"< no", b"> d", b"> no/x", b"3> f", b"2>3",
            b"1>1", b"> f/x", b"2> g", b"< d", b"> $two", b"< $none", b'<< "a\\n\\n"']
    blocks = []
    for k in range(1, n + 1):
        for combo in itertools.product(alts, repeat=k):
            blocks.append((b"${" if len(blocks) % 2 else b"{", b"hx o:out e:err i " + b" ".join(combo)))
    cases = []
    for at in range(0, len(blocks), 4):
        src = b'let two = ["f", "g"]\nlet none = []\n'
        for kind, body in blocks[at:at + 4]:
            src += block(None, body, kind)
            src += b"std.println(${ hx i < f }, ${ hx i < g })\n"
        cases.append(Case(src, files={"f": "previous", "data": "D", "d": DIR}, stdin=b"in"))
    return cases


# ------------------------------------------------------------------ pipelines whose stages wait for each other

def gated(r, n, kind=b"{"):
    """A pipeline of n stages that only ends if all of them run at the same time: each waits for another one."""
    order = list(range(n))
    r.shuffle(order)
    gate = r.randint(0, 10 ** 6)
    stages = []
    for j in range(n):
        k = order.index(j)
        ops = []
        if j > 0 and r.random() < 0.3:
            ops.append(b"r:1" if r.random() < 0.5 else b"r:2")
        if k > 0:
            ops.append(b"g:G%d.%d" % (gate, k - 1))
        ops.append(b"t:G%d.%d" % (gate, k))
        if ops[0][:1] == b"r":                       # What it reads first must have been written by then.
            ops = ops[1:] + ops[:1] if r.random() < 0.5 else ops[1:]
        ops += [b"o:%c" % (97 + j)] if r.random() < 0.7 else []
        if j > 0:
            ops.append(r.choice([b"i", b"p:+", b"I", b"h"]))
        if r.random() < 0.3:
            ops.append(r.choice([b"x:3", b"e:%c" % (65 + j), b"o:z"]))
        stages.append(b"hx " + b" ".join(ops))
    return b" | ".join(stages)


def streamed(r):
    """The reader gets the first part while the writer waits for it."""
    return r.choice([
        b"hx o:abc g:S o:def | hx r:3 t:S i",
        b"hx o:abc g:S o:def | hx p:- | hx r:1 i"[:0] + b"hx o:abc g:S | hx r:2 t:S I o:x",
        b"hx o:ab g:S o:cd g:T o:ef | hx r:2 t:S r:2 t:T i",
        b"hx o:ab g:S o:cd | hx r:1 o:= r:1 g:U t:S i | hx t:U i",
        b"hx g:S o:x | hx t:S i",
        b"hx g:S o:x | hx i | hx t:S p:y",
        b"hx g:S o:x 2>1 | hx t:S i",
    ])


def lingering(r):
    """Stages that outlive the last one; the block must wait for them."""
    w = r.choice([20, 40, 60])
    return r.choice([
        b"hx g:L w:%d t:M | hx t:L",
        b"hx t:N w:%d t:M | hx o:q",
        b"hx w:%d t:M x:3 | hx I | hx o:q",
        b"hx o:a w:%d t:M | hx r:1",
        b"hx e:E w:%d t:M k:9 | nope",
        b"nope | hx w:%d t:M",
        b"hx w:%d t:M | hx o:a > nodir/f",
        b"hx w:%d t:M x:2 ; hx a *",
        b"hx w:%d t:M x:2 ? ; hx a M*",
        b"hx w:%d t:M ? | hx x:2 ? ; hx a M*",
    ]) % w


class Pipelines:
    """C15."""
    def __init__(self, r):
        self.r = r
        self.sh = Shell(r, rd=0.05, capture=0.2, stages=(2, 2, 3, 3, 4), pipelines=(1, 1, 2), fail=0.2, missing=0.06, builtins=0)

    def case(self):
        r = self.r
        if r.random() < 0.5:
            return self.sh.case((1, 2))
        src = b""
        for _ in range(r.randint(1, 2)):
            k = r.random()
            kind = b"${" if r.random() < 0.3 else b"{"
            if k < 0.45:
                src += block(r, gated(r, r.choice([2, 3, 3, 4, 5])), kind)
            elif k < 0.65:
                src += block(r, streamed(r), kind)
                break
            else:
                src += block(r, lingering(r), kind)
                src += b'std.println(std.glob("*"))\n'
                break
        return Case(src)


class Sequences:
    """C16."""
    def __init__(self, r):
        self.r = r
        self.sh = Shell(r, rd=0.0, capture=0.25, stages=(1, 1, 1, 2, 3), pipelines=(2, 3, 3, 4), fail=0.5, missing=0.12, builtins=0.12, stdin=0.1)

    def case(self):
        r = self.r
        c = self.sh.case((1, 2))
        if r.random() < 0.25:
            c.src += block(r, lingering(r)) + b'std.println(std.glob("*"))\n'
        return c


# ------------------------------------------------------------------ capture

BYTES = bytes(range(128)) + bytes(range(0x80, 0xC0, 3)) + bytes(range(0xF5, 256))      # No characters of several bytes.


class Capture:
    """C18: captured outputs are what was written, whatever the bytes and however much."""
    def __init__(self, r, big=0.0, size=65700):
        self.r = r
        self.big = big
        self.size = size

    def stage(self, j):
        r = self.r
        ops = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            k = r.random()
            if k < 0.25:
                ops.append(r.choice([b"i", b"i", b"p:x", b"r:2"]))
            elif k < 0.6:
                ops.append(b"o:" + r.choice([b"a", b"bc", b"d", b"e\xff"]))
            else:
                ops.append(b"e:" + r.choice([b"E", b"FG", b"\xc3\xa9"]))
        if r.random() < 0.2:
            ops.append(r.choice([b"x:1", b"k:9", b"x:7"]))
        s = b"hx " + b" ".join(ops)
        if j == 0 and r.random() < 0.6:
            s += b" < " + r.choice([b"d1", b"d2", b"d3"])
        if r.random() < 0.12:
            s += r.choice([b" 2>1", b" 1>2", b" > f", b" 2> f", b" 2>1 1>2"])
        if r.random() < 0.3:
            s += b" ?"
        return s

    def case(self):
        r = self.r
        if r.random() < self.big:
            return self.large()
        files = {"d%d" % (i + 1): bytes(r.choice(BYTES) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))) for i in range(3)}
        src = b"let r = nil\n"
        for _ in range(r.randint(1, 3)):
            body = b"; ".join(b" | ".join(self.stage(j) for j in range(r.choice([1, 1, 2]))) for _ in range(r.choice([1, 1, 2, 3])))
            src += b"r = std.catch(function () ${ " + body + b" } end)\n"
            src += r.choice([b"std.println(r)\n",
                             b"if std.type(r) == \"dict\" then std.println(std.len(r.stdout), std.len(r.stderr)) std.print(r.stdout) std.print(r[\"stderr\"]) "
                             b"else std.println(r.description) std.print(r.context) end\n",
                             b"if std.type(r) == \"error\" then std.println(r.context) else let o = r.stdout { hx p:again << $o } end\n"])
        return Case(src, files=files)

    def large(self):
        """More than pipes hold: on both outputs, in any order."""
        r = self.r
        n = self.size + r.randint(0, 1000)
        ops = r.choice([[b"n:%d:a", b"N:%d:b"], [b"N:%d:a", b"n:%d:b"], [b"N:%d:a", b"n:%d:b", b"N:%d:c"], [b"n:%d:a", b"N:%d:b", b"n:%d:c"],
                        [b"N:%d:e"], [b"n:%d:o"]])
        s = b"hx " + b" ".join(o % n for o in ops)
        s = r.choice([s, s + b" ; hx o:tail e:tail", s + b" 2>1", s + b" 1>2", s + b" x:3", b"hx n:%d:q | hx i N:%d:z" % (n, n)])
        src = b"let r = ${ " + s + b" }\nif std.type(r) == \"error\" then r = r.context end\n"
        src += b"let o = r.stdout\nlet e = r.stderr\nstd.println(std.len(o), std.len(e))\n"
        src += b"{ hx h << $o; hx h << $e }\n"
        return Case(src, tag="large")


class Redirections:
    """C17."""
    def __init__(self, r, large=False):
        self.large = large
        self.r = r
        self.sh = Shell(r, rd=0.55, capture=0.3, stages=(1, 1, 2), pipelines=(1, 2, 2), fail=0.12, missing=0.05, builtins=0)

    def case(self):
        r = self.r
        if self.large:
            return Case(b"let r = ${ hx n:%d:x }\nlet s = r.stdout\n{ hx h << $s; hx h << \"$s-$s\" | hx i }\n" % r.choice([65536, 65535, 65537, 70000]),
                        tag="large")
        c = self.sh.case((1, 3))
        c.src += b"std.println(std.catch(function () ${ hx i < f } end))\n"
        return c


# ------------------------------------------------------------------ asynchronous blocks

class Async:
    """C19."""
    def __init__(self, r):
        self.r = r

    def case(self):
        r = self.r
        if r.random() < 0.6:
            sh = Shell(r, asyn=0.5, stages=(1, 1, 1, 2), pipelines=(1, 1, 2), rd=0.08, builtins=0.02, stdin=0.2, few=True)
            return sh.case((2, 3))
        if r.random() < 0.12:       # The program waits, and its blocks don't.
            n = r.choice([0, 1, 2, 15, 60, 250])
            return Case(r.choice([
                b"std.println(std.sleep(%d))\n" % n,
                b"let j = &{ hx o:a t:M g:N }\n{ hx g:M }\nstd.sleep(%d)\n{ hx t:N }\nstd.println(j.join())\n" % n,
                b"let j = &{ hx t:M }\nj.join()\nfor i in std.range(0, 3, 1) do std.print(i, std.sleep(%d)) end\nstd.println(std.glob(\"*\"))\n" % (n // 3),
                b"for v in std.iter([-1, 1.0, \"1\", nil, %d, true]) do std.println(std.catch(function () std.sleep(v) end)) end\n" % n,
                b"std.println(std.catch(std.sleep), std.catch(function () std.sleep(1, 2) end))\n",
            ]))
        src = r.choice([
            # They run at the same time as the program, and as each other.
            b"let j = &{ hx g:A o:one t:B }\n{ hx o:two t:A g:B }\nstd.println(j.join())\n",
            b"let j = &{ hx g:A e:one x:3 }\nlet k = &{ hx t:A g:B }\nlet l = &{ hx t:B x:4 ?; hx o:z }\nstd.println(k.join(), l.join(), j.join())\n",
            b"let js = []\nfor i in std.range(0, 3, 1) do std.push(js, &{ hx g:A t:B$i x:$i }) end\n{ hx t:A g:B0 g:B1 g:B2 }\n"
            b"for j in std.iter(js) do std.println(j.join()) end\n",
            b"let j = &{ hx g:A o:x | hx i; hx o:y }\nstd.println(std.glob(\"*\"))\n{ hx t:A }\nstd.println(j.join())\n",
            # join waits for all of it.
            b"let j = &{ hx w:40 t:M }\nj.join()\nstd.println(std.glob(\"*\"))\n",
            b"let j = &{ hx w:20 t:M; hx w:20 t:N x:5 }\nstd.println(j.join())\nstd.println(std.glob(\"*\"))\n",
            b"let j = &{ hx w:40 t:M | hx o:a }\nstd.println(j.join(), std.glob(\"*\"))\n",
            b"let j = &{ hx w:30 t:M x:1; hx t:N }\nlet k = &{ hx w:10 t:O }\nstd.println(k.join(), j.join(), std.glob(\"*\"))\n",
            # The variables are those of the moment when the block was started.
            b"let v = \"before\"\nlet j = &{ hx g:A a $v; hx a $v }\nv = \"after\"\n{ hx t:A }\nj.join()\nstd.println(v)\n",
            b"let v = [\"p\", \"q\"]\nlet j = &{ hx g:A ; hx a x$v }\nstd.push(v, \"r\")\n{ hx t:A }\nstd.println(j.join())\n",
            # Twice, and through other names.
            b"let j = &{ hx o:a x:2 }\nlet f = j.join\nstd.println(f())\nstd.println(std.catch(j.join))\nstd.println(std.catch(f))\n",
            b"let j = &{ nope }\nlet k = &{ hx | nope }\nstd.println(k.join(1))\nstd.println(j.join())\nstd.println(j)\n",
            b"let j = &{ hx o:x > nodir/f }\nstd.println(std.catch(j.join))\nstd.println(std.catch(j.join))\n",
            b"let e = []\nstd.println(std.catch(function () &{ $e } end))\nlet j = &{ hx 3> f }\nstd.println(std.catch(j.join))\n",
        ])
        return Case(src)


# ------------------------------------------------------------------ environment and working directory

class Surroundings:
    """C20."""
    def __init__(self, r):
        self.r = r

    KEYS = [b"K", b"L", b"LONG_name", b"PWD", b"k", b"\xc3\xa9", b"a b", b"HOME"]
    VALS = [b"", b"v", b"two words", b"=", b"x=y", b"\xff", b"\xc3\xa9", b"$K", b"*", b"{ROOT}/w", b"new\nline", b"0"]
    DIRS = [b".", b"..", b"d", b"d/e", b"../d", b"{ROOT}/w", b"{ROOT}", b"nodir", b"file", b"d/e/../..", b"./d", b"", b"d/", b"{ROOT}/w/d", b"b*d"]

    def stmt(self):
        r = self.r
        k = r.random()
        key, val, d = r.choice(self.KEYS[:5] if r.random() < 0.7 else self.KEYS), r.choice(self.VALS), r.choice(self.DIRS)
        odd = [b"", b"a=b", b"n\0l", b"="]
        if k < 0.18:
            return b"std.println(std.export(%s, %s))\n" % (strlit(r.choice(odd) if r.random() < 0.08 else key),
                                                           strlit(b"v\0w" if r.random() < 0.04 else val))
        if k < 0.32:
            return b"std.println(std.env(%s))\n" % strlit(r.choice([b"", b"nul\0l"]) if r.random() < 0.08 else key)
        if k < 0.46:
            return b"std.println(std.cd(%s))\n" % strlit(d)
        if k < 0.52:
            return b"std.println(std.cwd())\n"
        if k < 0.60:
            if r.random() < 0.12:
                return block(r, r.choice([b"cd d d", b"cd", b"cd . d nodir", b"cd '' ''", b"cd d ?; cd d d", b"cd *"]) + b"; hx d")
            if r.random() < 0.2:
                return b"std.export(\"HOME\", %s)\n" % strlit(r.choice([b"", b"h", b"d/", b"{ROOT}/w/", b"{ROOT}/w", b"a b", b"d//", b".", b"*"])) + \
                    block(r, r.choice([b"hx a ~/ ~/x ~ '~/' x~/", b"hx a ~/d/* ~/%", b"cd ~/d; hx d", b"hx o:x > ~/q; hx i < ~/q"]))
            return block(r, b"cd " + d + b"; hx d" if d and b"*" not in d else b"cd ''; hx d")
        if k < 0.72:
            return block(r, b"hx " + b" ".join(b"'v:%s'" % x for x in r.sample(self.KEYS, 3)) + b" d", b"${" if r.random() < 0.4 else b"{")
        if k < 0.82:
            k1, k2 = r.choice(self.KEYS[:5]), r.choice(self.KEYS[:5])
            return block(r, r.choice([
                b"%s=one hx v:%s v:%s; hx v:%s v:%s" % (k1, k1, k2, k1, k2),
                b"%s=one %s=two hx v:%s v:%s" % (k1, k2, k1, k2),
                b"%s=one hx v:%s t:q%s | hx i v:%s" % (k1, k1, k1, k1),
                b"%s=one nope ?; hx v:%s" % (k1, k1),
                b"%s= hx v:%s" % (k1, k1),
                b"%s='' hx v:%s v:%s; hx v:%s" % (k1, k1, k2, k1),
                b"%s=$e hx v:%s v:%s" % (k1, k1, k2),
                b"%s=\"$v\" hx v:%s" % (k1, k1),
                b"%s=%s hx v:%s o:ran" % (k1, r.choice([b"*", b"$l", b"d/*", b"f*", b"nope*", b"$one", b"%*", b"$none"]), k1)]))
        if k < 0.94:
            return block(r, r.choice([b"hx o:%s > out" % key[:1], b"hx o:x >> out", b"hx i < file", b"hx a *", b"./hx a; hx d", b"hx t:made a", b"hx a ~/ ~/x",
                                      b"cd d; hx o:y > made; hx i < made; cd ..; hx i < d/made", b"./h% a q", b"hx a %* ../*"]))
        return b"std.println(std.glob(\"%s\"))\n" % r.choice([b"*", b"../*", b"d/*", b"*/e"])

    def case(self):
        r = self.r
        src = b'let v = "V v"\nlet e = ""\nlet l = ["x", "y"]\nlet one = ["z"]\nlet none = []\n'
        for _ in range(r.randint(4, 9)):
            s = self.stmt()
            if r.random() < 0.1:
                s = b"std.println(std.catch(function ()\n" + s + b"end))\n"
            src += s
        if r.random() < 0.08:
            src += r.choice([b"std.export(1, \"v\")\n", b"std.export(\"a\")\n", b"std.env(nil)\n", b"std.cd([])\n", b"std.cwd(1)\n", b"std.env()\n",
                             b"std.export(\"k\", 2)\n"])
        files = {"w/file": "contents", "w/d/e/f": "deep", "w/d/file": "other", "w/hx": EXE, "w/d/hx": EXE, "file": "top"}
        if r.random() < 0.15:
            src += b"std.println(std.catch(function ()\nreturn %s\nend))\n" % r.choice([
                b"std.cd()", b"std.cd(1)", b"std.cd(\"d\", \"d\")", b"std.glob()", b"std.glob(nil)", b"std.glob('a')", b"std.glob(\"*\", \"*\")", b"std.env([])",
                b"std.env(\"K\", \"L\")", b"std.export()", b"std.export('a', \"v\")", b"std.export(\"k\", nil)", b"std.export(\"k\", \"v\", 1)", b"std.cwd(nil)",
                b"std.sleep()", b"std.sleep(\"1\")", b"std.sleep(1.0)", b"std.sleep(-1)", b"std.sleep(1, 1)"]) + b"std.println(std.cwd(), std.env(\"k\"))\n"
        return Case(src, files=files, cwd="w", env={"K": "outer", "a b": "spaced"} if r.random() < 0.7 else {},
                    home=None if r.random() < 0.7 else False)


# ------------------------------------------------------------------ modules

class Modules:
    """C21."""
    def __init__(self, r):
        self.r = r

    PATHS = [b"main.hsh", b"a.hsh", b"lib/b.hsh", b"lib/c.hsh", b"lib/deep/d.hsh", b"o/a.hsh"]

    def path(self, at, to):
        """A path from the module at to the module to, in one of its spellings."""
        r = self.r
        if r.random() < 0.05:
            return r.choice([b"nofile.hsh", b"lib", b"", b"a.hsh/x", b"lib/nodir/x.hsh", b"n\0l"])
        d = at.split(b"/")[:-1]
        p = b"../" * len(d) + to
        if d and to.startswith(b"/".join(d) + b"/") and r.random() < 0.7:
            p = to[len(b"/".join(d)) + 1:]
        k = r.random()
        if k < 0.12:
            p = b"./" + p
        elif k < 0.18:
            p = b"lib/../" + p if not d else b"./../" + d[-1] + b"/" + p
        elif k < 0.24:
            p = b"{ROOT}/" + to
        return p

    def body(self, i, uses, bad):
        r = self.r
        at = self.PATHS[i]
        src = b""
        v = 0
        names = []
        for _ in range(r.choice([1, 2, 2, 3]) if i < 4 else r.choice([0, 1])):
            k = r.random()
            if k < 0.62 and uses:
                t = r.choice(uses)
                imp = b"std.import(%s)" % strlit(self.path(at, self.PATHS[t]))
                n = b"m%d" % v
                v += 1
                q = r.random()
                if q < 0.45:
                    src += b"let %s = %s\n" % (n, imp)
                elif q < 0.65:
                    src += b"let %s = std.catch(function () %s end)\n" % (n, imp)
                elif q < 0.75:
                    src += b"let %s = std.catch(function ()\nlet x = 1\nlet y = %s\ny\nend)\n" % (n, imp)
                elif q < 0.85:
                    src += b"let f%s = function () let z = [%s] z[0] end\nlet %s = f%s()\n" % (n, imp, n, n)
                else:
                    src += b"let %s = [1, %s, %s][2]\n" % (n, imp, imp)
                names.append(n)
                if r.random() < 0.7:
                    src += b"if std.type(%s) == \"dict\" then std.println(\"%d\", %s.bump(), %s.n, %s == %s) else std.println(%s) end\n" % (
                        n, i, n, n, n, r.choice(names), n)
            elif k < 0.66:
                src += b"std.println(std.cd(%s))\n" % strlit(r.choice([b"lib", b"nodir", b"{ROOT}", b"o", b"{ROOT}/lib"]))
            elif k < 0.75:
                src += b"std.println(\"in %d\")\n" % i
            elif k < 0.85:
                src += b"let x%d = [\"local %d\", %d]\nlet g%d = function () x%d end\nstd.println(g%d())\n" % (v, i, v, v, v, v)
                v += 1
            elif k < 0.90:
                src += b"{ hx o:cmd%d }\n" % i
            else:
                src += b"let y%d = 10\nfor i in std.range(0, 2, 1) do y%d = y%d + i end\nstd.println(y%d)\n" % (v, v, v, v)
                v += 1
        if i > 0:
            src = b"std.println(\"load %d\")\n" % i + src
            k = r.random()
            if bad and k < 0.35:
                src += r.choice([b"1 / 0\n", b"std.panic(\"module\")\n", b"let z = undefined_name\n", b"if\n", b"let a = 1 let a = 2\n", b"nil.x\n"])
            count = b"let count = %d\nlet self0 = \"m%d\"\n" % (r.randint(0, 3), i)
            if k < 0.8:
                src += count + b"@[ n: count, name: self0, bump: function () count = count + 1 count end, inner: %s ]\n" % (r.choice(names) if names else b"nil")
            elif k < 0.88:
                src += b"[1, \"%d\"]\n" % i
            elif k < 0.94:
                src += b"function (x) [x, %d] end\n" % i
        elif names:
            src += b"std.println(std.len([%s]))\n" % b", ".join(names)
        return src

    def case(self):
        r = self.r
        n = r.randint(2, len(self.PATHS))
        bad = r.random() < 0.4
        mods = []
        for i in range(n):
            uses = list(range(i + 1, n))
            if r.random() < 0.08:
                uses.append(r.randint(0, i))
            mods.append((self.PATHS[i], self.body(i, uses, bad)))
        cwd = r.choice(["", "lib", "o"]) if n > 5 else ""
        if r.random() < 0.35:
            first = r.choice([b"main.hsh", b"./main.hsh", b"lib/../main.hsh"] if n > 2 else [b"main.hsh"]) if cwd == "" else b"../main.hsh"
            return Case(b"", modules=mods, cwd=cwd, argv=[first])
        if r.random() < 0.1:
            return Case(b"", modules=mods, cwd=cwd, argv=[], stdin=mods[0][1])
        return Case(b"", modules=mods, cwd=cwd)


# ------------------------------------------------------------------ the command line, and the end of programs

class Programs:
    """C22."""
    def __init__(self, r):
        self.r = r

    def ending(self):
        r = self.r
        return r.choice([
            b"", b"std.exit(0)\n", b"std.exit(%d)\n" % r.choice([1, 2, 3, 77, 127, 128, 254, 255]), b"std.exit(%d)\n" % r.choice([256, -1, 1000]),
            b"std.exit(\"1\")\n", b"std.exit()\n", b"std.exit(1, 2)\n", b"std.exit(1.0)\n", b"1 / 0\n", b"std.panic(\"bye\")\n", b"std.panic(std.error(\"e\", 1))\n",
            b"let a = [] a[1]\n", b"nil()\n", b"{ hx x:4 }\n", b"${ hx x:4 }\n", b"{ nope }\n", b"{ exec hx o:last x:%d }\n" % r.choice([0, 3, 255]),
            b"{ exec hx k:15 }\n", b"{ exec nope }\n", b"{ exec0 hx zero 0 x:6 }\n", b"{ exec0 hx }\n", b"{ exec }\n", b"{ hx o:p; exec hx i a }\n",
            b"std.error(\"e\", nil)\n", b"false\n", b"let f = function () std.exit(9) end\nstd.println([1, f()])\n", b"std.catch(function () std.exit(5) end)\n",
            b"std.println(std.catch(function () std.exit(-5) end))\n", b"let d = @[ x: function () 1 / 0 end ]\nd.x()\n",
            b"for i in std.range(0, 9, 1) do if i == 4 then std.exit(i) end end\n", b"let j = &{ hx w:30 t:M }\nstd.exit(3)\n",
            b"{ exec hx o:x ; hx o:never }\n", b"{ exec nope ?; hx o:next }\n"])

    def stmt(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return r.choice([b"std.print(\"p\")\n", b"std.println(\"line\")\n", b"std.print(\"a\\nb\")\n", b"std.println()\n", b"std.print(1, 2)\n"])
        if k < 0.40:
            return r.choice([b"{ hx o:cmd }\n", b"{ hx e:err }\n", b"std.print({ hx o:c | hx i })\n", b"{ hx 'o:l\\n' }\n", b"std.print(${ hx o:q })\n"])
        if k < 0.60:
            return r.choice([b"std.println(std.args())\n", b"for a in std.iter(std.args()) do std.print(\"<\", a, \">\") end\n",
                             b"let a%d = std.args()\nstd.push(a%d, 1)\nstd.println(a%d, std.args())\n", b"{ hx a $args }\n", b"std.println(std.len(std.args()))\n"])
        if k < 0.9:
            return r.choice([b"std.println(std.read())\n", b"std.println(std.read(\"prompt> \"))\n", b"let l%d = std.read()\nstd.println(std.len(l%d), std.bytes(l%d))\n",
                             b"while true do let l = std.read() if l == \"\" then break end std.print(\"[\", l, \"]\") end\n",
                             b"std.println(std.read(), std.read())\n", b"std.println(std.catch(std.read))\n"])
        return r.choice([b"std.println(std.catch(function () std.read(1) end))\n", b"std.println(std.catch(function () std.read(\"a\", \"b\") end))\n",
                         b"std.println(std.catch(function () std.args(1) end))\n"])

    def lost(self):
        """Output that can't be written."""
        r = self.r
        out = lambda: r.choice([b"std.print(\"p\")", b"std.println(\"line\")", b"std.println()", b"std.print(1, nil)", b"std.println([1])", b"std.print(\"\\n\")",
                                b"std.print(\"\", \"x\")", b"std.println(\"\")", b"std.print(\"%s\")" % (b"x" * 2000)])
        src = b"let n = 0\n"
        for i in range(r.randint(0, 3)):
            src += r.choice([b"if std.type(std.catch(function () %s end)) == \"error\" then n = n + 1 end\n", b"let f%d = function (x) %%s return 1 end\n" % i,
                             b"n = n + 10 if n > 100 then %s end\n"]) % out()
        src += r.choice([b"", out() + b"\n", b"(function () for i in std.range(0, 3, 1) do\n n = n + 1 %s end end)()\n" % out()])
        return Case(b"", modules=[("main.hsh", src + b"std.exit(n)\n")], full=True)

    STDIN = [b"", b"one\n", b"one\ntwo\n", b"one\ntwo", b"\n\nx\n", b"\n", b"\xc3\xa9\n\xe2\x82\xac", b"bad\xff\nnext\n", b"a\r\nb\r\n", b"nul\0l\n", b"x" * 300 + b"\ny\n"]

    def source(self):
        r = self.r
        src = b"let args = std.args()\n"
        for i in range(r.randint(1, 5)):
            src += self.stmt().replace(b"%d", b"%d" % i)
        return src + self.ending()

    ARGS = [b"", b"a", b"b c", b"--check", b"-x", b"--", b"-", b"\xff", b"\xc3\xa9", b"*", b"main.hsh", b"--lex", b"=", b"a\nb", b"-h", b"$x", b"0"]

    def args(self):
        r = self.r
        return [r.choice(self.ARGS) for _ in range(r.choice([0, 0, 1, 2, 3]))]

    def case(self):
        r = self.r
        src = self.source()
        if r.random() < 0.05:
            return self.lost()
        if r.random() < 0.6:
            return Case(b"", modules=[("main.hsh", src)], stdin=r.choice(self.STDIN), args=self.args())
        # Other command lines.
        broken = r.random() < 0.15
        main = r.choice([b"let\n", b"let x = y\n", b"1 = 2\n"]) if broken else src
        other = self.source().replace(b"let args", b"let other = 1\nlet args")
        k = r.random()
        first = r.choice([b"main.hsh", b"./main.hsh", b"{ROOT}/main.hsh", b"-", b"nofile", b"sub", b"other.hsh", b"main.hsh/x", b"sub/../main.hsh"])
        flags = r.choice([[], [], [], [b"--check"], [b"--check"], [b"--"], [b"--check", b"--"], [b"--check", b"--check"], [b"-x"], [b"--nope"], [b"-c"],
                          [b"-h"], [b"--help"], [b"-V"], [b"--version"], [b"--check", b"--help"], [b"--lex"], [b"--ast"], [b"--program"],
                          [b"--lex", b"--check"], [b"--ast", b"--check"], [b"--check", b"--program"], [b"--lex", b"--ast", b"--program"],
                          [b"--program", b"--lex"], [b"--ast", b"--ast"], [b"--ast", b"--"]])
        argv = flags + ([first] + self.args() if k < 0.85 else [])
        if b"--nope" in flags:            # See KNOWN_FINDINGS.
            argv = [a for a in argv if a != b"\xff"]
        stdin = r.choice([other, other, b"std.println(\"from stdin\", std.args())\n" + self.ending(), b"let\n", b"undefined\n", b""])
        return Case(b"", modules=[("main.hsh", main), ("other.hsh", b"std.println(\"other\", std.args())\n")], files={"sub": DIR}, stdin=stdin, argv=argv)
