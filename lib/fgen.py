"""Sources for the front end: layouts, static rules, expressions, literals, and things that aren't programs."""
import glob
import re
from hast import *
from hgen import *
import profiles as P

WORD = re.compile(rb"[A-Za-z0-9_]")
COMMENTS = [b"# comment\n", b"#\n", b"# end \" ' { $x\n", b"#\xc3\xa9\xff\n", b"## let x = \\\n", b"# a\rlet\n", b"# \x0c\x0blet\n"]


def space(r, wild):
    x = r.random()
    if x > wild:
        return b" "
    return b"".join(r.choice([b" ", b"\n", b"\t", b"\r\n", b"\x0c", b"  ", r.choice(COMMENTS)])
                    for _ in range(r.randint(1, 3)))


def relayout(r, src, wild=0.3):
    """The same tokens, with other space and comments between them."""
    out = bytearray()
    i = 0
    while i < len(src):
        c = src[i:i + 1]
        if c in b"\"'":
            j = i + 1
            while src[j:j + 1] != c:
                j += 2 if src[j:j + 1] == b"\\" else 1
            out += src[i:j + 1]
            i = j + 1
            continue
        if c.isspace():
            while i < len(src) and src[i:i + 1].isspace():
                i += 1
            prev, nxt = bytes(out[-1:]), src[i:i + 1]
            if WORD.match(prev) and WORD.match(nxt):
                out += space(r, wild)
            elif r.random() > 0.3:
                out += space(r, wild)
            continue
        if bytes(out[-1:]) in ((b"(", b",", b"[") if WORD.match(c) else (b"(", b")", b",", b"[", b"]")) and r.random() < wild / 3:
            out += space(r, 1)
        out += c
        i += 1
    if r.random() < wild:
        out += b"# the end, without a newline"
    return bytes(out)


# ------------------------------------------------------------------ expressions

class Exprs:
    """Typed expressions with all the operators; printed with the least parentheses."""
    def __init__(self, r):
        self.r = r

    def e(self, ty, d):
        r = self.r
        if d <= 0:
            return self.leaf(ty)
        k = r.random()
        if ty == "int":
            if k < 0.62:
                return ("bin", r.choice(["+", "-", "*", "/", "%"]), self.e("int", d - 1), self.e("int", d - 1))
            if k < 0.72:
                return ("un", "-", self.e("int", d - 1))
            if k < 0.80:
                return ("acc", ("arr", [self.e("int", d - 1), self.e("int", d - 2)]), I(r.randint(0, 1)))
            if k < 0.87:
                return std("len", self.e("str", d - 1))
            if k < 0.92:
                return ("if", self.e("bool", d - 1), [("expr", self.e("int", d - 1))], [("expr", self.e("int", d - 1))])
            if k < 0.96:
                return ("call", ("id", "f"), [self.e("int", d - 1), self.e("int", d - 2)])
            return ("call", ("acc", ("dict", [(b"m", ("fun", ["x"], [("ret", self.e("int", d - 2))]))]), S("m")), [I(1)])
        if ty == "bool":
            if k < 0.30:
                return ("sc", r.choice(["and", "or"]), self.e("bool", d - 1), self.e("bool", d - 1))
            if k < 0.45:
                return ("bin", r.choice(["==", "!="]), self.e("bool", d - 1), self.e("bool", d - 1))
            if k < 0.60:
                t = r.choice(["int", "str"])
                return ("bin", r.choice(["==", "!="]), self.e(t, d - 1), self.e(t, d - 1))
            if k < 0.85:
                t = r.choice(["int", "int", "str"])
                return ("bin", r.choice(["<", "<=", ">", ">="]), self.e(t, d - 1), self.e(t, d - 1))
            if k < 0.95:
                return ("un", "not", self.e("bool", d - 1))
            return std("is_empty", self.e("str", d - 1))
        if k < 0.7:
            return ("bin", "++", self.e("str", d - 1), self.e("str", d - 1))
        if k < 0.9:
            return std("to_string", self.e(r.choice(["int", "bool"]), d - 1))
        return ("if", self.e("bool", d - 1), [("expr", self.e("str", d - 1))], [("expr", self.e("str", d - 1))])

    def leaf(self, ty):
        r = self.r
        if ty == "int":
            return r.choice([I(r.randint(0, 9)), I(r.randint(0, 9)), ("id", "a"), ("id", "b")])
        if ty == "bool":
            return r.choice([B(True), B(False), ("id", "t"), ("id", "u")])
        return r.choice([S("x"), S("y "), ("id", "s")])

    def program(self, n=7):
        ss = [("let", "a", I(5)), ("let", "b", I(3)), ("let", "t", B(True)), ("let", "u", B(False)), ("let", "s", S("s")),
              ("let", "f", ("fun", ["x", "y"], [("expr", ("bin", "-", V("x"), V("y")))]))]
        for _ in range(n):
            ss.append(show(catch([("expr", self.e(self.r.choice(["int", "bool", "str"]), self.r.randint(2, 4)))])))
        return ss


OPS = ["or", "and", "==", "!=", "<", "<=", ">", ">=", "++", "+", "-", "*", "/", "%"]


def triples(r):
    """a op b op c, for all pairs of operators, with and without prefix operators: as text."""
    exprs = []
    for x in OPS:
        for y in OPS:
            def atom(op):
                if op in ("or", "and"):
                    return r.choice(["true", "false", "not true", "t", "not u"])
                if op == "++":
                    return r.choice(['"x"', "s"])
                return r.choice(["7", "2", "- 3", "a", "-b", "5", "1"])
            # Operands that fit both operators, as far as there are any; else, any.
            for k in range(3):
                ts = [atom(x), atom(r.choice([x, y])), atom(y)]
                if k == 1 and {x, y} <= {"==", "!=", "<", "<=", ">", ">="}:
                    ts = [r.choice(["1", "2"]), r.choice(["1", "2", "true"]), r.choice(["true", "false", "2"])]
                if k == 2:
                    ts = [r.choice(["1", "true", "a"]) for _ in range(3)]
                exprs.append("%s %s %s %s %s" % (ts[0], x, ts[1], y, ts[2]))
    r.shuffle(exprs)
    srcs = []
    for at in range(0, len(exprs), 14):
        src = "let a = 5 let b = 3 let t = true let u = false let s = \"s\"\n"
        for e in exprs[at:at + 14]:
            src += "std.println(std.catch(function() %s end))\n" % e
        srcs.append(src.encode())
    return srcs


# ------------------------------------------------------------------ static rules

class Static:
    """Programs that respect the static rules most of the time."""
    NAMES = ["a", "b", "c", "d"]

    def __init__(self, r, bad=0.06):
        self.r = r
        self.bad = bad
        self.scopes = [["std"]]
        self.infun = 0
        self.inloop = False
        self.budget = 25

    def wrong(self):
        return self.r.random() < self.bad

    def use(self):
        vis = [x for f in self.scopes for x in f if x != "std"]
        if self.wrong() or not vis:
            return self.r.choice(self.NAMES + ["zz", "self" if self.infun or self.wrong() else "std", "std"])
        return self.r.choice(vis)

    def name(self):
        free = [x for x in self.NAMES + ["e", "g"] if x not in self.scopes[-1]]
        if self.wrong() or not free:
            return self.r.choice(self.NAMES + ["std"])
        return self.r.choice(free)

    def nl(self):
        return self.r.choice([" ", "\n", "\n", "\n\n", "\n", "\n", "\x0c", "\r", "\r\n"])

    def expr(self, d=2):
        r = self.r
        self.budget -= 1
        k = r.random()
        if d <= 0 or self.budget < 0 or k < 0.25:
            return r.choice([self.use(), self.use(), str(r.randint(0, 9)), "nil", '"s"', "true"])
        if k < 0.40:
            return "(%s %s %s)" % (self.expr(d - 1), r.choice(["+", "==", "and", "++", "<"]), self.expr(d - 1))
        if k < 0.48:
            if self.infun or self.wrong():
                return "%s?" % self.expr(d - 1)
            return "not " + self.expr(d - 1)
        if k < 0.53:
            return "self" if self.infun or self.wrong() else "std"
        if k < 0.62:
            return "%s(%s)" % (self.use(), ", ".join(self.expr(d - 1) for _ in range(r.randint(0, 2))))
        if k < 0.68:
            return "%s[%s]" % (self.use(), self.expr(d - 1)) if r.random() < 0.5 else "%s.%s" % (self.use(), r.choice("abc"))
        if k < 0.76:
            ks = r.sample(["a", "b", "c"], r.randint(0, 3))
            if ks and self.wrong():
                ks.append(r.choice(ks))
            return "@[%s]" % ", ".join("%s:%s%s" % (x, self.nl(), self.expr(d - 1)) for x in ks)
        if k < 0.86:
            return self.function(d)
        if k < 0.92:
            return self.ifexpr(d)
        if k < 0.97:
            return self.command()
        return "[%s]" % ", ".join(self.expr(d - 1) for _ in range(r.randint(0, 3)))

    def function(self, d, name=""):
        saved = self.inloop
        self.infun += 1
        if not self.wrong():
            self.inloop = False
        self.scopes.append([])
        ps = []
        for _ in range(self.r.randint(0, 2)):
            x = self.name()
            ps.append(x)
            self.scopes[-1].append(x)
        b = self.block(d - 1, False)
        self.scopes.pop()
        self.infun -= 1
        self.inloop = saved
        return "function%s(%s)%s%send" % (name, ", ".join(ps), self.nl(), b)

    def ifexpr(self, d):
        s = "if %s then%s%s" % (self.expr(d - 1), self.nl(), self.block(d - 1))
        if self.r.random() < 0.2:
            s += "elseif %s then%s%s" % (self.expr(d - 1), self.nl(), self.block(d - 1))
        if self.r.random() < 0.5:
            s += "else%s%s" % (self.nl(), self.block(d - 1))
        return s + "end"

    def command(self):
        r = self.r
        open_ = r.choice(["{", "{", "${", "&{"])
        cmds = []
        for _ in range(r.randint(1, 2)):
            k = r.random()
            if k < 0.3:
                b = r.choice(["cd", "exec", "spawn0", "exec0", "alias"])
                c = "%s x" % b
                if r.random() < 0.3:
                    c += " $%s" % self.use()
                if open_ != "{" and not self.wrong():
                    c = "hx $%s" % self.use()
                elif self.wrong():
                    c += r.choice([" | hx", " > f", " 2> 1"])
                elif self.wrong():
                    c = "hx | " + c
            else:
                c = "hx " + " ".join(r.choice(["w", "$%s" % self.use(), '"$%s"' % self.use(), "*", "~/x", "'q'", "K=v"])
                                     for _ in range(r.randint(0, 3)))
                if r.random() < 0.2:
                    c = "$%s=$%s " % (self.use(), self.use()) + c
                if r.random() < 0.3:
                    c += " | hx $%s" % self.use()
                if r.random() < 0.3:
                    c += r.choice([" > $%s", " 2>> $%s", " < $%s", " << $%s"]) % self.use()
            cmds.append(c + r.choice(["", "", "?"]))
        return "%s %s }" % (open_, (";" + self.nl()).join(cmds))

    def block(self, d, scope=True, n=None):
        if scope:
            self.scopes.append([])
        out = ""
        for _ in range(self.r.randint(0, 3) if n is None else n):
            out += self.stmt(d) + self.nl()
        if scope:
            self.scopes.pop()
        return out

    def stmt(self, d):
        r = self.r
        k = r.random()
        if d <= 0:
            k *= 0.62
        if k < 0.25:
            x = self.name()
            self.scopes[-1].append(x)
            if r.random() < 0.2:
                return "let %s" % x
            return "let %s = %s" % (x, self.expr(d))
        if k < 0.32:
            x = self.name()
            self.scopes[-1].append(x)
            return self.function(d, " " + x)
        if k < 0.42:
            t = self.use()
            if self.wrong():
                t = r.choice(["1", "f()", "(a + b)", "self", "[a]", "not a"])
            elif r.random() < 0.3:
                t += r.choice([".x", "[0]", "(1).y"])
            return "%s = %s" % (t, self.expr(d - 1))
        if k < 0.55:
            return "%s(%s)" % (self.use(), self.expr(d - 1))
        if k < 0.58:
            return "break" if self.inloop or self.wrong() else "nil"
        if k < 0.62:
            if self.infun or self.wrong():
                return r.choice(["if true then return %s end" % self.expr(d - 1), "if %s then return end" % self.expr(d - 1)])
            return self.command()
        if k < 0.72:
            return self.ifexpr(d)
        saved = self.inloop
        if k < 0.87:
            c = self.expr(d - 1)
            self.inloop = True
            b = self.block(d - 1)
            self.inloop = saved
            return "while %s do%s%send" % (c, self.nl(), b)
        it = self.expr(d - 1)
        x = self.r.choice(self.NAMES + ["std"])
        self.scopes.append([x])
        self.inloop = True
        b = self.block(d - 1, False)
        self.inloop = saved
        self.scopes.pop()
        return "for %s in %s do%s%send" % (x, it, self.nl(), b)

    def program(self):
        return ("std.println(\"RAN\")\n" + self.block(3, False, self.r.randint(2, 6))).encode()


# ------------------------------------------------------------------ every snippet in every context

# Contexts of statements ("@" is the place) and of expressions ("#").
SCTX = ["@", "if x then @ end", "if x then nil else @ end", "if x then nil elseif x then @ end",
        "if x then nil elseif x then nil else @ end", "while x do @ end", "for q in x do @ end", "let u = function (p) @ end",
        "function u(p) @ end", "f(function () @ end)", "@[k: function () @ end]", "while x do nil end @", "for x in x do nil end @",
        "function u() nil end @", "@ while x do nil end", "@ function u() nil end", "let z = 0 @", "if x then let z = 0 end @",
        "@ let z = 0", "@ z = 0"]
ECTX = ["let v = #", "let v = [1, #]", "let v = @[k: #]", "f(#)", "f(1, #)", "(#)()", "#()", "(#).a", "x[#]", "(#)[1]", "(#)?", "#?", "-#", "not #",
        "x = #", "x.a = #", "x[#] = 1", "# = 1", "#.a = 1", "(#) = 1", "#[0] = 1", "1 + #", "# ++ 1", "# and x", "x or #",
        "if # then nil end", "if x then # end", "if x then nil elseif # then nil end", "if x then nil else # end",
        "while # do nil end", "for q in # do nil end", "for q in x do # end", "while x do # end",
        "let v = function () # end", "let v = function () return # end", "return #", "#", "f(if # then 1 else 2 end)", "{ hx a }? #"]
EXPRS = ["self", "x?", "x", "nil", "undeclared", "std", "q", "p", "z", "1", "(x)", "f()", "self.a", "x.a?", "f()?", "-1", "[x]",
         "[x,]", "[,]", "[x,,x]", "[,x]", "f(,)", "f(x,)", "f(x,,x)", "@[,]", "@[a: 1,]", "@[a: 1,,b: 2]", "@[a: 1, a: 2]", "@[a: 1, b: 2, a: 3]",
         "@[a: @[a: 1], b: @[a: 1]]", "@[a]", "@[1: 2]", "function (a, a) end", "function (a, b, a) end", "function (a,) end",
         "function (,) end", "function (a) let a = 1 end", "function (self) end", "function (std) std end", "function (a) a end",
         "function () self end", "function () self let z = 1 let z = 2 end", "function (a) a self let a = 1 end", "function () x? end", "function () return self? end", "function () break end", "function () return end",
         "function () function () self x? end end", "{ hx $x }", "{ hx $undeclared }", "{ hx ${x} ${ y } }", "{ hx }?", "${ hx }", "&{ hx $self }",
         "{ }", "{ hx; }", "{ ; }", "{ hx | }", "{ cd x }", "${ cd x }", "&{ cd x }", "{ cd x | hx }", "{ hx | cd x }",
         "if x then break end", "if x then return end", "if x then let z = 1 end", "if x then end", "\"$x\"", "\"a", "'a", "a'", "1.5.5", "1e5", "1.e", "x..a", "x.1"]
STMTS = ["break", "break break", "return", "return x", "return let z = 1", "return break", "let z", "let z = z", "let z = 1", "let z = 1 let z = 2",
         "let x = x", "let f = f", "let z = function () z() end", "function z() z() end", "function z(z) z end", "function z() end let z = 1",
         "z = 1 let z = 1", "let z = 1 if x then let z = 2 end", "let std = 1", "let self = 1", "let 1 = 1", "let x.a = 1", "let let = 1", "let end",
         "for z in x do let z = 1 end", "for z in z do end", "for z in x do break end", "for 1 in x do end", "for x.a in x do end",
         "while x do let z = 1 end z", "while break do end", "while x do function () break end end", "function () while x do break end end",
         "function z() for i in x do return i end end", "for z in function () break end do end", "for z in function () return self end do end",
         "x = 1 = 2", "x == 1 = 2", "x? = 1", "x?.a = 1", "x[0]? = 1", "(x) = 1", "(x.a) = 1", "(x).a = 1", "x() = 1", "x().a = 1", "x()[0] = 1",
         "1 = 1", "nil = 1", "\"a\" = 1", "[x] = 1", "[x][0] = 1", "@[a: 1].a = 1", "self = 1", "self.a = 1", "self[0] = 1", "-x = 1", "not x = 1", "x + x = 1",
         "function z() end = 1", "if x then x end = 1", "{ hx } = 1", "undeclared = 1", "undeclared.a = 1", "x.undeclared = 1", "x[undeclared] = 1",
         "if x then end else end", "if x end", "while x end", "for z in x end", "end", "else", "elseif x then", "do end", "then", "if x then else else end",
         "if x then else elseif x then end", "function (x", "function z", "f(x", "[x", "x[", "x.", "x +", "+ x", "not", "*", ";", ",", ")", "]", "}", "!", "a b", "1 1", "x x"]


def fill(ctx, inner):
    return ctx.replace("@[k", "\1").replace("@", inner).replace("\1", "@[k") if "#" not in ctx else ctx.replace("#", inner)


def place(r, chain, snippet, nl=False):
    """The snippet in a chain of contexts, the innermost first.  With nl, every token of a context has its line."""
    s = snippet
    for c in chain:
        s = fill(c.replace(" ", r.choice(["\n", " ", "\n", "\r\n", "\x0c", "\r"])) if nl else c, s)
    return ("let x = nil let f = nil\n" + s + "\n").encode()


def enumeration(r, deep):
    """Every snippet in every context; contexts in contexts, with some snippets each."""
    out = [place(r, [c], s, k) for c in SCTX for s in STMTS for k in (False,)]
    out += [place(r, [c], s, k) for c in ECTX for s in EXPRS for k in (False,)]
    key = ["break", "return 1", "x?", "self", "undeclared", "let z = 1", "z"]
    for a in SCTX + ["f(function (p) if x then @ end end)"]:
        for b in SCTX:
            out += [place(r, [a, b], s, True) for s in key]
    for _ in range(deep):
        if r.random() < 0.5:
            chain, s = [r.choice(SCTX)], r.choice(STMTS)
        else:
            chain, s = [r.choice(ECTX), r.choice(SCTX)], r.choice(EXPRS)
        if r.random() < 0.4:
            s += r.choice([" ", "\n"]) + r.choice(STMTS + EXPRS)
        for _ in range(r.choice([0, 1, 1, 2])):
            if r.random() < 0.25:
                chain += ["function (p) @ end", r.choice(ECTX)]
            chain.append(r.choice(SCTX))
        out.append(place(r, chain, s, r.random() < 0.5))
    return out


# Every byte, in places where it may or may not belong ("\x01" is the place).
PLACES = [b"std.println(1,\x01 2)", b"std.println(1\x01, 2)", b"std.println(std\x01.len([]))", b"let x\x01= 1 std.println(x)", b"let \x01x = 1",
          b"let a\x01b = 1", b"std.println(1\x012)", b"std.println(1.\x015)", b"std.println(\x01)", b"std.println(\"a\x01b\")", b"std.println(\"a\\\x01b\")",
          b"std.println('\x01')", b"std.println('\\\x01')", b"std.println(1) # a\x01b(\nstd.println(2)", b"std.println(1)\x01", b"\x01std.println(1)",
          b"std.println(1 \x01= 1)", b"std.println(1 \x01 1)", b"std.println(@[a\x01: 1])", b"let f = function\x01f() end",
          b"std.println(\x01[1])", b"std.println(@\x01[])"]
CPLACES = [b"{ hx a\x01b }", b"{ hx\x01 }", b"{ \x01hx }", b"{ hx \x01 a }", b"{ hx \"a\x01\" }", b"{ hx 'a\x01' }", b"{ hx a\\\x01b }", b"{ hx $x\x01 }", b"{ hx ${\x01x} }",
           b"{ hx $\x01 }", b"{ hx a >\x01 f }", b"{ hx 2\x01 }", b"{ hx 2>\x01 }", b"\x01{ hx }", b"{ A\x01=b hx }", b"{ hx # \x01\n }", b"{ hx ~\x01 }"]


def bytewise(places):
    return [b"let x = 1\n" * (b"hx" in t) + t.replace(b"\x01", bytes([b])) for t in places for b in range(256)]


# ------------------------------------------------------------------ mutations and noise

TOKENS = [b"let", b"if", b"then", b"else", b"elseif", b"end", b"for", b"in", b"do", b"while", b"function", b"return",
          b"break", b"self", b"nil", b"true", b"not", b"and", b"or", b"(", b")", b"[", b"]", b"@[", b"{", b"}", b"${", b"&{",
          b",", b".", b":", b"?", b"=", b"==", b"!=", b"<", b">", b"<=", b"++", b"+", b"-", b"*", b"/", b"%", b"1", b"2.5",
          b"\"s\"", b"'c'", b"x", b"std", b"|", b";", b">>", b"2>", b"<<", b"$x", b"*", b"~/", b"hx", b"cd", b"\n", b"#", b"!",
          b"@", b"&", b"$", b"\\", b"'", b"\"", b"\"$x\"", b"0x", b"1e5", b"1.e", b"9223372036854775808"]
TOK = re.compile(rb"\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)*'|[A-Za-z_]\w*|\d[\w.]*|\s+|[<>=!+@$&]?[^\sA-Za-z0-9_]", re.S)


def mutate_tokens(r, src):
    ts = TOK.findall(src)
    if not ts:
        return src
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.random()
        i = r.randrange(len(ts))
        if k < 0.35:
            del ts[i]
        elif k < 0.5:
            ts.insert(i, ts[r.randrange(len(ts))])
        elif k < 0.8:
            ts.insert(i, b" " + r.choice(TOKENS) + b" ")
        elif k < 0.9:
            ts[i] = r.choice(TOKENS)
        else:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        if not ts:
            return b""
    return b"".join(ts)


def mutate_bytes(r, src):
    b = bytearray(src)
    for _ in range(r.choice([1, 1, 2, 5])):
        k = r.random()
        i = r.randrange(len(b) + 1)
        if k < 0.3:
            del b[i:i + r.choice([1, 1, 2, 8])]
        elif k < 0.6:
            b[i:i] = bytes([r.choice(b"\"'\\{}()[]$&?|;<>#=@*~%!\n\x00\xff\x80 .:,-+e0a")])
        elif k < 0.75:
            b[i:i] = bytes([r.randrange(256)])
        elif k < 0.85:
            del b[i:]
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.randint(1, 20)]
    return bytes(b)


def soup(r):
    return b"".join(r.choice(TOKENS) + r.choice([b" ", b" ", b"\n", b""]) for _ in range(r.randint(1, 25)))


def noise(r):
    k = r.random()
    if k < 0.5:
        return bytes(r.randrange(256) for _ in range(r.randint(0, 40)))
    if k < 0.8:
        return bytes(r.choice(b"\"'\\{}()[]$&?|;<>#=@*~%!\n\t 0123ab_.:,-+") for _ in range(r.randint(0, 60)))
    return b"{ " + bytes(r.choice(b"\"'\\}$?|;<>#=*~% \n12ab/_{[") for _ in range(r.randint(0, 40))) + b" }"


def corpus(limit=3000):
    """The project's own scripts."""
    res = []
    for f in sorted(glob.glob("/repo/**/*.hsh", recursive=True)):
        if "/target/" in f:
            continue
        with open(f, "rb") as h:
            s = h.read()
        if len(s) <= limit:
            res.append(s)
    return res


# ------------------------------------------------------------------ literals

class Literals:
    """Programs that print literals of all the forms, valid or not."""
    def __init__(self, r):
        self.r = r

    def digits(self, a, b):
        return "".join(self.r.choice("0123456789") for _ in range(self.r.randint(a, b)))

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.choice([self.digits(1, 3), self.digits(17, 20), "0", "007", "9223372036854775807", "9223372036854775808",
                             "922337203685477580%d" % r.randint(0, 9), "00000000000000000000000000000001", "-9223372036854775807"])
        if k < 0.75:
            ip = r.choice(["0", "1", "10", "123", "00", "4095"])
            fp = r.choice(["0", "5", "25", "75", "125", "50", "0000", "500"])
            ex = r.choice(["", "", "", "e0", "e1", "E2", "e3"])
            if r.random() < 0.6:
                ip = r.choice([self.digits(1, 4), self.digits(5, 20), "9007199254740993", "18446744073709551616", "0", "000", "4503599627370497"])
                fp = r.choice([self.digits(1, 5), self.digits(10, 25), "1", "5", "49999999999999999", "50000000000000001", "000000001"])
                ex = r.choice(["", "", "", "e%d" % r.randint(0, 30), "E%d" % r.randint(280, 320), "e00", "e007", "e99999999999"])
            return "%s.%s%s" % (ip, fp, ex) if r.random() < 0.8 else ip + (ex or "e2")
        return r.choice(["1.", ".5", "1e", "1e+5", "1.5.5", "1..2", "1.x", "1x", "0x10", "1_000", "1e5e5", "1.e5", "5.std", "1.5e", "1e1"])

    def text(self, q):
        r = self.r
        out = b""
        for _ in range(r.randint(0, 8)):
            k = r.random()
            if k < 0.4:
                out += bytes([r.choice(b"abcXYZ 019.,;{}$#|@-_")])
            elif k < 0.7:
                out += b"\\" + r.choice([b"n", b"t", b"0", b"\\", b"\"", b"'"])
            elif k < 0.74:
                out += b"\\" + bytes([r.choice(b"rxeu1 n$#")])
            elif k < 0.82:
                out += r.choice([b"\n", b"\t", b"\r", b"\x00", b"\x7f"])
            elif k < 0.9:
                out += r.choice([b"\xc3\xa9", b"\xff", b"\x80", b"\xf0\x9f\x98\x80"])
            else:
                out += b"'" if q == b"\"" else b"\""
        return q + out + q

    def byte(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return b"'" + bytes([r.randrange(32, 127)]) + b"'"
        if k < 0.7:
            return b"'\\" + bytes([r.choice(b"nt0\\'\"")]) + b"'"
        if k < 0.85:
            return b"'" + bytes([r.randrange(256)]) + b"'"
        return r.choice([b"''", b"'ab'", b"'\\x'", b"'", b"'\\'", b"'\xc3\xa9'", b"'''", b"'\n'", b"'\\\n'"])

    def word(self):
        """Words that are keywords, or just look like them."""
        r = self.r
        return r.choice(["nil", "true", "false", "nill", "truely", "falsey", "endx", "_", "_1", "x1", "letx", "iff", "selfish",
                         "notx", "orx", "and1", "stdx", "elif", "elsif", "fn", "func", "fun", "def", "var", "const", "loop", "null", "None", "match",
                         "import", "done", "fi", "until", "repeat", "local", "switch", "case", "try", "catch", "panic", "begin", "xor", "is", "as", "of",
                         "continue", "this", "std", "use", "mod", "type", "global", "function_", "é", "x-y", "x'", "1x", "Nil", "TRUE"])

    def item(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            n = self.number()
            return ("std.println(std.type(%s), %s)" % (n, n)).encode()
        if k < 0.6:
            t = self.text(b"\"")
            return b"std.println(std.len(" + t + b"), " + t + b", [" + t + b"])"
        if k < 0.8:
            c = self.byte()
            return b"std.println(std.type(" + c + b"), " + c + b", [" + c + b"])"
        if k < 0.9:
            w = self.word()
            return ("let %s = 1 std.println(%s)" % (w, w)).encode() if r.random() < 0.6 else \
                   ("std.println(@[%s: 1].%s)" % (w, w)).encode()
        return r.choice(COMMENTS) + b"std.println(1" + r.choice(COMMENTS) + b")"

    def program(self):
        r = self.r
        return b"\n".join(self.item() for _ in range(r.choice([1, 1, 2, 4]))) + r.choice([b"\n", b"", b"#", b"\n\n"])
