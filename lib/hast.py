"""Programs: abstract syntax, rendering as source text, and the table of nodes of the specification.

Expressions: ("lit", kind, v), ("arr", es), ("dict", [(key, e)]), ("fun", params, stmts), ("id", x),
("self",), ("std", f), ("un", op, a), ("bin", op, a, b), ("sc", op, a, b), ("if", c, th, el),
("acc", o, f), ("call", f, args).
Statements: ("let", x, e), ("asg", target, e), ("ret", e), ("brk",), ("while", c, ss),
("for", x, e, ss), ("expr", e).
"""

BASE = 10000


def bigint(n):
    if n == 0:
        return [0]
    r = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        r.append(n % BASE)
        n //= BASE
    return r


def fnorm(n, k):
    """n / 2^k in the specification's representation."""
    if n == 0:
        return [1, 1]
    while n % 2 == 0:
        n //= 2
        k -= 1
    return [0, k] + bigint(n)


def frepr(x):
    """A Python float in it."""
    if x != x:
        return [3, 0]
    if x in (float("inf"), float("-inf")):
        return [2, 1 if x > 0 else -1]
    if x == 0:
        return [1, -1 if str(x)[0] == "-" else 1]
    n, d = x.as_integer_ratio()
    return fnorm(n, d.bit_length() - 1)


def value(kind, v):
    if kind == "nil":
        return {"t": "nil", "v": []}
    if kind == "bool":
        return {"t": "bool", "v": [1 if v else 0]}
    if kind == "int":
        return {"t": "int", "v": bigint(v)}
    if kind == "float":     # (numerator, exponent of the denominator)
        return {"t": "float", "v": frepr(float(v)) if isinstance(v, str) else fnorm(*v)}
    if kind == "char":
        return {"t": "char", "v": [v]}
    if kind == "str":
        return {"t": "string", "v": list(v)}
    raise ValueError(kind)


def ftext(n, k):
    assert n >= 0
    p = 2 ** k
    ip, fp = divmod(n, p)
    return "%d.%s" % (ip, str(fp * 5 ** k).rjust(k, "0") if k else "0")


ESC = {34: '\\"', 92: "\\\\", 10: "\\n", 9: "\\t", 0: "\\0"}


def strlit(b):
    return b'"' + b"".join(ESC[c].encode() if c in ESC else bytes([c]) for c in b) + b'"'


CESC = {39: "\\'", 92: "\\\\", 10: "\\n", 9: "\\t", 0: "\\0"}


def charlit(c):
    return b"'" + (CESC[c].encode() if c in CESC else bytes([c])) + b"'"


import re
IDENT = re.compile(rb"^[A-Za-z_][A-Za-z0-9_]*\Z")
KEYWORDS = {b"let", b"if", b"then", b"else", b"elseif", b"end", b"for", b"in", b"do", b"while", b"function",
            b"return", b"break", b"self", b"true", b"false", b"nil", b"not", b"and", b"or", b"std", b"elsif"}

PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "++": 5,
        "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}
P_UN = 8
P_POST = 9
P_ATOM = 10


class Fun:
    """A function being compiled: its declarations and scopes."""
    def __init__(self, parent):
        self.parent = parent
        self.scopes = [{}]
        self.ns = 0
        self.fv = []

    def declare(self, x):
        self.ns += 1
        self.scopes[-1][x] = self.ns
        return self.ns

    def resolve(self, x):
        for s in reversed(self.scopes):
            if x in s:
                return True
        if self.parent is None:
            raise KeyError("undeclared " + x)
        if x not in self.fv:
            self.parent.resolve(x)
            self.fv.append(x)
        return True


class Prog:
    """Renders and compiles; minimal: no parentheses that the grammar doesn't need."""
    def __init__(self, stmts, minimal=False):
        self.minimal = minimal
        self.nodes = []
        self.buf = bytearray()
        self.line = 1
        self.indent = 0
        self.fun = Fun(None)
        self.root = self.block(stmts, True)
        self.src = bytes(self.buf)
        self.ns = self.fun.ns

    def case(self):
        return {"nodes": self.nodes, "root": self.root, "ns": self.ns}

    # -- output
    def w(self, s):
        if isinstance(s, str):
            s = s.encode()
        self.line += s.count(b"\n")
        self.buf += s

    def nl(self):
        self.w("\n" + "  " * self.indent)

    def new(self, **nd):
        nd.setdefault("ln", self.line)
        self.nodes.append(nd)
        return len(self.nodes)

    # -- statements
    def block(self, stmts, multi, scope=True):
        """Renders statements; multi: each on a line of its own."""
        ln = self.line
        if scope:
            self.fun.scopes.append({})
        items = []
        self.indent += 1
        for i, s in enumerate(stmts):
            if multi:
                self.nl()
            elif i > 0:
                self.w(" ")
            items.append(self.stmt(s, multi))
        self.indent -= 1
        if scope:
            self.fun.scopes.pop()
        return self.new(k="blk", items=items, ln=ln)

    def close(self, multi):
        if multi:
            self.nl()
            self.w("end")
        else:
            self.w(" end")

    def function(self, e, name, multi):
        ln = self.line
        self.w("function" + (" " + name if name else "") + "(" + ", ".join(e[1]) + ")" + ("" if multi else " "))
        self.fun = Fun(self.fun)
        for x in e[1]:
            self.fun.declare(x)
        b = self.block(e[2], multi, False)
        self.close(multi)
        f = self.fun
        self.fun = f.parent
        return self.new(k="fun", params=list(e[1]), body=b, fv=f.fv, ns=f.ns, ln=ln)

    def ifrest(self, e, ln, multi):
        """From the condition of an if on; an else with nothing but another if may be an elseif."""
        c = self.expr(e[1], 0)
        self.w(" then" + ("" if multi else " "))
        th = self.block(e[2], multi)
        el = 0
        if e[3] is not None:
            if multi:
                self.nl()
            else:
                self.w(" ")
            ln2 = self.line
            if len(e[3]) == 1 and e[3][0][0] == "expr" and e[3][0][1][0] == "if" and len(self.nodes) % 4:
                self.w("elseif ")
                i = self.ifrest(e[3][0][1], ln2, multi)
                return self.new(k="if", c=c, th=th, ln=ln,
                                el=self.new(k="blk", items=[self.new(k="expr", e=i, ln=ln2)], ln=ln2))
            self.w("else" + ("" if multi else " "))
            el = self.block(e[3], multi)
        self.close(multi)
        return self.new(k="if", c=c, th=th, el=el, ln=ln)

    def stmt(self, s, multi):
        k = s[0]
        ln = self.line
        if k == "let":
            sl = self.fun.declare(s[1])
            if s[2][0] == "fun" and len(self.nodes) % 2:
                e = self.function(s[2], s[1], multi)
            else:
                self.w("let " + s[1] + " = ")
                e = self.expr(s[2], 0, multi)
            return self.new(k="let", name=s[1], sl=sl, e=e, ln=ln)
        if k == "asg":
            t = s[1]
            if t[0] == "id":
                self.fun.resolve(t[1])
                self.w(t[1] + " = ")
                e = self.expr(s[2], 0, multi)
                return self.new(k="asg", name=t[1], o=0, f=0, e=e, ln=ln)
            o = self.expr(t[1], P_POST)
            f = self.field(t[2])
            self.w(" = ")
            e = self.expr(s[2], 0, multi)
            return self.new(k="asg", o=o, f=f, e=e, ln=ln)
        if k == "ret":
            self.w("return ")
            e = self.expr(s[1], 0, multi)
            return self.new(k="ret", e=e, ln=ln)
        if k == "brk":
            self.w("break")
            return self.new(k="brk", ln=ln)
        if k == "while":
            self.w("while ")
            c = self.expr(s[1], 0)
            self.w(" do" + ("" if multi else " "))
            b = self.block(s[2], multi)
            self.close(multi)
            return self.new(k="while", c=c, b=b, ln=ln)
        if k == "for":
            self.w("for " + s[1] + " in ")
            e = self.expr(s[2], 0)
            self.w(" do" + ("" if multi else " "))
            self.fun.scopes.append({})
            sl = self.fun.declare(s[1])
            b = self.block(s[3], multi, False)
            self.fun.scopes.pop()
            self.close(multi)
            return self.new(k="for", name=s[1], sl=sl, e=e, b=b, ln=ln)
        if k == "expr":
            e = self.expr(s[1], 0, multi)
            return self.new(k="expr", e=e, ln=ln)
        raise ValueError(k)

    # -- expressions
    def field(self, f):
        if f[0] == "lit" and f[1] == "str" and IDENT.match(f[2]) and f[2] not in KEYWORDS and len(f) == 3:
            self.w(b"." + f[2])
            return self.new(k="lit", v=value("str", f[2]))
        self.w("[")
        n = self.expr(f, 0)
        self.w("]")
        return n

    def prec(self, e):
        k = e[0]
        if k in ("bin", "sc"):
            return PREC[e[1]]
        if k == "un":
            return P_POST if e[1] == "?" else P_UN
        if k in ("acc", "call", "std"):
            return P_POST
        if k in ("fun", "if") and not self.minimal:
            return P_UN
        return P_ATOM

    def expr(self, e, prec, multi=False):
        """prec: the least precedence that needs no parentheses here."""
        p = self.prec(e)
        paren = p < prec if self.minimal else (p < P_POST and prec > 0)
        if paren:
            self.w("(")
        n = self.expr1(e, multi and not paren)
        if paren:
            self.w(")")
        return n

    def expr1(self, e, multi):
        k = e[0]
        ln = self.line
        if k == "lit":
            kind, v = e[1], e[2]
            if kind == "nil":
                self.w("nil")
            elif kind == "bool":
                self.w("true" if v else "false")
            elif kind == "int":
                self.w(str(v))
            elif kind == "float":
                self.w(v if isinstance(v, str) else ftext(*v))
            elif kind == "char":
                self.w(charlit(v))
            else:
                self.w(strlit(v))
            return self.new(k="lit", v=value(kind, v), ln=ln)
        if k == "id":
            self.fun.resolve(e[1])
            self.w(e[1])
            return self.new(k="id", name=e[1], ln=ln)
        if k == "self":
            self.w("self")
            return self.new(k="self", ln=ln)
        if k == "std":
            self.w("std." + e[1])
            return self.new(k="std", f=e[1], ln=ln)
        if k == "arr":
            self.w("[")
            items = []
            for i, x in enumerate(e[1]):
                if i:
                    self.w(", ")
                items.append(self.expr(x, 0))
            self.w("]")
            return self.new(k="arr", items=items, ln=ln)
        if k == "dict":
            self.w("@[")
            items = []
            for i, (key, x) in enumerate(e[1]):
                if i:
                    self.w(", ")
                self.w(key + b": ")
                items.append(self.expr(x, 0))
            self.w("]")
            return self.new(k="dict", keys=[list(key) for key, _ in e[1]], items=items, ln=ln)
        if k == "fun":
            return self.function(e, "", multi)
        if k == "un":
            if e[1] == "?":
                a = self.expr(e[2], P_POST)
                self.w("?")
            else:
                self.w("-" if e[1] == "-" else "not ")
                a = self.expr(e[2], P_UN)
            return self.new(k="un", op=e[1], a=a, ln=ln)
        if k in ("bin", "sc"):
            p = PREC[e[1]]
            a = self.expr(e[2], p)
            self.w(" " + e[1] + " ")
            b = self.expr(e[3], p + 1)
            return self.new(k=k, op=e[1], a=a, b=b, ln=ln)
        if k == "if":
            self.w("if ")
            return self.ifrest(e, ln, multi)
        if k == "acc":
            o = self.expr(e[1], P_POST)
            f = self.field(e[2])
            return self.new(k="acc", o=o, f=f, ln=ln)
        if k == "call":
            f = self.expr(e[1], P_POST)
            self.w("(")
            args = []
            for i, x in enumerate(e[2]):
                if i:
                    self.w(", ")
                args.append(self.expr(x, 0, multi and i == len(e[2]) - 1))
            self.w(")")
            return self.new(k="call", f=f, args=args, ln=ln)
        raise ValueError(k)


# Shorthands.
NIL = ("lit", "nil", None)


def I(n):
    return ("lit", "int", n) if n >= 0 else ("un", "-", ("lit", "int", -n))


def F(n, k=0):
    return ("lit", "float", (n, k)) if n >= 0 else ("un", "-", ("lit", "float", (-n, k)))


def FT(text):
    """The float that has the text (without a sign, and as a literal)."""
    return ("lit", "float", text)


def S(b):
    return ("lit", "str", b if isinstance(b, bytes) else b.encode())


def C(c):
    return ("lit", "char", c if isinstance(c, int) else ord(c))


def B(b):
    return ("lit", "bool", b)


def V(x):
    return ("id", x)


def std(f, *args):
    return ("call", ("std", f), list(args))


def show(*args):
    return ("expr", std("println", *args))


def catch(stmts):
    return std("catch", ("fun", [], stmts))
