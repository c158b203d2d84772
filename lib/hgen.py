"""Random programs for the abstract machine: typed, so that most of them mean something, with some
type errors on purpose.  Programs terminate, and build no values that contain themselves."""
from hast import *

INTS = [0, 1, 2, 3, 5, 7, 10, -1, -2, -3, 63, 64, 100, 255, 256, 1000, 2**31 - 1, 2**31, 2**32, 2**53,
        2**62, 2**63 - 1, -2**31, -2**62, -(2**63 - 1), 3037000500, 4294967296 + 1, 999999999999]
STRS = [b"", b"a", b"b", b"ab", b"abc", b"aab", b"x y", b" x ", b"12", b"-7", b"a,b", b"a\tb\n", b"q\"q",
        b"it's", b"\\", b"zz", b"aaa", b"B", b"nil", b"1.5", b"\xc3\xa9", b"a b c", b"0"]
CHARS = [97, 98, 32, 44, 48, 122, 10, 39, 34, 0, 127, 65]
FLTS = [(0, 0), (1, 0), (1, 1), (3, 1), (5, 2), (7, 0), (1, 3), (-1, 0), (-5, 1), (100, 0), (-3, 2), (9, 2)]
SCALARS = ["int", "float", "bool", "str", "char", "nil"]


def ty_arr(t):
    return ("arr", t)


def ty_dict(t):
    return ("dict", t)


class Var:
    def __init__(self, name, ty, ro=False):
        self.name, self.ty, self.ro = name, ty, ro


class Gen:
    def __init__(self, rng, wild=0.04, **w):
        self.r = rng
        self.wild = wild
        self.vars = []          # Stack of scopes: lists of Var.
        self.depth = 0          # Of functions.
        self.loops = 0
        self.cnt = 0
        self.budget = 60        # Of nodes, roughly.
        self.selfty = None
        self.retty = []         # The return types of the enclosing functions.
        self.w = w

    # -- scopes
    def visible(self):
        seen = set()
        for sc in reversed(self.vars):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    yield v

    def named(self, ty):
        return [v for v in self.visible() if v.ty == ty]

    def fresh(self, p="v"):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    def name(self, reuse=0.5):
        """A name for a declaration: often one that shadows another."""
        here = {v.name for v in self.vars[-1]}
        pool = [x for x in "abcde" if x not in here]
        if pool and self.r.random() < reuse:
            return self.r.choice(pool)
        return self.fresh()

    def chance(self, p):
        return self.r.random() < p

    def pick(self, *alts):
        """alts: (weight, thunk)."""
        alts = [a for a in alts if a[0] > 0]
        x = self.r.random() * sum(a[0] for a in alts)
        for a in alts:
            x -= a[0]
            if x < 0:
                return a[1]()
        return alts[-1][1]()

    # -- expressions
    def lit(self, ty):
        r = self.r
        if ty == "int":
            return I(r.choice(INTS) if r.random() < self.w.get("bigint", 0.15) else r.randint(-4, 12))
        if ty == "float":
            return F(*r.choice(FLTS))
        if ty == "bool":
            return B(r.random() < 0.5)
        if ty == "str":
            return S(r.choice(STRS))
        if ty == "char":
            return C(r.choice(CHARS))
        if ty == "nil":
            return NIL
        if ty == "err":
            return std("error", S(r.choice([b"bad", b"oops", b""])), self.lit(r.choice(SCALARS)))
        if ty[0] == "arr":
            return ("arr", [self.lit(ty[1]) for _ in range(r.randint(0, 3))])
        if ty[0] == "dict":
            ks = r.sample([b"a", b"b", b"key", b"x"], r.randint(0, 3))
            return ("dict", [(k, self.lit(ty[1])) for k in ks])
        if ty[0] == "fun":
            return self.function(ty)
        raise ValueError(ty)

    def anyty(self):
        return self.r.choice(SCALARS + [ty_arr("int"), ty_arr("str"), ty_dict("int"), "err"])

    def expr(self, ty, d=3):
        self.budget -= 1
        if self.wild and self.chance(self.wild):
            ty = self.anyty()
        if d <= 0 or self.budget < 0:
            vs = self.named(ty)
            if vs and self.chance(0.7):
                return V(self.r.choice(vs).name)
            return self.lit(ty)
        alts = [(1.0, lambda: self.lit(ty))]
        vs = self.named(ty)
        if vs:
            alts.append((3.0, lambda: V(self.r.choice(vs).name)))
        # Elements and results of what's in scope.
        arrs = self.named(ty_arr(ty))
        if arrs:
            alts.append((1.0, lambda: ("acc", V(self.r.choice(arrs).name), self.index(d))))
        dicts = self.named(ty_dict(ty))
        if dicts:
            alts.append((1.0, lambda: ("acc", V(self.r.choice(dicts).name), S(self.r.choice([b"a", b"b", b"key", b"x"])))))
        funs = [v for v in self.visible() if v.ty[0] == "fun" and v.ty[2] == ty]
        if funs:
            alts.append((self.w.get("call", 2.5), lambda: self.callvar(self.r.choice(funs), d)))
        alts.append((0.5, lambda: self.ifexpr(ty, d)))
        alts.append((0.25, lambda: ("call", self.function(("fun", ("int",), ty)), [self.expr("int", d - 1)])))
        alts.append((0.3, lambda: ("acc", ("arr", [self.expr(ty, d - 1) for _ in range(self.r.randint(1, 3))]), self.index(d))))
        if ty == "int":
            alts.append((2.5, lambda: ("bin", self.r.choice(["+", "-", "*", "/", "%", "+", "-"]),
                                      self.expr("int", d - 1), self.expr("int", d - 1))))
            alts.append((0.4, lambda: ("un", "-", self.expr("int", d - 1))))
            alts.append((0.6, lambda: std("len", self.expr(self.r.choice(["str", ty_arr("int"), ty_dict("int")]), d - 1))))
            alts.append((0.2, lambda: std("int", self.expr(self.r.choice(["int", "float", "str"]), d - 1))))
        elif ty == "float":
            alts.append((1.5, lambda: ("bin", self.r.choice(["+", "-", "*", "/", "%", "+"]),
                                      self.expr("float", d - 1), self.expr("float", d - 1))))
            alts.append((0.4, lambda: ("un", "-", self.expr("float", d - 1))))
            alts.append((0.2, lambda: std("float", self.expr(self.r.choice(["int", "float"]), d - 1))))
        elif ty == "bool":
            alts.append((1.5, lambda: self.comparison(d)))
            alts.append((0.7, lambda: ("un", "not", self.expr("bool", d - 1))))
            alts.append((1.2, lambda: ("sc", self.r.choice(["and", "or"]), self.expr("bool", d - 1), self.expr("bool", d - 1))))
            alts.append((0.4, lambda: std("is_empty", self.expr(self.r.choice(["str", ty_arr("int")]), d - 1))))
            alts.append((0.4, lambda: std("contains", self.expr(ty_arr("int"), d - 1), self.expr("int", d - 1))))
        elif ty == "str":
            alts.append((1.5, lambda: ("bin", "++", self.expr("str", d - 1), self.expr("str", d - 1))))
            alts.append((0.5, lambda: std("to_string", self.expr(self.r.choice(["int", "bool", "str", "nil"]), d - 1))))
            alts.append((0.3, lambda: std("type", self.expr(self.anyty(), d - 1))))
            alts.append((0.2, lambda: std("trim", self.expr("str", d - 1))))
        elif ty == "char":
            alts.append((0.7, lambda: ("acc", self.expr("str", d - 1), self.index(d))))
        elif ty == "err":
            alts.append((0.7, lambda: std("error", self.expr("str", d - 1), self.expr(self.r.choice(SCALARS), d - 1))))
        elif ty[0] == "arr":
            alts.append((1.5, lambda: ("arr", [self.expr(ty[1], d - 1) for _ in range(self.r.randint(0, 3))])))
        elif ty[0] == "dict":
            def mk():
                ks = self.r.sample([b"a", b"b", b"key", b"x"], self.r.randint(0, 3))
                return ("dict", [(k, self.expr(ty[1], d - 1)) for k in ks])
            alts.append((1.5, mk))
        if self.retty and self.chance(self.w.get("try", 0.08)):
            return ("un", "?", self.pick(*alts))
        return self.pick(*alts)

    def comparison(self, d):
        t = self.r.choice(["int", "int", "int", "float", "str", "char"])
        if self.chance(0.4):
            t = self.r.choice(SCALARS + [ty_arr("int"), ty_dict("int"), "err"])
            return ("bin", self.r.choice(["==", "!="]), self.expr(t, d - 1), self.expr(t, d - 1))
        return ("bin", self.r.choice(["<", "<=", ">", ">=", "==", "!="]), self.expr(t, d - 1), self.expr(t, d - 1))

    def index(self, d):
        return I(self.r.choice([0, 0, 0, 1, 1, 2, 3, -1])) if self.chance(0.8) else self.expr("int", d - 1)

    def ifexpr(self, ty, d):
        el = self.vblock(ty, d - 1)
        if self.chance(0.3):
            el = [("expr", ("if", self.expr("bool", d - 1), self.vblock(ty, d - 1), el))]
        return ("if", self.expr("bool", d - 1), self.vblock(ty, d - 1), el)

    def vblock(self, ty, d):
        """A block with a value."""
        self.vars.append([])
        ss = []
        if self.chance(0.3) and self.budget > 0:
            ss = [self.simple(d)]
        ss.append(("expr", self.nonparen(self.expr(ty, d))))
        self.vars.pop()
        return ss

    def nonparen(self, e):
        """An expression that can follow another statement: not starting with ( or [ or -."""
        while True:
            f = e
            while f[0] in ("bin", "sc", "acc", "call"):
                f = f[2] if f[0] in ("bin", "sc") else f[1]
                if f[0] == "un" and f[1] == "?":
                    f = f[2]
            if e[0] in ("lit", "id", "std", "if", "fun") or (e[0] in ("call", "acc") and f[0] in ("id", "std")):
                return e
            x = ("if", B(True), [("ret0", e)], None)
            # Through a variable-free context: if true then <e> end is fine, since `then e` starts afresh.
            return ("if", B(True), [("expr", e)], [("expr", NIL)])

    def args(self, tys, d):
        a = [self.expr(t, d - 1) for t in tys]
        if self.wild and self.chance(self.wild / 2):
            if a and self.chance(0.5):
                a.pop()
            else:
                a.append(self.lit("int"))
        return a

    def callvar(self, v, d):
        return ("call", V(v.name), self.args(v.ty[1], d))

    def function(self, ty, stmts=2):
        """A function literal."""
        params = []
        sc = []
        for t in ty[1]:
            x = self.r.choice([p for p in ["a", "b", "c", "x", "y", "n"] if p not in params])
            params.append(x)
            sc.append(Var(x, t))
        self.vars.append(sc)
        loops, self.loops = self.loops, 0
        self.depth += 1
        self.retty.append(ty[2])
        body = []
        if self.budget > 0:
            for _ in range(self.r.randint(0, stmts)):
                body += self.stmt()
        e = self.expr(ty[2], 2)
        body.append(("ret", e) if self.chance(0.6) else ("expr", self.nonparen(e)))
        self.retty.pop()
        self.depth -= 1
        self.loops = loops
        self.vars.pop()
        return ("fun", params, body)

    # -- statements
    def simple(self, d=2):
        """A statement without blocks."""
        vs = [v for v in self.visible() if not v.ro and v.ty[0] != "fun"]
        alts = [(1.0, lambda: self.show())]
        if vs:
            alts.append((3.0, lambda: self.assign(self.r.choice(vs), d)))
        alts.append((1.5, lambda: self.let(d)))
        arrs = [v for v in self.visible() if v.ty[0] == "arr"]
        if arrs:
            def push():
                v = self.r.choice(arrs)
                return ("expr", self.pick((3, lambda: std("push", V(v.name), self.expr(v.ty[1], d - 1))),
                                          (1, lambda: std("pop", V(v.name)))))
            alts.append((0.7, push))
            def seti():
                v = self.r.choice(arrs)
                return ("asg", ("acc", V(v.name), self.index(d)), self.expr(v.ty[1], d - 1))
            alts.append((0.7, seti))
        dicts = [v for v in self.visible() if v.ty[0] == "dict"]
        if dicts:
            def setk():
                v = self.r.choice(dicts)
                return ("asg", ("acc", V(v.name), S(self.r.choice([b"a", b"b", b"key", b"x"]))), self.expr(v.ty[1], d - 1))
            alts.append((0.7, setk))
        if self.loops and self.chance(0.15):
            return ("brk",)
        return self.pick(*alts)

    def assign(self, v, d):
        return ("asg", V(v.name), self.expr(v.ty, d))

    def let(self, d=2, ty=None):
        ty = ty or self.r.choice(["int"] * 4 + ["bool", "str", ty_arr("int"), ty_dict("int"), "float"])
        x = self.name()
        # The name is bound in its initialiser: don't use it there.
        self.vars[-1].append(Var(x, ("hidden",), True))
        e = self.expr(ty, d)
        self.vars[-1][-1] = Var(x, ty)
        return ("let", x, e)

    def letfun(self):
        ty = ("fun", tuple(self.r.choice(["int", "int", "str", "bool"]) for _ in range(self.r.randint(0, 2))),
              self.r.choice(["int", "int", "int", "str", "bool", ty_arr("int"), "nil"]))
        x = self.name(0.2)
        self.vars[-1].append(Var(x, ("hidden",), True))
        e = self.function(ty, 3)
        self.vars[-1][-1] = Var(x, ty, True)
        return ("let", x, e)

    def show(self):
        vs = [v for v in self.visible() if v.ty[0] not in ("fun", "hidden")]
        args = []
        for _ in range(self.r.randint(1, 3)):
            if vs and self.chance(0.7):
                args.append(V(self.r.choice(vs).name))
            else:
                args.append(self.expr(self.r.choice(["int", "str", "bool"]), 2))
        return show(*args)

    def body(self, n):
        self.vars.append([])
        ss = []
        for _ in range(n):
            ss += self.stmt()
        self.vars.pop()
        return ss

    def stmt(self):
        """One or more statements."""
        if self.budget < 0:
            return [self.show()]
        alts = [(6.0, lambda: [self.simple()])]
        if self.loops < 2:
            alts.append((0.8, self.while_))
            alts.append((0.8, self.for_))
        alts.append((1.2, self.if_))
        if self.depth < 4:
            alts.append((self.w.get("letfun", 1.0), lambda: [self.letfun()]))
            alts.append((self.w.get("catch", 0.6), self.catch_))
        if self.retty and self.chance(0.08):
            return [("expr", ("if", self.expr("bool", 2), [("ret", self.expr(self.retty[-1], 2))], None))]
        return self.pick(*alts)

    def while_(self):
        i = self.fresh("i")
        self.vars[-1].append(Var(i, "int", True))
        self.loops += 1
        b = self.body(self.r.randint(1, 3))
        self.loops -= 1
        return [("let", i, I(0)),
                ("while", ("bin", "<", V(i), I(self.r.randint(0, 3))), [("asg", V(i), ("bin", "+", V(i), I(1)))] + b)]

    def for_(self):
        x = self.name()
        alts = [("int", lambda: std("range", I(self.r.randint(-1, 2)), I(self.r.randint(0, 4)), I(self.r.randint(1, 2)))),
                ("int", lambda: std("range", I(self.r.randint(0, 3)), I(self.r.randint(-1, 1)), I(-1)))]
        for t in ("int", "str"):
            alts.append((t, lambda t=t: std("iter", ("arr", [self.expr(t, 1) for _ in range(self.r.randint(0, 3))]))))
        alts.append(("char", lambda: std("iter", S(self.r.choice([b"", b"ab", b"xyz"])))))
        t, mk = self.r.choice(alts)
        e = mk()
        self.vars.append([Var(x, t)])
        self.loops += 1
        b = []
        for _ in range(self.r.randint(1, 3)):
            b += self.stmt()
        self.loops -= 1
        self.vars.pop()
        return [("for", x, e, b)]

    def if_(self):
        c = self.expr("bool", 2)
        th = self.body(self.r.randint(0, 2))
        el = self.body(self.r.randint(0, 2)) if self.chance(0.5) else None
        while self.chance(0.3):      # An elseif.
            el = [("expr", ("if", self.expr("bool", 2), self.body(self.r.randint(0, 2)), el))]
        return [("expr", ("if", c, th, el))]

    def catch_(self):
        """std.catch of a function; break doesn't cross it."""
        x = self.fresh("r")
        loops, self.loops = self.loops, 0
        self.depth += 1
        self.retty.append("int")
        b = self.body(self.r.randint(1, 3))
        self.retty.pop()
        self.depth -= 1
        self.loops = loops
        return [("let", x, catch(b)), show(V(x))]

    def scene(self, n=4):
        """A function call that's caught, such that the rest of the program goes on."""
        self.budget = self.w.get("budget", 50)
        return self.catch_() if self.chance(0.3) else self.scene_body(n)

    def scene_body(self, n):
        x = self.fresh("r")
        self.depth += 1
        self.retty.append("int")
        b = self.body(self.r.randint(2, n))
        self.retty.pop()
        self.depth -= 1
        return [("let", x, catch(b)), show(V(x))]

    def program(self, scenes=5):
        self.vars = [[]]
        ss = []
        for _ in range(self.r.randint(1, 3)):
            self.budget = 20
            ss.append(self.let(1))
        for _ in range(scenes):
            ss += self.scene()
        vs = [v for v in self.vars[0] if v.ty[0] not in ("fun", "hidden")]
        ss.append(show(*[V(v.name) for v in vs]))
        if self.chance(0.15):
            self.budget = 10
            ss += [("expr", self.nonparen(self.expr("int", 2)))]
            ss += [("expr", std("panic", self.expr(self.anyty(), 1)))] if self.chance(0.5) else \
                  [("expr", std("exit", self.expr("int", 1)))]
            ss.append(show(S("unreachable?")))
        return ss
