"""The programs of each property of the language core: what they exercise, at random."""
import random
import decimal
import math
from hast import *
from hgen import *


def rng_of(ck, i, salt):
    return random.Random("%s/%d/%d/%s" % (ck.prop, ck.seed, i, salt))


class Base:
    """Helpers for directed random programs, all of whose output is printed by t(key, value)."""
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.names = 0

    def key(self):
        self.k += 1
        return self.k

    def fresh(self, p="v"):
        self.names += 1
        return "%s%d" % (p, self.names)

    def ch(self, p):
        return self.r.random() < p

    def program(self):
        ss = list(self.prelude())
        for _ in range(self.scenes):
            b = self.scene()
            x = self.fresh("r")
            ss += [("let", x, catch(b)), show(S("="), V(x))]
        ss += self.epilogue()
        return ss

    scenes = 5

    def prelude(self):
        return []

    def epilogue(self):
        return []


# ------------------------------------------------------------------ C01: scopes and closures

class Scope(Base):
    """Nested scopes over few names, closures that are called at once or later."""
    NAMES = ["a", "b", "c"]
    scenes = 3

    def prelude(self):
        return [("let", "a", I(1)), ("let", "b", I(2)), ("let", "fs", ("arr", []))]

    def epilogue(self):
        return [show(V("a"), V("b"))]

    def scene(self):
        self.left = self.r.randint(15, 45)
        self.fdepth = 0
        self.protected = []
        self.scopes = [["a", "b", "fs"], []]
        ss = self.block(self.r.randint(3, 6), 0, False)
        # Call what has been kept, in some order, some of it twice.
        i = self.fresh("i")
        ss.append(("for", i, std("range", I(0), std("len", V("fs")), I(1)),
                   [show(S("kept"), V(i), ("call", ("acc", V("fs"), V(i)), [I(self.r.randint(0, 9))]))]))
        if self.ch(0.7):
            ss.append(("for", i, std("range", ("bin", "-", std("len", V("fs")), I(1)), I(-1), I(-1)),
                       [show(S("back"), V(i), ("call", ("acc", V("fs"), V(i)), [V(i)]))]))
        ss.append(("asg", V("fs"), ("arr", [])))
        return ss

    def visible(self):
        return sorted({x for s in self.scopes for x in s if x != "fs"})

    def num(self, d=1):
        vs = self.visible()
        if d == 0 or self.ch(0.6):
            return V(self.r.choice(vs)) if vs and self.ch(0.75) else I(self.r.randint(0, 9))
        return ("bin", self.r.choice(["+", "-", "+"]), self.num(d - 1), self.num(d - 1))

    def block(self, n, depth, loop):
        ss = []
        for _ in range(n):
            self.left -= 1
            ss += self.stmt(depth, loop)
        return ss

    def nested(self, depth, loop, extra=()):
        self.scopes.append(list(extra))
        ss = self.block(self.r.randint(1, 3), depth + 1, loop)
        self.scopes.pop()
        return ss

    def stmt(self, depth, loop):
        r = self.r
        x = r.random()
        vs = self.visible()
        if x < 0.22:
            pool = [n for n in self.NAMES + ["d", "e"] if n not in self.scopes[-1]]
            if pool:
                n = r.choice(pool)
                # Before or after it's declared: the initialiser sees the new variable, which is nil.
                if self.ch(0.85) or n in vs:
                    hidden = [[y for y in s if y != n] for s in self.scopes]
                    self.scopes, keep = hidden, self.scopes
                    e = self.num()
                    self.scopes = keep
                else:
                    e = std("type", V(n))
                    e = ("if", ("bin", "==", e, S("nil")), [("expr", I(r.randint(0, 9)))], [("expr", I(-1))])
                self.scopes[-1].append(n)
                return [("let", n, e)]
        assignable = [v for v in vs if v not in self.protected]
        if x < 0.45 and assignable:
            return [("asg", V(r.choice(assignable)), self.num(2))]
        if x < 0.6 or self.left < 0 or depth > 5:
            return [show(*[V(v) for v in r.sample(vs, min(len(vs), r.randint(1, 3)))])] if vs else [show(I(0))]
        if x < 0.68:
            return [("expr", ("if", ("bin", r.choice(["<", "!=", ">="]), self.num(0), self.num(0)),
                              self.nested(depth, loop), self.nested(depth, loop) if self.ch(0.5) else None))]
        if x < 0.76 and loop < 2:
            i = self.fresh("i")
            self.scopes[-1].append(i)
            self.protected.append(i)
            b = self.nested(depth, loop + 1)
            return [("let", i, I(0)),
                    ("while", ("bin", "<", V(i), I(r.randint(1, 3))), [("asg", V(i), ("bin", "+", V(i), I(1)))] + b)]
        if x < 0.82 and loop < 2:
            v = r.choice(self.NAMES)
            return [("for", v, std("range", I(0), I(r.randint(1, 3)), I(1)), self.nested(depth, loop + 1, [v]))]
        # Functions.
        if self.fdepth < 4:
            p = r.choice(self.NAMES + ["p"])
            outer = self.scopes
            self.fdepth += 1
            self.scopes = self.scopes + [[p]]
            body = self.block(r.randint(1, 4), depth + 1, 0 if loop < 2 else 2)
            body.append(("ret", self.num()))
            self.scopes = outer
            self.fdepth -= 1
            f = ("fun", [p], body)
            how = r.random()
            if how < 0.4:
                return [("expr", std("push", V("fs"), f))]
            g = self.fresh("f")
            ss = [("let", g, f)]
            for _ in range(r.randint(1, 2)):
                ss.append(show(S(g), ("call", V(g), [self.num(0)])))
                if self.ch(0.3) and assignable:
                    ss.append(("asg", V(r.choice(assignable)), self.num()))
            if how > 0.8:
                ss.append(("expr", std("push", V("fs"), V(g))))
            return ss
        return [show(I(depth))]


class DeepCapture(Base):
    """Chains of nested functions, that capture through functions that don't mention the variable."""
    scenes = 3

    def scene(self):
        r = self.r
        n = r.randint(2, 6)
        many = r.randint(1, 12)
        names = ["x%d" % i for i in range(many)]
        ss = []
        declared = []
        for x in names:
            ss.append(("let", x, I(r.randint(0, 99))))
            declared.append(x)
        body = []
        for _ in range(r.randint(1, 4)):
            x = r.choice(declared)
            body.append(("asg", V(x), ("bin", "+", V(x), I(r.randint(1, 9)))))
        used = r.sample(declared, r.randint(1, len(declared)))
        body.append(("ret", ("arr", [V(x) for x in used])))
        f = ("fun", [], body)
        for lv in range(n):
            inner = []
            if self.ch(0.4):
                inner.append(("let", "l%d" % lv, I(lv)))
            if self.ch(0.3):
                y = r.choice(declared)
                inner.append(("let", y, I(1000 + lv)))
            if self.ch(0.3):
                inner.append(("let", "g", ("fun", [], [("ret", V(r.choice(declared)))])))
                inner.append(show(("call", V("g"), [])))
            inner.append(("ret", f))
            f = ("fun", [], inner)
        ss.append(("let", "f", f))
        def callchain(k):
            e = V("f")
            for _ in range(k):
                e = ("call", e, [])
            return e
        for _ in range(r.randint(1, 3)):
            ss.append(show(callchain(n + 1)))
            x = r.choice(names)
            ss.append(("asg", V(x), ("bin", "*", V(x), I(2))))
        ss.append(("let", "h", callchain(n)))
        ss.append(show(("call", V("h"), []), ("call", V("h"), [])))
        ss.append(show(*[V(x) for x in names]))
        return ss


class Activations(Base):
    """Every activation has variables of its own, also when recursive, and closures keep them."""
    scenes = 3

    def scene(self):
        r = self.r
        d = r.randint(2, 7)
        local = r.choice(["x", "n", "y"])
        body = [("let", "y", ("bin", "*", V("n"), I(10)))]
        if self.ch(0.7):
            body.append(("expr", std("push", V("keep"), ("fun", ["q"], [
                ("asg", V("y"), ("bin", "+", V("y"), V("q"))), ("ret", ("arr", [V("n"), V("y"), V("total")]))]))))
        body.append(("expr", ("if", ("bin", "<=", V("n"), I(0)), [("ret", I(0))], None)))
        if self.ch(0.5):
            body.append(("let", "z", ("call", V("rec"), [("bin", "-", V("n"), I(1))])))
            body.append(("asg", V("total"), ("bin", "+", V("total"), V("y"))))
            body.append(("ret", ("bin", "+", V("z"), V("y"))))
        else:
            body.append(("asg", V("total"), ("bin", "+", V("total"), V("y"))))
            body.append(("ret", ("call", V("rec"), [("bin", "-", V("n"), I(1))])))
        ss = [("let", "total", I(0)), ("let", "keep", ("arr", [])), ("let", "rec", ("fun", ["n"], body)),
              show(("call", V("rec"), [I(d)]), V("total"))]
        for _ in range(2):
            ss.append(("for", "i", std("range", I(0), std("len", V("keep")), I(1)),
                       [show(("call", ("acc", V("keep"), V("i")), [V("i")]))]))
        return ss


# ------------------------------------------------------------------ C02: calls

class Calls(Base):
    scenes = 5

    def prelude(self):
        return [("let", "t", ("fun", ["k", "v"], [show(S("t"), V("k")), ("ret", V("v"))]))]

    def t(self, e):
        return ("call", V("t"), [I(self.key()), e])

    def scene(self):
        return self.r.choice([self.arity, self.method, self.receivers, self.bound, self.higher, self.mutual, self.tail, self.manyargs,
                              self.method, self.native, self.leave, self.leave])()

    def leave(self):
        """Functions that are left in the middle of evaluating arguments, when they are an argument themselves."""
        r = self.r
        ss = [("let", "f", ("fun", ["a", "b", "c"], [("ret", ("arr", [V("a"), V("b"), V("c")]))]))]
        names = []

        def item(d):
            if names and d > 0 and self.ch(0.6):
                return ("call", V(r.choice(names)), [item(d - 1)])
            return self.t(self.val()) if self.ch(0.5) else I(r.randint(0, 9))

        def args(k, way):
            xs = [item(1) for _ in range(3)]
            xs[k] = way(xs[k])
            return xs
        for _ in range(r.randint(1, 3)):
            n = self.fresh("g")
            cond = ("bin", r.choice(["==", "!="]), V("x"), I(r.randint(0, 2)))
            out = r.choice(["ret", "try", "brk"])
            k = r.randint(0, 2)
            if out == "ret":
                b = [("ret", ("call", V("f"), args(k, lambda e: ("if", cond, [("ret", e)], [("expr", V("x"))]))))]
            elif out == "try":
                e = ("if", cond, [("expr", std("error", S("e"), V("x")))], [("expr", V("x"))])
                b = [("expr", ("call", V("f"), args(k, lambda _: ("un", "?", ("call", ("fun", [], [("expr", e)]), [])))))]
            else:
                i = self.fresh("i")
                b = [("for", i, std("range", I(0), I(3), I(1)),
                      [show(("call", V("f"), args(k, lambda e: ("if", ("bin", "==", V(i), I(r.randint(0, 2))), [("brk",)], [("expr", e)]))))]),
                     ("ret", V("x"))]
            ss.append(("let", n, ("fun", ["x"], b)))
            names.append(n)
        for _ in range(2):
            ss.append(show(("call", V("f"), [item(3) for _ in range(3)])))
        return ss

    def arity(self):
        r = self.r
        n = r.randint(0, 5)
        m = n if self.ch(0.5) else r.randint(0, 6)
        ps = ["p%d" % i for i in range(n)]
        ss = [("let", "f", ("fun", ps, [show(S("in"), *[V(p) for p in ps]), ("ret", ("arr", [V(p) for p in ps]))]))]
        ss.append(show(("call", V("f"), [self.t(self.val()) for _ in range(m)])))
        return ss

    def val(self):
        r = self.r
        return r.choice([I(r.randint(-9, 99)), S(r.choice(STRS)), B(self.ch(0.5)), NIL, F(*r.choice(FLTS)),
                         ("arr", [I(r.randint(0, 3))])])

    def manyargs(self):
        r = self.r
        n = r.randint(5, 16)
        ps = ["p%d" % i for i in range(n)]
        nl = r.randint(0, 20)
        body = [("let", "l%d" % i, I(100 + i)) for i in range(nl)]
        body.append(("ret", ("arr", [V(p) for p in ps] + [V("l%d" % i) for i in range(nl)])))
        ss = [("let", "f", ("fun", ps, body)), ("let", "g", ("fun", ["z"], [("ret", ("bin", "+", V("z"), I(1)))]))]
        args = [("call", V("g"), [I(i)]) if self.ch(0.3) else I(i * 7) for i in range(n)]
        ss.append(show(("call", V("f"), args)))
        return ss

    def receivers(self):
        """The self of a function that is an item of an array, or the context of an error."""
        r = self.r
        f = ("fun", ["x"], [("let", "me", ("self",)), ("let", "g", ("fun", [], [("ret", std("type", ("self",)))])),
                            ("ret", ("arr", [std("type", V("me")), V("x"), ("call", V("g"), []),
                                             r.choice([std("type", ("self",)), ("bin", "==", V("me"), ("self",))])]))])
        recv = {"a": ("arr", [I(1), V("f"), ("arr", [V("f")])]), "e": std("error", S("d"), V("f")),
                "d": ("dict", [(b"f", V("f")), (b"e", std("error", S("in"), V("f"))), (b"a", ("arr", [V("f")]))]),
                "n": std("error", S("d"), ("dict", [(b"f", V("f"))]))}
        ss = [("let", "f", f)] + [("let", k, v) for k, v in recv.items()]
        for _ in range(r.randint(2, 5)):
            t = r.choice([("acc", V("a"), I(1)), ("acc", ("acc", V("a"), I(2)), I(0)), ("acc", V("e"), S("context")),
                          ("acc", V("d"), S("f")), ("acc", ("acc", V("d"), S("e")), S("context")), ("acc", ("acc", V("d"), S("a")), I(0)),
                          ("acc", ("acc", V("n"), S("context")), S("f")), V("f"), std("bind", V(r.choice("aedn")), V("f")),
                          ("acc", V("a"), ("bin", "+", I(0), I(1))), ("acc", std("error", S("d"), V("f")), S("context"))])
            ss.append(show(("call", t, [I(r.randint(0, 9))])))
        return ss

    def method(self):
        r = self.r
        objs = ["o", "p"]
        ss = []
        for i, o in enumerate(objs):
            ms = [(b"name", S(o)), (b"n", I(i)),
                  (b"who", ("fun", [], [("ret", ("acc", ("self",), S("name")))])),
                  (b"add", ("fun", ["x", "y"], [
                      ("asg", ("acc", ("self",), S("n")), ("bin", "+", ("acc", ("self",), S("n")), V("x"))),
                      ("ret", ("bin", "*", V("y"), ("acc", ("self",), S("n"))))])),
                  (b"twice", ("fun", ["f"], [("ret", ("arr", [("call", V("f"), [I(1)]), ("call", V("f"), [I(2)]),
                                                              ("acc", ("self",), S("name"))]))])),
                  (b"inner", ("fun", [], [
                      ("let", "me", ("self",)),
                      ("let", "g", ("fun", [], [("ret", std("type", ("self",)))])),
                      ("ret", ("arr", [("call", V("g"), []), ("acc", V("me"), S("name")), ("acc", ("self",), S("name"))]))])),
                  (b"rec", ("fun", ["k"], [
                      ("expr", ("if", ("bin", "<=", V("k"), I(0)), [("ret", ("acc", ("self",), S("name")))], None)),
                      ("ret", ("bin", "++", ("call", ("acc", ("self",), S("rec")), [("bin", "-", V("k"), I(1))]),
                               ("acc", ("self",), S("name"))))]))]
            ss.append(("let", o, ("dict", ms)))
        def mcall(d):
            o = V(r.choice(objs))
            m = r.choice(["who", "add", "add", "inner", "rec", "twice"])
            f = ("acc", o, S(m)) if self.ch(0.8) else ("acc", o, ("bin", "++", S(m[:1]), S(m[1:])))
            if m == "add":
                return ("call", f, [arg(d), arg(d)])
            if m == "rec":
                return ("call", f, [I(r.randint(0, 4))])
            if m == "twice":
                return ("call", f, [("fun", ["x"], [("ret", ("bin", "+", V("x"), I(r.randint(0, 9))))])])
            return ("call", f, [])
        def arg(d):
            if d > 0 and self.ch(0.5):
                return ("call", ("acc", V(r.choice(objs)), S("add")), [arg(d - 1), self.t(I(r.randint(0, 5)))])
            return self.t(I(r.randint(0, 5)))
        for _ in range(r.randint(2, 4)):
            ss.append(show(mcall(2)))
        if self.ch(0.4):   # A function that's moved between objects, or out of them.
            ss.append(("asg", ("acc", V("o"), S("who")), ("acc", V("p"), S("who"))))
            ss.append(show(("call", ("acc", V("o"), S("who")), [])))
        if self.ch(0.3):
            ss.append(("let", "w", ("acc", V("o"), S("who"))))
            ss.append(show(std("catch", ("fun", [], [("ret", ("call", V("w"), []))]))))
        if self.ch(0.3):
            ss.append(("let", "arr", ("arr", [("fun", [], [("ret", std("len", ("self",)))]), I(1), I(2)])))
            ss.append(show(("call", ("acc", V("arr"), I(0)), [])))
        ss.append(show(("acc", V("o"), S("n")), ("acc", V("p"), S("n"))))
        return ss

    def bound(self):
        r = self.r
        ss = [("let", "f", ("fun", ["x"], [("ret", ("arr", [("acc", ("self",), S("n")), V("x")]))])),
              ("let", "o", ("dict", [(b"n", I(1)), (b"f", V("f"))])), ("let", "p", ("dict", [(b"n", I(2))])),
              ("let", "g", std("bind", V("p"), V("f")))]
        ss.append(("asg", ("acc", V("o"), S("g")), V("g")))
        ss.append(("let", "h", std("bind", V("o"), V("g"))))
        opts = [("call", V("g"), [self.t(I(5))]), ("call", ("acc", V("o"), S("g")), [self.t(I(6))]),
                ("call", ("acc", V("o"), S("f")), [self.t(I(7))]), ("call", V("h"), [self.t(I(8))]),
                ("call", std("bind", V("o"), ("std", "len")), [S("abc")]), ("call", V("g"), []),
                ("call", ("std", "catch"), [std("bind", V("p"), ("fun", [], [("ret", ("acc", ("self",), S("n")))]))]),
                std("bind", I(1), I(2)), ("call", ("acc", ("dict", [(b"n", I(9)), (b"f", V("f"))]), S("f")), [I(1)])]
        for e in r.sample(opts, r.randint(2, 5)):
            ss.append(show(std("catch", ("fun", [], [("ret", e)]))))
            if self.ch(0.4):
                ss.append(("asg", ("acc", V("p"), S("n")), I(r.randint(3, 50))))
        return ss

    def higher(self):
        r = self.r
        ss = [("let", "compose", ("fun", ["f", "g"], [("ret", ("fun", ["x"], [("ret", ("call", V("f"), [("call", V("g"), [V("x")])]))]))])),
              ("let", "add", ("fun", ["n"], [("ret", ("fun", ["x"], [("ret", ("bin", "+", V("x"), V("n")))]))])),
              ("let", "mul", ("fun", ["n"], [("ret", ("fun", ["x"], [("ret", ("bin", "*", V("x"), V("n")))]))]))]
        def fn(d):
            if d > 0 and self.ch(0.6):
                return ("call", V("compose"), [fn(d - 1), fn(d - 1)])
            return ("call", V(r.choice(["add", "mul"])), [self.t(I(r.randint(-3, 5)))])
        for _ in range(r.randint(1, 3)):
            ss.append(show(("call", fn(2), [self.t(I(r.randint(0, 9)))])))
        ss.append(show(("call", ("call", V("add"), [I(1)]), [("call", ("call", V("mul"), [I(2)]), [self.t(I(3))])])))
        return ss

    def mutual(self):
        r = self.r
        n = r.randint(0, 9)
        ss = [("let", "odd", NIL),
              ("let", "even", ("fun", ["n", "acc"], [
                  ("let", "m", ("bin", "-", V("n"), I(1))),
                  ("expr", ("if", ("bin", "==", V("n"), I(0)), [("ret", ("arr", [S("even"), V("acc")]))], None)),
                  ("ret", ("call", V("odd"), [V("m"), ("bin", "+", V("acc"), V("n"))]))])),
              ("asg", V("odd"), ("fun", ["n", "acc"], [
                  ("expr", ("if", ("bin", "==", V("n"), I(0)), [("ret", ("arr", [S("odd"), V("acc")]))], None)),
                  ("let", "z", ("bin", "*", V("n"), I(2))),
                  ("let", "w", ("call", V("even"), [("bin", "-", V("n"), I(1)), ("bin", "+", V("acc"), V("z"))])),
                  ("expr", std("push", V("w"), V("z"))),
                  ("ret", V("w"))])),
              show(("call", V("even"), [I(n), I(0)]))]
        return ss

    def tail(self):
        """Calls in return position, of which the arguments and the function are locals."""
        r = self.r
        nl = r.randint(1, 6)
        inner = [("let", "l%d" % i, ("bin", "+", V("x"), I(i))) for i in range(nl)]
        ls = [V("l%d" % r.randrange(nl)) for _ in range(2)]
        deep = ("fun", ["p", "q"], [("let", "u", ("bin", "+", V("p"), V("q"))),
                                    ("expr", ("if", ("bin", ">", V("k"), I(0)),
                                              [("asg", V("k"), ("bin", "-", V("k"), I(1))),
                                               ("ret", ("call", V("f"), [V("u")]))], None)),
                                    ("ret", ("arr", [V("p"), V("q"), V("u")]))])
        last = ("call", V("g"), ls)
        body = inner + [("let", "h", ("fun", ["y"], [("ret", ("bin", "+", V("y"), V("l0")))]))]
        how = r.random()
        if how < 0.4:
            body.append(("ret", last))
        elif how < 0.6:
            body.append(("expr", last))
        elif how < 0.8:
            body.append(("ret", ("call", V("h"), [("call", V("h"), [V("x")])])))
        else:
            body.append(("ret", ("call", ("fun", ["a", "b"], [("ret", ("arr", [V("a"), V("b"), V("l0"), V("x")]))]), ls)))
        ss = [("let", "k", I(r.randint(0, 4))), ("let", "f", NIL), ("let", "g", deep),
              ("asg", V("f"), ("fun", ["x"], body)),
              ("let", "before", I(77)),
              ("let", "res", ("arr", [V("before"), ("call", V("f"), [self.t(I(r.randint(0, 9)))]), V("before")])),
              show(V("res"), V("before"), V("k"))]
        return ss

    def native(self):
        r = self.r
        e = r.choice([
            ("call", I(3), [self.t(I(1))]), ("call", S("x"), []), ("call", NIL, [self.t(I(2))]),
            std("len"), std("len", S("a"), self.t(I(1))), std("push", ("arr", [])), std("range", I(1), I(2)),
            ("call", ("acc", ("dict", [(b"f", I(1))]), S("f")), [self.t(I(1))]),
            ("call", ("if", B(True), [("expr", ("std", "len"))], [("expr", ("std", "type"))]), [S("four")]),
            ("call", ("acc", ("arr", [("std", "type"), ("std", "len")]), self.t(I(1))), [self.t(S("xyz"))])])
        return [show(self.t(e))]


# ------------------------------------------------------------------ C03: control flow and order

class Flow(Base):
    """Every operand announces its evaluation."""
    scenes = 5

    def prelude(self):
        return [("let", "t", ("fun", ["k", "v"], [("expr", std("print", V("k"), S(" "))), ("ret", V("v"))])),
                ("let", "arr", ("arr", [I(1), I(2), I(3)])), ("let", "d", ("dict", [(b"a", I(1)), (b"b", I(2))]))]

    def epilogue(self):
        return [show(V("arr"), V("d"))]

    def t(self, e):
        return ("call", V("t"), [I(self.key()), e])

    def scene(self):
        self.left = self.r.randint(10, 30)
        self.loop = 0
        f = self.fresh("f")
        body = self.stmts(self.r.randint(2, 5))
        body.append(("expr", self.leafy(self.num(3))))
        call = ("call", V(f), [self.t(I(self.r.randint(0, 5)))])
        if self.ch(0.6):
            # In the middle of other arguments.
            call = ("call", ("fun", ["a", "b", "c"], [("ret", ("arr", [V("a"), V("b"), V("c")]))]), [self.t(I(1)), call, self.t(I(2))])
        return [("let", f, ("fun", ["x"], body)), ("let", "res", call), show(V("res"))]

    def leafy(self, e):
        return self.t(e) if e[0] not in ("call", "id", "if") or e[1][0] == "fun" else e

    def escape(self, e):
        """Sometimes, a way out in the middle of an expression."""
        if self.left > 0 and self.ch(0.07):
            out = ("brk",) if self.loop and self.ch(0.6) else ("ret", self.t(I(self.r.randint(100, 199))))
            return ("if", self.boolean(1), [out], [("expr", self.leafy(e))])
        return e

    def num(self, d):
        r = self.r
        self.left -= 1
        if d <= 0 or self.left < 0:
            return self.t(I(r.randint(0, 6)))
        x = r.random()
        if x < 0.3:
            e = ("bin", r.choice("+-*+-"), self.num(d - 1), self.num(d - 1))
        elif x < 0.42:
            el = self.vblock(d - 1)
            if self.ch(0.3):
                el = [("expr", ("if", self.boolean(d - 1), self.vblock(d - 1), el))]
            e = ("if", self.boolean(d - 1), self.vblock(d - 1), el)
        elif x < 0.55:
            e = ("call", ("fun", ["u", "v"], self.stmts(1) + [("ret", ("bin", "-", V("u"), V("v")))] if self.noloop() else []),
                 [self.num(d - 1), self.num(d - 1)])
            self.loop = self.saved
            if self.ch(0.1) and self.left > 0:
                e = ("call", ("if", self.boolean(1), [("brk",) if self.loop and self.ch(0.5) else ("ret", self.t(I(9)))], [("expr", V("t"))]),
                     [self.t(I(1)), e])
            if self.ch(0.4):
                e = self.t(e)
        elif x < 0.65:
            e = ("acc", ("arr", [self.num(d - 1) for _ in range(r.randint(1, 3))]), self.t(I(0)))
        elif x < 0.72:
            e = ("acc", ("dict", [(b"a", self.num(d - 1)), (b"b", self.num(d - 1))]), self.t(S(r.choice(["a", "b"]))))
        elif x < 0.8:
            e = ("acc", self.t(V("arr")), self.t(I(r.randint(0, 3))))
        elif x < 0.86:
            e = ("un", "-", self.num(d - 1))
        else:
            e = self.t(V("x"))
        return self.escape(e)

    def noloop(self):
        self.saved = self.loop
        self.loop = 0
        return True

    def vblock(self, d):
        ss = self.stmts(1) if self.ch(0.3) and self.left > 0 else []
        return ss + [("expr", self.leafy(self.num(d)))]

    def boolean(self, d):
        r = self.r
        self.left -= 1
        if d <= 0 or self.left < 0:
            if self.ch(0.04):
                return self.t(r.choice([I(1), NIL, S("x")]))
            return self.t(B(self.ch(0.5)))
        x = r.random()
        if x < 0.45:
            return ("sc", r.choice(["and", "or"]), self.boolean(d - 1), self.boolean(d - 1))
        if x < 0.6:
            return ("un", "not", self.boolean(d - 1))
        if x < 0.85:
            return ("bin", r.choice(["<", "<=", ">", ">=", "==", "!="]), self.num(d - 1), self.num(d - 1))
        return ("if", self.boolean(d - 1), [("expr", self.leafy(self.boolean(d - 1)))], [("expr", self.leafy(self.boolean(d - 1)))])

    def stmts(self, n):
        ss = []
        for _ in range(n):
            ss += self.stmt()
        return ss

    def stmt(self):
        r = self.r
        self.left -= 2
        if self.left < 0:
            return [show(S("."))]
        x = r.random()
        if x < 0.2:
            return [show(self.num(2))]
        if x < 0.32:
            return [("asg", ("acc", self.obj(V("arr")), self.escape(self.t(I(r.randint(0, 3))))), self.num(2))]
        if x < 0.42:
            return [("asg", ("acc", self.obj(V("d")), self.escape(self.t(S(r.choice(["a", "b", "c"]))))), self.num(2))]
        if x < 0.6:
            el = self.stmts(r.randint(0, 2)) if self.ch(0.5) else None
            while self.ch(0.3):
                el = [("expr", ("if", self.boolean(2), self.stmts(r.randint(0, 2)), el))]
            return [("expr", ("if", self.boolean(2), self.stmts(r.randint(0, 2)), el))]
        if x < 0.75 and self.loop < 2:
            i = self.fresh("i")
            self.loop += 1
            b = self.stmts(r.randint(1, 2))
            if self.ch(0.5):
                b.append(("expr", ("if", self.boolean(1), [("brk",)], None)))
                if self.ch(0.5):
                    b += self.stmts(1)
            self.loop -= 1
            c = self.t(B(True)) if self.ch(0.6) else self.boolean(1) if self.ch(0.7) else \
                ("if", self.boolean(1), [("ret", self.t(I(7))) if self.ch(0.7) else ("expr", self.t(I(0)))], [("expr", self.t(B(True)))])
            return [("let", i, I(0)), ("while", ("sc", "and", ("bin", "<", V(i), I(r.randint(1, 3))), c),
                                       [("asg", V(i), ("bin", "+", V(i), I(1)))] + b)]
        if x < 0.9 and self.loop < 2:
            v = self.fresh("v")
            it = std("iter", ("arr", [self.num(1) for _ in range(r.randint(0, 3))])) if self.ch(0.5) else \
                std("range", self.t(I(0)), self.t(I(r.randint(0, 3))), self.t(I(1)))
            self.loop += 1
            b = [show(S("v"), V(v))] + self.stmts(r.randint(1, 2))
            if self.ch(0.4):
                b.append(("expr", ("if", self.boolean(1), [("brk",)], None)))
            self.loop -= 1
            return [("for", v, it, b)]
        if x < 0.95:
            return [("expr", ("if", self.boolean(1), [("ret", self.num(2))], None))]
        return [("let", self.fresh("u"), self.num(2))]

    def obj(self, e):
        # The target must start with a name, or it would be taken for part of the statement before.
        return self.t(self.escape(e)) if self.ch(0.7) else e


# ------------------------------------------------------------------ C04: errors

class Errors(Base):
    scenes = 5

    def prelude(self):
        r = self.r
        return [("let", "ok", ("fun", ["v"], [show(S("ok"), V("v")), ("ret", V("v"))])),
                ("let", "fail", ("fun", ["d", "c"], [show(S("fail"), V("d")), ("ret", std("error", V("d"), V("c")))]))]

    def maybe(self, v, p=0.3):
        if self.ch(p):
            return ("call", V("fail"), [S(self.r.choice(["e1", "e2", "bad thing"])), self.ctx()])
        return ("call", V("ok"), [v])

    def ctx(self):
        r = self.r
        return r.choice([I(r.randint(0, 9)), NIL, S("ctx"), ("arr", [I(1), S("x")]), ("dict", [(b"k", I(2))]),
                         std("error", S("cause"), NIL)])

    def tri(self, v):
        return ("un", "?", self.maybe(v))

    def num(self, d):
        r = self.r
        if d <= 0:
            return self.tri(I(r.randint(0, 9)))
        x = r.random()
        if x < 0.35:
            return ("bin", r.choice("+-*"), self.num(d - 1), self.num(d - 1))
        if x < 0.5:
            return ("acc", ("arr", [self.num(d - 1) for _ in range(r.randint(1, 3))]), I(0))
        if x < 0.65:
            return ("call", ("fun", ["a"], [("expr", self.num(d - 1)), ("ret", V("a"))]), [self.num(d - 1)])
        if x < 0.75:
            return ("un", "?", ("call", ("fun", [], [("let", "z", self.num(d - 1)), ("ret", V("z"))]), []))
        if x < 0.85:
            return ("acc", ("dict", [(b"a", self.num(d - 1)), (b"b", self.num(d - 1))]), S("a"))
        return self.tri(I(r.randint(0, 9)))

    def scene(self):
        return self.r.choice([self.propagate, self.propagate, self.inspect, self.contains, self.loops, self.readonly])()

    def propagate(self):
        r = self.r
        body = []
        for _ in range(r.randint(1, 3)):
            e = self.num(2)
            body.append(r.choice([("let", self.fresh(), e), show(e)]))
        body.append(("ret", I(1)))
        ss = [("let", "f", ("fun", [], body)),
              ("let", "g", ("fun", [], [("let", "y", ("un", "?", ("call", V("f"), []))), show(S("after"), V("y")), ("ret", ("arr", [V("y")]))])),
              ("let", "e", ("call", V(r.choice(["f", "g"])), [])), show(V("e"), std("type", V("e")))]
        return ss

    def inspect(self):
        r = self.r
        ss = [("let", "e", std("error", S(r.choice(STRS)), self.ctx())),
              show(("acc", V("e"), S("description"))), show(("acc", V("e"), S("context"))),
              show(std("has_error", V("e")), std("type", V("e")), V("e"))]
        ss.append(show(("bin", r.choice(["==", "!="]), V("e"),
                        std("error", ("acc", V("e"), S("description")), r.choice([("acc", V("e"), S("context")), self.ctx()])))))
        if self.ch(0.5):
            ss.append(show(std("catch", ("fun", [], [("ret", ("acc", V("e"), r.choice([S("other"), I(0), S("Description")])))]))))
        return ss

    def contains(self):
        r = self.r
        def v(d):
            x = r.random()
            if d <= 0 or x < 0.4:
                return r.choice([I(1), NIL, S("error"), B(True), std("error", S("x"), I(1)) if self.ch(0.4) else I(2)])
            if x < 0.7:
                return ("arr", [v(d - 1) for _ in range(r.randint(0, 3))])
            return ("dict", [(k, v(d - 1)) for k in r.sample([b"a", b"b", b"c"], r.randint(0, 3))])
        ss = []
        for _ in range(r.randint(2, 5)):
            ss.append(show(std("has_error", v(3))))
        ss += [("let", "d", ("dict", [])), ("asg", ("acc", V("d"), std("error", S("k"), NIL)), I(1)), show(std("has_error", V("d")))]
        if self.ch(0.3):
            ss.append(show(("bin", "+", std("error", S("x"), NIL), I(1))))
        return ss

    def loops(self):
        r = self.r
        n = r.randint(1, 4)
        at = r.randint(0, n)
        body = [("let", "got", ("arr", [])),
                ("for", "i", std("range", I(0), I(n), I(1)), [
                    ("let", "v", ("un", "?", ("call", V("step"), [V("i")]))),
                    ("expr", std("push", V("log"), V("v")))]),
                ("ret", S("done"))]
        return [("let", "log", ("arr", [])),
                ("let", "step", ("fun", ["i"], [("expr", ("if", ("bin", "==", V("i"), I(at)),
                                                          [("ret", std("error", S("at"), V("i")))],
                                                          [("ret", ("bin", "*", V("i"), V("i")))]))])),
                ("let", "f", ("fun", [], body)), show(("call", V("f"), []), V("log"))]

    def readonly(self):
        r = self.r
        return [("let", "e", std("error", S("d"), ("arr", [I(1)]))),
                show(std("catch", ("fun", [], [("asg", ("acc", V("e"), r.choice([S("description"), S("context"), S("x"), I(0)])), I(5))]))),
                ("expr", std("push", ("acc", V("e"), S("context")), I(2))), show(V("e"))]


# ------------------------------------------------------------------ C05: panics

class Panics(Base):
    scenes = 4

    def prelude(self):
        return [("let", "log", ("arr", [])), ("let", "n", I(0)),
                ("let", "o", ("dict", [(b"name", S("o")), (b"bad", ("fun", ["x"], [
                    ("asg", ("acc", ("self",), S("name")), S("changed")), ("ret", ("bin", "/", V("x"), I(0)))]))])),
                ("let", "note", ("fun", ["x"], [("expr", std("push", V("log"), V("x"))), ("asg", V("n"), ("bin", "+", V("n"), I(1))),
                                                ("ret", V("x"))]))]

    def epilogue(self):
        ss = [show(V("log"), V("n"), ("acc", V("o"), S("name")))]
        if self.ch(0.5):
            ss += [("let", "last", ("fun", ["a"], [("let", "z", I(1)), ("expr", self.named(self.bad())), ("ret", V("z"))])),
                   ("expr", ("call", V("last"), [I(1)])), show(S("not reached"))]
        return ss

    def named(self, e):
        return e if e[0] in ("call", "id", "if") else ("if", B(True), [("expr", e)], None)

    def bad(self):
        r = self.r
        return r.choice([
            lambda: ("bin", r.choice("+-*/"), I(r.randint(0, 9)), r.choice([S("x"), NIL, B(True)])),
            lambda: ("bin", r.choice("/%"), self.note(), I(0)),
            lambda: ("acc", ("arr", [self.note(), self.note()]), I(r.choice([2, -1, 100]))),
            lambda: ("acc", ("dict", [(b"a", self.note())]), S("zz")),
            lambda: ("call", self.note(), [self.note()]),
            lambda: std("panic", r.choice([S("msg"), I(1), ("arr", [I(1), S("a")]), NIL])),
            lambda: std("assert", ("bin", "==", self.note(), I(-1))),
            lambda: ("call", V("note"), []),
            lambda: ("call", V("note"), [self.note(), self.note()]),
            lambda: ("bin", "+", I(2**63 - 1), self.pos()),
            lambda: ("bin", "*", I(2**62), I(r.choice([2, 3, -3]))),
            lambda: ("if", self.note(), [("expr", I(1))], None),
            lambda: std("pop", ("arr", [])),
            lambda: ("call", ("acc", V("o"), S("bad")), [self.note()]),
            lambda: std("int", S("zz")),
            lambda: ("acc", self.note(), S("x")),
            lambda: ("un", "-", S("s")),
            lambda: ("sc", "and", self.note(), B(True)),
            lambda: std("typecheck", self.note(), S("string")),
            self.misuse, self.misuse,
            lambda: ("if", B(True), [("while", r.choice([self.note(), NIL, S("x")]), [("brk",)]), ("expr", I(1))], None),
            lambda: ("if", B(True), [("asg", ("acc", V("log"), r.choice([I(1000), I(-1), I(-9), S("x"), NIL])), self.note()),
                                     ("expr", I(1))], None),
            lambda: ("if", B(True), [("asg", ("acc", r.choice([V("n"), V("note")]), S("x")), self.note()), ("expr", I(1))], None),
        ])()

    MISUSE = ["assert", "bind", "bytes", "catch", "contains", "error", "float", "has_error", "int", "is_empty", "iter", "len",
              "panic", "pop", "push", "range", "regex", "replace", "sort", "split", "substr", "to_string", "trim", "try_typecheck",
              "type", "typecheck", "hex.encode", "hex.decode", "base64.encode", "base64.decode", "json.encode", "json.decode",
              "exit", "randint"]
    IMPURE = {"exit": [[], [I(300)], [S("0")], [I(1), I(2)], [I(-1)]], "randint": [[], [I(1)], [I(1), S("x")], [F(1, 1), I(1)]]}

    def misuse(self):
        """A function of the library with too few, too many, or other kinds of arguments."""
        r = self.r
        f = r.choice(self.MISUSE)
        if f in self.IMPURE:
            return std(f, *r.choice(self.IMPURE[f]))
        val = lambda: r.choice([lambda: I(r.randint(-2, 9)), lambda: S(r.choice(["", "a", "abc", "b\xc3"])), lambda: NIL, lambda: B(True), lambda: F(r.randint(0, 9), 1),
                                lambda: ("arr", [I(1), S("a")]), lambda: ("dict", [(b"a", I(1))]), lambda: V("note"), lambda: ("std", "len"),
                                lambda: C(r.choice(b"ax")), lambda: std("error", S("e"), NIL), self.note])()
        return std(f, *[val() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]))])

    def pos(self):
        return I(self.r.randint(1, 5))

    def note(self):
        return ("call", V("note"), [I(self.key())])

    def wrap(self, e, d):
        """An expression that evaluates e in the middle of something."""
        r = self.r
        x = r.random()
        if d <= 0:
            return e
        w = self.wrap(e, d - 1)
        if x < 0.2:
            return ("bin", "+", self.note(), w)
        if x < 0.35:
            return ("arr", [self.note(), w, self.note()])
        if x < 0.5:
            return ("call", V("note"), [w])
        if x < 0.65:
            return ("call", ("fun", ["p", "q"], [("let", "l", self.note()), ("ret", ("arr", [V("p"), V("q"), V("l"), w if self.ch(0.6) else V("p")]))]),
                    [self.note(), self.note() if self.ch(0.6) else w])
        if x < 0.75:
            return ("dict", [(b"a", self.note()), (b"b", w), (b"c", self.note())])
        if x < 0.85:
            return ("acc", ("arr", [w]), I(0))
        return ("call", ("acc", ("dict", [(b"m", ("fun", ["z"], [("let", "k", ("self",)), ("ret", w)]))]), S("m")), [self.note()])

    def scene(self):
        r = self.r
        kind = r.random()
        if kind < 0.3:
            return self.inline()
        if kind < 0.5:
            return self.loop()
        if kind < 0.75:
            return self.nest()
        return self.frames() if kind < 0.9 else self.selfs()

    def selfs(self):
        """The self of a function that std.catch calls is nil, that of the function around it remains."""
        r = self.r
        name = lambda: std("type", ("self",)) if self.ch(0.5) else ("self",)
        body = [show(S("in"), name())] + r.choice([[("ret", self.bad())], [("ret", name())], []])
        catch = r.choice([("std", "catch"), ("acc", V("d"), S("c")), ("acc", V("o"), S("c")), V("c"),
                          std("bind", V("n"), ("std", "catch"))])
        fun = r.choice([("fun", [], body), V("g"), ("acc", V("d"), S("g"))])
        m = ("fun", [], [("let", "c", ("std", "catch")), show(S("before"), std("type", ("self",))),
                         ("let", "x", ("call", catch, [fun])), show(std("type", V("x")), std("type", ("self",))),
                         ("ret", std("type", ("self",)))])
        return [("let", "g", ("fun", [], body)), ("let", "c", ("std", "catch")),
                ("let", "d", ("dict", [(b"c", V("c")), (b"g", V("g"))])),
                ("asg", ("acc", V("o"), S("c")), V("c")), ("asg", ("acc", V("o"), S("m")), m),
                show(("call", ("acc", V("o"), S("m")), []))]

    def inline(self):
        """A catch inside of an expression: what surrounds it goes on."""
        r = self.r
        e = self.wrap(self.bad(), r.randint(0, 3))
        c = std("catch", ("fun", [], [("let", "loc", self.note()), ("ret", e)]))
        c = std("type", c) if self.ch(0.6) else c
        ss = [("let", "a", I(10)), ("let", "b", S("bee")),
              show(("arr", [self.note(), c, self.note(), V("a")])), show(V("a"), V("b"))]
        if self.ch(0.5):
            ss = [("let", "f", ("fun", ["x", "y"], ss + [("ret", ("arr", [V("x"), V("y"), V("a")]))])),
                  show(("call", V("f"), [self.note(), std("type", std("catch", ("fun", [], [("ret", self.bad())])))]))]
        return ss

    def loop(self):
        r = self.r
        n = r.randint(1, 4)
        at = r.randint(0, n)
        return [("let", "acc", I(0)),
                ("for", "i", std("range", I(0), I(n), I(1)), [
                    ("let", "k", ("bin", "*", V("i"), I(2))),
                    ("let", "res", std("catch", ("fun", [], [
                        ("asg", V("acc"), ("bin", "+", V("acc"), I(1))),
                        ("expr", ("if", ("bin", "==", V("i"), I(at)), [("expr", self.named(self.wrap(self.bad(), 1)))], None)),
                        ("asg", V("acc"), ("bin", "+", V("acc"), I(100))),
                        ("ret", V("k"))]))),
                    show(V("i"), V("k"), V("res"), V("acc"))])]

    def nest(self):
        r = self.r
        d = r.randint(1, 4)
        e = ("ret", self.wrap(self.bad(), 1))
        f = ("fun", [], [e])
        for i in range(d):
            x = "e%d" % i
            after = r.choice([
                [("ret", ("arr", [S("l%d" % i), std("type", V(x))]))],
                [("expr", std("panic", V(x)))],
                [show(S("lv"), I(i), std("type", V(x))), ("ret", self.wrap(self.bad(), 1))],
                [("ret", V(x))]])
            f = ("fun", [], [("let", "v%d" % i, self.note()), ("let", x, std("catch", f)), show(V("v%d" % i))] + after)
        return [show(std("catch", f))]

    def frames(self):
        """A panic through several activations with many variables."""
        r = self.r
        n = r.randint(1, 8)
        d = r.randint(1, 6)
        body = [("let", "w%d" % i, ("bin", "+", V("k"), I(i))) for i in range(n)]
        body += [("expr", ("if", ("bin", "==", V("k"), I(0)), [("expr", self.named(self.bad())), ("expr", std("panic", V("k")))], None)),
                 ("let", "z", ("call", V("down"), [("bin", "-", V("k"), I(1))])),
                 ("ret", ("bin", "+", V("z"), V("w0")))]
        return [("let", "m1", I(1)), ("let", "m2", I(2)), ("let", "down", ("fun", ["k"], body)), ("let", "m3", I(3)),
                show(std("catch", ("fun", [], [("ret", ("call", V("down"), [I(d)]))]))),
                ("let", "m4", I(4)), show(V("m1"), V("m2"), V("m3"), V("m4")),
                show(std("type", std("catch", ("fun", [], [("ret", ("call", V("down"), [I(d)]))]))), V("m1"), V("m4"))]


# ------------------------------------------------------------------ C06: operators

INTB = [0, 1, 2, 3, 7, 10, 16, 9999, 10000, 2**31 - 1, 2**31, 2**32, 3037000499, 3037000500, 2**52 + 1,
        2**53, 2**62 - 1, 2**62, 2**63 - 2, 2**63 - 1]
INTS_ALL = sorted(set(INTB + [-x for x in INTB] + [-2**63]))


def int_expr(n):
    if n == -2**63:
        return ("bin", "-", I(-(2**63 - 1)), I(1))
    return I(n)


SAMPLES = {"nil": NIL, "bool": B(True), "char": C("a"), "int": I(3), "float": F(3, 1), "str": S("s"),
           "arr": ("arr", [I(1)]), "dict": ("dict", [(b"a", I(1))]), "fun": ("fun", [], []),
           "err": std("error", S("e"), NIL)}
BINOPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "++"]
FLTB = [F(0), ("un", "-", F(0)), F(1), F(3, 1), F(5, 2), F(-7, 1), F(100), ("bin", "/", F(1), F(0)),
        ("bin", "/", F(-1), F(0)), ("bin", "/", F(0), F(0)), F(-1, 3), F(8)]


NAN = ("bin", "/", F(0), F(0))
INF = ("bin", "/", F(1), F(0))


def flit(x):
    """The literal of a finite float that isn't negative."""
    t = repr(x)
    if "e" not in t:
        return FT(t)
    m, e = t.split("e")
    if int(e) > 0:
        return FT((m if "." in m else m + ".0") + "e" + e.lstrip("+"))
    if int(e) > -25:
        return FT(format(decimal.Decimal(t), "f"))
    return ("bin", "/", FT(m if "." in m else m + ".0"), FT("1e%d" % -int(e))) if int(e) > -300 else \
        ("bin", "/", ("bin", "/", FT(m if "." in m else m + ".0"), FT("1e300")), FT("1e%d" % (-int(e) - 300)))


FSPECIAL = [9007199254740993.0, 9007199254740992.0, 0.1, 0.2, 0.3, 0.7, 1e15, 1e16, 9999999999999998.0, 1e17, 1e22, 1e23, 1e-4, 9.9e-5, 1e-5, 1e-7,
            9.223372036854775e18, 9.223372036854776e18, 1.8446744073709552e19, 123456789.125, 4.35, 0.285, 1.005, 2.5, 3.5, 4503599627370496.5,
            1e300, 1.7976931348623157e308, 8.98846567431158e307, 2.2250738585072014e-308, 5e-324, 1.5e-323, 1 / 3, 2 / 3, 16777217.0, 33554433.5]


def flt(r, extreme=0.15):
    """A float, as an expression."""
    k = r.random()
    if k < 0.2:
        return r.choice(FLTB)
    if k < 0.35:
        x = round(r.uniform(0, r.choice([1, 10, 1000, 1e6])), r.randint(1, 5))
    elif k < 0.5:
        return FT("%d.%0*d" % (r.randrange(10 ** r.randint(1, 10)), r.randint(1, 14), r.randrange(10 ** r.randint(1, 14))))
    elif k < 0.6:
        return FT("%d.%de%d" % (r.randint(0, 99), r.randint(0, 9999), r.randint(0, 30 if r.random() > extreme else 310)))
    elif k < 0.75:
        x = math.ldexp(1, r.randint(-40, 66))
        x += r.choice([0, 0, 1, -1, 0.5]) * math.ldexp(x, -52)
    elif k < 0.9:
        x = r.choice(FSPECIAL[:26] if r.random() > extreme else FSPECIAL)
    else:
        x = math.ldexp(r.random(), r.randint(-20, 20))
    e = flit(x)
    return ("un", "-", e) if r.random() < 0.3 else e


def safe(e):
    return std("catch", ("fun", [], [("ret", e)]))


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def operator_programs(ck):
    """All the operators on all pairs of boundary values, and on all pairs of types."""
    r = rng_of(ck, 0, "ops")
    exprs = []
    for op in BINOPS:
        for a in SAMPLES.values():
            for b in SAMPLES.values():
                exprs.append(("bin", op, a, b))
    for op in ("and", "or"):
        for a in list(SAMPLES.values()) + [B(False)]:
            for b in list(SAMPLES.values()) + [B(False)]:
                exprs.append(("sc", op, a, b))
    for op in ("-", "not"):
        for a in SAMPLES.values():
            exprs.append(("un", op, a))
    for op in BINOPS[:11]:
        for a in FLTB:
            for b in FLTB:
                exprs.append(("bin", op, a, b))
    for _ in range(ck.n(900, 15000)):
        a = flt(r)
        b = r.choice([flt, flt, flt, lambda r: a, lambda r: ("un", "-", a), lambda r: ("bin", "*", a, FT("1.0000000000000002"))])(r)
        exprs.append(("bin", r.choice(BINOPS[:5] * 3 + BINOPS[5:11]), a, b))
    for _ in range(ck.n(100, 1500)):
        exprs.append(("un", "-", flt(r)))
    for n in INTS_ALL:
        exprs.append(("un", "-", int_expr(n)))
    pairs = [(op, a, b) for op in BINOPS[:11] for a in INTS_ALL for b in INTS_ALL]
    if not ck.thorough:
        arith = [p for p in pairs if p[0] in "+-*/%"]
        rest = [p for p in pairs if p[0] not in "+-*/%"]
        pairs = r.sample(arith, 3600) + r.sample(rest, 900)
    for op, a, b in pairs:
        exprs.append(("bin", op, int_expr(a), int_expr(b)))
    # Around the roots and quotients of the bounds.
    for _ in range(ck.n(1500, 20000)):
        op = r.choice("+-*/%")
        bits = r.randint(1, 63)
        a = r.randrange(-2**bits, 2**bits)
        if op == "*" and a:
            q = (2**63) // abs(a)
            b = r.choice([-1, 1]) * (q + r.randint(-1, 1))
        elif op in "+-":
            b = r.choice([2**63 - 1 - a, -2**63 - a, a - 2**63, a + 2**63, r.randrange(-2**62, 2**62)]) + r.randint(-1, 1)
        else:
            b = r.randrange(-2**r.randint(1, 63), 2**r.randint(1, 63)) or 1
        if not -2**63 <= b < 2**63 or not -2**63 <= a < 2**63:
            continue
        exprs.append(("bin", op, int_expr(a), int_expr(b)))
    r.shuffle(exprs)
    progs = []
    for c in chunks(exprs, 40):
        # Literals directly, or through variables (captured by the function that's caught).
        ss = []
        for i, e in enumerate(c):
            if e[0] in ("bin", "sc") and r.random() < 0.5:
                ss += [("let", "x%d" % i, e[2]), ("let", "y%d" % i, e[3])]
                e = (e[0], e[1], V("x%d" % i), V("y%d" % i))
            ss.append(show(safe(e)))
        progs.append(ss)
    # Chains, with the result of one operation as the operand of the next.
    for i in range(ck.n(60, 600)):
        q = rng_of(ck, i, "chain")
        ss = []
        for _ in range(12):
            def tree(d):
                if d == 0 or q.random() < 0.2:
                    return int_expr(q.choice(INTS_ALL)) if q.random() < 0.3 else I(q.randint(-20, 20))
                return ("bin", q.choice("+-*/%+-*"), tree(d - 1), tree(d - 1))
            def ftree(d):
                if d == 0 or q.random() < 0.2:
                    return q.choice(FLTB) if q.random() < 0.5 else flt(q, 0)
                return ("bin", q.choice("+-*+-*/%"), ftree(d - 1), ftree(d - 1))
            ss.append(show(safe(tree(4) if q.random() < 0.7 else ftree(3))))
        progs.append(ss)
    return progs


# ------------------------------------------------------------------ C07: equality, order and keys

class Values(Base):
    scenes = 5

    def scalar(self):
        r = self.r
        return r.choice([lambda: I(r.choice([0, 1, 2, -1, 2**53, 10])), lambda: F(*r.choice([(0, 0), (1, 0), (1, 1), (-1, 0)])),
                         lambda: r.choice([("un", "-", F(0)), NAN, INF, ("un", "-", INF), ("un", "-", NAN), FT("0.1"), flit(0.30000000000000004), FT("9007199254740993.0"),
                                           FT("9007199254740992.0"), ("bin", "+", FT("0.1"), FT("0.2")), FT("1.0")]), lambda: S(r.choice([b"", b"a", b"b", b"ab", b"1", b"B"])), lambda: C(r.choice(b"ab1B")),
                         lambda: B(self.ch(0.5)), lambda: NIL])()

    def val(self, d=2, funs=False):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.5:
            return self.scalar()
        if x < 0.72:
            return ("arr", [self.val(d - 1, funs) for _ in range(r.randint(0, 3))])
        if x < 0.9:
            return ("dict", [(k, self.val(d - 1, funs)) for k in r.sample([b"a", b"b", b"c"], r.randint(0, 3))])
        if funs and x < 0.95:
            return r.choice([("std", "len"), ("std", "type"), ("call", V("mk"), [I(r.randint(0, 1))]), V("ff")])
        return std("error", S(r.choice([b"e", b"f"])), self.val(d - 1, funs))

    def prelude(self):
        return [("let", "mk", ("fun", ["n"], [("ret", ("fun", [], [("ret", V("n"))]))])),
                ("let", "ff", ("fun", ["n"], [("ret", V("n"))]))]

    def scene(self):
        return self.r.choice([self.equal, self.equal, self.keys, self.keys, self.sort, self.sort, self.contains, self.mutate])()

    def perturb(self, v):
        """The same value written differently, or a slightly different one."""
        r = self.r
        if v[0] == "dict" and v[1]:
            kv = list(v[1])
            r.shuffle(kv)
            if self.ch(0.5):
                k, x = kv[0]
                kv[0] = (k, self.perturb(x))
            if self.ch(0.2):
                kv.pop()
            return ("dict", kv)
        if v[0] == "arr" and v[1]:
            xs = list(v[1])
            if self.ch(0.5):
                i = r.randrange(len(xs))
                xs[i] = self.perturb(xs[i])
            elif self.ch(0.2):
                r.shuffle(xs)
            elif self.ch(0.2):
                xs.pop()
            return ("arr", xs)
        if v[0] == "call" and v[1] == ("std", "error"):
            return std("error", v[2][0], self.perturb(v[2][1]))
        return v if self.ch(0.6) else self.scalar()

    def equal(self):
        ss = []
        for _ in range(4):
            v = self.val(3, True)
            w = self.perturb(v) if self.ch(0.75) else self.val(3, True)
            ss += [show(("bin", "==", v, w), ("bin", "!=", v, w), ("bin", "==", w, v))]
        x = self.val(2, True)
        ss += [("let", "x", x), ("let", "y", V("x")), show(("bin", "==", V("x"), V("y")), ("bin", "!=", V("x"), V("y")))]
        return ss

    def keys(self):
        r = self.r
        ss = [("let", "d", ("dict", []))]
        ks = [self.val(2, True) for _ in range(r.randint(1, 4))]
        for i, k in enumerate(ks):
            ss.append(("asg", ("acc", V("d"), k), I(i)))
        for _ in range(4):
            k = self.perturb(r.choice(ks)) if self.ch(0.8) else self.val(2, True)
            ss.append(show(std("len", V("d")), std("contains", V("d"), k), safe(("acc", V("d"), k))))
            if self.ch(0.4):
                ss.append(("asg", ("acc", V("d"), self.perturb(k)), I(r.randint(10, 99))))
        ss.append(show(std("len", V("d"))))
        return ss

    def sort(self):
        r = self.r
        how = r.random()
        n = r.randint(0, 9)
        if how < 0.25:
            xs = [I(r.randint(-9, 9)) for _ in range(n)]
        elif how < 0.45:
            xs = [S(bytes(r.choice(b"abAB1 ") for _ in range(r.randint(0, 3)))) for _ in range(n)]
        elif how < 0.55:
            xs = [F(r.randint(-9, 9), r.randint(0, 2)) if self.ch(0.6) else flt(r, 0) for _ in range(n)]
        elif how < 0.7:
            xs = [("arr", [I(r.randint(0, 2)) for _ in range(r.randint(0, 3))]) for _ in range(n)]
        elif how < 0.8:
            xs = [("dict", [(k, I(r.randint(0, 1))) for k in r.sample([b"a", b"b"], r.randint(0, 2))]) for _ in range(n)]
        elif how < 0.85:
            xs = [I(r.randint(0, 500)) for _ in range(r.randint(20, 45))]
        elif how < 0.93:
            xs = [self.val(1) for _ in range(n)]
        else:
            one = r.choice([V("ff"), ("call", V("mk"), [I(1)])])
            xs = [r.choice([("std", r.choice(["len", "iter", "int", "is_empty", "hex.encode", "rand", "randint"])), one, self.val(0)]) for _ in range(n)]
        ss = [("let", "a", ("arr", xs)), ("let", "b", V("a")), show(std("sort", V("a"))), show(V("a"), ("bin", "==", V("a"), V("b")))]
        if self.ch(0.3):
            ss.append(show(std("sort", self.val(1))))
        return ss

    def contains(self):
        r = self.r
        xs = [self.val(2, True) for _ in range(r.randint(0, 4))]
        ss = [("let", "a", ("arr", xs))]
        for _ in range(3):
            x = self.perturb(r.choice(xs)) if xs and self.ch(0.7) else self.val(2)
            ss.append(show(std("contains", V("a"), x)))
        ss.append(show(safe(std("contains", self.scalar(), self.scalar()))))
        return ss

    def mutate(self):
        """Equality is of the contents, as they are now."""
        r = self.r
        return [("let", "a", ("arr", [I(1), I(2)])), ("let", "b", ("arr", [I(1), I(2)])), ("let", "c", ("arr", [V("a")])),
                ("let", "e", ("arr", [V("b")])),
                show(("bin", "==", V("a"), V("b")), ("bin", "==", V("c"), V("e"))),
                ("expr", std("push", V("a"), I(3))),
                show(("bin", "==", V("a"), V("b")), ("bin", "==", V("c"), V("e"))),
                ("asg", ("acc", V("b"), I(r.randint(0, 1))), I(r.randint(1, 2))),
                ("expr", std("push", V("b"), I(3))),
                show(("bin", "==", V("a"), V("b")), ("bin", "==", V("c"), V("e")), ("bin", "!=", V("c"), V("e")))]


# ------------------------------------------------------------------ C08: collections

class Collections(Base):
    """Histories of operations on arrays, dicts and strings, some of them aliases."""
    scenes = 4

    def scene(self):
        r = self.r
        self.arrs, self.dicts, self.nest, self.strs = [], [], [], []
        ss = []
        for i in range(2):
            x = "a%d" % i
            ss.append(("let", x, ("arr", [I(r.randint(0, 9)) for _ in range(r.randint(0, 4))])))
            self.arrs.append(x)
            x = "d%d" % i
            ss.append(("let", x, ("dict", [(k, I(r.randint(0, 9))) for k in r.sample([b"a", b"b", b"c"], r.randint(0, 2))])))
            self.dicts.append(x)
        ss += [("let", "b0", V(r.choice(self.arrs))), ("let", "e0", V(r.choice(self.dicts)))]
        self.arrs.append("b0")
        self.dicts.append("e0")
        ss += [("let", "nest", ("arr", [V(r.choice(self.arrs)), ("arr", [I(5)])])),
               ("let", "box", ("dict", [(b"arr", V(r.choice(self.arrs))), (b"dict", V(r.choice(self.dicts)))])),
               ("let", "s", S(r.choice([b"abc", b"", b"hello"]))),
               ("let", "touch", ("fun", ["z"], [("expr", std("push", V("z"), I(42))), ("ret", std("len", V("z")))]))]
        for _ in range(r.randint(8, 16)):
            ss += self.op()
        ss.append(show(*[V(x) for x in self.arrs + self.dicts + ["nest", "box", "s"]]))
        return ss

    def ref(self):
        r = self.r
        return r.choice([V(r.choice(self.arrs))] * 3 + [("acc", V("nest"), I(r.randint(0, 1))), ("acc", V("box"), S("arr"))])

    def dref(self):
        r = self.r
        return r.choice([V(r.choice(self.dicts))] * 3 + [("acc", V("box"), S("dict"))])

    def ix(self):
        return I(self.r.choice([0, 0, 1, 1, 2, 3, 4, 5, 9, -1, -2, 2**62, -2**62, 2**32]))

    def key(self):
        r = self.r
        return r.choice([S(r.choice(["a", "b", "c", "d", ""]))] * 4 + [I(r.randint(0, 2)), B(True), NIL, C("a"), F(1, 1)])

    def op(self):
        r = self.r
        v = I(r.randint(0, 99))
        alts = [
            lambda: [("expr", std("push", self.ref(), v))],
            lambda: [("expr", std("push", self.ref(), v))],
            lambda: [show(safe(std("pop", self.ref())))],
            lambda: [show(safe(("acc", self.ref(), self.ix())))],
            lambda: [show(safe(("acc", self.dref(), self.key())))],
            lambda: [("expr", std("catch", ("fun", [], [("asg", ("acc", self.ref(), self.ix()), v)])))],
            lambda: [show(std("catch", ("fun", [], [("asg", ("acc", self.ref(), self.ix()), v)])))],
            lambda: [("asg", ("acc", self.dref(), self.key()), v)],
            lambda: [("asg", ("acc", self.dref(), self.key()), v)],
            lambda: [show(std("len", self.ref()), std("len", self.dref()), std("is_empty", self.ref()), std("is_empty", self.dref()))],
            lambda: [show(std("contains", self.ref(), I(r.randint(0, 9))), std("contains", self.dref(), self.key()))],
            lambda: [("asg", V(r.choice(self.arrs)), self.ref())],
            lambda: [("asg", V(r.choice(self.arrs)), ("arr", [v, v]))],
            lambda: [("asg", V(r.choice(self.dicts)), self.dref())],
            lambda: [show(("call", V("touch"), [self.ref()]))],
            lambda: [("asg", ("acc", V("nest"), I(r.randint(0, 1))), self.ref())],
            lambda: [("asg", ("acc", V("box"), S(r.choice(["arr"]))), self.ref())],
            lambda: [show(safe(("acc", V("s"), self.ix())), std("len", V("s")))],
            lambda: [show(safe(("acc", V("s"), r.choice([S("a"), NIL, F(1), C("a")]))))],
            lambda: [show(std("catch", ("fun", [], [("asg", ("acc", V("s"), I(0)), C("z"))])), V("s"))],
            lambda: [show(std("catch", ("fun", [], [("asg", ("acc", r.choice([I(1), NIL, B(True)]) if False else V("s"), S("k")), v)])))],
            lambda: [("asg", V("s"), ("bin", "++", V("s"), S(r.choice(["x", "", "yz"]))))],
            lambda: [show(self.ref(), self.dref())],
            lambda: [show(safe(std(r.choice(["push", "pop", "len", "is_empty", "sort", "iter"]), r.choice([I(1), NIL, B(True)]))))],
            lambda: [("let", self.fresh("m"), ("arr", [self.ref(), self.ref()]))],
            lambda: [show(safe(("acc", r.choice([I(1), NIL, B(False), F(1), ("fun", [], [])]), self.ix())))],
            lambda: [show(safe(("acc", self.ref(), r.choice([S("a"), NIL, F(1), B(True)]))))],
        ]
        return r.choice(alts)()


class BigCollections(Base):
    """Sizes beyond the small ones."""
    scenes = 2

    def scene(self):
        r = self.r
        n = r.choice([17, 33, 64, 65, 130, 257])
        step = r.choice([1, 3, 7])
        ss = [("let", "a", ("arr", [])), ("let", "d", ("dict", [])),
              ("for", "i", std("range", I(0), I(n), I(1)),
               [("expr", std("push", V("a"), ("bin", "%", ("bin", "*", V("i"), I(step)), I(101)))),
                ("asg", ("acc", V("d"), V("i")), ("bin", "*", V("i"), V("i")))]),
              show(std("len", V("a")), std("len", V("d")))]
        for _ in range(4):
            k = r.choice([0, 1, n - 1, n, r.randrange(n), -1, r.choice(FAR)])
            ss.append(show(safe(("acc", V("a"), I(k))), safe(("acc", V("d"), I(k))), std("contains", V("d"), I(k)),
                           std("contains", V("a"), I(k))))
        ss += [("expr", std("sort", V("a"))), show(V("a"))]
        if self.ch(0.5):
            ss.append(show(std("pop", V("a")), std("pop", V("a")), std("len", V("a"))))
        return ss


class Large(Base):
    """Sizes that small programs don't reach: a kind for each part of the core."""
    scenes = 1
    SIZES = [17, 33, 65, 100, 129, 200, 257, 300]

    def __init__(self, r, kind=None, **kw):
        super().__init__(r, **kw)
        self.kind = kind

    def scene(self):
        return getattr(self, self.kind)()

    def size(self, most=300):
        return self.r.choice([n for n in self.SIZES if n <= most])

    def picks(self, n, k=4):
        r = self.r
        return sorted({0, n - 1, r.randrange(n), *[r.randrange(n) for _ in range(k)]})

    def scopes(self):
        """Many variables, many captured ones, many closures."""
        r = self.r
        n = self.size()
        ks = self.picks(n, r.choice([3, 20, 70]))
        ss = [("let", "v%d" % i, I(i)) for i in range(n)]
        ss += [("let", "f", ("fun", ["q"], [("let", "w%d" % k, ("bin", "+", V("v%d" % k), V("q"))) for k in ks] +
                             [("asg", V("v%d" % ks[-1]), V("q")), ("ret", ("arr", [V("w%d" % k) for k in ks]))])),
               ("asg", V("v%d" % ks[0]), I(5000)), show(("call", V("f"), [I(1)])), show(*[V("v%d" % k) for k in ks])]
        body = ss + [("ret", ("call", V("f"), [I(2)]))]
        m = self.size(130)
        return [("let", "g", ("fun", [], body)), show(("call", V("g"), [])), ("let", "fs", ("arr", [])),
                ("for", "i", std("range", I(0), I(m), I(1)), [("let", "x", ("bin", "*", V("i"), I(2))),
                    ("expr", std("push", V("fs"), ("fun", [], [("asg", V("x"), ("bin", "+", V("x"), I(1))), ("ret", ("arr", [V("i"), V("x")]))])))]),
                show(*[("call", ("acc", V("fs"), I(k)), []) for k in self.picks(m)] + [("call", ("acc", V("fs"), I(m - 1)), [])])]

    def calls(self):
        """Many parameters, deep recursion with results that depend on each level, chains of bound functions."""
        r = self.r
        n = self.size(130)
        ps = ["p%d" % i for i in range(n)]
        d = r.randint(30, 90)
        args = [("call", V("id"), [I(i)]) if self.ch(0.2) else I(i) for i in range(n)]
        return [("let", "id", ("fun", ["x"], [("ret", V("x"))])),
                ("let", "f", ("fun", ps, [("ret", ("arr", [V(ps[k]) for k in self.picks(n)]))])), show(("call", V("f"), args)),
                show(safe(("call", V("f"), args[:-1]))),
                ("let", "o", ("dict", [(b"n", I(0)), (b"down", ("fun", ["k", "x"], [
                    ("asg", ("acc", ("self",), S("n")), ("bin", "+", ("acc", ("self",), S("n")), I(1))),
                    ("expr", ("if", ("bin", "==", V("k"), I(0)), [("ret", ("arr", [V("x"), ("acc", ("self",), S("n"))]))], None)),
                    ("let", "y", ("call", ("acc", ("self",), S("down")), [("bin", "-", V("k"), I(1)), ("bin", "+", V("x"), V("k"))])),
                    ("ret", V("y")) if self.ch(0.5) else ("ret", ("arr", [("acc", V("y"), I(0)), V("k"), ("acc", ("self",), S("n"))]))]))])),
                show(("call", ("acc", V("o"), S("down")), [I(d), I(0)]), ("acc", V("o"), S("n")))]

    def flow(self):
        """Long loops, left at some point, in other ones."""
        r = self.r
        n = self.size()
        out = ("brk",) if self.ch(0.5) else ("ret", ("arr", [V("i"), V("acc")]))
        inner = [("let", "i", I(0)), ("let", "acc", I(0)),
                 ("while", ("bin", "<", V("i"), I(n)), [
                     ("asg", V("i"), ("bin", "+", V("i"), I(1))),
                     ("expr", ("if", ("bin", "==", ("bin", "%", V("i"), I(r.choice([3, 7]))), I(0)), [
                         ("asg", V("acc"), ("bin", "+", V("acc"), V("i")))], None)),
                     ("expr", ("if", ("bin", "==", V("i"), I(r.choice([n, n - 1, n + 1, r.randrange(1, n)]))), [out], None))]),
                 ("ret", ("arr", [V("acc"), V("i")]))]
        k = r.randint(2, 4)
        e = B(True)
        for i in range(self.size(65)):
            e = ("sc", r.choice(["and", "or"]), ("call", V("c"), [B(self.ch(0.9))]), e) if self.ch(0.5) else ("sc", "or", e, ("call", V("c"), [B(self.ch(0.1))]))
        chain = [("expr", I(-1))]
        for i in reversed(range(self.size(65))):
            chain = [("expr", ("if", ("bin", "==", V("z"), I(i)), [("expr", I(i * 10))], chain))]
        return [("let", "f", ("fun", [], inner)), ("for", "j", std("range", I(0), I(k), I(1)), [show(V("j"), ("call", V("f"), []))]),
                ("let", "n", I(0)), ("let", "c", ("fun", ["x"], [("asg", V("n"), ("bin", "+", V("n"), I(1))), ("ret", V("x"))])), show(e, V("n")),
                ("let", "pick", ("fun", ["z"], chain))] + [show(("call", V("pick"), [I(i)])) for i in (0, r.randrange(17), 16, 31, 64, 99)]

    def errors(self):
        r = self.r
        v = std("error", S("deep"), I(1)) if self.ch(0.7) else NIL
        for i in range(r.randint(5, 30)):
            v = r.choice([lambda: ("arr", [I(i), v]), lambda: ("dict", [(b"a", I(i)), (b"b", v)]), lambda: ("arr", [v]),
                          lambda: ("arr", [I(x) for x in range(r.choice([1, 20, 40]))] + [v])])()
        es = ("arr", [std("error", S("e%d" % i), NIL) for i in range(self.size(65))]) if self.ch(0.5) else ("arr", [I(i) for i in range(self.size(130))])
        return [("let", "f", ("fun", ["x"], [("let", "y", ("un", "?", V("x"))), show(S("passed")), ("ret", std("type", V("y")))])),
                ("let", "v", v), ("let", "w", es), show(std("has_error", V("v")), std("has_error", V("w"))),
                show(std("type", ("call", V("f"), [V("v")])), std("type", ("call", V("f"), [V("w")])))]

    def panics(self):
        r = self.r
        d, n = r.randint(20, 80), self.size(100)
        return [("let", "m", I(0)), ("let", "down", ("fun", ["k"], [("let", "a", ("arr", [V("k")])), ("asg", V("m"), ("bin", "+", V("m"), I(1))),
                    ("expr", ("if", ("bin", "==", V("k"), I(0)), [("expr", std("panic", S("bottom")))], None)),
                    ("let", "r", ("call", V("down"), [("bin", "-", V("k"), I(1))])), ("ret", ("arr", [V("a"), V("r")]))])),
                ("let", "l", ("arr", [])),
                ("for", "i", std("range", I(0), I(n), I(1)), [
                    ("let", "x", std("catch", ("fun", [], [("expr", std("push", V("l"), ("bin", "/", I(100), ("bin", "%", V("i"), I(5))))), ("ret", V("i"))]))),
                    ("expr", ("if", ("bin", "==", V("i"), I(n - 1)), [show(V("x"), V("i"))], None))]),
                show(std("len", V("l")), std("catch", ("fun", [], [("ret", ("arr", [I(1), ("call", V("down"), [I(d)])]))])), V("m")),
                show(std("type", std("catch", ("fun", [], [("ret", ("call", V("down"), [I(d)]))]))), V("m"), std("len", V("l")))]

    def values(self):
        r = self.r
        n = self.size(200)
        xs = [r.randint(0, 99) for _ in range(n)]
        ys = list(xs)
        if self.ch(0.7):
            ys[r.choice([n - 1, r.randrange(n)])] += r.choice([-1, 1])
        a, b = [("arr", [I(x) for x in z]) if self.ch(0.5) or True else None for z in (xs, ys)]
        sa, sb = [S(bytes(97 + x % 26 for x in z)) for z in (xs, ys)]
        ds = [("dict", [(b"k%d" % i, I(x)) for i, x in (list(enumerate(z))[:60] if k else list(reversed(list(enumerate(z))[:60])))]) for k, z in enumerate((xs, ys))]
        ops = lambda x, y: show(*[("bin", o, x, y) for o in ("==", "!=")])
        ss = [("let", "a", a), ("let", "b", b), ops(V("a"), V("b")), ("let", "d", ("dict", [])),
              ("asg", ("acc", V("d"), V("a")), I(1)), ("asg", ("acc", V("d"), V("b")), I(2)), show(std("len", V("d")), ("acc", V("d"), V("a")))]
        ss += [("let", "s", sa), ("let", "t", sb), ops(V("s"), V("t")), show(*[("bin", o, V("s"), V("t")) for o in ("<", "<=", ">", ">=")]),
               ("let", "x", ("arr", [V("b"), V("a"), V("t"), V("s")])), ("expr", std("sort", V("x"))), show(("bin", "==", ("acc", V("x"), I(0)), V("s"))),
               show(("bin", "==", ("acc", V("x"), I(2)), V("a")))]
        ss += [ops(*ds)]
        return ss

    def strings(self):
        r = self.r
        n = r.choice([65, 100, 129, 257, 600])
        al = r.choice([b"ab", b"a,b,", b" a\n", b"abc\xff"])
        s = bytes(r.choice(al) for _ in range(n))
        p = r.choice([s[-3:], s[n // 2:n // 2 + 2], al[:1], b"zz", s[:40]])
        pad = r.choice([b" ", b"\t", b"\n"]) * r.choice([1, 20, 70])
        k = r.choice([0, 1, n // 2, n - 1, n])
        return [("let", "s", S(s)), show(std("len", V("s")), std("split", V("s"), S(p))), show(std("replace", V("s"), S(p), S(b"<>"))),
                show(std("trim", ("bin", "++", ("bin", "++", S(pad), V("s")), S(pad)))), show(safe(std("substr", V("s"), I(k), I(r.choice([0, 1, n - k, n]))))),
                show(std("contains", V("s"), C("b")), std("contains", V("s"), C("z"))), show(std("len", std("bytes", V("s"))), ("acc", V("s"), I(n - 1)))]

    def iteration(self):
        r = self.r
        n = self.size()
        src = r.choice([std("range", I(0), I(n), I(1)), std("range", I(n), I(0), I(-1)), std("iter", V("a")), std("iter", V("s"))])
        return [("let", "a", ("arr", [I(i * i % 97) for i in range(n)])), ("let", "s", S(bytes(97 + i % 26 for i in range(n)))), ("let", "c", I(0)), ("let", "last", NIL),
                ("for", "x", src, [("asg", V("c"), ("bin", "+", V("c"), I(1))), ("asg", V("last"), V("x"))]), show(V("c"), V("last")),
                ("let", "d", ("dict", [])), ("for", "i", std("range", I(0), I(min(n, 100)), I(1)), [("asg", ("acc", V("d"), V("i")), I(1))]),
                ("let", "t", I(0)), ("for", "e", std("iter", V("d")), [show(("acc", V("e"), S("key"))), ("asg", V("t"), ("bin", "+", V("t"), ("acc", V("e"), S("key"))))]), show(V("t"))]

    def text(self):
        r = self.r
        v = I(r.randint(0, 9))
        for i in range(r.randint(5, 25)):
            v = r.choice([lambda: ("arr", [v]), lambda: ("arr", [I(i), v]), lambda: ("dict", [(b"k", v)]), lambda: std("error", S("e"), v)])()
        n = self.size()
        return [show(v), show(("arr", [I(i) for i in range(n)])), show(std("len", std("to_string", ("arr", [S("x%d" % i) for i in range(n)])))),
                show(std("len", std("to_string", V("n"))) if False else S(bytes(r.randrange(32, 127) for _ in range(n))))]


# ------------------------------------------------------------------ C09: iteration

class Iteration_(Base):
    scenes = 5

    def scene(self):
        return self.r.choice([self.rng, self.rng, self.frng, self.arr, self.arr, self.string, self.dict, self.custom, self.custom,
                              self.two, self.manual, self.big, self.change])()

    def loop(self, e, extra=()):
        r = self.r
        b = [("asg", V("n"), ("bin", "+", V("n"), I(1))), show(V("n"), V("x"))] + list(extra)
        lim = r.randint(1, 8)
        b.append(("expr", ("if", ("bin", ">=", V("n"), I(lim)), [show(S("enough")), ("brk",)], None)))
        return [("let", "n", I(0)), ("for", "x", e, b), show(S("end"), V("n"))]

    def rng(self):
        r = self.r
        f, t = r.randint(-5, 8), r.randint(-5, 8)
        s = r.choice([1, 2, 3, -1, -2, 0, 5, 10])
        if self.ch(0.25):
            base = r.choice([2**63 - 1, -2**63, 2**62])
            f, t = base - r.randint(0, 4) if base > 0 else base + r.randint(0, 4), base
            if self.ch(0.3):
                f, t = t, f
            s = r.choice([1, 2, 3, -1, -2, 2**62, -2**62, 2**63 - 1])
        ss = self.loop(std("range", int_expr(f), int_expr(t), int_expr(s)))
        if self.ch(0.2):
            ss.append(show(safe(std("range", r.choice([S("a"), NIL, I(1)]), r.choice([I(2), NIL]), r.choice([I(1), B(True)])))))
        return ss

    def frng(self):
        r = self.r
        v = lambda: F(r.randint(-6, 10), 1) if self.ch(0.7) else I(r.randint(-3, 5))
        if self.ch(0.3):
            return self.loop(std("range", flt(r, 0.05), flt(r, 0.05), flt(r, 0.05)))
        return self.loop(std("range", v(), v(), F(r.choice([1, 2, 3, -1, -2, 4]), r.choice([0, 1]))))

    def arr(self):
        r = self.r
        xs = [r.choice([I(r.randint(0, 99)), S("s"), NIL, ("arr", [I(1)])]) for _ in range(r.randint(0, 6))]
        return self.loop(std("iter", ("arr", xs)))

    def change(self):
        """The array changes during the iteration."""
        r = self.r
        ch = r.choice([("expr", std("push", V("a"), V("n"))), ("expr", std("catch", ("fun", [], [("ret", std("pop", V("a")))]))),
                       ("asg", ("acc", V("a"), I(0)), I(77)), ("asg", V("a"), ("arr", [I(9)])),
                       ("asg", ("acc", V("a"), ("bin", "-", std("len", V("a")), I(1))), V("n"))])
        return [("let", "a", ("arr", [I(r.randint(0, 9)) for _ in range(r.randint(1, 4))]))] + \
            self.loop(std("iter", V("a")), [ch]) + [show(V("a"))]

    def string(self):
        return self.loop(std("iter", S(self.r.choice(STRS[:13]))))

    def dict(self):
        r = self.r
        if self.ch(0.4):        # Any values; and many of them.
            n = r.choice([1, 2, 5, 15, 16, 17, 33, 40])
            odd = [NIL, B(False), B(True), ("arr", []), std("error", S("e"), NIL), S(""), F(0), ("dict", [])]
            ss = [("let", "d", ("dict", [(b"k%d" % i, r.choice(odd)) for i in range(r.choice([0, 1, 4, n]))])),
                  ("for", "i", std("range", I(0), I(r.choice([0, n])), I(1)), [("asg", ("acc", V("d"), V("i")), r.choice(odd + [V("i")]))]),
                  ("let", "n", I(0))]
            body = [("asg", V("n"), ("bin", "+", V("n"), I(1)))]
            k = r.random()
            if k < 0.25:
                body.append(("asg", ("acc", V("d"), ("acc", V("x"), S("key"))), r.choice([NIL, I(1), V("x")][:2])))
            elif k < 0.5:
                body.append(("asg", ("acc", V("d"), ("bin", "+", V("n"), I(r.choice([0, 100])))), r.choice([NIL, I(1)])))
            body.append(show(("acc", V("x"), S("key")), ("acc", V("x"), S("value"))))
            return ss + [("for", "x", std("iter", V("d")), body), show(V("n"), std("len", V("d")))]
        e = ("dict", [(k, I(r.randint(0, 9))) for k in r.sample([b"a", b"b", b"c", b"dd"], r.randint(0, 4))])
        return [("let", "d", e), ("let", "n", I(0)), ("let", "sum", I(0)),
                ("for", "x", std("iter", V("d")), [
                    ("asg", V("n"), ("bin", "+", V("n"), I(1))), show(("acc", V("x"), S("key")), ("acc", V("x"), S("value")), V("x")),
                    ("asg", V("sum"), ("bin", "+", V("sum"), ("acc", V("x"), S("value"))))]
                 + ([("asg", ("acc", V("d"), ("acc", V("x"), S("key"))), I(100))] if self.ch(0.3) else [])
                 + ([("asg", ("acc", V("d"), V("n")), I(7))] if self.ch(0.2) else [])),
                show(V("n"), V("sum"), std("len", V("d")))]

    def custom(self):
        r = self.r
        n = r.randint(0, 4)
        bad = r.random()
        fin = ("dict", [(b"finished", B(True))])
        nxt = ("dict", [(b"finished", B(False)), (b"value", ("bin", "*", V("i"), I(3)))])
        if bad < 0.1:
            nxt = ("dict", [(b"finished", B(False))])
        elif bad < 0.2:
            nxt = ("dict", [(b"value", I(1))])
        elif bad < 0.3:
            nxt = r.choice([I(3), NIL, ("arr", [])])
        elif bad < 0.4:
            nxt = ("dict", [(b"finished", r.choice([I(0), NIL, S("false")])), (b"value", I(1))])
        elif bad < 0.5:
            fin = ("dict", [(b"finished", B(True)), (b"value", I(1000))])
        it = ("fun", [], [("asg", V("i"), ("bin", "+", V("i"), I(1))), show(S("next"), V("i")),
                          ("expr", ("if", ("bin", ">", V("i"), I(n)), [("expr", ("if", B(True), [("expr", fin)], None))],
                                    [("expr", ("if", B(True), [("expr", nxt)], None))]))])
        ss = [("let", "i", I(0)), ("let", "it", it)]
        if self.ch(0.1):
            ss.append(("asg", V("it"), r.choice([I(1), ("fun", ["p"], [("ret", V("p"))]), NIL, ("arr", [I(1)])])))
        return ss + self.loop(V("it")) + [show(V("i"))]

    def two(self):
        """Two iterators over the same array, and the same iterator in two loops."""
        r = self.r
        ss = [("let", "a", ("arr", [I(i) for i in range(r.randint(1, 4))])), ("let", "p", std("iter", V("a"))),
              ("let", "q", std("iter", V("a"))),
              ("for", "x", V("p"), [("for", "y", V(r.choice(["p", "q"])), [show(V("x"), V("y"))] + ([("brk",)] if self.ch(0.5) else []))]),
              show(("call", V("p"), []), ("call", V("q"), []), ("call", V("p"), []))]
        return ss

    def manual(self):
        r = self.r
        e = r.choice([std("range", I(0), I(2), I(1)), std("iter", S("ab")), std("iter", ("arr", [I(7)])), std("iter", ("dict", [(b"k", I(1))]))])
        return [("let", "it", e), ("let", "it2", V("it"))] + \
            [show(safe(("call", V(r.choice(["it", "it2"])), []))) for _ in range(4)] + [show(safe(("call", V("it"), [I(1)])), std("type", V("it")))]

    def big(self):
        r = self.r
        n = r.choice([50, 100, 255, 256, 300])
        return [("let", "s", I(0)), ("let", "last", NIL),
                ("for", "x", std("range", I(0), I(n), I(r.choice([1, 1, 2]))), [("asg", V("s"), ("bin", "+", V("s"), V("x"))), ("asg", V("last"), V("x"))]),
                show(V("s"), V("last"))]


# ------------------------------------------------------------------ C24: strings

# Positions that are small only in fewer bits.
FAR = [2**32, 2**32 + 1, -2**32, 2**31, 2**63 - 1, -2**63 + 1, 256, 65536, 2**16 + 1]


class Strings(Base):
    scenes = 6

    def s(self):
        r = self.r
        if self.ch(0.3):
            return r.choice(STRS)
        al = r.choice([b"ab", b"abc ", b" \t\nx", b"a,", b"01-", b"a\0b", b"\xff\x80\0a", bytes(range(0xc2)) + bytes(range(0xf5, 256))])
        return bytes(r.choice(al) for _ in range(r.choice([r.randint(0, 9), r.randint(0, 9), r.randint(8, 24)])))

    BLANK = [x.encode() for x in " \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u200a\u2028\u2029\u202f\u205f\u3000"]

    def blank(self):
        r = self.r
        return b"".join(r.choice(self.BLANK if self.ch(0.85) else [b"\x1c", b"\xc2", b"\x85", b"\xa0", "\u200b".encode(), "\ufeff".encode(), b"\0", "\u180e".encode(),
                                                                 b"\xe3\x80", b"\x80"]) for _ in range(r.randint(0, 4)))

    def pat(self, s):
        r = self.r
        if s and self.ch(0.6):
            i = r.randrange(len(s))
            return s[i:i + r.randint(1, 3)]
        return r.choice([b"", b"a", b"aa", b",", b"ab", b" ", b"xyz"])

    def scene(self):
        r = self.r
        ss = []
        for _ in range(5):
            s = self.s()
            p = self.pat(s)
            e = r.choice([
                lambda: std("split", S(s), S(p)), lambda: std("replace", S(s), S(p), S(self.pat(s))),
                lambda: std("trim", S(s)), lambda: std("trim", S(self.blank() + s + self.blank())), lambda: std("substr", S(s), I(r.randint(-1, len(s) + 1)), I(r.randint(-1, len(s) + 1))),
                lambda: std("substr", S(s), I(r.randint(0, len(s))), I(r.randint(0, 3))),
                lambda: std("substr", S(s), I(r.choice([0, 1, 2**63 - 1, 2**62])), I(r.choice([0, 1, 2**63 - 1, 2**62]))),
                lambda: std("bytes", S(s)), lambda: std("len", S(s)), lambda: std("contains", S(s), C(r.choice(b"abx, "))),
                lambda: ("acc", S(s), I(r.randint(-1, len(s)))), lambda: ("acc", S(s), I(r.choice(FAR))), lambda: std("is_empty", S(s)),
                lambda: ("bin", r.choice(["<", "<=", ">", ">=", "==", "!="]), S(s), S(self.s() if self.ch(0.5) else s[:len(s) // 2] + p)),
                lambda: ("bin", "++", S(s), S(p)), lambda: std("int", S(s)), lambda: std("to_string", S(s)),
                lambda: std(r.choice(["split", "trim", "bytes", "replace", "substr"]), *[self.junk() for _ in range(r.randint(0, 3))]),
            ])()
            ss.append(show(safe(e)))
        return ss

    def junk(self):
        r = self.r
        return r.choice([S("a"), S("b"), I(1), NIL, ("arr", []), C("a"), I(0)])


# ------------------------------------------------------------------ C23: codecs

class Codecs(Base):
    """What is encoded and decoded; the descriptions of JSON errors are not specified, and never shown."""
    scenes = 5

    def prelude(self):
        e = V("x")
        return [("let", "dec", ("fun", ["s"], [
                    ("let", "x", std("json.decode", V("s"))),
                    ("ret", ("if", ("bin", "==", std("type", e), S("error")),
                             [("expr", ("arr", [S("E"), ("acc", e, S("context"))]))],
                             [("expr", e)]))])),
                ("let", "round", ("fun", ["v"], [("ret", ("bin", "==", std("json.decode", std("json.encode", V("v"))), V("v")))]))]

    def bytes(self, hi=9):
        """No character but these, so that none needs an escape that depends on tables of Unicode."""
        while True:
            s = self.bytes1(hi)
            if all(ord(c) < 256 or c in "\u20ac\U0001d11e\ufffd" for c in s.decode("utf-8", "replace")):
                return s

    def bytes1(self, hi):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, r.randint(0, hi), r.randint(0, hi)])
        k = r.random()
        if k < 0.4:
            return bytes(r.randrange(256) for _ in range(n))
        if k < 0.6:
            return bytes(r.choice([0, 255, 0x3f, 0x40, 0x80, 0xfb, 0xef, 0xbe]) for _ in range(n))
        if k < 0.8:
            return r.choice(STRS)[:24]
        return "".join(r.choice("a\u00e9\u20ac\U0001d11e\ufffd\n\"\\\u0001/\x7fz") for _ in range(n)).encode()

    def damage(self, s, alphabet):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])):
            i = r.randint(0, len(s))
            c = bytes([r.choice(alphabet)])
            s = r.choice([s[:i] + c + s[i:], s[:max(i - 1, 0)] + s[i:], s[:i] + c + s[i + 1:], s[:i]])
        return s

    def hex(self):
        r = self.r
        s = self.bytes(14)
        h = s.hex().encode()
        h = r.choice([h, h.upper(), bytes(r.choice([c, c ^ 32 if chr(c).isalpha() else c]) for c in h)])
        return r.choice([
            lambda: std("hex.encode", S(s)),
            lambda: std("hex.decode", S(self.damage(h, b"0aFgG@`/: '\"\\\n\0\x7f\x80\xa0\xad\xe9\xff"))),
            lambda: std("hex.decode", S(h)),
            lambda: ("bin", "==", std("hex.decode", std("hex.encode", S(s))), S(s))])()

    def base64(self):
        import base64
        r = self.r
        s = self.bytes(r.choice([6, 14, 60]))
        b = base64.b64encode(s)
        b = r.choice([b, b, b.rstrip(b"="), b.rstrip(b"=") + b"="])
        return r.choice([
            lambda: std("base64.encode", S(s)), lambda: std("base64.decode", S(b)),
            lambda: std("base64.decode", S(self.damage(b, b"A/+9z==-_ \n\0\x80\xff@[`{:,."))),
            lambda: std("base64.decode", S(bytes(r.choice(b"AQg=+/") for _ in range(r.randint(0, 10))))),
            lambda: ("bin", "==", std("base64.decode", std("base64.encode", S(s))), S(s))])()

    def value(self, d=3, odd=0.06):
        r = self.r
        k = r.random()
        if d and k < 0.2:
            return ("arr", [self.value(d - 1, odd) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        if d and k < 0.4:
            ks = r.sample([b"a", b"b", b"key", b"x1", b"zz"], r.choice([0, 1, 1, 2, 3]))
            return ("dict", [(x, self.value(d - 1, odd)) for x in ks])
        if k < 0.4 + odd:
            return r.choice([("std", "len"), ("fun", [], []), std("error", S("e"), NIL)])
        return r.choice([NIL, B(True), B(False), I(r.choice([0, -1, 7, 2**63 - 1, -2**63 + 1, r.randint(-10**6, 10**6)])), C(r.choice(b"a\"\\\n\0\x7f\x80\xff")),
                         F(r.choice([0, 1, -3, 100, 5, 1025]), r.choice([0, 1, 3])), flt(r), flt(r), ("bin", "/", F(r.choice([1, -1, 0]), 0), F(0, 0)),
                         ("un", "-", F(0, 0)), S(self.bytes()), S(self.bytes())])

    def json(self, d=4):
        """A text of JSON, more or less."""
        r = self.r
        w = lambda: r.choice([b""] * 8 + [b" ", b"\n", b"\t\r", b"  ", b"\x0c", b"\x0b"][:4 + 2 * self.ch(0.05)])
        k = r.random()
        if d and k < 0.25:
            return b"[" + w() + (b"," + w()).join(self.json(d - 1) + w() for _ in range(r.randint(0, 3))) + b"]"
        if d and k < 0.5:
            ks = [self.jstr() if self.ch(0.4) else b'"k%d"' % r.randint(0, 2) for _ in range(r.randint(0, 4))]
            return b"{" + w() + (w() + b"," + w()).join(x + w() + b":" + w() + self.json(d - 1) for x in ks) + w() + b"}"
        if k < 0.65:
            return self.jstr()
        if k < 0.8:
            return r.choice([b"null", b"true", b"false"])
        if k < 0.84:
            return r.choice([b"9223372036854775807", b"-9223372036854775808", b"9223372036854775808", b"18446744073709551615", b"12345678901234567890"]
                            + [b"18446744073709551616", b"-9223372036854775809"] * self.ch(0.05))
        if self.ch(0.35):
            return r.choice([b"", b"-"]) + r.choice([
                lambda: b"%d.%d" % (r.randrange(10**r.randint(1, 20)), r.randrange(10**r.randint(1, 25))),
                lambda: b"%d.%0*de%d" % (r.randint(0, 20), r.randint(1, 9), r.randrange(10**r.randint(1, 9)), r.choice([r.randint(-30, 30), 300, -300, 308, 309, -320, -340, 400, 10**10, -10**10])),
                lambda: b"%d" % r.randrange(10**r.randint(18, 30)), lambda: b"%de%d" % (r.randrange(10**r.randint(1, 24)), r.randint(-40, 20)),
                lambda: repr(r.choice(FSPECIAL)).encode()])()
        return r.choice([b"", b"", b"-"]) + r.choice([
            b"0", b"1", b"00", b"01", b"10", b"1.5",
            b"0.0", b"0e5", b"1e2", b"1E+3", b"25e-2", b"125E-3", b"1.25e1", b"1.", b".5", b"1e", b"1e+", b"5e-1", b"2.50", b"100000", b"+1", b"0x1", b"1_0", b"NaN",
            b"0.125", b"0e999", b"0.0e-999", b"-1", b"1.0.0", b"1e1.0"])

    def jstr(self, raw=False):
        """raw: it's shown as it is, so that no character needs an escape that depends on tables of Unicode."""
        r = self.r
        out = b""
        for _ in range(r.choice([0, 1, 2, 4])):
            out += r.choice([
                lambda: r.choice([b"a", b"key", b"/", b"'", b" ", b"\x7f"]),
                lambda: b"\\" + bytes([r.choice(b'"\\/bfnrt')]),
                lambda: b"\\u%04x" % r.choice([0, 9, 0x1f, 0x41, 0x7f, 0xe9, 0x3a9, 0x20ac, 0xfffd] + ([0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff] if raw else [])),
                lambda: b"\\u%04X\\u%04X" % r.choice([(0xd834, 0xdd1e), (0xd834, 0xdd1e), (0xd834, 0x41), (0xd800, 0xd800)]
                                                        + ([(0xdbff, 0xdfff), (0xd800, 0xdc00), (0xdbff, 0xdc00), (0xd800, 0xdfff)] if raw else [])) if self.ch(0.5)
                else "\u00e9\u20ac\U0001d11e".encode(),
                lambda: r.choice([b"\\x", b"\\u12", b"\\u12g4", b"\\ud834", b"\\udd1e", b"\\ud834\\n", b"\n", b"\x01", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\\U0041", b"\\'"])
                if self.ch(0.25) else b"x",
            ])()
        return b'"' + out + b'"'

    def scene(self):
        r = self.r
        ss = []
        for _ in range(5):
            k = r.random()
            if k < 0.2:
                e = self.hex()
            elif k < 0.4:
                e = self.base64()
            elif k < 0.6:
                v = self.value()
                e = r.choice([std("json.encode", v), std("json.encode", v), ("call", V("round"), [self.value(2, 0)])])
            elif k < 0.93:
                j = self.json() if self.ch(0.85) else self.jstr(True)
                if self.ch(0.25):
                    j = self.damage(j, b'{}[],:"\\0 1-.ent\n\0\xff')
                if self.ch(0.03):
                    n = r.choice([5, 60, 126, 127, 128, 129])
                    j = b"[" * n + r.choice([b"", b"1", b"{}"]) + b"]" * r.choice([n, n, n - 1])
                e = ("call", V("dec"), [S(r.choice([b"", b"", b" ", b"\n"]) + j + r.choice([b"", b"", b"\n", b" x"][:3 + self.ch(0.1)]))])
            else:
                e = std(r.choice(["hex.encode", "hex.decode", "base64.encode", "base64.decode", "json.encode"]),
                        *[r.choice([I(1), NIL, S("a"), ("arr", []), C("c")]) for _ in range(r.choice([0, 1, 1, 1, 2]))])
                e = r.choice([e, std("json.decode", r.choice([I(1), NIL, ("arr", [])])), std("json.decode"),
                              std("json.encode", ("dict", [(b"a", std("bind", I(1), ("std", "len")))]))])
            ss.append(show(safe(e)))
        if self.ch(0.5):
            # Keys that aren't strings; and shared or changed values.
            ss += [("let", "d", ("dict", [])), ("asg", ("acc", V("d"), r.choice([I(1), C("a"), NIL, S("s p"), S(self.bytes()), B(True)])), self.value(1, 0)),
                   show(safe(std("json.encode", V("d")))), show(safe(std("json.encode", ("arr", [V("d"), V("d")])))),
                   ("let", "a", std("json.decode", S("[[1], {}]"))), ("expr", std("push", ("acc", V("a"), I(0)), V("a") if self.ch(0) else I(2))), show(V("a"))]
        return ss


# ------------------------------------------------------------------ C27: random numbers

class Draws(Base):
    """Calls that panic, and draws from small ranges."""
    scenes = 5

    def scene(self):
        r = self.r
        ss = []
        for _ in range(5):
            a = r.choice([0, 1, -3, 10, 2**63 - 1, -2**63 + 1, -2**62])
            arg = lambda: r.choice([I(a), I(a), I(a - 1 if a > 0 else a), F(1, 0), S("1"), NIL, ("arr", []), I(0)])
            e = r.choice([lambda: std("randint", I(a), I(a)), lambda: std("randint", I(a), I(r.randint(0, 3) + a if a < 2**62 else a)),
                          lambda: std("randint", *[arg() for _ in range(r.choice([0, 1, 2, 2, 2, 2, 3]))]),
                          lambda: std("randseed", *[arg() for _ in range(r.choice([0, 1, 1, 2]))]),
                          lambda: std("rand", arg())])()
            ss.append(show(safe(e)))
        return ss


# ------------------------------------------------------------------ C25: types, conversions and text

class Conversions(Base):
    scenes = 5

    def val(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.55:
            return r.choice([lambda: int_expr(r.choice(INTS_ALL)), lambda: I(r.randint(-99, 999)), lambda: r.choice(FLTB), lambda: flt(r), lambda: S(r.choice(STRS)),
                             lambda: S(bytes(r.randrange(0, 128) for _ in range(r.randint(0, 5)))), lambda: C(r.randrange(0, 127)),
                             lambda: B(self.ch(0.5)), lambda: NIL, lambda: ("std", r.choice(["len", "iter", "println"])),
                             lambda: ("fun", [], []), lambda: std("iter", S("")), lambda: std("bind", NIL, ("std", "len"))])()
        if x < 0.75:
            return ("arr", [self.val(d - 1) for _ in range(r.randint(0, 4))])
        if x < 0.9:
            return ("dict", [(k, self.val(d - 1)) for k in r.sample([b"a", b"b", b"key_1"], r.randint(0, 3))])
        return std("error", S(r.choice(STRS)), self.val(d - 1))

    TYPES = ["nil", "bool", "char", "int", "float", "string", "array", "dict", "function", "error", "Int", "any", "", "byte"]

    NUMS = [b"0", b"1", b"-1", b"+5", b"007", b"", b"-", b"+", b"1.5", b" 1", b"1 ", b"9223372036854775807", b"9223372036854775808",
            b"-9223372036854775808", b"-9223372036854775809", b"1e3", b"0x10", b"1_000", b"abc", b"12a", b"--1", b"99999999999999999999",
            b"-0", b"inf", b"nan", b"++5", b"+-5", b"+007", b"+9223372036854775807", b"+1.5", b".5", b"5.", b".", b"1.25", b"-2.5", b"Infinity", b"0.5", b"3.0625", b"1.5.2"]

    def ftext(self):
        """The text of a float, more or less."""
        r = self.r
        t = r.choice([lambda: repr(r.choice(FSPECIAL)), lambda: "%.*f" % (r.randint(0, 12), r.uniform(0, 10 ** r.randint(-3, 12))),
                      lambda: "%.*e" % (r.randint(0, 18), r.uniform(0, 1)), lambda: "%d%s%d" % (r.randint(0, 99), r.choice(["e", "E", "e-", "e+", ".e", "e ", "e."]), r.randint(0, 30)),
                      lambda: "%d.%de%d" % (r.randint(0, 9), r.randint(0, 10**r.randint(1, 18)), r.choice([0, 5, -5, 300, -300, 310, -330, 400, 99999, -99999, 10**12])),
                      lambda: r.choice(["1e", "e1", "1e+", "1e1e1", "1.e1", ".1e1", ".e1", "1_0.0", "1e1.0", "infinity", "-INF", "NaN", "-nan", "+inf", "infin", "1.0f", " 1.0", "0x1p3",
                                        "1" * 25, "0." + "1" * 30, "0" * 30 + "1.5", "1." + "0" * 30 + "1e5"])])()
        return (r.choice(["", "", "", "-", "+"]) + t).encode()

    def scene(self):
        r = self.r
        ss = []
        for _ in range(5):
            v = self.val()
            e = r.choice([
                lambda: [show(v)], lambda: [show(v, self.val())], lambda: [show(std("to_string", v))],
                lambda: [show(("arr", [v, std("to_string", self.val(0))]))],
                lambda: [show(std("type", v))],
                lambda: [show(safe(std("typecheck", v, S(r.choice(self.TYPES)))))],
                lambda: [show(safe(std("try_typecheck", v, S(r.choice(self.TYPES)))))],
                lambda: [show(safe(std("int", v)))],
                lambda: [show(safe(std("float", r.choice([S(r.choice(STRS)), NIL, B(True), ("arr", []), I(r.randint(-99, 99)), r.choice(FLTB)]))))],
                lambda: [show(safe(std("int", S(r.choice(self.NUMS))))), show(safe(std("float", S(r.choice(self.NUMS + [self.ftext()] * 40)))))],
                lambda: [show(safe(std("int", F(r.randint(-40, 40), r.randint(0, 3))))), show(safe(std("float", I(r.randint(-9999, 9999)))))],
                lambda: [show(safe(std("int", flt(r)))), show(safe(std("float", int_expr(r.randrange(-2**63, 2**63) >> r.randint(0, 20)))))],
                lambda: [show(safe(std("float", int_expr(r.choice(INTS_ALL))))), show(std("int", std("float", int_expr(r.choice(INTS_ALL)))))],
                lambda: [("let", "x%d" % len(ss), flt(r)), show(V("x%d" % len(ss)), ("bin", "==", std("float", std("to_string", V("x%d" % len(ss)))), V("x%d" % len(ss))))],
                lambda: [show(safe(std("typecheck", v, self.val(0))))],
                lambda: [("expr", std("print", v, v)), ("expr", std("print")), ("expr", std("println"))] if False else [("expr", std("print", v, v)), show(S("|"))],
            ])()
            ss += e
        return ss


def batch(cls, ck, quick, thorough, salt=""):
    res = []
    for i in range(ck.n(quick, thorough)):
        res.append(cls(rng_of(ck, i, cls.__name__ + salt)).program())
    return res


def large(kind, ck, quick=16, thorough=300):
    return [Large(rng_of(ck, i, "large" + kind), kind).program() for i in range(ck.n(quick, thorough))]


def gen_batch(ck, quick, thorough, salt, scenes=4, **kw):
    res = []
    for i in range(ck.n(quick, thorough)):
        res.append(Gen(rng_of(ck, i, salt), **kw).program(scenes))
    return res


# ------------------------------------------------------------------ C28: regular expressions

class Regexes(Base):
    """Random expressions, applied to texts that nearly match them."""
    scenes = 5

    def prelude(self):
        x = V("x")
        return [("let", "rx", ("fun", ["p"], [
            ("let", "x", std("regex", V("p"))),
            ("ret", ("if", ("bin", "==", std("type", x), S("error")),
                     [("expr", ("arr", [S("E"), ("acc", x, S("description"))]))],
                     [("expr", x)]))]))]

    LETTERS = b"aab1_ .-\n"

    def node(self, d):
        """An expression (as a tree): what it matches is made from it by sample."""
        r = self.r
        k = r.random()
        if d == 0 or k < 0.3:
            k = r.random()
            if k < 0.45:
                return ("chr", bytes([r.choice(self.LETTERS)]))
            if k < 0.55:
                return ("dot",)
            if k < 0.75:
                return ("cls", self.ch(0.3), [r.choice([b"a", b"b", b"1", b"_", b"a-b", b"0-9", b"a-z", b"\\d", b"\\w", b"\\s", b" ", b".", b"\\]", b"\\-", b"$"])
                                              for _ in range(r.choice([1, 1, 2, 3]))])
            if k < 0.87:
                return ("esc", bytes([r.choice(b"dDwWsS")]))
            if k < 0.93:
                return ("esc", r.choice([b".", b"n", b"t", b"\\", b"*", b"$", b"^", b"(", b"|", b"]"]))
            return ("at", r.choice([b"^", b"$", b"\\b", b"\\B", b"\\A", b"\\z"]))
        if k < 0.55:
            return ("cat", [self.node(d - 1) for _ in range(r.choice([2, 2, 3]))])
        if k < 0.68:
            return ("alt", [self.node(d - 1) if self.ch(0.93) else ("cat", []) for _ in range(r.choice([2, 2, 3]))])
        if k < 0.84:
            lo, hi = r.choice([(0, -1), (0, -1), (1, -1), (1, -1), (0, 1), (0, 1), (2, 2), (1, 2), (0, 2), (2, -1), (0, 0), (1, 1), (2, 3)])
            x = self.node(d - 1)
            if self.empty(x) and hi not in (0, 1) and self.ch(0.99):
                return x
            return ("rep", x, lo, hi, self.ch(0.3))
        if k < 0.95:
            return ("cap", self.node(d - 1), r.choice(["", "", "x", "y1", "_n"]))
        return ("grp", self.node(d - 1))

    def empty(self, x):
        """May it match nothing?"""
        k = x[0]
        return k == "at" or k == "cat" and all(map(self.empty, x[1])) or k == "alt" and any(map(self.empty, x[1])) \
            or k in ("cap", "grp") and self.empty(x[1]) or k == "rep" and (x[2] == 0 or self.empty(x[1]))

    def text(self, x):
        k = x[0]
        if k == "chr":
            c = x[1]
            return b"\\" + c if c in b".-" and c != b"-" else c
        if k == "dot":
            return b"."
        if k == "cls":
            return b"[" + (b"^" if x[1] else b"") + b"".join(x[2]) + b"]"
        if k == "esc":
            return b"\\" + x[1]
        if k == "at":
            return x[1]
        if k == "cat":
            return b"".join(b"(?:" + self.text(y) + b")" if y[0] == "alt" else self.text(y) for y in x[1])
        if k == "alt":
            return b"|".join(self.text(y) for y in x[1])
        if k == "grp":
            return b"(?:" + self.text(x[1]) + b")"
        if k == "cap":
            n = x[2]
            if n in self.used:
                n = ""
            self.used.append(n)
            return b"(" + (b"?P<" + n.encode() + b">" if n else b"") + self.text(x[1]) + b")"
        lo, hi, lazy = x[2:]
        op = {(0, -1): b"*", (1, -1): b"+", (0, 1): b"?"}.get((lo, hi), None)
        if op is None:
            op = b"{%d}" % lo if lo == hi else b"{%d,%s}" % (lo, b"" if hi < 0 else b"%d" % hi)
        t = self.text(x[1])
        if x[1][0] in ("cat", "alt", "rep", "at"):
            t = b"(?:" + t + b")"
        return t + op + (b"?" if lazy else b"")

    def sample(self, x):
        """A text that x matches, mostly."""
        r = self.r
        k = x[0]
        if k == "chr":
            return x[1]
        if k == "dot":
            return bytes([r.choice(b"ab1_ ")])
        if k in ("cls", "esc"):
            c = x[1] if k == "esc" else (b"" if x[1] else r.choice(x[2]))
            return {b"d": b"1", b"\\d": b"0", b"w": b"a", b"\\w": b"_", b"s": b" ", b"\\s": b" ", b"n": b"\n", b"t": b"\t", b"a-b": b"b", b"0-9": b"7", b"a-z": b"c",
                    b"\\]": b"]", b"\\-": b"-"}.get(c, c if len(c) == 1 and c not in b"DWS" else bytes([r.choice(b"ab1 .")]))
        if k == "at":
            return b""
        if k == "cat":
            return b"".join(self.sample(y) for y in x[1])
        if k == "alt":
            return self.sample(r.choice(x[1]))
        if k in ("cap", "grp"):
            return self.sample(x[1])
        hi = x[3] if x[3] >= 0 else x[2] + r.choice([0, 1, 1, 2])
        return b"".join(self.sample(x[1]) for _ in range(r.randint(x[2], hi)))

    def hay(self, x):
        r = self.r
        noise = lambda: bytes(r.choice(self.LETTERS) for _ in range(r.choice([0, 0, 1, 1, 2])))
        s = b"".join(noise() + self.sample(x) for _ in range(r.choice([0, 1, 1, 2, 3]))) + noise()
        for _ in range(r.choice([0, 0, 1, 2])):
            i = r.randint(0, len(s))
            s = s[:i] + (b"" if self.ch(0.5) else bytes([r.choice(self.LETTERS)])) + s[i + (1 if self.ch(0.6) else 0):]
        return s[:14]

    def subst(self):
        r = self.r
        return b"".join(r.choice([b"<", b">", b"-", b"a", b"$0", b"$1", b"$2", b"${1}", b"${0}x", b"$x", b"${x}", b"$y1", b"${y1}a", b"$_n", b"$xa", b"$1a", b"$$", b"$$1",
                                  b"$", b"${", b"${}", b"$-", b"$9", b"\\1", b"${ x}", b"$00", b"$01"]) for _ in range(r.choice([0, 1, 1, 2, 3])))

    def scene(self):
        r = self.r
        ss = []
        for _ in range(3):
            self.used = []
            x = self.node(r.choice([1, 2, 3]))
            p = self.text(x)
            if self.ch(0.12):
                i = r.randint(0, len(p))
                p = p[:i] + r.choice([b"*", b"(", b")", b"[", b"]", b"{", b"}", b"?", b"|", b"\\", b"+", b"(?P<", b"\xff", b"{2", b"{2,1}", b"\\q", b"[b-a]", b"[]", b"\xc3\xa9"]) + p[i:]
            v = self.fresh("p")
            ss.append(("let", v, ("call", V("rx"), [S(p)])))
            if self.ch(0.05):
                ss.append(show(safe(std("regex", *[r.choice([I(1), NIL, S("a")]) for _ in range(r.choice([0, 1, 2]))]))))
            uses = []
            for _ in range(r.choice([2, 3])):
                h = S(self.hay(x))
                uses.append(show(safe(r.choice([
                    ("call", ("acc", V(v), S("match")), [h]),
                    ("call", ("acc", V(v), S("split")), [h]),
                    ("call", ("acc", V(v), S("replace")), [h, S(self.subst())]),
                    ("call", ("acc", V(v), S("replace")), [h, S(self.subst())])]))))
            if self.ch(0.08):
                uses.append(show(safe(("call", ("acc", V(v), S(r.choice(["match", "split", "replace"]))),
                                       [r.choice([I(1), NIL, S("a"), C("a")]) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]))))
            ss.append(("expr", ("if", ("bin", "==", std("type", V(v)), S("dict")), uses, [show(V(v))])))
        return ss
