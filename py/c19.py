"""Monomials, polynomials and integers of the Python extension against exact models."""
import gc, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
import ref


class C19(Harness):
    crash = True
    hang = 20

    def setup(self):
        sys.path.insert(0, self.cfg["cyroot"])
        import ginv
        self.g = ginv
        self.heap = self.cfg.get("variant") == "heap"

    def strategy(self):
        from hypothesis import strategies as st
        small = st.integers(0, 7)
        big = st.one_of(st.integers(-9, 9), st.integers(-2 ** 70, 2 ** 70), st.sampled_from([0, 1, -1, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 18]))
        mop = st.one_of(
            st.tuples(st.just("zero"), st.integers(-1, 2)),
            st.tuples(st.just("var"), small, st.integers(-1, 2)),
            st.tuples(st.sampled_from(["mmul", "mdiv", "mcmp"]), small, small),
            st.tuples(st.just("mpow"), small, st.integers(0, 4)),
            st.tuples(st.just("mperm"), small, st.integers(0, 5)),
            st.tuples(st.just("mpos"), small, st.integers(-1, 2)),
            st.tuples(st.just("mget"), small, st.integers(-3, 6)),
            st.tuples(st.just("mshow"), small),
            st.tuples(st.just("refuse"), small, small),
        )
        pop = st.one_of(
            st.tuples(st.just("poly"), small),
            st.tuples(st.sampled_from(["add", "sub", "mul", "add", "sub", "mul", "red", "pcmp"]), small, small),
            st.tuples(st.sampled_from(["addi", "subi", "muli", "iadd", "isub", "imul"]), small, big),
            st.tuples(st.just("neg"), small),
            st.tuples(st.just("pow"), small, st.integers(0, 3)),
            st.tuples(st.just("pp"), small),
            st.tuples(st.just("pshow"), small),
            st.tuples(st.sampled_from(["lm", "lc", "terms"]), small),
            st.tuples(st.just("term"), small, small, big),
            st.tuples(st.just("drop"), small),
        )
        n = 40 if self.thorough else 24
        return st.fixed_dictionaries(dict(
            n=st.integers(2, 5), mod=st.sampled_from(["TOP", "POT"]), kind=st.sampled_from(["lex", "deglex", "alex"]),
            ops=st.lists(st.one_of(pop, mop, pop).map(list), min_size=6, max_size=n)))

    # ------------------------------------------------------------ checks
    def mon(self, m, r, what):
        need(len(m) == len(r[1]) and list(m) == list(r[1]) and m.pos() == r[0] and m.degree() == sum(r[1]), "monomial", "%s is %r, expected %s" % (what, m, r))

    def integer(self, c, v, what):
        need(str(c) == str(v), "integer", "%s is %s, expected %s" % (what, c, v))
        need(repr(c) == hex(v), "integer hex", "%s is %r, expected %s" % (what, c, hex(v)))
        need(c.sgn() == (v > 0) - (v < 0) and c.isZero() == (v == 0) and c.isOne() == (v == 1) and c.isAbsOne() == (abs(v) == 1) and bool(c) == (v != 0)
             and c.norm() == (abs(v).bit_length() + 63) // 64, "integer predicate", "%s = %s: sgn %s isZero %s isOne %s isAbsOne %s bool %s norm %s" % (what, v, c.sgn(), c.isZero(), c.isOne(), c.isAbsOne(), bool(c), c.norm()))

    def poly(self, p, r, what):
        exp = self.o.sorted(r)
        got = [((m.pos(), tuple(m)), int(str(c))) for m, c in p]
        need(got == [(m, r[m]) for m in exp], "polynomial", lambda: "%s is %s, expected %s" % (what, got, [(m, r[m]) for m in exp]))
        need(len(p) == len(r) and bool(p) == bool(r) and p.isZero() == (not r), "polynomial size", "%s: len %s bool %s isZero %s, expected %d terms" % (what, len(p), bool(p), p.isZero(), len(r)))
        if r:
            self.mon(p.lm(), exp[0], what + ".lm()")
            self.integer(p.lc(), r[exp[0]], what + ".lc()")
            need(p.degree() == sum(exp[0][1]), "degree", "%s.degree() is %s" % (what, p.degree()))
            need(p.norm() == sum((abs(c).bit_length() + 63) // 64 for c in r.values()), "norm", "%s.norm() is %s" % (what, p.norm()))
            need(p.isPp() == (ref.content(r) == 1), "isPp", "%s.isPp() is %s, content %s" % (what, p.isPp(), ref.content(r)))
        need(p.order() == (self.mod, self.kind), "order", "%s.order() is %s" % (what, p.order()))
        need(p.size() == self.n, "size", "%s.size() is %s" % (what, p.size()))

    def mstr(self, r):
        s = " ".join(map(str, r[1]))
        return ("[%s]" % s if r[0] < 0 else "[%d:%s]" % (r[0], s)), "[%d %d:%s]" % (r[0], sum(r[1]), s)

    def refuse(self, a, b):
        """what makes no sense is refused with an exception and changes nothing"""
        g, n, (m, mr), (p, pr) = self.g, self.n, a, b
        w = g.monom.variable(0, n + 1, -1)
        u = g.poly_int.to_monom(self.mod, self.kind, w)
        um, up, ui = (g.monom(), g.const_monom()), (g.poly_int(), g.const_poly_int()), g.const_integer()
        calls = {}

        def add(name, f):
            calls[name] = f
        for x, nx in ((None, "None"), (um[0], "an unset monomial"), (w, "a monomial in %d variables" % (n + 1)), (7, "a number"), ("x", "a text")):
            for op in ("lex", "deglex", "alex", "divisiable"):
                add("%s with %s" % (op, nx), lambda op=op, x=x: getattr(m, op)(x))
            add("product of a monomial with %s" % nx, lambda x=x: m * x)
            add("quotient of a monomial by %s" % nx, lambda x=x: m / x)
            if x is not w:
                add("polynomial of %s" % nx, lambda x=x: g.poly_int.to_monom(self.mod, self.kind, x))
        for x, nx in ((None, "None"), (up[0], "an unset polynomial"), (up[1], "an unset polynomial view"), (u, "a polynomial in %d variables" % (n + 1)), ("x", "a text"), (1.5, "a float"), (m, "a monomial")):
            add("sum with %s" % nx, lambda x=x: p + x)
            add("sum of %s" % nx, lambda x=x: x + p)
            add("difference with %s" % nx, lambda x=x: p - x)
            add("difference of %s" % nx, lambda x=x: x - p)
            add("product with %s" % nx, lambda x=x: p * x)
            add("reduction by %s" % nx, lambda x=x: p.reduction(x))
            if x is not u:
                add("comparable with %s" % nx, lambda x=x: p.comparable(x))
        for x in um:
            for f in (len, bool, list, str, repr, lambda x: x.pos(), lambda x: x.degree(), lambda x: x[0], lambda x: x.lex(m), lambda x: x * m, lambda x: x ** 2, lambda x: x / m,
                      lambda x: x.divisiable(m), lambda x: x.permutation(g.randpermutation(n))):
                add("unset monomial %d" % len(calls), lambda f=f, x=x: f(x))
        add("setPos of an unset monomial", lambda: um[0].setPos(0))
        for x in up:
            for f in (len, bool, list, str, repr, lambda x: x.isZero(), lambda x: x.degree(), lambda x: x.norm(), lambda x: x.lm(), lambda x: x.lc(), lambda x: x.comparable(p), lambda x: x.order(),
                      lambda x: x.size(), lambda x: -x, lambda x: x + p, lambda x: x - 1, lambda x: 2 * x, lambda x: x ** 2, lambda x: x.isPp()):
                add("unset polynomial %d" % len(calls), lambda f=f, x=x: f(x))
        add("reduction of an unset polynomial", lambda: up[0].reduction(p))
        add("primitive part of an unset polynomial", lambda: up[0].pp())
        for f in (str, repr, bool, lambda x: x.sgn(), lambda x: x.isZero(), lambda x: x.isOne(), lambda x: x.isAbsOne(), lambda x: x.norm()):
            add("unset integer %d" % len(calls), lambda f=f: f(ui))
        add("power with a negative exponent", lambda: m ** -1)
        add("power of a polynomial with a negative exponent", lambda: p ** -1)
        for k in (0, -1, -7):
            add("permutation of %d" % k, lambda k=k: g.randpermutation(k))
            add("monomial in %d variables" % k, lambda k=k: g.monom.zero(k, -1))
        add("permutation of other size", lambda: m.permutation(g.randpermutation(n + 1)))
        add("position -2", lambda: g.monom.zero(n, -2))
        for t in (("TOP", "grlex"), ("top", "lex"), ("", ""), ("lex", "TOP")):
            add("order %s %s" % t, lambda t=t: g.poly_int.to_monom(t[0], t[1], m))
        if not pr:
            for f in ("lm", "lc", "degree"):
                add("%s of zero" % f, lambda f=f: getattr(p, f)())
        for name, f in calls.items():
            try:
                x = f()
            except (AssertionError, TypeError, IndexError, ValueError, AttributeError):
                continue
            raise Violation("refused", "%s gives %r for %s and %s" % (name, type(x), mr, pr))
        self.mon(m, mr, "monomial after refused calls")
        self.poly(p, pr, "polynomial after refused calls")

    def run(self, v):
        g = self.g
        gc.collect()
        base = g.allocator.currMemory()
        try:
            return self.history(v)
        finally:
            if sys.exc_info()[0] is None:
                left = g.allocator.currMemory() - base
                need(left == 0, "memory", "%d bytes stay allocated after every object is gone" % left)

    def history(self, v):
        g, n = self.g, v["n"]
        self.n, self.mod, self.kind = n, v["mod"], v["kind"]
        if n < 2:
            raise Discard()
        o = self.o = ref.Order(self.mod, self.kind, True)
        M = []     # [object, model]
        Ps = []
        views = []
        for i in range(n):
            M.append([g.monom.variable(i, n, -1), (-1, tuple(int(i == j) for j in range(n)))])
        for i in range(2):
            Ps.append([g.poly_int.to_monom(self.mod, self.kind, M[i][0]), {M[i][1]: 1}])
        big = 0
        done = 0

        def addm(m, r, what):
            self.mon(m, r, what)
            M.append([m, r])
            if len(M) > n + 5:
                del M[n]

        def addp(p, r, what):
            self.poly(p, r, what)
            Ps.append([p, r])
            if len(Ps) > 6:
                del Ps[0]

        for op in v["ops"]:
            k = op[0]
            if k == "zero":
                addm(g.monom.zero(n, op[1]), (op[1], (0,) * n), "zero"); continue
            if k == "var":
                i = op[1] % (n + 1)
                if i == n:
                    try:
                        g.monom.variable(i, n, op[2])
                    except (AssertionError, IndexError):
                        continue
                    raise Violation("index", "variable(%d, %d) is accepted" % (i, n))
                addm(g.monom.variable(i, n, op[2]), (op[2], tuple(int(i == j) for j in range(n))), "variable"); continue
            if k in ("mmul", "mdiv", "mcmp"):
                a, b = M[op[1] % len(M)], M[op[2] % len(M)]
                if k == "mmul":
                    if a[1][0] != -1 and b[1][0] != -1:
                        continue
                    addm(a[0] * b[0], ref.mmul(a[1], b[1]), "product of %s and %s" % (a[1], b[1])); done += 1
                elif k == "mdiv":
                    same = a[1][0] == b[1][0]
                    e = all(x >= y for x, y in zip(a[1][1], b[1][1]))
                    dv = a[0].divisiable(b[0])
                    if same or b[1][0] != -1:
                        need(dv == (same and e), "divisible", "%s by %s: %s" % (a[1], b[1], dv))
                    else:
                        need(dv == e, "divisible", "%s by %s: %s" % (a[1], b[1], dv))
                    if dv:
                        q = a[0] / b[0]
                        addm(q, (a[1][0] if b[1][0] == -1 else -1, tuple(x - y for x, y in zip(a[1][1], b[1][1]))), "quotient of %s and %s" % (a[1], b[1])); done += 1
                    else:
                        try:
                            a[0] / b[0]
                        except AssertionError:
                            pass
                        else:
                            raise Violation("division", "%s is divided by %s" % (a[1], b[1]))
                else:
                    # the library's comparisons ignore positions only through the module orders
                    for kd in ("lex", "deglex", "alex"):
                        c = getattr(a[0], kd)(b[0])
                        x, y = ref.key_e(kd, a[1][1]), ref.key_e(kd, b[1][1])
                        need(c == (x > y) - (x < y), "comparison", "%s.%s(%s) is %s" % (a[1], kd, b[1], c))
                continue
            if k == "mpow":
                a = M[op[1] % len(M)]
                if a[1][0] != -1 or max(a[1][1]) > 100:
                    continue
                addm(a[0] ** op[2], (-1, tuple(x * op[2] for x in a[1][1])), "power"); done += 1; continue
            if k == "mperm":
                a = M[op[1] % len(M)]
                p = g.randpermutation(n)
                for _ in range(op[2]):
                    p.next()
                q = [p[i] for i in range(len(p))]
                need(list(p) == q, "permutation", "iterates as %s, has the elements %s" % (list(p), q))
                need(sorted(q) == list(range(n)), "permutation", str(q))
                addm(a[0].permutation(p), (a[1][0], tuple(a[1][1][i] for i in q)), "permutation"); continue
            if k == "mpos":
                i = op[1] % len(M)
                if i < n:
                    continue
                r = M[i][0].setPos(op[2])
                M[i][1] = (op[2], M[i][1][1])
                self.mon(r, M[i][1], "setPos"); continue
            if k == "refuse":
                self.refuse(M[op[1] % len(M)], Ps[op[2] % len(Ps)]); continue
            if k == "mget":
                a, i = M[op[1] % len(M)], op[2]
                if 0 <= i < n:
                    need(a[0][i] == a[1][1][i], "getitem", "%s[%d] is %s" % (a[1], i, a[0][i]))
                else:
                    try:
                        x = a[0][i]
                    except (IndexError, AssertionError):
                        continue
                    need(-n <= i < 0 and x == a[1][1][i], "index", "%s[%d] is %s" % (a[1], i, x))
                continue
            if k == "mshow":
                a = M[op[1] % len(M)]
                need((str(a[0]), repr(a[0])) == self.mstr(a[1]), "monomial text", "%s prints %s and %r" % (a[1], a[0], a[0]))
                need(bool(a[0]) == (sum(a[1][1]) > 0), "monomial truth", str(a[1])); continue
            if k == "poly":
                a = M[op[1] % len(M)]
                if sum(a[1][1]) > 12:
                    continue
                addp(g.poly_int.to_monom(self.mod, self.kind, a[0]), {a[1]: 1}, "to_monom"); continue
            if k in ("add", "sub", "mul", "red", "pcmp"):
                a, b = Ps[op[1] % len(Ps)], Ps[op[2] % len(Ps)]
                ca, cb = dict(a[1]), dict(b[1])
                if k == "add":
                    addp(a[0] + b[0], ref.padd(a[1], b[1]), "sum")
                elif k == "sub":
                    addp(a[0] - b[0], ref.padd(a[1], b[1], -1), "difference")
                elif k == "mul":
                    if any(m[0] != -1 for m in a[1]) and any(m[0] != -1 for m in b[1]):
                        continue
                    if len(a[1]) * len(b[1]) > 150 or max([sum(m[1]) for q in (a[1], b[1]) for m in q] or [0]) > 40:
                        continue
                    addp(a[0] * b[0], ref.pmul(a[1], b[1]), "product")
                elif k == "red":
                    if not a[1] or not b[1] or a is b:
                        continue
                    x, y = o.lm(a[1]), o.lm(b[1])
                    if not ref.divides(y, x) and not (y[0] == -1 and all(m[0] == -1 for m in b[1]) and all(s <= t for s, t in zip(y[1], x[1]))):
                        continue
                    t = (x[0] if y[0] == -1 else -1, tuple(s - t for s, t in zip(x[1], y[1])))
                    cx, cy = a[1][x], b[1][y]
                    d = ref.gcd(cx, cy)
                    exp = ref.padd(ref.pscale(a[1], cy // d), ref.pshift(b[1], t, cx // d), -1)
                    r = a[0].reduction(b[0])
                    got = {(m.pos(), tuple(m)): int(str(c)) for m, c in r}
                    need(got == exp or got == ref.pscale(exp, -1), "reduction", lambda: "%s by %s gives %s" % (ca, b[1], got))
                    a[1] = got
                    self.poly(a[0], a[1], "reduced polynomial")
                else:
                    need(a[0].comparable(b[0]), "comparable", "two polynomials of one ring")
                    m = g.monom.zero(n + 1, -1)
                    q = g.poly_int.to_monom(self.mod, self.kind, m)
                    need(not a[0].comparable(q), "comparable", "polynomials in %d and %d variables" % (n, n + 1))
                    for f in (lambda: a[0] + q, lambda: a[0] - q, lambda: a[0] * q):
                        try:
                            f()
                        except AssertionError:
                            continue
                        raise Violation("comparable", "an operation with a polynomial of another ring is accepted")
                if k != "red":
                    self.poly(a[0], ca, "left operand")
                self.poly(b[0], cb if k != "red" else b[1], "right operand")
                done += 1; continue
            if k in ("addi", "subi", "muli", "iadd", "isub", "imul"):
                a, c = Ps[op[1] % len(Ps)], op[2]
                if not a[1]:
                    continue          # the extension refuses integers with the zero polynomial
                one = {(-1, (0,) * n): c} if c else {}
                p, e = {"addi": lambda: (a[0] + c, ref.padd(a[1], one)), "iadd": lambda: (c + a[0], ref.padd(a[1], one)),
                        "subi": lambda: (a[0] - c, ref.padd(a[1], one, -1)), "isub": lambda: (c - a[0], ref.padd(one, a[1], -1)),
                        "muli": lambda: (a[0] * c, ref.pscale(a[1], c)), "imul": lambda: (c * a[0], ref.pscale(a[1], c))}[k]()
                ca = dict(a[1])
                addp(p, e, k)
                self.poly(a[0], ca, "operand"); done += 1; continue
            if k == "term":       # p + c*m
                a, m = Ps[op[1] % len(Ps)], M[op[2] % len(M)]
                if op[3] == 0 or sum(m[1][1]) > 12:
                    continue
                t = g.poly_int.to_monom(self.mod, self.kind, m[0]) * op[3]
                addp(a[0] + t, ref.padd(a[1], {m[1]: op[3]}), "sum with a term"); continue
            if k == "neg":
                a = Ps[op[1] % len(Ps)]
                addp(-a[0], ref.pscale(a[1], -1), "negation"); self.poly(a[0], a[1], "operand"); continue
            if k == "pow":
                a = Ps[op[1] % len(Ps)]
                if op[2] != 1 and any(m[0] != -1 for m in a[1]):
                    continue
                if len(a[1]) > 6 or any(sum(m[1]) > 12 for m in a[1]) or (not a[1] and op[2] == 0):
                    continue
                addp(a[0] ** op[2], ref.ppow(a[1], op[2], n) if op[2] != 1 else a[1], "power %d" % op[2])
                self.poly(a[0], a[1], "operand"); done += 1; continue
            if k == "pp":
                a = Ps[op[1] % len(Ps)]
                c = ref.content(a[1])
                if not a[1] or c == 1:
                    continue
                r = a[0].pp()
                exp = {m: x // c for m, x in a[1].items()}
                got = {(m.pos(), tuple(m)): int(str(x)) for m, x in r}
                need(got == exp or got == ref.pscale(exp, -1), "primitive part", lambda: "of %s is %s" % (a[1], got))
                a[1] = got
                self.poly(a[0], a[1], "primitive part"); done += 1; continue
            if k == "pshow":
                a = Ps[op[1] % len(Ps)]
                if a[1]:
                    l = o.lm(a[1])
                    s, r = self.mstr(l)
                    need(str(a[0]) == "%s*%d + ..." % (s, a[1][l]), "polynomial text", str(a[0]))
                    need(repr(a[0]) == "%s*%s + ..." % (r, hex(a[1][l])), "polynomial text", repr(a[0]))
                else:
                    need(str(a[0]) == "0" and repr(a[0]) == "0", "polynomial text", str(a[0]))
                    try:
                        a[0].degree()
                    except AssertionError:
                        pass
                continue
            if k in ("lm", "lc", "terms"):
                # views of a temporary: nothing but the view refers to the polynomial
                a = Ps[op[1] % len(Ps)]
                if not a[1]:
                    continue
                l = o.lm(a[1])
                if k == "lm":
                    views.append(("m", (-a[0]).lm(), l))
                elif k == "lc":
                    views.append(("i", (-a[0]).lc(), -a[1][l]))
                else:
                    for (m, c), e in zip(list(-a[0]), o.sorted(a[1])):
                        views.append(("m", m, e)); views.append(("i", c, -a[1][e]))
                continue
            if k == "drop":
                if len(Ps) > 1:
                    del Ps[op[1] % len(Ps)]
                    gc.collect()
                continue
            raise Discard()
        # views keep what they look into
        for kind, x, e in views:
            if kind == "m":
                self.mon(x, e, "kept monomial")
            else:
                self.integer(x, e, "kept coefficient")
        # every object is unchanged by all that happened since it was made
        for m, r in M:
            self.mon(m, r, "monomial at the end")
        for p, r in Ps:
            self.poly(p, r, "polynomial at the end")
        labels = [self.mod + self.kind]
        if views:
            labels.append("views")
        if done >= 3:
            labels.append("nontrivial")
        if any(abs(c) > 2 ** 64 for _, r in Ps for c in r.values()):
            labels.append("multi-limb")
        if any(m[0] >= 0 for _, r in Ps for m in r):
            labels.append("module")
        return labels

    def show(self, v):
        return "%d variables, %s %s: " % (v["n"], v["mod"], v["kind"]) + "; ".join(" ".join(map(str, o)) for o in v["ops"])


if __name__ == "__main__":
    main(C19, os.path.abspath(__file__))
