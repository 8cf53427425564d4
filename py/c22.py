"""pyginv polynomials: ring operations, reduction and normal forms against exact models.

The model of a polynomial is its value at fixed points of the parameters (one point when the
coefficients are numbers): a tuple of {(pos, exps): Fraction}.  Every operation is checked on
the values, and after every operation every other register must still have its own value."""
import os, sys
from math import comb
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from fractions import Fraction
import ref

ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]
NAMES, FUNS = ["x", "y", "z", "t", "x5", "x6", "x7"], ["u", "v", "w"] + ["f%d" % i for i in range(3, 13)]
POINTS = [(Fraction(1000003, 7), Fraction(-99991, 3)), (Fraction(777767777, 5), Fraction(314159, 11))]


class C22(Harness):
    hang = 30

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import sympy, monomial, polynomial
        self.sp, self.M, self.Poly = sympy, monomial.Monom, polynomial.Poly

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, coef, big = t
            num = st.one_of(st.integers(-6, 6), st.integers(-10 ** 12, 10 ** 12)).map(lambda a: [a, 1])
            if coef != "int":
                num = st.one_of(num, st.tuples(st.integers(-20, 20), st.integers(1, 9)).map(list))
            if coef == "param":
                par = st.lists(st.tuples(st.integers(-4, 4).filter(bool), st.integers(0, 2), st.integers(0, 2)).map(list), min_size=1, max_size=2).map(lambda x: ["par", x])
                fac = st.tuples(st.integers(-3, 3).filter(bool), st.integers(-3, 3)).map(lambda t: ["fac", [[1, 1, 0], [t[0], 0, 1]], [[1, 1, 0], [t[1], 0, 1], [t[0], 0, 0]]])
                quo = st.tuples(par, st.tuples(st.integers(1, 4), st.integers(0, 1), st.integers(0, 1)).map(lambda x: ["par", [list(x)]]), st.one_of(par, st.integers(-3, 3).map(lambda a: [a, 1]))).map(lambda t: ["quo"] + list(t))
                num = st.one_of(num, par, par, fac, quo)
            mono = st.tuples(st.one_of(st.integers(-1, rank - 1), st.just(-1 if not rank else 0)), st.lists(st.sampled_from([0, 0, 1, 1, 2, 3] + ([0, 0, 4, 9, 17, 100] if big else [])), min_size=n, max_size=n)).map(list)
            poly = st.lists(st.tuples(num, mono).map(list), max_size=25 if big else 4)
            r = st.integers(0, 5)
            op = st.one_of(
                st.tuples(st.sampled_from(["add", "sub", "mul", "add", "sub", "iadd", "isub", "imul"]), r, r),
                st.tuples(st.sampled_from(["addn", "subn", "muln", "raddn", "rsubn", "rmuln", "divn", "iaddn", "isubn", "imuln"]), r, num, st.booleans()),
                st.tuples(st.sampled_from(["neg", "pos", "copy", "text", "cancel", "pp", "divp"]), r),
                st.tuples(st.just("pow"), r, st.one_of(st.integers(0, 3), st.integers(0, 12))), st.tuples(st.just("prolong"), r, st.integers(0, n - 1)), st.tuples(st.just("diff"), r, st.integers(0, 1)), st.tuples(st.just("twin"), r, r, st.sampled_from(["add", "radd", "sub", "rsub"]), st.sampled_from(["expand", "factor", "apart"])),
                st.tuples(st.just("mult"), r, num, mono), st.tuples(st.sampled_from(["reduction", "redRat"]), r, r, r),
                st.tuples(st.sampled_from(["reduce", "NFhead", "NFtail", "NF", "S", "find"]), r, r), st.tuples(st.sampled_from(["NF", "NFhead", "NFtail", "redRat", "reduction"]), r, r, r), st.tuples(st.just("new"), r, poly),
                st.tuples(st.just("member"), r, r, poly, st.sampled_from(["NF", "NF", "NFhead", "NFtail"])), st.tuples(st.just("member"), r, r, poly, st.sampled_from(["NF", "NFhead"])),
                *([st.tuples(st.just("tail"), r, r, st.lists(st.tuples(num, mono).map(list), min_size=8, max_size=30), st.sampled_from(["NF", "NFtail"]), poly)] * 3 if big else [])).map(list)
            return st.fixed_dictionaries(dict(n=st.just(n), rank=st.just(rank), coef=st.just(coef), big=st.just(big), cmp=st.sampled_from(ORDERS), integer=st.booleans(),
                                              polys=st.lists(poly, min_size=2, max_size=4), ops=st.lists(op, min_size=2, max_size=18 if self.thorough else 10)))
        usual = st.tuples(st.integers(1, 4), st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from(["int", "int", "rat", "param"]), st.just(False))
        big = st.tuples(st.integers(1, 7), st.sampled_from([0, 0, 1, 3, 12]), st.sampled_from(["int", "rat"]), st.just(True))
        return st.one_of(usual, usual, usual, usual, big).flatmap(shape)

    # ---------------------------------------------------------------- values
    def num(self, c):
        """(library coefficient, values)"""
        sp = self.sp
        if c[0] == "par":
            a, b = self.par
            k = sp.Integer(0)
            for q, i, j in c[1]:
                k = k + q * a ** i * b ** j
            return k, tuple(sum(Fraction(q) * p[0] ** i * p[1] ** j for q, i, j in c[1]) for p in self.pts)
        if c[0] == "fac":            # a product that sympy keeps as it is
            (k1, v1), (k2, v2) = self.num(["par", c[1]]), self.num(["par", c[2]])
            return k1 * k2, tuple(x * y for x, y in zip(v1, v2))
        if c[0] == "quo":            # a sum with a denominator that sympy keeps as it is
            (k1, v1), (k2, v2), (k3, v3) = (self.num(x) for x in c[1:])
            if k2 == 0:
                raise Discard()
            return k1 / k2 + k3, tuple(x / y + z for x, y, z in zip(v1, v2, v3))
        if c[1] < 1:
            raise Discard()
        return sp.Rational(c[0], c[1]), tuple(Fraction(c[0], c[1]) for _ in self.pts)

    def val(self, k):
        sp = self.sp
        if isinstance(k, (int, float)):
            raise Violation("coefficient type", "%r" % (k,))
        r = []
        for p in self.pts:
            x = k if k.is_Rational else k.subs({a: sp.Rational(q.numerator, q.denominator) for a, q in zip(self.par, p)})
            if not x.is_Rational:
                x = sp.nsimplify(sp.cancel(x))
            need(x.is_Rational, "coefficient", lambda: "%s has no value" % k)
            r.append(Fraction(int(x.p), int(x.q)))
        return tuple(r)

    def read(self, p, why="value"):
        need(type(p) is self.Poly, why, "not a polynomial: %r" % (p,))
        R = tuple({} for _ in self.pts)
        last = None
        for t in p:
            need(len(t) == 2, why, "bad term %r" % (t,))
            m, k = t
            key = (m.position(), tuple(int(x) for x in tuple(m)))
            need(last is None or self.o.cmp(last, key) > 0, "term order", lambda: "%s: %s" % (why, list(p)))
            last = key
            for r, x in zip(R, self.val(k)):
                need(x != 0, "zero coefficient", lambda: "%s: %s" % (why, list(p)))
                r[key] = x
        return R

    def each(self, f, *models):
        return tuple(f(*a) for a in zip(*models))

    def prop(self, a, b):
        """a is b times a non-zero scalar (per point)"""
        if set(a) != set(b):
            return False
        if not a:
            return True
        m = next(iter(a))
        return all(a[k] * b[m] == b[k] * a[m] for k in a)

    def same(self, got, exp, key, msg=""):
        need(got == exp, key, lambda: "%s: got %s, expected %s" % (msg, got[0], exp[0]))

    def propto(self, got, exp, key, msg=""):
        need(all(self.prop(x, y) for x, y in zip(got, exp)), key, lambda: "%s: got %s, expected a multiple of %s" % (msg, got[0], exp[0]))

    def vec(self, R):
        return any(m[0] >= 0 for m in R[0])

    def make(self, terms):
        """polynomial built from its variables, with its value"""
        p, R = self.Poly(), tuple({} for _ in self.pts)
        for c, (pos, e) in terms:
            k, vals = self.num(c)
            if len(e) != self.n or not -1 <= pos < self.rank or any(x < 0 for x in e):
                raise Discard()
            if k == 0:
                continue
            t = self.Poly(1)
            for i, d in enumerate(e):
                t = t * self.vars[i] ** d
            if pos >= 0:
                t = t * self.funs[pos]
            p = p + k * t
            R = tuple(ref.padd(r, {(pos, tuple(e)): x}) for r, x in zip(R, vals))
        self.same(self.read(p, "built"), R, "building", str(terms))
        return p, R

    def redstep(self, R, m, O):
        """subtract the multiple of O that removes the monomial m (None: not defined)"""
        out = []
        for r, g in zip(R, O):
            l = self.o.lm(g)
            q = (m[0] if l[0] == -1 else -1, tuple(a - b for a, b in zip(m[1], l[1])))
            if q[0] >= 0 and any(t[0] >= 0 for t in g):
                return None
            out.append(ref.padd(r, ref.pshift(g, q), -r[m] / g[l]))
        return tuple(out)

    def divisible(self, m, l):
        return (l[0] == -1 or l[0] == m[0]) and all(a >= b for a, b in zip(m[1], l[1]))

    def nf(self, R, O, head, tail):
        """-> the reduced values, or None when a product is not defined"""
        l = self.o.lm(O[0])
        skip = 0
        for _ in range(400):
            ms = self.o.sorted(R[0])
            todo = [m for i, m in enumerate(ms) if self.divisible(m, l) and (head if i == 0 else tail)]
            if not todo:
                return R
            R = self.redstep(R, todo[0], O)
            if R is None or any(len(r) > (400 if self.pts[1:] == () else 60) for r in R):
                return None
            if len(set(frozenset(r) for r in R)) > 1:
                raise Discard()
        return None

    def run(self, v):
        sp, P = self.sp, self.Poly
        n, rank, param = v["n"], v["rank"], v["coef"] == "param"
        big = bool(v.get("big"))
        if not 1 <= n <= 7 or not 0 <= rank <= 13 or v["cmp"] not in ORDERS:
            raise Discard()
        self.n, self.rank = n, rank
        self.M.cmp = getattr(self.M, v["cmp"])
        self.o = ref.Order(v["cmp"][:3], v["cmp"][3:], False)
        self.par = sp.symbols("a, b", integer=True) if v["integer"] else sp.symbols("a, b", real=True)
        self.pts = POINTS if param else POINTS[:1]
        if rank:
            self.vars, self.funs = P.init(NAMES[:n], FUNS[:rank])
        else:
            self.vars, self.funs = P.init(NAMES[:n]), ()
        R, last = [], None
        for t in v["polys"]:
            R.append(list(self.make(t)))
        labels, count = set(), 0
        if not R:
            raise Discard()
        todo = []
        for op in v["ops"]:
            todo.append(op)
            if op[0] in ("member", "tail"):
                todo.append([op[4], "last", op[2]])
        for op in todo:
            k, i = op[0], next((s for s, x in enumerate(R) if x is last), 0) if op[1] == "last" else op[1] % len(R)
            p, X = R[i]
            one = tuple({(-1, (0,) * n): Fraction(1)} for _ in self.pts)
            res = None           # a new polynomial and its expected value
            if k == "member":            # a multiple of another one, plus this one: to be reduced next
                q, Y = R[op[2] % len(R)]
                if op[1] % len(R) == op[2] % len(R):
                    continue
                t, T = self.make([[c, [-1, e]] for c, (_, e) in op[3]] if rank and self.vec(Y) else op[3])
                if self.vec(T) and self.vec(Y) or len(T[0]) * len(Y[0]) > (200 if big else 20):
                    continue
                E = self.each(ref.padd, self.each(ref.pmul, T, Y), X)
                last = R[i] = [t * q + p, E]
                self.same(self.read(R[i][0], k), E, k)
                continue
            if k == "tail":              # a long irreducible head before multiples of another one
                q, Y = R[op[2] % len(R)]
                if op[1] % len(R) == op[2] % len(R) or not q:
                    continue
                l = self.o.lm(Y[0])
                s = next((s for s, d in enumerate(l[1]) if d), None)
                if s is None:
                    continue
                head = [[c, [pos, [min(d, l[1][s] - 1) if z == s else d + (x * 7 + z) % 5 for z, d in enumerate(e)]]] for x, (c, (pos, e)) in enumerate(op[3])]
                h, H = self.make(head)
                t, T = self.make([[c, [-1, [min(d, 2) for d in e]]] for c, (_, e) in op[5][:6]])
                if len(T[0]) * len(Y[0]) > 100:
                    continue
                E = self.each(ref.padd, H, self.each(ref.pmul, T, Y))
                last = R[i] = [h + t * q, E]
                self.same(self.read(R[i][0], k), E, k)
                continue
            if k == "twin":              # the same value, its coefficients in another form, so that terms cancel
                q, Y = R[op[2] % len(R)]
                if op[4] == "factor" and any(len(sp.Add.make_args(c)) > 12 for _, c in p):
                    continue
                f = {"expand": sp.expand, "factor": sp.factor, "apart": lambda c: sp.expand(c, deep=False)}[op[4]]
                t = P()
                for m, c in p:
                    t = t + f(c) * P(m)
                if "add" in op[3]:
                    t, E = -t, Y
                    r = (p + q) + t if op[3] == "add" else t + (p + q)
                elif op[3] == "sub":
                    r, E = (p + q) - t, Y
                else:
                    r, E = t - (p + q), self.each(lambda a: ref.pscale(a, -1), Y)
                self.same(self.read(r, k), E, k + " " + op[3], "%s minus its %sed form" % (list(p), op[4]))
                R[op[1] % len(R)] = [r, E]
                count += 1
                continue
            if k == "new":
                R[i] = list(self.make(op[2])); continue
            if k in ("add", "sub", "mul", "iadd", "isub", "imul"):
                q, Y = R[op[2] % len(R)]
                if k in ("mul", "imul"):
                    if self.vec(X) and self.vec(Y):
                        try:
                            p * q
                        except AssertionError:
                            continue
                        raise Violation("product of vectors", "accepted")
                    if len(X[0]) * len(Y[0]) > (700 if big else 60):
                        continue
                    E = self.each(ref.pmul, X, Y)
                    r = p * q if k == "mul" else None
                else:
                    E = self.each(lambda a, b: ref.padd(a, b, 1 if "add" in k else -1), X, Y)
                    r = p + q if k == "add" else p - q if k == "sub" else None
                if k[0] == "i":          # augmented assignment: the name gets the result, the other name keeps its value
                    r = p
                    if k == "iadd":
                        r += q
                    elif k == "isub":
                        r -= q
                    else:
                        r *= q
                res = r, E
            elif k in ("addn", "subn", "muln", "raddn", "rsubn", "rmuln", "divn", "iaddn", "isubn", "imuln"):
                c, vals = self.num(op[2])
                if op[3] and c.is_Integer:
                    c = int(c)
                C = tuple({(-1, (0,) * n): x} if x else {} for x in vals)
                if k == "divn":
                    if c == 0:
                        continue
                    E = tuple(ref.pscale(x, 1 / y) for x, y in zip(X, vals))
                elif "mul" in k:
                    E = self.each(ref.pmul, X, C)
                elif "add" in k:
                    E = self.each(ref.padd, X, C)
                else:
                    E = self.each(lambda a, b: ref.padd(a, b, -1), *((C, X) if k[0] == "r" else (X, C)))
                r = p
                if k == "addn": r = p + c
                elif k == "subn": r = p - c
                elif k == "muln": r = p * c
                elif k == "raddn": r = c + p
                elif k == "rsubn": r = c - p
                elif k == "rmuln": r = c * p
                elif k == "divn": r = p / c
                elif k == "iaddn": r += c
                elif k == "isubn": r -= c
                else: r *= c
                res = r, E
            elif k == "neg":
                res = -p, self.each(lambda a: ref.pscale(a, -1), X)
            elif k in ("pos", "copy"):
                res = (+p if k == "pos" else P(p)), X
            elif k == "divp":
                q, Y = R[(i + 1) % len(R)]
                if not q or len(Y[0]) == 1 and (-1, (0,) * n) in Y[0]:
                    continue
                for f in (lambda: 1 / q, lambda: p / q):
                    try:
                        r = f()
                    except TypeError:
                        continue
                    if r:
                        raise Violation("quotient by a polynomial", "%s / %s gives %s" % (p, q, r))
                continue
            elif k == "pow":
                if self.vec(X) and op[2] > 1 or param and op[2] > 3:
                    continue
                if op[2] > 1 and comb(len(X[0]) + op[2] - 1, op[2]) > (40 if param else 120):
                    continue
                res = p ** op[2], self.each(lambda a: ref.ppow(a, op[2], n), X)
            elif k == "prolong":
                j = op[2] % n
                res = p.prolong(j), self.each(lambda a: ref.pshift(a, (-1, tuple(int(s == j) for s in range(n)))), X)
            elif k == "diff":
                E = tuple({} for _ in self.pts)
                for m, c in p:
                    for e, x in zip(E, self.val(sp.diff(c, self.par[op[2]]))):
                        if x:
                            e[(m.position(), tuple(m))] = x
                res = p.diff(self.par[op[2]]), E
            elif k == "mult":
                c, vals = self.num(op[2])
                m = (op[3][0], tuple(op[3][1]))
                if c == 0 or m[0] >= 0 and self.vec(X) or not -1 <= m[0] < rank or len(m[1]) != n:
                    continue
                mm = self.M(m[1], pos=m[0]) if m[0] >= 0 else self.M(m[1])
                res = p.mult(mm, c), tuple(ref.pshift(x, m, y) for x, y in zip(X, vals))
            elif k == "text":
                env = {s: sp.Symbol(s) for s in NAMES[:n] + FUNS[:rank]}
                env.update(a=self.par[0], b=self.par[1])
                e = sp.sympify(str(p), locals=env)
                gens = [env[s] for s in NAMES[:n] + FUNS[:rank]]
                got = tuple({} for _ in self.pts)
                if e != 0:
                    for ex, c in sp.Poly(e, *gens).terms():
                        f = ex[n:]
                        pos = -1 if not any(f) else f.index(1)
                        for g, x in zip(got, self.val(c)):
                            g[(pos, tuple(ex[:n]))] = x
                self.same(got, X, "text", str(p))
                count += 1
                continue
            elif k == "find":
                q, Y = R[op[2] % len(R)]
                if not p or not q:
                    continue
                f = p.find(q.lm())
                need((f is p) == self.divisible(self.o.lm(Y[0]), self.o.lm(X[0])) and (f is None or f is p), "find")
                need(p.cmp(q) == self.o.cmp(self.o.lm(X[0]), self.o.lm(Y[0])), "cmp")
                continue
            elif k in ("cancel", "pp"):
                if not p:
                    continue
                getattr(p, k)()
                Z = self.read(p, k)
                self.propto(Z, X, k, str(list(p)))
                if k == "cancel":
                    need(all(sp.fraction(c)[1] == 1 for _, c in p), "denominators", lambda: str(list(p)))
                else:
                    g = 0
                    if all(x.denominator == 1 for x in X[0].values()) and not param:
                        need(all(c.is_Integer for _, c in p), "primitive part", lambda: str(list(p)))
                        for _, c in p:
                            g = ref.gcd(g, int(c))
                        need(g == 1, "primitive part", lambda: str(list(p)))
                R[i][1] = Z
                count += 1
            elif k in ("reduction", "redRat", "reduce", "NFhead", "NFtail", "NF", "S"):
                j = op[2] % len(R)
                q, Y = R[j]
                if j == i or not p or not q:
                    continue
                l = self.o.lm(Y[0])
                if k == "S":
                    a, b = self.o.lm(X[0]), l
                    if a[0] != b[0]:
                        try:
                            P.S(p, q)
                        except AssertionError:
                            continue
                        raise Violation("S of different positions", "accepted")
                    m = ref.mlcm(a, b)
                    s = lambda f, g: ref.padd(ref.pshift(f, (-1, ref.quo(m, a)[1]), 1 / f[a]), ref.pshift(g, (-1, ref.quo(m, b)[1]), 1 / g[b]), -1)
                    r = P.S(p, q)
                    Z = self.read(r, "S")
                    self.propto(Z, self.each(s, X, Y), "S-polynomial")
                    R[op[1] % len(R)] = [r, Z]
                    self.others(R, i, k)
                    count += 1
                    labels.add("S-polynomial")
                    continue
                if k in ("reduction", "redRat"):
                    ms = self.o.sorted(X[0])
                    at = op[3] % len(ms)
                    if not self.divisible(ms[at], l):
                        at = next((s for s, m in enumerate(ms) if self.divisible(m, l)), None)
                    if at is None:
                        continue
                    E = self.redstep(X, ms[at], Y)
                    if E is None:
                        continue
                    getattr(p, k)(at, q)
                elif k == "reduce":
                    E = self.redstep(X, l, Y) if l in X[0] else X
                    if E is None:
                        continue
                    p.reduce(q)
                else:
                    E = self.nf(X, Y, k != "NFtail", k != "NFhead")
                    if E is None:
                        continue
                    r = getattr(p, k)(q)
                    need(k != "NF" or r is p, "NF", "does not return its argument")
                if len(set(frozenset(x) for x in E)) > 1:
                    raise Discard()
                Z = self.read(p, k)
                if k in ("redRat", "NF"):
                    self.same(Z, E, k, "by %s" % (Y[0],))
                else:
                    self.propto(Z, E, k, "by %s" % (Y[0],))
                R[i][1] = Z
                count += 1
                if E != X:
                    labels.add("reduced")
            if res:
                r, E = res
                if len(set(frozenset(x) for x in E)) > 1:
                    raise Discard()
                if max(len(x) for x in E) > (400 if big else 40):
                    continue
                self.same(self.read(r, k), E, k, "of %s" % (X[0],))
                R.append([r, E]) if len(R) < 6 else R.__setitem__((i + 1) % len(R), [r, E])
                count += 1
            self.others(R, i, k)
        if count >= 3:
            labels.add("nontrivial")
        labels.add(v["coef"])
        if any(len(X[0]) > 20 for _, X in R):
            labels.add("long")
        if any(self.vec(X) for _, X in R):
            labels.add("vectors")
        return list(labels)

    def others(self, R, i, k):
        for j, (q, Y) in enumerate(R):
            Z = self.read(q, k)
            need(Z == Y, "operand changed", lambda: "%s changed register %d (operand %d) from %s to %s" % (k, j, i, Y[0], Z[0]))
            if q:
                need((q.lm().position(), tuple(q.lm())) == self.o.lm(Y[0]) and self.val(q.lc()) == tuple(y[self.o.lm(y)] for y in Y), "leading term")


main(C22, os.path.abspath(__file__))
