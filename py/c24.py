"""pyginv completion (ginvMin, ginvBlockLow) of polynomial ideals and submodules against
reference Groebner bases."""
import contextlib, io, os, sys
from math import comb
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
from fractions import Fraction
import ref

NAMES, FUNS = ["x", "y", "z", "t", "x5", "x6", "x7", "x8"], ["u", "v", "w"] + ["f%d" % i for i in range(3, 13)]
ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]
POINTS = [(1000003, -99991), (777767777, 314159)]


def family(n, which, k):
    """named systems in n variables, as lists of (coefficient, exponents)"""
    e = lambda *v: tuple(sum(1 for x in v if x % n == i) for i in range(n))
    which %= 6
    if which == 0:
        return [[(1, e(*range(i, i + d))) for i in range(n if d < n else 1)] + ([(-1 - k % 3, e())] if d == n else []) for d in range(1, n + 1)]
    if which == 1:
        F = []
        for m in range(n - 1):
            F.append([(1, e(abs(l), abs(m - l))) for l in range(1 - n, n) if abs(m - l) < n] + [(-1, e(m))])
        return F + [[(1, e(abs(l))) for l in range(1 - n, n)] + [(-1, e())]]
    if which == 2:
        return [[(10, e(i, j, j)) for j in range(n) if j != i] + [(-11, e(i)), (10, e())] for i in range(n)]
    if which == 3:
        F = [[] for _ in range(n)]
        for s in range(1, 1 << n):
            F[bin(s).count("1") - 1].append((1, e(*[i for i in range(n) if s >> i & 1])))
        return [f + [(k % 5 - 2, e())] for f in F]
    if which == 4:
        return [[(1, e(i, j + 1)), (-1, e(i + 1, j))] for i in range(n - 1) for j in range(i + 1, n - 1)] + [[(1, e(*[0] * (2 + k % 3))), (-1, e(n - 1))]]
    return [[(1, e(*[i] * (2 + (k + i) % 3))), (-1, e(*[i + 1] * (1 + k % 2)))] for i in range(n)]


class C24(Harness):
    hang = 20
    slow_is_failure = False

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import sympy, ginv
        self.sp, self.g = sympy, ginv

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, cmp, coef, big = t
            maxd = {"": {1: 5, 2: 4, 3: 3, 4: 2}.get(n), "tall": 25 if n == 1 else 12, "wide": 1, "ranks": 2}[big]
            nt, ng = {"": (4 if coef != "param" else 3, 4 if coef != "param" else 3), "tall": (2, 5), "wide": (4, 9), "ranks": (3, 12)}[big]
            if coef == "param":
                c = st.one_of(st.integers(-3, 3).filter(bool).map(lambda a: [a, 0, 0]), st.tuples(st.integers(-3, 3).filter(bool), st.integers(0, 1), st.integers(0, 1)).map(list))
            elif coef == "rat":
                c = st.tuples(st.integers(-9, 9).filter(bool), st.integers(1, 6)).map(list)
            else:
                c = st.integers(-6, 6).filter(bool).map(lambda a: [a, 1])
            term = st.tuples(c, st.integers(0, rank - 1) if rank else st.just(-1), st.lists(st.integers(0, maxd), min_size=n, max_size=n).map(lambda e: self.cap(e, maxd))).map(list)
            poly = st.lists(term, min_size=1, max_size=nt)
            gen = st.one_of(poly.map(lambda p: ["p", p]), poly.map(lambda p: ["p", p]), poly.map(lambda p: ["p", p]),
                            st.tuples(st.just("sum"), st.integers(0, 5), poly).map(list), st.tuples(st.just("same"), st.integers(0, 5)).map(list), st.tuples(st.just("mul"), st.integers(0, 5), poly).map(list),
                            st.integers(0, n + rank).map(lambda i: ["var", i]))
            gens = st.lists(gen, min_size=1 if not big else 2, max_size=ng)
            if not rank and n > 1 and coef == "int" and not big:
                gens = st.one_of(gens, gens, gens, st.tuples(st.integers(0, 5), st.integers(0, 11), st.lists(gen, max_size=1)).map(lambda t: [["fam", t[0], t[1]]] + t[2]))
            return st.fixed_dictionaries(dict(
                n=st.just(n), rank=st.just(rank), big=st.just(big), cmp=st.just(cmp), coef=st.just(coef), algo=st.sampled_from(["min", "low"] if cmp == "TOPdeglex" else ["min"]), level=st.sampled_from([0, 0, 1]),
                kind=st.sampled_from(["plain", "plain", "cache"]), tup=st.booleans(), gens=gens, targets=st.lists(poly, max_size=3)))
        order = st.sampled_from(ORDERS + ["TOPdeglex"] * 2)
        usual = st.tuples(st.sampled_from([2, 3, 2, 3, 1, 4]), st.sampled_from([0, 0, 0, 1, 2, 3]), order, st.sampled_from(["int", "int", "rat", "param"]), st.just(""))
        num = st.sampled_from(["int", "rat"])
        big = st.one_of(st.tuples(st.integers(1, 2), st.sampled_from([0, 0, 1, 2]), order, num, st.just("tall")),
                        st.tuples(st.integers(5, 8), st.sampled_from([0, 0, 1, 2]), order, num, st.just("wide")),
                        st.tuples(st.integers(1, 2), st.integers(4, 12), order, num, st.just("ranks")))
        return st.integers(0, 9).flatmap(lambda x: (big if x == 5 or x == 7 else usual).flatmap(shape))

    @staticmethod
    def cap(e, d):
        e = list(e)
        while sum(e) > d + 1:
            i = e.index(max(e)); e[i] -= 1
        return e

    def coef(self, c):
        """(library coefficient, values)"""
        if len(c) == 3:
            a, b = self.par
            return c[0] * a ** c[1] * b ** c[2], tuple(Fraction(c[0] * p[0] ** c[1] * p[1] ** c[2]) for p in self.pts)
        if c[1] < 1:
            raise Discard()
        return self.sp.Rational(*c), tuple(Fraction(*c) for _ in self.pts)

    def val(self, k):
        sp, r = self.sp, []
        for p in self.pts:
            x = k if k.is_Rational else sp.cancel(k.subs(dict(zip(self.par, p))))
            need(x.is_Rational, "coefficient", lambda: "%s has no value" % k)
            r.append(Fraction(int(x.p), int(x.q)))
        return tuple(r)

    def read(self, p, why):
        R = tuple({} for _ in self.pts)
        last = None
        for m, k in p:
            key = (m.position(), tuple(int(x) for x in tuple(m)))
            need(last is None or self.o.cmp(last, key) > 0, "term order", lambda: "%s: %s" % (why, list(p)))
            last = key
            for r, x in zip(R, self.val(k)):
                need(x != 0, "zero coefficient", lambda: "%s: %s" % (why, list(p)))
                r[key] = x
        return R

    def mono(self, m):
        return self.g.Monom(m[1], pos=m[0]) if m[0] >= 0 else self.g.Monom(m[1])

    def make(self, terms):
        p, R = self.g.Poly(), tuple({} for _ in self.pts)
        for c, pos, e in terms:
            if len(e) != self.n or (pos == -1) != (self.rank == 0) or pos >= self.rank or any(x < 0 for x in e):
                raise Discard()
            k, vals = self.coef(c)
            if k == 0:
                continue
            p = p + k * self.g.Poly(self.mono((pos, tuple(e))))
            R = tuple(ref.padd(r, {(pos, tuple(e)): x}) for r, x in zip(R, vals))
        if any(len(r) != len(R[0]) for r in R):
            raise Discard()
        return p, R

    def run(self, v):
        g, n, rank = self.g, v["n"], v["rank"]
        big = v.get("big", "")
        if not 1 <= n <= (8 if big else 4) or not 0 <= rank <= (12 if big else 3) or v["cmp"] not in ORDERS or v["algo"] == "low" and v["cmp"] != "TOPdeglex" or not v["gens"]:
            raise Discard()
        self.n, self.rank = n, rank
        self.par = self.sp.symbols("a, b", real=True)
        self.pts = POINTS if v["coef"] == "param" else POINTS[:1]
        g.Monom.cmp = getattr(g.Monom, v["cmp"])
        o = self.o = ref.Order(v["cmp"][:3], v["cmp"][3:], False)
        if rank:
            var, fun = g.Poly.init(NAMES[:n], FUNS[:rank])
        else:
            var, fun = g.Poly.init(NAMES[:n]), ()
        held = [(p, {(p.lm().position(), tuple(p.lm())): Fraction(1)}) for p in list(var) + list(fun)]
        P, F = [], []
        todo, fam = [], False
        for t in v["gens"]:
            if t[0] == "fam" and n > 1 and not rank:
                todo += [["p", [[[c, 1] if v["coef"] != "param" else [c, 0, 0], -1, list(e)] for c, e in f]] for f in family(n, t[1], t[2])]
                fam = True
            else:
                todo.append(t)
        for t in todo:
            if t[0] == "p":
                p, R = self.make(t[1])
            elif t[0] == "var":
                i = t[1] % (n + rank) if not rank else n + t[1] % rank
                p, R = (list(var) + list(fun))[i], tuple(dict(held[i][1]) for _ in self.pts)
            elif not P:
                continue
            elif t[0] == "same":
                p, R = P[t[1] % len(P)], F[t[1] % len(P)]
            elif t[0] == "sum":
                q, Q = self.make(t[2])
                p, R = P[t[1] % len(P)] + q, tuple(ref.padd(a, b) for a, b in zip(F[t[1] % len(P)], Q))
            else:
                q, Q = self.make([[c, -1, e] for c, _, e in t[2][:2]]) if not rank else (None, None)
                if q is None:
                    continue
                p, R = P[t[1] % len(P)] * q, tuple(ref.pmul(a, b) for a, b in zip(F[t[1] % len(P)], Q))
            if any(len(r) != len(R[0]) for r in R):
                raise Discard()
            if not R[0] or len(R[0]) > 16:
                continue
            P.append(p); F.append(R)
        if not P:
            raise Discard()
        c0 = os.times().user
        try:
            GB = [ref.groebner([f[k] for f in F], o, 150 if fam or big else 60) for k in range(len(self.pts))]
        except ref.TooBig:
            raise Discard()
        easy = os.times().user - c0 < 0.5
        lms = [[o.lm(x) for x in G] for G in GB]
        if any(x != lms[0] for x in lms) or sum(len(x) for x in GB[0]) > (100 if big else 40) or max(sum(m[1]) for m in lms[0]) > (60 if big == "tall" else 9):
            raise Discard()
        cls = g.JanetCache if v["kind"] == "cache" else g.Janet
        tree = g.Forest(cls) if rank else cls()
        self.must_finish(v["coef"] != "param" and easy)
        with contextlib.redirect_stdout(io.StringIO()) as log:
            res = (g.ginvMin if v["algo"] == "min" else g.ginvBlockLow)(tuple(P) if v["tup"] else P, tree, level=v["level"]) if v["level"] else \
                  (g.ginvMin if v["algo"] == "min" else g.ginvBlockLow)(tuple(P) if v["tup"] else P, tree)
        need(isinstance(res, tuple) and len(res) == 3 and res[0] >= 0 and res[1] >= 0 and res[2] >= 0, "result", str(res))
        need(bool(log.getvalue()) or not v["level"], "log")
        # what went in is unchanged
        for p, R in zip(P, F):
            need(self.read(p, "generator") == R, "generator changed", lambda: "from %s to %s" % (R[0], self.read(p, "generator")[0]))
        for p, R in held:
            need({(m.position(), tuple(m)): k for m, k in p} == R, "variable changed", lambda: "%s became %s" % (R, p))
        # the basis
        el = list(tree)
        B = [self.read(w.poly, "basis") for w in el]
        L = []
        for w, R in zip(el, B):
            m = o.lm(R[0])
            need((w.lm.position(), tuple(w.lm)) == m, "leading monomial", lambda: "%r of %s" % (w.lm, R[0]))
            L.append(m)
        need(len(set(L)) == len(L) and tree.count() == len(L), "count", lambda: "%s, count %d" % (L, tree.count()))
        for k, G in enumerate(GB):
            for R in B:
                need(not ref.remainder(R[k], G, o), "not in the ideal", lambda: str(R[k]))
        for m in lms[0]:
            need(any(ref.divides(l, m) for l in L), "not a Groebner basis", lambda: "%s has no divisor among %s" % (m, L))
        M = ref.janet_divisors(L)
        for w, m in zip(el, L):
            need([not x for x in w.nonmult] == M[m], "multiplicative variables", lambda: "%s: %s, by definition %s" % (m, w.nonmult, M[m]))
            for i in range(n):
                if not M[m][i]:
                    x = ref.mmul(m, (-1, tuple(int(s == i) for s in range(n))))
                    need(ref.janet_find(L, M, x), "not involutive", lambda: "%s has no Janet divisor among %s" % (x, L))
        for w, R in zip(el, B):
            for t in R[0]:
                need(t == o.lm(R[0]) or not any(ref.divides(l, t) for l in L), "tail not reduced", lambda: "%s in %s" % (t, R[0]))
            if v["coef"] != "param":
                need(all(c.is_Integer for _, c in w.poly) and ref.content({m: int(c) for m, c in R[0].items()}) == 1, "not primitive", lambda: str(w.poly))
        # the reduced Groebner basis
        gb = {o.lm(R[0]): R for R in (self.read(w.poly, "GB") for w in tree.GB())}
        need(set(gb) == set(lms[0]), "GB", lambda: "shows %s, reduced Groebner basis has %s" % (sorted(gb), lms[0]))
        for k, G in enumerate(GB):
            for x in G:
                need(ref.monic(gb[o.lm(x)][k], o) == x, "GB", lambda: "%s, expected %s" % (gb[o.lm(x)][k], x))
        # Hilbert polynomial and standard monomials
        d = max(sum(m[1]) for m in L)
        pos = range(rank) if rank else [-1]
        for p in pos if big else ():         # Janet cones do not meet
            Lp = [m for m in L if m[0] == p]
            h = tree.HP() if p == -1 else tree[p].HP()
            for s in (d, d + 3):
                cnt = comb(n + s, n) - sum(comb(s - sum(m[1]) + sum(M[m]), sum(M[m])) for m in Lp)
                need(h.subs(s) == cnt, "Hilbert polynomial", lambda: "%s at %d, %d standard monomials of %s" % (h, s, cnt, lms[0]))
        if len(pos) * comb(n + d + 1, n) < 1500:
            cnt = ref.count_standard(L, n, d, pos)
            need(tree.HP().subs(d) == cnt, "Hilbert polynomial", lambda: "%s at %d, %d standard monomials of %s" % (tree.HP(), d, cnt, lms[0]))
            need(tree.HP().subs(d + 1) == ref.count_standard(L, n, d + 1, pos), "Hilbert polynomial", lambda: "%s at %d" % (tree.HP(), d + 1))
        for p in pos:
            box = ref.exps(n, 2)
            if big:
                box = [m[1] for m in L if m[0] == p] + [tuple(max(0, x - (i == j)) for j, x in enumerate(m[1])) for m in L if m[0] == p for i in range(n)] + box[:9]
            for e in box:
                q = tree.find(self.mono((p, e)))
                inn = any(ref.divides(l, (p, e)) for l in lms[0])
                need((q is not None) == inn, "find", lambda: "%s: %s" % ((p, e), q))
                if q is not None and v["kind"] == "plain":
                    need(ref.divides(o.lm(self.read(q, "find")[0]), (p, e)), "find", str((p, e)))
        # normal forms and membership
        T = [self.make(t) for t in v["targets"]]
        if P and T and not rank:
            T.append((P[0] * T[0][0], tuple(ref.pmul(a, b) for a, b in zip(F[0], T[0][1]))))
        T.append((P[-1] + P[0], tuple(ref.padd(a, b) for a, b in zip(F[-1], F[0]))))
        for p, R in T:
            if len(R[0]) > 14:
                continue
            X = tuple(ref.remainder(r, G, o) for r, G in zip(R, GB))
            if any(set(x) != set(X[0]) for x in X):
                continue
            q = g.Poly(p)
            r = q.NF(tree)
            need(r is q and self.read(r, "NF") == X, "normal form", lambda: "of %s is %s, expected %s" % (R[0], self.read(r, "NF")[0], X[0]))
            if p:
                q = g.Poly(p)
                q.NFhead(tree)
                need(bool(q) == bool(X[0]), "membership", lambda: "%s: %s" % (R[0], q))
        need([self.read(w.poly, "basis") for w in el] == B, "basis changed by queries")
        labels = [v["algo"], v["coef"], v["kind"], v["cmp"], "module" if rank else "ideal", "level %d" % v["level"]]
        if len(lms[0]) >= 2:
            labels.append("nontrivial")
        if big:
            labels.append(big)
        if fam:
            labels.append("family")
        if len(L) > len(lms[0]):
            labels.append("prolongations needed")
        if lms[0] == [(-1, (0,) * n)]:
            labels.append("unit ideal")
        if res[1]:
            labels.append("criterion 1 applied")
        if res[2]:
            labels.append("criterion 2 applied")
        return labels


main(C24, os.path.abspath(__file__))
