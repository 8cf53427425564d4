"""pyginv completion of linear differential and difference systems against reference Groebner
bases over a field of rational functions."""
import contextlib, io, os, sys
from math import comb
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
import ref, ore

ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]
NAMES, FUNS, PARS = ["x", "y", "z", "x4", "x5"], ["u", "v", "w"] + ["f%d" % i for i in range(3, 9)], ["a", "b"]


class C29(Harness):
    hang = 25
    slow_is_failure = False

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import sympy, ginv
        self.sp, self.g = sympy, ginv

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, kind, big = t
            maxd = {"": {1: 4, 2: 3, 3: 2}.get(n), "tall": 18 if n == 1 else 8, "wide": 1, "ranks": 2}[big]
            nt, ng = {"": (3, 4), "tall": (2, 4), "wide": (3, 7), "ranks": (3, 8)}[big]
            z = [0] * n
            num = st.integers(-5, 5).filter(bool).map(lambda q: [[q, z, [0, 0]]])
            par = st.tuples(st.integers(-3, 3).filter(bool), st.just(z), st.sampled_from([[1, 0], [0, 1], [1, 1], [0, 2]])).map(lambda x: [list(x)])
            unit = lambda i, d: [d if k == i else 0 for k in range(n)]
            var = st.tuples(st.integers(-3, 3).filter(bool), st.tuples(st.integers(0, n - 1), st.sampled_from([1, 1, 2])).map(lambda x: unit(*x)), st.sampled_from([[0, 0], [0, 0], [1, 0]])).map(list)
            vs = st.lists(st.one_of(var, num.map(lambda x: x[0])), min_size=1, max_size=2)
            coef = {"const": num, "param": st.one_of(num, num, par), "var": st.one_of(num, num, vs), "shift": num, "shiftpar": st.one_of(num, num, par)}[kind]
            exps = st.lists(st.integers(0, maxd), min_size=n, max_size=n).map(lambda e: self.cap(e, maxd))
            term = st.tuples(coef, st.integers(0, rank - 1), exps).map(list)
            poly = st.lists(term, min_size=1, max_size=nt)
            inh = st.tuples(poly, coef).map(lambda x: x[0] + [[x[1], -1, z]])
            gen = st.one_of(poly.map(lambda p: ["p", p]), poly.map(lambda p: ["p", p]), poly.map(lambda p: ["p", p]), (inh if kind[:5] != "shift" else poly).map(lambda p: ["p", p]),
                            st.tuples(st.just("d"), st.integers(0, 4), exps, poly).map(list), st.tuples(st.just("same"), st.integers(0, 4)).map(list))
            return st.fixed_dictionaries(dict(n=st.just(n), rank=st.just(rank), kind=st.just(kind), big=st.just(big), cmp=st.sampled_from(ORDERS + ["TOPdeglex"] * 2), low=st.booleans(), level=st.sampled_from([0, 0, 1]),
                                              tree=st.sampled_from(["plain", "plain", "cache"]), forest=st.booleans(), gens=st.lists(gen, min_size=1 if not big else 2, max_size=ng), targets=st.lists(poly, max_size=3)))
        usual = st.tuples(st.sampled_from([2, 2, 3, 1]), st.sampled_from([1, 1, 2, 3]), st.sampled_from(["const", "param", "var", "var", "shift", "shiftpar"]), st.just(""))
        num = st.sampled_from(["const", "shift"])
        big = st.one_of(st.tuples(st.integers(1, 2), st.sampled_from([1, 1, 2]), num, st.just("tall")), st.tuples(st.integers(4, 5), st.sampled_from([1, 1, 2]), num, st.just("wide")),
                        st.tuples(st.integers(1, 2), st.integers(4, 8), num, st.just("ranks")))
        return st.integers(0, 9).flatmap(lambda x: (big if x == 5 or x == 7 else usual).flatmap(shape))

    @staticmethod
    def cap(e, d):
        e = list(e)
        while sum(e) > d:
            i = e.index(max(e)); e[i] -= 1
        return e

    def coef(self, c):
        k = self.sp.Integer(0)
        for q, e, f in c:
            if len(e) != self.n or len(f) != 2 or min(e + f) < 0:
                raise Discard()
            t = self.sp.Integer(q)
            for s, d in list(zip(self.vs, e)) + list(zip(self.par, f)):
                t = t * s ** d
            k = k + t
        return k, self.R.val(k)

    def make(self, terms):
        p, X = self.P(), {}
        for c, pos, e in terms:
            if len(e) != self.n or not -1 <= pos < self.rank or min(e) < 0:
                raise Discard()
            k, K = self.coef(c)
            if not K:
                continue
            if pos < 0:
                if self.shift:
                    raise Discard()
                p, X = p + k, ref.padd(X, {self.R.zero: K})
            else:
                a = []
                for s, d in zip(self.vs, e):
                    a += [s, d] if d else []
                p, X = p + self.new(self.fs[pos], *a) * k, ref.padd(X, {(pos, tuple(e)): K})
        return p, X

    def read(self, p, why):
        need(type(p) is self.P, why, lambda: "not a %s" % self.P.__name__)
        X, last = {}, None
        for m, k in p:
            key = (m.position(), tuple(int(x) for x in tuple(m)))
            need(last is None or self.o.cmp(last, key) > 0, "term order", lambda: "%s: %s" % (why, list(p)))
            last = key
            X[key] = self.R.val(k)
            need(X[key] != 0, "zero coefficient", lambda: "%s: %s" % (why, list(p)))
        return X

    def run(self, v):
        g, n, rank = self.g, v["n"], v["rank"]
        big = v.get("big", "")
        if not 1 <= n <= (5 if big else 3) or not 1 <= rank <= (8 if big else 3) or v["cmp"] not in ORDERS or not v["gens"]:
            raise Discard()
        self.n, self.rank, self.shift = n, rank, v["kind"][:5] == "shift"
        self.P = g.PolySchem if self.shift else g.PolyDiff
        self.new = self.P.T if self.shift else self.P.df
        self.par = self.sp.symbols(PARS, real=True)
        g.Monom.cmp = getattr(g.Monom, v["cmp"])
        o = self.o = ref.Order(v["cmp"][:3], v["cmp"][3:], False)
        self.vs, self.fs = self.P.init(NAMES[:n], FUNS[:rank])
        R = self.R = ore.Ore(list(self.vs) + list(self.par), n, o, not self.shift)
        P, F = [], []
        for t in v["gens"]:
            if t[0] == "p":
                p, X = self.make(t[1])
            elif not P:
                continue
            elif t[0] == "same":
                p, X = P[t[1] % len(P)], F[t[1] % len(P)]
            else:
                p, X = P[t[1] % len(P)], F[t[1] % len(P)]
                if len(t[2]) != n:
                    raise Discard()
                for i, d in enumerate(t[2]):
                    for _ in range(d):
                        if self.shift and R.zero in X:
                            raise Discard()
                        p, X = p.prolong(i), R.prolong(X, i)
                q, Y = self.make(t[3])
                p, X = p + q, ref.padd(X, Y)
            if not X or len(X) > 8:
                continue
            if o.lm(X)[0] < 0:
                raise Discard()
            P.append(p); F.append(X)
        if not P:
            raise Discard()
        c0 = os.times().user
        try:
            G = R.groebner(F)
        except (ref.TooBig, ore.Inconsistent):
            raise Discard()
        easy = os.times().user - c0 < 0.5
        lms = [o.lm(x) for x in G]
        if max(sum(m[1]) for m in lms) > (40 if big else 7) or max(R.size(x) for x in G) > 60:
            raise Discard()
        forest = v["forest"] or rank > 1 or any(R.zero in X for X in F + G)
        cls = g.JanetCache if v["tree"] == "cache" else g.Janet
        tree = g.Forest(cls) if forest else cls()
        low = v["low"] and v["cmp"] == "TOPdeglex"
        self.must_finish(v["kind"] in ("const", "shift") and easy)
        with contextlib.redirect_stdout(io.StringIO()) as log:
            res = (g.ginvBlockLow if low else g.ginvMin)(P, tree, level=v["level"])
        need(isinstance(res, tuple) and len(res) == 3 and min(res) >= 0, "result", str(res))
        for p, X in zip(P, F):
            need(self.read(p, "generator") == X, "generator changed", lambda: "%s became %s" % (X, p))
        el = list(tree)
        B = [self.read(w.poly, "basis") for w in el]
        L = []
        for w, X in zip(el, B):
            m = o.lm(X)
            need((w.lm.position(), tuple(w.lm)) == m, "leading monomial", lambda: "%r of %s" % (w.lm, X))
            L.append(m)
        need(len(set(L)) == len(L) and tree.count() == len(L), "count", lambda: "%s, count %d" % (L, tree.count()))
        for X in B:
            try:
                need(not R.remainder(X, G), "does not follow from the system", lambda: "%s; basis %s" % (X, G))
            except ref.TooBig:
                pass
        for m in lms:
            need(any(ref.divides(l, m) for l in L), "not a Groebner basis", lambda: "%s has no divisor among %s" % (m, L))
        M = ref.janet_divisors(L)
        for w, m in zip(el, L):
            need([not x for x in w.nonmult] == M[m], "multiplicative variables", lambda: "%s: %s, by definition %s" % (m, w.nonmult, M[m]))
            for i in range(n):
                if not M[m][i]:
                    x = ref.mmul(m, (-1, tuple(int(s == i) for s in range(n))))
                    need(ref.janet_find(L, M, x), "not involutive", lambda: "%s has no Janet divisor among %s" % (x, L))
        for w, X in zip(el, B):
            for t in X:
                need(t == o.lm(X) or not any(ref.divides(l, t) for l in L), "tail not reduced", lambda: "%s in %s" % (t, X))
            need(all(len(c.denom) == 1 and c.denom.is_ground for c in X.values()), "denominators", lambda: str(w.poly))
            if v["kind"] in ("const", "shift"):
                c = 0
                for _, k in w.poly:
                    need(k.is_Integer, "not primitive", lambda: str(w.poly))
                    c = ref.gcd(c, int(k))
                need(c == 1, "not primitive", lambda: str(w.poly))
        gb = {o.lm(X): X for X in (self.read(w.poly, "GB") for w in tree.GB())}
        need(set(gb) == set(lms), "GB", lambda: "shows %s, reduced Groebner basis has %s" % (sorted(gb), lms))
        for x in G:
            need(R.monic(gb[o.lm(x)]) == x, "GB", lambda: "%s, expected %s" % (gb[o.lm(x)], x))
        d = max(sum(m[1]) for m in L)
        for s in (d, d + 1):
            # Janet cones do not meet
            cnt = [comb(n + s, n) - sum(comb(s - sum(m[1]) + sum(M[m]), sum(M[m])) for m in L if m[0] == k) for k in range(rank)]
            if rank * comb(n + s, n) < 1500:
                need(cnt == [ref.count_standard(L, n, s, [k]) for k in range(rank)], "harness", "cones")
            need(tree.HP().subs(s) == sum(cnt), "Hilbert polynomial", lambda: "%s at %d, %s" % (tree.HP(), s, cnt))
            if forest:
                for k in range(rank + 1):
                    need(tree.HP(verge=k).subs(s) == sum(cnt[:k]), "Hilbert polynomial", lambda: "verge %d: %s at %d, %s" % (k, tree.HP(verge=k), s, cnt))
        for p in range(rank):
            for e in ref.exps(n, 2):
                q = tree.find(g.Monom(e, pos=p))
                need((q is not None) == any(ref.divides(l, (p, e)) for l in lms), "find", lambda: "%s: %s" % ((p, e), q))
        T = [self.make(t) for t in v["targets"]]
        T.append((P[-1] + P[0], ref.padd(F[-1], F[0])))
        if not (self.shift and R.zero in F[0]):
            T.append((P[0].prolong(n - 1) + P[-1], ref.padd(R.prolong(F[0], n - 1), F[-1])))
        for p, X in T:
            if not X or R.zero in X and not forest:
                continue
            try:
                E = R.remainder(X, G)
            except ref.TooBig:
                continue
            q = self.P(p)
            r = q.NF(tree)
            need(r is q and self.read(r, "NF") == E, "normal form", lambda: "of %s is %s, expected %s" % (X, self.read(r, "NF"), E))
            q = self.P(p)
            q.NFhead(tree)
            need(bool(q) == bool(E), "membership", lambda: "%s: %s" % (X, q))
        need([self.read(w.poly, "basis") for w in el] == B, "basis changed by queries")
        labels = ["block" if low else "min", v["kind"], v["tree"], "forest" if forest else "tree", v["cmp"]]
        if len(lms) >= 2:
            labels.append("nontrivial")
        if big:
            labels.append(big)
        if len(L) > len(lms):
            labels.append("prolongations needed")
        if any(R.zero in X for X in G):
            labels.append("inhomogeneous")
        return labels


main(C29, os.path.abspath(__file__))
