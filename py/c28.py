"""pyginv differential and difference polynomials: constructors, arithmetic, prolongation,
text forms and reduction against operators over a field of rational functions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
import ref, ore

ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]
NAMES, FUNS, PARS = ["x", "y", "z", "t1", "x5", "x6"], ["u", "v", "w"] + ["f%d" % i for i in range(3, 13)], ["a", "b"]


class C28(Harness):
    hang = 15
    slow_is_failure = False

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import sympy, ginv
        self.sp, self.g = sympy, ginv

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, diff, big = t
            deep, big = big == "deep", big is True
            ex = st.lists(st.sampled_from([0, 0, 0, 1, 1, 2]), min_size=n, max_size=n) if not big else st.just([0] * n)
            # a coefficient: sum of c * x^e * params^f, over a monomial denominator now and then
            mon = st.tuples(st.integers(-4, 4).filter(bool), ex if diff else st.just([0] * n), st.sampled_from([[0, 0], [0, 0], [0, 0], [1, 0], [0, 1], [1, 2]])).map(list)
            num = st.tuples(st.integers(-9, 9).filter(bool), st.just([0] * n), st.just([0, 0])).map(lambda x: [list(x)])
            den = st.sampled_from([[0, 0, 0]] * 8 + [[0, 0, 1], [0, 1, 0], [1, 0, 0]]).map(lambda d: d if diff and not big else [0] + d[1:])     # power of x, a; extra integer
            coef = st.tuples(st.one_of(num, num, st.lists(mon, min_size=1, max_size=2)), den).map(list)
            args = st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([None, None, 1, 2, 3] if not big and not deep else [1, 2, 4, 5] if deep else [None, 1, 2, 4, 9, 10, 11, 26])).map(list), max_size=3 if not big else 6)
            term = st.one_of(st.tuples(coef, st.integers(0, rank - 1), args).map(list), st.tuples(coef, st.integers(0, rank - 1), args).map(list), st.tuples(coef, st.integers(0, rank - 1), args).map(list),
                             st.tuples(coef, st.just(-1), st.just([])).map(list))
            poly = st.lists(term, min_size=1, max_size=3 if not big else 12)
            r = st.integers(0, 4)
            op = st.one_of(
                st.tuples(st.sampled_from(["add", "sub", "add", "iadd"]), r, r), st.tuples(st.sampled_from(["mulc", "rmulc", "addc", "raddc", "subc", "rsubc", "divc"]), r, coef),
                st.tuples(st.sampled_from(["neg", "copy", "text", "sympy", "text", "pp", "cancel"]), r), st.tuples(st.just("prolong"), r, st.integers(0, n - 1)), st.tuples(st.just("prolong"), r, st.integers(0, n - 1)),
                st.tuples(st.just("dpar"), r, st.integers(0, 1)), st.tuples(st.sampled_from(["NF", "NFhead", "NFtail", "NF", "reduce"]), r, r, st.sampled_from(["poly", "plain", "cache", "forest", "fcache"])),
                st.tuples(st.just("member"), r, r, poly, st.sampled_from(["NF", "NFhead", "NFtail"]), st.sampled_from(["poly", "plain", "cache", "forest", "fcache"])), st.tuples(st.just("new"), r, poly)).map(list)
            leaf = term
            tree = st.recursive(leaf.map(lambda t: ["leaf", t]), lambda s: st.one_of(st.tuples(st.just("add"), s, s), st.tuples(st.just("sub"), s, s), st.tuples(st.just("mul"), coef, s), st.tuples(st.just("d"), st.integers(0, n - 1), s)).map(list), max_leaves=5)
            return st.fixed_dictionaries(dict(n=st.just(n), rank=st.just(rank), diff=st.just(diff), big=st.just(big), cmp=st.sampled_from(ORDERS), polys=st.lists(poly, min_size=2, max_size=3), tree=tree,
                                              ops=st.lists(op, min_size=2, max_size=14 if self.thorough else 8)))
        usual = st.tuples(st.integers(1, 4), st.integers(1, 3), st.sampled_from([True, True, False]), st.just(False))
        return st.integers(0, 6).flatmap(lambda x: (st.tuples(st.integers(1, 6), st.integers(1, 12), st.sampled_from([True, True, False]), st.just(True)) if x == 3 else st.tuples(st.integers(1, 2), st.integers(1, 2), st.just(True), st.just("deep")) if x == 5 else usual).flatmap(shape))

    def coef(self, c):
        n, sp = self.n, self.sp
        if len(c[1]) != 3 or any(len(e) != n or len(f) != 2 or min(e + f) < 0 for _, e, f in c[0]):
            raise Discard()
        k = sp.Integer(0)
        for q, e, f in c[0]:
            t = sp.Integer(q)
            for s, d in list(zip(self.vs, e)) + list(zip(self.par, f)):
                t = t * s ** d
            k = k + t
        x, a, i = c[1]
        k = k / (self.vs[0] ** x * self.par[0] ** a * (3 if i else 1))
        return k, self.R.val(k)

    def make(self, terms):
        g, n = self.g, self.n
        p, X = self.P(), {}
        for c, pos, args in terms:
            k, K = self.coef(c)
            if not -1 <= pos < self.rank or any(not 0 <= i < n for i, _ in args):
                raise Discard()
            if not K:
                continue
            if pos < 0:
                p = p + k
                X = ref.padd(X, {self.R.zero: K})
                continue
            a, e = [], [0] * n
            for i, d in args:
                a.append(self.vs[i]); e[i] += 1 if d is None else d
                if d is not None:
                    a.append(d)
            f = self.new(self.fs[pos], *a)
            need(type(f) is self.P and len(f) == 1 and f[0][1] == 1 and (f[0][0].position(), tuple(f[0][0])) == (pos, tuple(e)), "constructor", lambda: "%s gives %r" % (a, f))
            p = p + k * f if len(args) % 2 else p + f * k
            X = ref.padd(X, {(pos, tuple(e)): K})
        self.same(p, X, "built")
        return [p, X]

    def read(self, p, why):
        need(type(p) is self.P, why, lambda: "not a %s: %r" % (self.P.__name__, p))
        X, last = {}, None
        for m, k in p:
            key = (m.position(), tuple(int(x) for x in tuple(m)))
            need(last is None or self.o.cmp(last, key) > 0, "term order", lambda: "%s: %s" % (why, list(p)))
            last = key
            need(not isinstance(k, (int, float)), why, "coefficient type")
            X[key] = self.R.val(k)
            need(X[key] != 0, "zero coefficient", lambda: "%s: %s" % (why, list(p)))
        return X

    def same(self, p, X, key, msg=""):
        Y = self.read(p, key)
        need(Y == X, key, lambda: "%s: got %s, expected %s" % (msg() if callable(msg) else msg, Y, X))

    def propto(self, p, X, key, msg=""):
        Y = self.read(p, key)
        ok = set(Y) == set(X)
        if ok and X:
            m = next(iter(X))
            ok = all(X[k] * Y[m] == Y[k] * X[m] for k in X)
        need(ok, key, lambda: "%s: got %s, expected a multiple of %s" % (msg() if callable(msg) else msg, Y, X))
        return Y

    def expr(self, t):
        """sympy expression and value of a generated tree"""
        if t[0] == "leaf":
            c, pos, args = t[1]
            k, K = self.coef(c)
            if not -1 <= pos < self.rank or any(not 0 <= i < self.n for i, _ in args):
                raise Discard()
            if pos < 0:
                return k, ({self.R.zero: K} if K else {})
            e, f = [0] * self.n, self.fs[pos](*self.vs)
            for i, d in args:
                e[i] += 1 if d is None else d
                f = f.diff(self.vs[i], 1 if d is None else d)
            return k * f, ({(pos, tuple(e)): K} if K else {})
        if t[0] in ("add", "sub"):
            a, A = self.expr(t[1]); b, B = self.expr(t[2])
            return (a + b, ref.padd(A, B)) if t[0] == "add" else (a - b, ref.padd(A, B, -1))
        if t[0] == "mul":
            k, K = self.coef(t[1]); a, A = self.expr(t[2])
            return k * a, ({m: K * c for m, c in A.items()} if K else {})
        if not 0 <= t[1] < self.n:
            raise Discard()
        a, A = self.expr(t[2])
        return a.diff(self.vs[t[1]]), self.R.prolong(A, t[1])

    def reducer(self, q, how):
        g = self.g
        if how == "poly":
            return q
        cls = g.JanetCache if "cache" in how else g.Janet
        tree = g.Forest(cls) if how[0] == "f" or self.rank > 1 else cls()
        w = g.Wrap(q)
        need(not tree.insert([w]), "insert")
        return tree

    def run(self, v):
        sp, g, n, rank = self.sp, self.g, v["n"], v["rank"]
        if not 1 <= n <= 6 or not 1 <= rank <= 12 or v["cmp"] not in ORDERS:
            raise Discard()
        self.n, self.rank, diff = n, rank, v["diff"]
        self.P = g.PolyDiff if diff else g.PolySchem
        self.new = g.PolyDiff.df if diff else g.PolySchem.T
        g.Monom.cmp = getattr(g.Monom, v["cmp"])
        self.o = ref.Order(v["cmp"][:3], v["cmp"][3:], False)
        self.par = sp.symbols(PARS, real=True)
        vs, fs = self.P.init(NAMES[:n], FUNS[:rank])
        self.vs, self.fs = list(vs), list(fs)
        need([str(x) for x in vs] == NAMES[:n] and [str(f) for f in fs] == FUNS[:rank], "init")
        self.R = ore.Ore(self.vs + self.par, n, self.o, diff)
        labels, count = {"differential" if diff else "difference"}, 0
        if v.get("big"):
            labels.add("large")
        R = [self.make(t) for t in v["polys"]]
        if not R:
            raise Discard()
        if diff:
            e, X = self.expr(v["tree"])
            p = g.PolyDiff.diff2poly(e)
            self.same(p, X, "diff2poly", lambda: str(e))
            if len(X) > 1:
                labels.add("from expression")
        todo = []
        for op in v["ops"]:
            todo.append(op)
            if op[0] == "member":
                todo.append([op[4], "last", op[2], op[5]])
        last = None
        for op in todo:
            k = op[0]
            i = next((s for s, x in enumerate(R) if x[0] is last), 0) if op[1] == "last" else op[1] % len(R)
            p, X = R[i]
            res = None
            if k == "new":
                R[i] = self.make(op[2]); continue
            if k == "member":            # plus multiples of derivatives of another one
                j = op[2] % len(R)
                if j == i:
                    continue
                q, Y = R[j]
                if not q or self.o.lm(Y)[0] < 0 or not diff and self.R.zero in Y:
                    continue
                s, Z = p, X
                for c, _, args in op[3]:
                    h, H = q, Y
                    for a, d in args[:2]:
                        if not 0 <= a < n:
                            raise Discard()
                        h, H = h.prolong(a), self.R.prolong(H, a)
                    kk, K = self.coef(c)
                    if K:
                        s, Z = s + h * kk, ref.padd(Z, H, K)
                self.same(s, Z, "sum of derivatives")
                if self.R.size(Z) > 80:
                    continue
                R[i] = [s, Z]; last = s
                count += 1
                continue
            if k in ("add", "sub", "iadd"):
                q, Y = R[op[2] % len(R)]
                if k == "iadd":
                    r = p
                    r += q
                else:
                    r = p + q if k == "add" else p - q
                res = r, ref.padd(X, Y, -1 if k == "sub" else 1)
            elif k in ("mulc", "rmulc", "addc", "raddc", "subc", "rsubc", "divc"):
                c, K = self.coef(op[2])
                if not K and k == "divc":
                    continue
                one = {self.R.zero: K} if K else {}
                if k == "mulc": res = p * c, ({m: K * x for m, x in X.items()} if K else {})
                elif k == "rmulc": res = c * p, ({m: K * x for m, x in X.items()} if K else {})
                elif k == "divc": res = p / c, {m: x / K for m, x in X.items()}
                elif k == "addc": res = p + c, ref.padd(X, one)
                elif k == "raddc": res = c + p, ref.padd(X, one)
                elif k == "subc": res = p - c, ref.padd(X, one, -1)
                else: res = c - p, ref.padd(one, X, -1)
            elif k == "neg":
                res = -p, ref.pscale(X, self.R.K(-1))
            elif k == "copy":
                res = self.P(p), X
            elif k == "prolong":
                if not diff and self.R.zero in X:
                    continue
                res = p.prolong(op[2] % n), self.R.prolong(X, op[2] % n)
                labels.add("prolonged")
            elif k == "dpar":
                a = self.par[op[2] % 2]
                E = {m: c.diff(self.R.K.gens[n + op[2] % 2]) for m, c in X.items()}
                res = p.diff(a), {m: c for m, c in E.items() if c}
            elif k == "text":
                env = {str(s): s for s in self.vs + list(self.fs) + list(self.par)}
                env["df" if diff else "T"] = self.new
                t = eval(compile(self.exact(str(p)), "text", "eval"), dict(env, Integer=sp.Integer))
                self.same(t if isinstance(t, self.P) else self.P(t), X, "text", lambda: str(p))
                count += 1
                continue
            elif k == "sympy":
                if not diff:
                    continue
                env = {str(s): s for s in self.vs + list(self.fs) + list(self.par)}
                t = sp.sympify(eval(compile(self.exact(p.df_sympy()), "text", "eval"), dict(env, Integer=sp.Integer, sympy=sp)))
                self.same(g.PolyDiff.diff2poly(t), X, "df_sympy and diff2poly", lambda: p.df_sympy())
                # and it is the expression it should be, on concrete functions
                conc = [sum((j + 2) ** (s + 1) * x ** (3 - s % 3) * self.vs[(j + s) % n] ** (1 + s % 2) for s, x in enumerate(self.vs)) + 7 * j for j in range(rank)]
                want = sp.Integer(0)
                for (pos, e), c in X.items():
                    f = conc[pos] if pos >= 0 else sp.Integer(1)
                    for x, d in zip(self.vs, e):
                        f = sp.diff(f, x, d) if d else f
                    want += c.as_expr() * f
                got = t
                for f, c in zip(self.fs, conc):
                    got = got.subs(f(*self.vs), c)
                need(self.R.val(got.doit()) == self.R.val(want), "df_sympy", lambda: p.df_sympy())
                count += 1
                continue
            elif k in ("pp", "cancel"):
                if not p:
                    continue
                getattr(p, k)()
                Y = self.propto(p, X, k)
                if k == "cancel":
                    need(all(sp.fraction(c)[1] == 1 for _, c in p), "denominators", lambda: str(list(p)))
                R[i][1] = Y
                count += 1
            elif k in ("NF", "NFhead", "NFtail", "reduce"):
                j = op[2] % len(R)
                q, Y = R[j]
                if i == j or not p or not q or self.o.lm(Y)[0] < 0 or not diff and self.R.zero in Y:
                    continue
                if rank == 1 and op[3] in ("plain", "cache") and (self.R.zero in X or self.R.zero in Y):
                    continue             # a tree that is not a forest holds one function only
                head, G = self.o.lm(X), [Y]
                try:
                    if k == "reduce":
                        E = self.R.step(X, self.o.lm(Y), Y) if self.o.lm(Y) in X else X
                    elif k == "NFhead":
                        E = X
                        while E and self.R_div(Y, self.o.lm(E)):
                            E = self.R.step(E, self.o.lm(E), Y)
                            if self.R.size(E) > 200:
                                raise ref.TooBig()
                    elif k == "NFtail":
                        E = ref.padd({head: X[head]}, self.R.remainder({m: c for m, c in X.items() if m != head}, G))
                    else:
                        E = self.R.remainder(X, G)
                except ref.TooBig:
                    continue
                if k == "reduce":
                    p.reduce(q)
                else:
                    r = getattr(p, k)(self.reducer(q, op[3]))
                    need(k != "NF" or r is p, "NF", "does not return its argument")
                if k == "NFhead" and "cache" in op[3]:
                    # a cached tree reduces by derivatives with reduced tails: the same class, the same head
                    Z = self.read(p, k)
                    need(bool(Z) == bool(E) and (not Z or self.o.lm(Z) == self.o.lm(E)), k, lambda: "of %s by %s: got %s, expected the head of %s" % (X, Y, Z, E))
                    try:
                        A, B = self.R.monic(self.R.remainder(Z, G)), self.R.monic(self.R.remainder(E, G))
                    except ref.TooBig:
                        A = B = None
                    need(A == B, k, lambda: "of %s by %s: %s is in another class" % (X, Y, Z))
                    R[i][1] = Z
                elif k == "NF":
                    self.same(p, E, "NF", lambda: "of %s by %s" % (X, Y))
                    R[i][1] = E
                else:
                    R[i][1] = self.propto(p, E, k, lambda: "of %s by %s" % (X, Y))
                count += 1
                if E != X:
                    labels.add("reduced"); labels.add("reduced by " + op[3])
                    if any(self.R_div(Y, m) and m != self.o.lm(Y) for m in X):
                        labels.add("reduced by a derivative" if diff else "reduced by a shift")
            if res:
                r, E = res
                self.same(r, E, k, lambda: "of %s" % (X,))
                if self.R.size(E) <= 80:
                    R.append([r, E]) if len(R) < 5 else R.__setitem__((i + 1) % len(R), [r, E])
                count += 1
            for s, (q, Y) in enumerate(R):
                self.same(q, Y, "another polynomial changed" if s != i else "value", lambda: "by %s" % k)
        if count >= 3:
            labels.add("nontrivial")
        return list(labels)

    def R_div(self, Y, m):
        l = self.o.lm(Y)
        return l[0] >= 0 and ref.divides(l, m)

    @staticmethod
    def exact(s):
        """quotients of integers stay exact when the text is evaluated"""
        import re
        return re.sub(r"(?<![A-Za-z0-9_])(\d+)(?=\s*/)", r"Integer(\1)", s)


main(C28, os.path.abspath(__file__))
