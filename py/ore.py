"""Reference algebra of linear differential and difference operators applied to functions.

An element is a dict (pos, exps) -> coefficient in a field of rational functions; (-1, 0) is the
inhomogeneous part.  diff: the variables act on coefficients as derivations; otherwise as
shifts that leave the coefficients (constants) alone."""
from sympy import QQ
from sympy.polys.fields import FracField
from sympy.polys.orderings import lex
import ref


class Inconsistent(Exception):
    pass


class Ore:
    def __init__(self, symbols, n, order, diff):
        self.K = FracField(list(symbols), QQ, lex)
        self.n, self.o, self.diff = n, order, diff
        self.memo = {}
        self.zero = (-1, (0,) * n)

    def val(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.K.from_expr(e)
            r = self.memo[e] = r.new(r.numer, r.denom)       # canonical sign
        return r

    def prolong(self, p, i):
        r = {}
        g = self.K.gens[i]
        for (pos, e), c in p.items():
            if pos >= 0:
                k = (pos, e[:i] + (e[i] + 1,) + e[i + 1:])
                r[k] = r.get(k, self.K.zero) + c
            if self.diff:
                d = c.diff(g)
                if d:
                    r[(pos, e)] = r.get((pos, e), self.K.zero) + d
        return {m: c for m, c in r.items() if c}

    def dprolong(self, p, q):
        for i, d in enumerate(q[1]):
            for _ in range(d):
                p = self.prolong(p, i)
        return p

    def size(self, p):
        return sum(len(c.numer) + len(c.denom) for c in p.values())

    def step(self, p, m, g):
        """p minus the multiple of g that removes the monomial m of p"""
        h = self.dprolong(g, ref.quo(m, self.o.lm(g)))
        return ref.padd(p, ref.pscale(h, p[m] / h[m]), -1)

    def remainder(self, p, G, limit=150):
        p, r, k = dict(p), {}, 0
        lms = [(self.o.lm(g), g) for g in G]
        while p:
            m = self.o.lm(p)
            for l, g in lms:
                if l[0] >= 0 and ref.divides(l, m):
                    p = self.step(p, m, g)
                    break
            else:
                r[m] = p.pop(m)
            k += 1
            if k > limit or self.size(p) > 400:
                raise ref.TooBig()
        return r

    def monic(self, p):
        if not p:
            return {}
        c = p[self.o.lm(p)]
        return {m: x / c for m, x in p.items()}

    def groebner(self, F, limit=60):
        o, G, pairs, steps = self.o, [], [], 0

        def add(f):
            if o.lm(f)[0] < 0:
                raise Inconsistent()
            G.append(self.monic(f))
            pairs.extend((k, len(G) - 1) for k in range(len(G) - 1) if o.lm(G[k])[0] == o.lm(f)[0])
        for f in F:
            f = self.remainder(f, G)
            if f:
                add(f)
        while pairs:
            pairs.sort(key=lambda p: -ref.deg(ref.mlcm(o.lm(G[p[0]]), o.lm(G[p[1]]))))
            i, j = pairs.pop()
            a, b = o.lm(G[i]), o.lm(G[j])
            l = ref.mlcm(a, b)
            steps += 1
            if steps > limit or sum(l[1]) > 9:
                raise ref.TooBig()
            s = ref.padd(self.monic(self.dprolong(G[i], ref.quo(l, a))), self.monic(self.dprolong(G[j], ref.quo(l, b))), -1)
            r = self.remainder(s, G)
            if r:
                add(r)
        G = [g for k, g in enumerate(G) if not any(ref.divides(o.lm(h), o.lm(g)) and (o.lm(h) != o.lm(g) or q < k) for q, h in enumerate(G) if q != k)]
        R = []
        for g in G:
            m = o.lm(g)
            R.append(ref.padd({m: g[m]}, self.remainder({t: c for t, c in g.items() if t != m}, [h for h in G if h is not g])))
        return sorted(R, key=lambda g: o.key(o.lm(g)))
