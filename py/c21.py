"""pyginv monomials: algebra, orders, enumeration and the text forms, against exponent vectors."""
import os, re, sys
from math import comb
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
import ref

VARS = ["x", "y", "z", "t", "x1", "x2", "alpha", "beta", "a", "b10", "tau", "q", "r", "s2"]
FUNS = ["u", "v", "w", "f1", "g", "f2", "h", "phi", "psi", "f10", "f11", "p0"]
ORDERS = ["POTlex", "TOPlex", "POTdeglex", "TOPdeglex"]


def sums(n, d):
    """exponent vectors of degree d"""
    return [(d,)] if n == 1 else [(k,) + e for k in range(d + 1) for e in sums(n - 1, d - k)]


def latex_tokens(s):
    """tokens of a TeX formula: groups, control words, single characters"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "{":
            d, j = 1, i + 1
            while d:
                d += (s[j] == "{") - (s[j] == "}"); j += 1
            out.append(("group", s[i + 1:j - 1])); i = j
        elif c == "\\":
            m = re.match(r"\\([A-Za-z]+|.)", s[i:])
            out.append(("control", m.group(1))); i += m.end()
        elif c.isspace():
            i += 1
        else:
            m = re.match(r"[A-Za-z][A-Za-z0-9]*", s[i:])
            if m and out[-1:] not in ([("char", "^")], [("char", "_")]):
                out.append(("word", m.group(0))); i += m.end()
            else:
                out.append(("char", c)); i += 1
    return out


def latex_product(s):
    """[(factor, exponent)] as TeX sets it: ^ takes one token"""
    r, tok, i = [], latex_tokens(s), 0
    while i < len(tok):
        k, t = tok[i]
        need(k in ("group", "word"), "latex", "stray %r in %r" % (t, s))
        i += 1
        e = 1
        if i + 1 < len(tok) and tok[i] == ("char", "^"):
            e = tok[i + 1][1]; i += 2
            need(e.isdigit(), "latex", "exponent %r in %r" % (e, s))
            e = int(e)
        r.append((t, e))
    return r


class C21(Harness):
    hang = 20

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        sys.path.insert(0, os.path.join(self.cfg["repo"], "pyginv"))
        import monomial, polynomial
        self.M, self.P = monomial.Monom, polynomial

    def strategy(self):
        from hypothesis import strategies as st

        def shape(t):
            n, rank, far = t
            e = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 14), st.sampled_from([9, 10, 99, 100, 127, 128, 255, 256, 1000, 32768, 65536]) if far else st.integers(0, 60))
            mono = st.tuples(st.integers(-1, rank - 1), st.lists(e, min_size=n, max_size=n)).map(list)
            near = st.tuples(st.integers(0, 5), st.integers(0, n - 1), st.one_of(st.integers(-2, 2), st.integers(-2, 2), st.integers(-300, 300) if far else st.just(1)), st.integers(-1, rank - 1)).map(lambda x: ["near"] + list(x))
            swap = st.tuples(st.integers(0, 5), st.integers(0, n - 1), st.integers(1, 3), st.integers(0, n - 1)).map(lambda x: ["swap"] + list(x))
            return st.fixed_dictionaries(dict(n=st.just(n), rank=st.just(rank), cmp=st.sampled_from(ORDERS), names=st.permutations(range(len(VARS))).map(lambda p: list(p[:n])),
                                              before=st.lists(st.tuples(st.integers(1, 4), st.integers(0, 3)).map(list), max_size=2), polys=st.booleans(),
                                              ms=st.lists(st.one_of(mono, mono, near, swap), min_size=2, max_size=6), d=st.integers(0, 12), k=st.one_of(st.integers(0, 12), st.integers(0, 200))))
        usual = st.tuples(st.integers(1, 5), st.integers(0, 4), st.booleans())
        return st.one_of(usual, usual, st.tuples(st.integers(1, 12), st.integers(0, 12), st.booleans())).flatmap(shape)

    def refused(self, f, key, *types):
        try:
            r = f()
        except (AssertionError, ValueError, IndexError, TypeError):
            return
        raise Violation(key, "accepted, result %r" % (r,))

    def run(self, v):
        M, n, rank = self.M, v["n"], v["rank"]
        if n < 1 or len(v["names"]) != n or len(set(v["names"])) != n or v["cmp"] not in ORDERS:
            raise Discard()
        M.cmp = getattr(M, v["cmp"])
        kind = "lex" if v["cmp"].endswith("T" + "lex") or v["cmp"] in ("POTlex", "TOPlex") else "deglex"
        o = ref.Order(v["cmp"][:3], kind, False)
        init = self.P.Poly.init if v["polys"] else M.init
        for a, b in v["before"]:
            if not 1 <= a <= 4 or not 0 <= b <= 3:
                raise Discard()
            init(VARS[:a], FUNS[:b]) if b else init(VARS[:a])
        var, fun = [VARS[i] for i in v["names"]], FUNS[:rank]
        got = init(var, fun) if rank else init(var)
        vs, fs = got if rank else (got, ())
        if v["polys"]:
            need(all(len(p) == 1 and p[0][1] == 1 for p in list(vs) + list(fs)), "init", "not plain variables")
            vs, fs = [p.lm() for p in vs], [p.lm() for p in fs]
        E = lambda i: tuple(int(k == i) for k in range(n))
        read = lambda m: (m.position(), tuple(int(x) for x in tuple(m)))
        need([read(m) for m in vs] == [(-1, E(i)) for i in range(n)] and [read(m) for m in fs] == [(p, (0,) * n) for p in range(rank)], "init", "variables or functions")
        need(read(M()) == (-1, (0,) * n) and [read(M(i)) for i in range(n)] == [(-1, E(i)) for i in range(n)] and [read(M(pos=p)) for p in range(rank)] == [(p, (0,) * n) for p in range(rank)], "constructor")
        self.refused(lambda: M(n), "bad variable"); self.refused(lambda: M((0,) * (n + 1)), "bad length"); self.refused(lambda: M((-1,) * n), "negative exponent")
        if rank:
            self.refused(lambda: M(pos=rank), "bad position")
        # the monomials
        R, ms = [], []
        for x in v["ms"]:
            if x[0] == "near":
                _, j, i, k, p = x
                if not R:
                    continue
                q = R[j % len(R)]
                e = list(q[1]); e[i % n] = max(0, e[i % n] + k)
                r = (p if p == -1 or p < rank else q[0], tuple(e))
            elif x[0] == "swap":         # the same degree
                _, j, i, k, t = x
                if not R:
                    continue
                q = R[j % len(R)]
                e = list(q[1]); k = min(k, e[i % n]); e[i % n] -= k; e[t % n] += k
                r = (q[0], tuple(e))
            else:
                r = (x[0], tuple(x[1]))
            if not -1 <= r[0] < rank or len(r[1]) != n or any(a < 0 for a in r[1]):
                raise Discard()
            m = M(r[1], pos=r[0]) if r[0] >= 0 else M(r[1])
            need(read(m) == r, "constructor", lambda: "%s reads %s" % (r, read(m)))
            R.append(r); ms.append(m)
        labels = set()
        kept = []       # every monomial made from now on, with the value it had: none may change later
        keep = lambda m: kept.append((m, read(m))) or m
        sgn = lambda x: (x > 0) - (x < 0)
        for r, m in zip(R, ms):
            p, e = r
            need(m.degree() == sum(e) and m.position() == p and len(m) == n and bool(m) == (p >= 0 or sum(e) > 0), "reading", str(r))
            c = keep(m.copy())
            need(read(c) == r and c == m and not c != m and hash(c) == hash(m) and type(c) is M, "copy", str(r))
            need(repr(m) == ("[%d;%s]" % (p, " ".join(map(str, e))) if p >= 0 else "[%s]" % " ".join(map(str, e))), "repr", repr(m))
            need(sum(e) > 3000 or [m.expand().count(i) for i in range(n)] == list(e) and m.expand() == sorted(m.expand()), "expand", str(m.expand()))
            for i in range(n):
                keep(m.prolong(i))
                need(read(m.prolong(i)) == ref.mmul(r, (-1, E(i))), "prolong", lambda: "%s by %d: %s" % (r, i, read(m.prolong(i))))
                need(m.prolong(i) > m and m < m.prolong(i), "prolong is larger", str(r))
            k = v["k"]
            if p == -1:
                keep(m ** k)
                need(read(m ** k) == (-1, tuple(a * k for a in e)), "power", lambda: "%s^%d: %s" % (r, k, m ** k))
                self.refused(lambda: m ** -1, "negative power")
            else:
                self.refused(lambda: m ** 2, "power of a vector")
            self.texts(m, r, var, fun)
        for (r, a) in zip(R, ms):
            for (s, b) in zip(R, ms):
                w = lambda: "%s %s under %s" % (r, s, v["cmp"])
                c = o.cmp(r, s)
                need(sgn(a.cmp(b)) == c and (a < b, a <= b, a == b, a != b, a >= b, a > b) == (c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0), "order", lambda: w() + ": %s" % a.cmp(b))
                if c == 0:
                    need(hash(a) == hash(b) and {a: 1}.get(b) == 1, "hash", w)
                else:
                    need({a: 1}.get(b) is None, "hash", w)
                if r[0] == -1 or s[0] == -1:
                    q = (max(r[0], s[0]), tuple(x + y for x, y in zip(r[1], s[1])))
                    need(read(keep(a * b)) == q and read(b * a) == q, "product", lambda: w() + ": %s" % (a * b))
                    need(read((a * b) / b) == r, "quotient of product", w)
                    for t, m in zip(R, ms):       # the order is compatible with products
                        if t[0] == -1 or r[0] == -1 and s[0] == -1:
                            need(sgn((a * m).cmp(b * m)) == c, "order and products", w)
                    labels.add("product")
                else:
                    self.refused(lambda: a * b, "product of vectors")
                d = all(x >= y for x, y in zip(r[1], s[1])) and (s[0] == -1 or s[0] == r[0])
                need(bool(a.divisible(b)) == d and bool(a.divisibleTrue(b)) == (d and sum(r[1]) > sum(s[1])), "divisibility", w)
                if d:
                    q = keep(a / b)
                    need(read(q) == ((r[0] if s[0] == -1 else -1), tuple(x - y for x, y in zip(r[1], s[1]))), "quotient", lambda: w() + ": %s" % q)
                    need(q * b == a, "quotient times divisor", w)
                    if r != s:
                        labels.add("proper divisor")
                else:
                    self.refused(lambda: a / b, "quotient by a non-divisor")
                if r[0] == -1 or s[0] == -1 or r[0] == s[0]:
                    keep(a.lcm(b)); keep(a.gcd(b))
                    need(tuple(a.lcm(b)) == tuple(map(max, r[1], s[1])) and tuple(a.gcd(b)) == tuple(map(min, r[1], s[1])), "lcm and gcd", lambda: w() + ": %s %s" % (a.lcm(b), a.gcd(b)))
                else:
                    self.refused(lambda: a.lcm(b), "lcm of different positions"); self.refused(lambda: a.gcd(b), "gcd of different positions")
                small = [i for i in range(n) if r[1][i] < s[1][i]]
                if r[0] == s[0] and small:
                    need(a.nonmult(b) == small[0], "nonmult", lambda: w() + ": %s" % a.nonmult(b))
                else:
                    self.refused(lambda: a.nonmult(b), "nonmult")
                need(read(a) == r and read(b) == s, "operand changed", w)
        need([read(m) for m in sorted(ms)] == sorted(R, key=o.key), "sorting", lambda: str(sorted(ms)))
        # enumeration by degree
        for p in range(-1, rank):
          d = v["d"]
          while d > 1 and comb(n + d - 1, d) > (400 if p < 1 else 60):
              d -= 1
          for d in {d, 0}:
            g = [read(keep(m)) for m in M.gradus(d, p)] if p >= 0 else [read(keep(m)) for m in M.gradus(d)]
            need(len(g) == len(set(g)) and set(g) == {(p, e) for e in sums(n, d)}, "gradus", lambda: "degree %d position %d: %s" % (d, p, g))
        # nothing made so far changes when the shared monomials are asked for again
        need(read(M()) == (-1, (0,) * n) and [read(M(i)) for i in range(n)] == [(-1, E(i)) for i in range(n)] and [read(M(pos=p)) for p in range(rank)] == [(p, (0,) * n) for p in range(rank)], "constructor", "after use")
        need(all(read(m) == r for m, r in kept) and [read(m) for m in ms] == R and [read(m) for m in vs] == [(-1, E(i)) for i in range(n)] and [read(m) for m in fs] == [(p, (0,) * n) for p in range(rank)], "a monomial changed later", lambda: str([(read(m), r) for m, r in kept if read(m) != r]))
        if len(set(R)) >= 2 and n >= 2:
            labels.add("nontrivial")
        if rank:
            labels.add("with positions")
        return list(labels)

    def texts(self, m, r, var, fun):
        import sympy
        p, e = r
        n = len(e)
        # plain text: evaluates to the monomial
        env = {x: self.M(i) for i, x in enumerate(var)}
        env.update({x: self.M(pos=i) for i, x in enumerate(fun)})
        s = str(m)
        got = eval(s, {}, env)
        if p == -1 and sum(e) == 0:
            need(got == 1, "text", s)
        else:
            need((got.position(), tuple(got)) == r, "text", lambda: "%s reads %r" % (r, s))
        # TeX
        exp = ([(fun[p], 1)] if p >= 0 else []) + [(x, d) for x, d in zip(var, e) if d]
        need(latex_product(m.latex()) == exp if exp else m.latex() == "1", "latex", lambda: "%s is set as %s" % (r, m.latex()))
        if p == -1 and sum(e):
            for f in (m.df, m.df_sympy, m.df_latex, m.T, m.T_latex):
                self.refused(f, "derivative of nothing")
            return
        if p == -1:
            need([m.df(), m.df_sympy(), m.df_latex(), m.T(), m.T_latex()] == ["1"] * 5, "text of 1")
            return
        # derivative and shift notation
        for s, name in ((m.df(), "df"), (m.T(), "T")):
            q = re.fullmatch(re.escape(name) + r"\((.*)\)", s)
            need(q, name, s)
            a = q.group(1).split(", ")
            ex, i = [0] * n, 1
            need(a[0] == fun[p], name, s)
            while i < len(a):
                need(a[i] in var, name, s)
                k = 1
                if i + 1 < len(a) and a[i + 1].isdigit():
                    k = int(a[i + 1])
                ex[var.index(a[i])] += k
                i += 2 if i + 1 < len(a) and a[i + 1].isdigit() else 1
            need(tuple(ex) == e, name, lambda: "%s is %s" % (r, s))
        if sum(e) <= 40:
            sv = sympy.symbols(var); sv = [sv] if not isinstance(sv, (list, tuple)) else sv
            env = dict(zip(var, sv)); env.update({f: sympy.Function(f) for f in fun})
            got = eval(m.df_sympy(), {}, env)
            want = sympy.Function(fun[p])(*sv)
            for x, d in zip(sv, e):
                if d:
                    want = want.diff(x, d)
            need(got == want, "df_sympy", lambda: "%s is %s" % (r, m.df_sympy()))
        tok = latex_tokens(m.df_latex()) if sum(e) <= 400 else [("group", fun[p])]
        need(tok[0] == ("group", fun[p]), "df_latex", m.df_latex())
        if sum(e) > 400:
            pass
        elif sum(e):
            need(len(tok) == 3 and tok[1] == ("char", "_") and tok[2][0] == "group" and latex_product(tok[2][1]) == [(var[i], 1) for i in range(n) for _ in range(e[i])], "df_latex", m.df_latex())
        else:
            need(len(tok) == 1, "df_latex", m.df_latex())
        tok = latex_tokens(m.T_latex())
        need(len(tok) == 3 and tok[0] == ("group", fun[p]) and tok[1] == ("char", "_") and tok[2][0] == "group", "T_latex", m.T_latex())
        parts = tok[2][1].split("\\,")
        need(len(parts) == n, "T_latex", m.T_latex())
        for x, d, q in zip(var, e, parts):
            need(q.replace(" ", "") == ("{%s}" % x if d == 0 else "{%s}+%d" % (x, d)), "T_latex", m.T_latex())


main(C21, os.path.abspath(__file__))
