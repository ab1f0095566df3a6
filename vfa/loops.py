"""Final values of integer loops from polynomial invariants.

For the integers x carried around a loop, every polynomial E of degree at most two in them with E(x after an iteration) = E(x before it)
on every path of the body is a loop invariant; the space of these is found by linear algebra over the rationals.  A final value that occurs
linearly in an invariant whose other final values are known (the counter, the variable the loop runs down to zero) is thereby known too.
"""
from fractions import Fraction
from itertools import combinations_with_replacement, product
from . import terms as t
from .terms import mk, const, ZERO, ONE, TRUE, FALSE, is_const, cval, bnot
from .prog import restrict, State, set_lit

DEG = 2


def solve(rows, ncols):
    """A solution of rows (list of (dict col->Fraction, rhs)) or None."""
    piv = {}
    for r, b in rows:
        r = dict(r)
        for c in list(r):
            if c in piv and c in r:
                f = r[c]
                pr, pb = piv[c]
                for c2, v in pr.items():
                    r[c2] = r.get(c2, 0) - f * v
                    if not r[c2]:
                        del r[c2]
                b -= f * pb
        # a pivot row may have reintroduced pivot columns: repeat until none is left
        while True:
            c = next((c for c in r if c in piv), None)
            if c is None:
                break
            f = r[c]
            pr, pb = piv[c]
            for c2, v in pr.items():
                r[c2] = r.get(c2, 0) - f * v
                if not r[c2]:
                    del r[c2]
            b -= f * pb
        if not r:
            if b:
                return None
            continue
        c = min(r)
        f = r[c]
        r = dict((c2, v / f) for c2, v in r.items())
        b = b / f
        for c2, (pr, pb) in list(piv.items()):
            if c in pr:
                g = pr[c]
                for c3, v in r.items():
                    pr[c3] = pr.get(c3, 0) - g * v
                    if not pr[c3]:
                        del pr[c3]
                piv[c2] = (pr, pb - g * b)
        piv[c] = (r, b)
    return dict((c, b) for c, (r, b) in piv.items())


class Var(object):
    def __init__(self, sym, post, init, final=None, key=None):
        self.sym, self.post, self.init, self.final, self.key = sym, post, init, final, key


def nonneg(S, x):
    """x >= 0 where S holds."""
    x = restrict(S, x)
    if x.op != 'ite':
        return restrict(S, t.ge0(x)) is TRUE
    for i, val in ((1, True), (2, False)):
        F = S.copy()
        if set_lit(F, x.args[0], val) and not nonneg(F, x.args[i]):
            return False
    return True


class PolyLoop(object):
    """The space of polynomial invariants of one loop body."""

    def __init__(self, S0, lam, W, posts, k, n):
        self.S0, self.k, self.n, self.ok = S0, k, n, False
        keys = [q for q in W if lam[q] is not None and lam[q].ty == 'int' and q in posts and t.ty_of(posts[q]) in ('int', 'bool')]
        if not keys or len(keys) > 6:
            return
        self.vars = [Var(lam[q], posts[q], S0.store[q], key=q) for q in keys]
        self.ghosts(posts)
        if any(t.contains(v.post, k) for v in self.vars):
            self.vars.append(Var(k, t.add(k, ONE), ZERO, n))
        bound = set(v.sym for v in self.vars)
        extra = set()
        for v in self.vars:
            for g in t.leaves(v.post):
                for m in t.to_poly(g):
                    for a in m:
                        if a not in bound and not any(b in bound for b in t.walk(a)) and a.op not in ('idiv', 'mod'):
                            extra.add(a)
        for a in sorted(extra, key=lambda a: a.id)[:4]:
            self.vars.append(Var(a, a, a, a))
        if len(self.vars) > 8:
            return
        self.cases = self.split()
        if self.cases is None:
            return
        syms = [v.sym for v in self.vars]
        self.monos = [m for d in range(1, DEG + 1) for m in combinations_with_replacement(range(len(syms)), d)]
        self.deltas = []
        for pre, post in self.cases:
            for i, m in enumerate(self.monos):
                a = b = ONE
                for j in m:
                    a, b = t.mul(a, post[j]), t.mul(b, pre[j])
                if a.op == 'ite' or b.op == 'ite':
                    return
                self.deltas.append((id(pre), i, t.to_poly(a), t.to_poly(b)))
        self.ok = True

    def rows(self, lam):
        """Linear constraints on the coefficients of E for E(after) = lam * E(before) on every path."""
        by = {}
        for case, i, a, b in self.deltas:
            for p, f in ((a, 1), (b, -lam)):
                for mono, c in p.items():
                    r = by.setdefault((case, mono), {})
                    r[i] = r.get(i, 0) + Fraction(c * f)
                    if not r[i]:
                        del r[i]
        return [(r, Fraction(0)) for r in by.values() if r]

    def ghosts(self, posts):
        """x >> (k + e) and x >> (e - k) are followed as integers halved, or doubled, by each iteration."""
        k = self.k
        if not t.contains(mk('tuple', tuple(posts.values()), 'tuple'), k):
            return
        found = set()
        for p in posts.values():
            for y in t.walk(p):
                if y.op == 'shr' and not any(z.op == 'lam' or z is k for z in t.walk(y.args[0])):
                    found.add(y)
        if len(found) != 1:
            return
        y, = found
        X, E = y.args
        if not nonneg(self.S0, X):
            return
        up, down = t.sub(E, k), t.add(E, k)
        n = self.n
        if not t.contains(up, k):       # x >> (k + e)
            G = mk('sym', ('ghost', ()), 'int')
            v = Var(G, t.idiv(G, const(2)), t.shr(X, up), shr0(t.shr(X, t.add(n, up))) if n is not None else None)
            for w in self.vars:
                w.post = t.subst(w.post, {y: G})
            self.vars.append(v)
        elif not t.contains(down, k):   # x >> (e - k): the value before the iteration is half of it
            G, H = mk('sym', ('ghost', ()), 'int'), mk('sym', ('ghosth', ()), 'int')
            v = Var(G, H, shr0(t.shr(X, t.add(down, ONE))), t.shr(X, t.add(t.sub(down, n), ONE)) if n is not None else None)
            v.half = H
            for w in self.vars:
                w.post = t.subst(w.post, {y: H})
            self.vars.append(v)

    def split(self):
        divs = set()
        half = next((v for v in self.vars if getattr(v, 'half', None) is not None), None)
        syms = set(v.sym for v in self.vars)
        if half is not None:
            syms.add(half.half)
            divs.add((half.half, 2))
        for v in self.vars:
            for y in t.walk(v.post):
                if y.op in ('idiv', 'mod') and is_const(y.args[1]) and y.args[0] in syms and 2 <= cval(y.args[1]) <= 4:
                    divs.add((y.args[0], cval(y.args[1])))
        if len(set(s for s, c in divs)) != len(divs) or len(divs) > 2:
            return None
        divs = sorted(divs, key=lambda d: d[0].id)
        out = []
        for rs in product(*[range(c) for s, c in divs]):
            m = dict((s, t.add(t.mul(const(c), mk('sym', ('quot%d' % i, ()), 'int')), const(r)))
                     for i, ((s, c), r) in enumerate(zip(divs, rs)))
            pre = [t.subst(v.sym, m) for v in self.vars]
            if half is not None:
                pre[self.vars.index(half)] = t.idiv(m[half.half], const(2))
            posts = [t.subst(v.post, m) for v in self.vars]
            if not self.paths(pre, posts, State(), out, 0):
                return None
        return out

    def paths(self, pre, posts, F, out, depth):
        posts = [restrict(F, p) for p in posts]
        gs = set()
        for p in posts:
            gs |= set([p.args[0]]) if p.op == 'ite' else set()
        if not gs:
            zero = dict((a.args[0], ZERO) for a, val in F.lits.items() if val and a.op == 'eq0' and a.args[0].op == 'sym')
            if zero:
                pre, posts = [t.subst(x, zero) for x in pre], [t.subst(x, zero) for x in posts]
            out.append((pre, posts))
            return len(out) <= 32
        if depth > 5:
            return False
        g = min(gs, key=lambda g: g.id)
        for val in (True, False):
            F2 = F.copy()
            if set_lit(F2, g, val) and not self.paths(pre, posts, F2, out, depth + 1):
                return False
        return True

    def zeros(self, F):
        """Variables that are zero where F holds (the loop is left): they start non-negative and are divided by each iteration."""
        out = {}
        for v in self.vars:
            down = v.key is not None and nonneg(self.S0, v.init) and all(self.less(p, v.sym) for p in t.leaves(v.post))
            if down and (F.lits.get(t.eq0(v.sym)) is True or restrict(F, t.ge0(t.sub(v.sym, ONE))) is FALSE):
                out[v.sym] = ZERO
        return out

    def less(self, p, x):
        """0 <= p < x for every x >= 1."""
        if p.op == 'idiv':
            return is_const(p.args[1]) and cval(p.args[1]) >= 2 and p.args[0] is x
        return t.sub(p, x) is const(-1)

    def finals(self, known):
        """Final values given those of some variables ({symbol: term})."""
        fin = dict((v.sym, v.final) for v in self.vars if v.final is not None)
        fin.update(known)
        if self.n is not None and is_const(self.n):     # x' = c * x
            for v in self.vars:
                r = t.to_poly(v.post)
                if v.sym not in fin and v.post.op == 'poly' and list(r) == [(v.sym,)]:
                    fin[v.sym] = t.mul(v.init, const(r[(v.sym,)] ** cval(self.n)))
        unknown = [i for i, v in enumerate(self.vars) if v.sym not in fin]
        out = {}
        for a in unknown:
            if self.vars[a].key is None:
                continue
            for lam in (1, 2):
                r = self.final(a, fin, unknown, lam)
                if r is not None:
                    out[self.vars[a].key] = r
                    break
        return out

    def final(self, a, fin, unknown, lam):
        rows = self.rows(lam)
        for i, m in enumerate(self.monos):
            if m == (a,):
                rows.append(({i: Fraction(1)}, Fraction(1)))
            elif any(j in unknown for j in m) and not any(fin.get(self.vars[j].sym) is ZERO for j in m):
                rows.append(({i: Fraction(1)}, Fraction(0)))
        sol = solve(rows, len(self.monos))
        if sol is None or any(c.denominator != 1 for c in sol.values()):
            return None
        init = rest = ZERO
        for i, c in sol.items():
            m = self.monos[i]
            if not c:
                continue
            x, y = ONE, ONE
            for j in m:
                x = t.mul(x, self.vars[j].init)
            init = t.add(init, t.mul(const(int(c)), x))
            if m == (a,):
                continue
            if any(fin.get(self.vars[j].sym) is ZERO for j in m):
                continue
            for j in m:
                y = t.mul(y, fin[self.vars[j].sym])
            rest = t.add(rest, t.mul(const(int(c)), y))
        if lam != 1 and init is not ZERO:
            return None
        return t.sub(init, rest)


def shr0(x):
    """x >> bit_length(x) is zero."""
    def f(y):
        if y.op == 'shr' and t.bitlen(y.args[0]) is y.args[1]:
            return ZERO
        return y
    return t.lift(f, x) if x.op != 'ite' else x




class PolySplit(object):
    """PolyLoop after a case split on the conditions of the body that no iteration changes."""

    def __init__(self, S0, lam, W, posts, k, n, depth=0):
        self.parts = []
        posts = dict((q, restrict(S0, p)) for q, p in posts.items())
        free = set(y.args[0] for p in posts.values() for y in t.walk(p) if y.op == 'ite' and
                   not any(z.op == 'lam' or z is k for z in t.walk(y.args[0])))
        free = [g for g in free if restrict(S0, g) is g]
        if not free or depth >= 2:
            self.gate, self.one = None, PolyLoop(S0, lam, W, posts, k, n)
            self.ok = self.one.ok
            return
        self.gate = min(free, key=lambda g: g.id)
        self.ok = True
        for val in (True, False):
            F = S0.copy()
            if not set_lit(F, self.gate, val):
                self.parts.append(None)
                continue
            for q in W:
                F.store[q] = restrict(F, F.store[q])
            self.parts.append(PolySplit(F, lam, W, posts, k, n, depth + 1))
            self.ok = self.ok and self.parts[-1].ok

    def zeros(self, F):
        if self.gate is None:
            return self.one.zeros(F)
        out = None
        for p in self.parts:
            if p is not None:
                z = p.zeros(F)
                out = z if out is None else dict(x for x in z.items() if x[0] in out)
        return out or {}

    def finals(self, known):
        if self.gate is None:
            return self.one.finals(known)
        a, b = [p.finals(known) if p is not None else None for p in self.parts]
        if a is None or b is None:
            return b if a is None else a
        return dict((q, t.ite(self.gate, a[q], b[q])) for q in a if q in b)
