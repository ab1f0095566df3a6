"""Program objects: modules, classes, functions, and the abstract state."""
import ast
import builtins
import os

from . import terms as t
from .terms import T, mk, TRUE, FALSE, const, is_const, cval, ite, bor, band, bnot


class Dead(Exception):
    """The current abstract flow has ended (returned, raised, broken out, infeasible)."""


Budget = t.Budget


class FuncObj(object):
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'closure', 'defaults', 'kwdefaults', 'isgen', 'locals_',
                 'captures', 'globals_', 'nonlocals', 'path')

    def __init__(self, name, qual, node, module, cls, closure, defaults, kwdefaults, path):
        self.name, self.qual, self.node, self.module, self.cls = name, qual, node, module, cls
        self.closure, self.defaults, self.kwdefaults, self.path = closure, defaults, kwdefaults, path
        self.isgen, self.locals_, self.captures, self.globals_, self.nonlocals = scope_info(node)

    def __repr__(self):
        return self.qual


_scope_memo = {}


def scope_info(node):
    r = _scope_memo.get(node)
    if r is None:
        r = _scope_info(node)
        _scope_memo[node] = r
    return r


def _scope_info(node):
    names, glob, nonl = set(), set(), set()
    gen = [False]
    captures = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def visit(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            captures[0] = True
            for d in n.decorator_list:
                visit(d, False)
            return
        if isinstance(n, ast.Lambda):
            captures[0] = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehensions are evaluated inline in a nested frame
            for g in n.generators:
                visit(g.iter, False)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c, False)

    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        visit(st, True)
    names -= glob
    names -= nonl
    return gen[0], frozenset(names), captures[0], frozenset(glob), frozenset(nonl)


class ClassObj(object):
    __slots__ = ('name', 'qual', 'bases', 'node', 'module', 'key', 'mro', 'py', 'path')

    def __init__(self, name, qual, bases, node=None, module=None, py=None, path=None):
        self.name, self.qual, self.bases, self.node, self.module, self.py = name, qual, bases, node, module, py
        self.key = ('cls', qual)
        self.path = path
        self.mro = self._mro()

    def _mro(self):
        # C3
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in q if x is not h] for q in seqs]
                seqs = [q for q in seqs if q]
            return out
        return [self] + merge([b.mro for b in self.bases] + [self.bases])

    def __repr__(self):
        return self.qual

    def pybase(self):
        """The real builtin class this class derives its behaviour from."""
        for c in self.mro:
            if c.py is not None:
                return c.py
        return object

    def issub(self, other):
        return other in self.mro


_bclasses = {}


def bclass(py):
    c = _bclasses.get(py)
    if c is None:
        bases = [bclass(b) for b in py.__bases__]
        c = ClassObj(py.__name__, 'builtins.' + py.__name__ if py.__module__ == 'builtins' else
                     py.__module__ + '.' + py.__name__, bases, py=py)
        _bclasses[py] = c
    return c


_extexc = {}


def ext_exception(qual, base=Exception):
    c = _extexc.get(qual)
    if c is None:
        c = ClassObj(qual.split('.')[-1], qual, [base if isinstance(base, ClassObj) else bclass(base)])
        _extexc[qual] = c
    return c


def cls_term(c):
    return mk('class', (c,), 'class')


class Obj(object):
    """A heap object allocated during the analysis."""
    __slots__ = ('id', 'kind', 'cls', 'site', 'extra')

    def __init__(self, id_, kind, cls, site, extra=None):
        self.id, self.kind, self.cls, self.site, self.extra = id_, kind, cls, site, extra

    def __repr__(self):
        return '%s#%d' % (self.cls.name if self.cls else self.kind, self.id)


class State(object):
    __slots__ = ('store', 'lits', 'iv', 'cons', 'pc', 'memo')

    def __init__(self):
        self.store, self.lits, self.iv, self.cons, self.pc = {}, {}, {}, (), TRUE
        self.memo = {}

    def copy(self):
        s = State()
        s.store, s.lits, s.iv = dict(self.store), dict(self.lits), dict(self.iv)
        s.cons, s.pc = self.cons, self.pc
        s.memo = dict(self.memo)
        return s


UNBOUND = mk('unbound', (), 'unbound')


# ------------------------------------------------------------------ numeric facts
def _split(p):
    d = t.to_poly(p)
    c = d.pop((), 0)
    return d, c


_ibmemo = {}


def ibounds(a):
    """Intrinsic (state independent) bounds of an integer term."""
    r = _ibmemo.get(a)
    if r is None:
        r = _ibounds(a)
        _ibmemo[a] = r
    return r


def _ibounds(a):
    op = a.op
    if op == 'c':
        return (int(cval(a)), int(cval(a))) if a.ty in ('int', 'bool') else (None, None)
    if op == 'byte':
        if t.hexish(a.args[0]):
            return (48, 102)
        return (0, 255)
    if op == 'be':
        n = t.clen(a.args[0])
        x = a.args[0]
        if n and x.op == 'cat' and x.args[0].op == 'i2b':
            k = t.clen(x.args[0])
            lo, hi = ibounds(x.args[0].args[0])
            if k and lo is not None and hi is not None and 0 <= lo and hi < 256 ** k:
                return (lo * 256 ** (n - k), (hi + 1) * 256 ** (n - k) - 1)
        return (0, 256 ** n - 1) if n is not None else (0, None)
    if op == 'ecsig':
        return (0, 255) if a.args[0] == 'v' else (0, 2 ** 256 - 1)
    if op == 'bes':
        n = t.clen(a.args[0])
        return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if n else (None, None)
    if op == 'len':
        hi = None
        x = a.args[0]
        if x.op == 'tail' and is_const(x.args[2]):
            hi = cval(x.args[2])
        if x.op in ('hexint', 'binint'):
            return (3, None)
        return (0, hi)
    if op == 'mod':
        m = a.args[1]
        lo, hi = ibounds(m)
        if lo is not None and lo > 0:
            return (0, hi - 1 if hi is not None else None)
        return (None, None)
    if op in ('powmod', 'modinv'):
        m = a.args[-1]
        lo, hi = ibounds(m)
        if lo is not None and lo > 0:
            return (0, hi - 1 if hi is not None else None)
        return (None, None)
    if op == 'sym':
        lo, hi = t.sym_attr(a, 'lo'), t.sym_attr(a, 'hi')
        return (lo, hi)
    if op == 'weakrand' and len(a.args) == 4:
        return (ibounds(a.args[2])[0], ibounds(a.args[3])[1])
    if op == 'bitlen':
        return (0, None)
    if op == 'idiv':
        x, d = a.args
        if is_const(d) and cval(d) > 0:
            lo, hi = ibounds(x)
            return (lo // cval(d) if lo is not None else None, hi // cval(d) if hi is not None else None)
        return (None, None)
    if op in ('bxor', 'bor'):
        bs = [ibounds(x) for x in a.args]
        if all(b[0] is not None and b[0] >= 0 for b in bs):
            hi = None
            if all(b[1] is not None for b in bs):
                hi = (1 << max(b[1].bit_length() for b in bs)) - 1
            return (0, hi)
        return (None, None)
    if op == 'band':
        bs = [ibounds(x) for x in a.args]
        his = [b[1] for b in bs if b[0] is not None and b[0] >= 0 and b[1] is not None]
        if any(b[0] is not None and b[0] >= 0 for b in bs):
            return (0, min(his) if his else None)
        return (None, None)
    if op == 'bv':
        return (0, None)
    if op == 'first':
        return (0, None)
    if op == 'poly':
        lo = hi = 0
        for k, v in a.args:
            l1, h1 = mono_bounds(k)
            if v < 0:
                l1, h1 = h1, l1
            lo = None if lo is None or l1 is None else lo + v * l1
            hi = None if hi is None or h1 is None else hi + v * h1
        return (lo, hi)
    if op == 'ite':
        b1, b2 = ibounds(a.args[1]), ibounds(a.args[2])
        return (None if b1[0] is None or b2[0] is None else min(b1[0], b2[0]),
                None if b1[1] is None or b2[1] is None else max(b1[1], b2[1]))
    if op in ('abs', 'hashint'):
        return (0, None)
    if op == 'pow':
        lo, hi = ibounds(a.args[0])
        lo2, hi2 = ibounds(a.args[1])
        if lo is not None and lo >= 1:
            return (1, None)
        return (None, None)
    if op == 'shl':
        lo, hi = ibounds(a.args[0])
        if lo is not None and lo >= 0:
            return (lo, None)
    return (None, None)


def mono_bounds(k):
    lo = hi = 1
    seen = []
    i = 0
    k = list(k)
    # squares are non-negative
    while k:
        x = k.pop()
        l1, h1 = ibounds(x)
        if x in k:
            k.remove(x)
            if l1 is not None and l1 >= 0:
                l1, h1 = l1 * l1, (h1 * h1 if h1 is not None else None)
            elif h1 is not None and l1 is not None:
                l1, h1 = 0, max(l1 * l1, h1 * h1)
            else:
                l1, h1 = 0, None
        if lo is None and hi is None:
            continue
        if (lo is not None and lo >= 0) and (l1 is not None and l1 >= 0):
            lo = lo * l1
            hi = hi * h1 if (hi is not None and h1 is not None) else None
        elif None not in (lo, hi, l1, h1):
            c = [lo * l1, lo * h1, hi * l1, hi * h1]
            lo, hi = min(c), max(c)
        else:
            lo = hi = None
    return lo, hi


t.MONO[0] = mono_bounds


def key_of(d):
    return tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), tuple(a.id for a in kv[0]))))


class Facts(object):
    """Numeric decisions in a state."""

    @staticmethod
    def rows(S, atoms):
        """Linear facts d.x + c >= 0 relevant to a set of monomials: (dict, const)."""
        out = []
        for k, (lo, hi) in S.iv.items():
            d = dict(k)
            if lo is not None:
                out.append((d, -lo))
            if hi is not None:
                out.append((dict((m, -v) for m, v in d.items()), hi))
        return out

    @staticmethod
    def intrinsic(m):
        out = []
        lo, hi = mono_bounds(m)
        if lo is not None:
            out.append(({m: 1}, -lo))
        if hi is not None:
            out.append(({m: -1}, hi))
        if len(m) == 1:
            a = m[0]
            if a.op == 'idiv' and is_const(a.args[1]) and cval(a.args[1]) > 0:
                c = cval(a.args[1])
                d, k0 = _split(a.args[0])
                r = dict(d)
                r[m] = r.get(m, 0) - c
                out.append((r, k0))
                r2 = dict((x, -v) for x, v in d.items())
                r2[m] = r2.get(m, 0) + c
                out.append((r2, c - 1 - k0))
            if a.op == 'first':
                n = a.args[0]
                if n.op != 'c' or cval(n) is not None:
                    d, k0 = _split(n)
                    d[m] = d.get(m, 0) - 1
                    out.append((d, k0 - 1))
            if a.op == 'len' and a.args[0].op in ('rstrip', 'lstrip', 'strip'):
                d, k0 = _split(t.length(a.args[0].args[0]))
                d[m] = d.get(m, 0) - 1
                out.append((d, k0))
        elif all(ibounds(x)[0] is not None and ibounds(x)[0] >= 0 for x in m):
            # x*y <= x*hi(y)
            for i, x in enumerate(m):
                hi1 = ibounds(x)[1]
                if hi1 is not None:
                    rest = m[:i] + m[i + 1:]
                    out.append(({m: -1, rest: hi1}, 0))
        return out

    @staticmethod
    def lower(S, d, c):
        """Is sum(d) + c >= 0 provable?  Fourier-Motzkin style elimination."""
        # goal: assume d + c <= -1, i.e.  -d - c - 1 >= 0, derive contradiction
        if not d:
            return c >= 0
        # quick interval check
        tot = c
        ok = True
        for k, v in d.items():
            lo, hi = mono_bounds(k)
            iv = S.iv.get(((k, 1),))
            if iv:
                lo = iv[0] if lo is None or (iv[0] is not None and iv[0] > lo) else lo
                hi = iv[1] if hi is None or (iv[1] is not None and iv[1] < hi) else hi
            b = lo if v > 0 else hi
            if b is None:
                ok = False
                break
            tot += v * b
        if ok and tot >= 0:
            return True
        kk = key_of(d)
        neg = False
        iv = S.iv.get(kk)
        if iv and iv[0] is not None and iv[0] + c >= 0:
            return True
        nd = dict((k, -v) for k, v in d.items())
        iv = S.iv.get(key_of(nd))
        if iv and iv[1] is not None and -iv[1] + c >= 0:
            return True
        goal = (nd, -c - 1)
        rows = Facts.rows(S, None)
        seeds = set(d)
        for _ in range(2):
            for m in list(seeds):
                if len(m) == 1 and m[0].op == 'idiv':
                    seeds.update(_split(m[0].args[0])[0])
        if len(rows) > 60:
            mons = set(seeds)
            rel = []
            # keep rows connected to the goal
            for _ in range(3):
                for r in rows:
                    if r not in rel and any(m in mons for m in r[0]):
                        rel.append(r)
                for r in rel:
                    mons.update(r[0])
            rows = rel[:60]
        else:
            # connectivity
            mons = set(seeds)
            rel = []
            changed = True
            while changed:
                changed = False
                for r in rows:
                    if not any(r is x for x in rel) and any(m in mons for m in r[0]):
                        rel.append(r)
                        mons.update(r[0])
                        changed = True
            rows = rel
        mons = set(goal[0])
        for r in rows:
            mons.update(r[0])
        done = set()
        for _ in range(2):
            for m in list(mons):
                if m in done or m == ():
                    continue
                done.add(m)
                for r in Facts.intrinsic(m):
                    rows.append(r)
                    mons.update(k for k in r[0] if k != ())
        # eliminate
        sysm = [goal] + rows
        sysm = [({k: v for k, v in r[0].items() if v and k != ()}, r[1] + r[0].get((), 0)) for r in sysm]
        for _ in range(40):
            for r in sysm:
                if not r[0] and r[1] < 0:
                    return True
            vars_ = set()
            for r in sysm:
                vars_.update(r[0])
            if not vars_:
                return False
            best, bc = None, None
            for m in sorted(vars_, key=lambda k: tuple(a.id for a in k)):
                pos = sum(1 for r in sysm if r[0].get(m, 0) > 0)
                neg = sum(1 for r in sysm if r[0].get(m, 0) < 0)
                cst = pos * neg - pos - neg
                if bc is None or cst < bc:
                    best, bc = m, cst
            m = best
            P = [r for r in sysm if r[0].get(m, 0) > 0]
            N = [r for r in sysm if r[0].get(m, 0) < 0]
            rest = [r for r in sysm if not r[0].get(m, 0)]
            if len(P) * len(N) + len(rest) > 600:
                return False
            seen = set()
            for a in P:
                for b in N:
                    ca, cb = a[0][m], -b[0][m]
                    nd2 = {}
                    for k, v in a[0].items():
                        nd2[k] = nd2.get(k, 0) + v * cb
                    for k, v in b[0].items():
                        nd2[k] = nd2.get(k, 0) + v * ca
                    nd2 = {k: v for k, v in nd2.items() if v}
                    cc = a[1] * cb + b[1] * ca
                    if nd2:
                        from math import gcd
                        g = 0
                        for v in nd2.values():
                            g = gcd(g, abs(v))
                        if g > 1:
                            nd2 = {k: v // g for k, v in nd2.items()}
                            cc = cc // g
                    sig = (key_of(nd2), cc)
                    if sig in seen:
                        continue
                    seen.add(sig)
                    rest.append((nd2, cc))
            sysm = rest
        return False


def decide(S, a):
    """True / False / None for an atom in a state."""
    r = S.lits.get(a)
    if r is not None:
        return r
    m = S.memo.get(a)
    if m is not None:
        return m[0]
    r = _decide(S, a)
    if r is None and S.cons:
        for c in S.cons:
            if t.contains(c, a):
                if cof_atom(c, a, True) is FALSE:
                    r = False
                    break
                if cof_atom(c, a, False) is FALSE:
                    r = True
                    break
    S.memo[a] = (r,)
    return r


def cof_atom(c, a, val):
    memo = {}

    def go(x):
        if x is a:
            return TRUE if val else FALSE
        if x.op != 'ite':
            return x
        r = memo.get(x)
        if r is None:
            if x.args[0] is a:
                r = x.args[1] if val else x.args[2]
            else:
                r = ite(x.args[0], go(x.args[1]), go(x.args[2]))
            memo[x] = r
        return r
    return go(c)


def _be_cmp(S, p):
    """Sign of be(a)-be(b) for equal-length byte strings with a common prefix."""
    d = t.to_poly(p)
    c = d.pop((), 0)
    if len(d) != 2 or c not in (0, -1):
        return None
    (ka, va), (kb, vb) = d.items()
    if len(ka) != 1 or len(kb) != 1 or va + vb != 0 or abs(va) != 1:
        return None
    x, y = ka[0], kb[0]
    if va < 0:
        x, y = y, x
    if x.op != 'be' or y.op != 'be':
        return None
    x, y = x.args[0], y.args[0]
    if t.length(x) is not t.length(y):
        return None
    while True:
        n = t.clen(x)
        if not n:
            return (0 + c) >= 0 if n == 0 else None
        sx = list(x.args) if x.op == 'cat' else [x]
        sy = list(y.args) if y.op == 'cat' else [y]
        if sx[0] is sy[0]:
            x, y = t.cat(sx[1:], 'bytes'), t.cat(sy[1:], 'bytes')
            continue
        bx, by = t.byte_at(x, t.ZERO), t.byte_at(y, t.ZERO)
        df = t.sub(bx, by)
        d1, c1 = _split(df)
        if df is t.ZERO or (Facts.lower(S, d1, c1) and Facts.lower(S, {k: -v for k, v in d1.items()}, -c1)):
            x, y = t.subseq(x, t.ONE, const(n)), t.subseq(y, t.ONE, const(n))
            continue
        if Facts.lower(S, d1, c1 - 1):
            return True
        if Facts.lower(S, {k: -v for k, v in d1.items()}, -c1 - 1):
            return False
        return None


def _step(S, r):
    """A number m known to divide the remainder r = x mod M, or None."""
    x, M = r.args
    if not is_const(M) or cval(M) <= 2:
        return None
    best = None
    for at, val in S.lits.items():
        if val and at.op == 'eq0' and at.args[0].op == 'mod' and is_const(at.args[0].args[1]):
            m = cval(at.args[0].args[1])
            if 1 < m < cval(M) and cval(M) % m == 0 and (best is None or m > best) and S.lits.get(t.eq0(t.mod(x, const(m)))) is True:
                best = m
    return best


def _decide(S, a):
    if a.op == 'ge0':
        d, c = _split(a.args[0])
        if Facts.lower(S, d, c):
            return True
        nd = dict((k, -v) for k, v in d.items())
        if Facts.lower(S, nd, -c - 1):
            return False
        # E >= -1 and E != -1;  E <= 0 and E != 0
        e = t.eq0(t.add(a.args[0], t.ONE))
        if S.lits.get(e) is False and Facts.lower(S, d, c + 1):
            return True
        e = t.eq0(a.args[0])
        if S.lits.get(e) is False and Facts.lower(S, nd, -c):
            return False
        if len(d) == 1:
            (key, w), = d.items()
            if len(key) == 1 and key[0].op == 'mod' and S.lits.get(t.eq0(key[0])) is False:
                m = _step(S, key[0])
                if m and w > 0 and w * m + c >= 0:
                    return True
                if m and w < 0 and w * m + c < 0:
                    return False
        return _be_cmp(S, a.args[0])
    if a.op == 'eq0':
        d, c = _split(a.args[0])
        nd = dict((k, -v) for k, v in d.items())
        if Facts.lower(S, d, c - 1) or Facts.lower(S, nd, -c - 1):
            return False
        if Facts.lower(S, d, c) and Facts.lower(S, nd, -c):
            return True
        e = a.args[0]
        if len(d) == 1 and abs(list(d.values())[0]) == 1 and 0 <= c * -list(d.values())[0] < 256:
            # the last byte of stripped bytes is none of those stripped
            (key, w), = d.items()
            b = key[0] if len(key) == 1 else e
            if b.op == 'byte' and b.args[1].op == 'poly':
                R = t.add(b.args[1], t.ONE)
                if R.op == 'len' and R.args[0].op == 'rstrip' and is_const(R.args[0].args[1]) and -c * w in (cval(R.args[0].args[1]) or b''):
                    y = R.args[0].args[0]
                    if y is b.args[0] or y.op == 'sub' and y.args[0] is b.args[0] and y.args[1] is t.ZERO:
                        n, k0 = _split(R)
                        if Facts.lower(S, n, k0 - 1):
                            return False
        if e.op == 'mod' and is_const(e.args[1]) and cval(e.args[1]) > 1:
            # a number strictly between two multiples of the modulus that follow each other is none itself
            m = _step(S, e)
            if m and Facts.lower(S, nd, m - 1):
                return True
            m = cval(e.args[1])
            q = e.args[0]
            if q.op == 'idiv' and is_const(q.args[1]) and cval(q.args[1]) > 0:
                # x == c * q: q is a multiple of m just when x is one of c * m
                z = t.eq0(t.mod(q.args[0], q.args[1]))
                if z is TRUE or S.lits.get(z) is True:
                    z = t.eq0(t.mod(q.args[0], const(m * cval(q.args[1]))))
                    z = z if z.op == 'c' else S.lits.get(z)
                    if z in (TRUE, FALSE, True, False):
                        return z is TRUE or z is True
            d1, c1 = _split(e.args[0])
            nd1 = dict((k, -v) for k, v in d1.items())
            if d1 and (Facts.lower(S, d1, c1 - 1) and Facts.lower(S, nd1, m - 1 - c1) or
                       Facts.lower(S, nd1, -c1 - 1) and Facts.lower(S, d1, m - 1 + c1)):
                return False
        for m in t.moduli(a.args[0]):
            # |E| < m here, so E == 0 exactly when m divides it
            if Facts.lower(S, d, c + m - 1) and Facts.lower(S, nd, m - 1 - c):
                e = t.eq0(t.mod(a.args[0], const(m)))
                if e is not a:
                    e = restrict(S, e)
                    if e is TRUE or e is FALSE:
                        return e is TRUE
        return None
    if a.op == 'eq':
        x, y = a.args
        if is_const(x) or is_const(y):
            v, c = (y, x) if is_const(x) else (x, y)
            for at, val in S.lits.items():
                if val and at.op == 'eq' and v in at.args:
                    o = at.args[0] if at.args[1] is v else at.args[1]
                    if is_const(o) and o is not c:
                        return False
        if x.ty in ('bytes', 'str') and x.ty == y.ty:
            L = t.sub(t.length(x), t.length(y))
            r = restrict(S, t.eq0(L))
            if r is FALSE:
                return False
            if is_const(t.length(x)) and cval(t.length(x)) == 0 and r is TRUE:
                return True
            # first bytes known to differ
            n = t.clen(x)
            if n and n == t.clen(y) and n <= 64 and x.ty == 'bytes':
                for i in range(n):
                    e = t.eq0(t.sub(t.byte_at(x, const(i)), t.byte_at(y, const(i))))
                    if e is FALSE or (e.op != 'ite' and e is not TRUE and S.lits.get(e) is False):
                        return False
                    if e is TRUE or e.op == 'ite':
                        continue
                    d, c = _split(e.args[0]) if e.op == 'eq0' else ({}, 0)
                    if d and (Facts.lower(S, d, c - 1) or
                              Facts.lower(S, dict((k, -v) for k, v in d.items()), -c - 1)):
                        return False
        return None
    return None


def restrict(S, c):
    """Simplify the gates of a term by what is known in S."""
    if c.op != 'ite':
        if t.is_atom(c):
            r = decide(S, c)
            return c if r is None else (TRUE if r else FALSE)
        return c
    memo = {}

    def go(x):
        if x.op != 'ite':
            if t.is_atom(x):
                r = decide(S, x)
                return x if r is None else (TRUE if r else FALSE)
            return x
        r = memo.get(x)
        if r is None:
            d = decide(S, x.args[0])
            if d is None:
                hi, lo = go(x.args[1]), go(x.args[2])
                r = x if hi is x.args[1] and lo is x.args[2] else ite(x.args[0], hi, lo)
            else:
                r = go(x.args[1] if d else x.args[2])
            memo[x] = r
        return r
    return go(c)


def pin(S, x):
    """The constant an integer term has to be in the state, or the term."""
    if x.ty != 'int' or x.op in ('c', 'ite'):
        return x
    d, c = _split(x)
    for e, g in ((d, 1), (dict((k, -v) for k, v in d.items()), -1)):
        iv = S.iv.get(key_of(e))
        if iv and iv[0] is not None and iv[0] == iv[1]:
            return const(g * iv[0] + c)
    return x


def bounds_in(S, x):
    """(least, greatest) value of an integer term in the state, None where open."""
    d, c = _split(x)
    lo = hi = c
    for m, v in d.items():
        a, b = mono_bounds(m)
        iv = S.iv.get(((m, 1),))
        if iv:
            a = iv[0] if a is None or (iv[0] is not None and iv[0] > a) else a
            b = iv[1] if b is None or (iv[1] is not None and iv[1] < b) else b
        if v < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + v * a
        hi = None if hi is None or b is None else hi + v * b
    return lo, hi


def renorm(S, x):
    """Rebuild slices of concatenations with the numeric facts of S (which may place the cut)."""
    if not any(y.op in ('sub', 'byte') and (y.args[0].op in ('cat', 'rev', 'hex') or y.args[1] is t.ZERO) for y in t.walk(x)):
        return x
    memo = {}

    def go(y):
        if not isinstance(y, t.T):
            return tuple(go(z) for z in y) if isinstance(y, tuple) else y
        if y.op in ('c', 'sym'):
            return y
        r = memo.get(y)
        if r is None:
            a = tuple(go(z) for z in y.args)
            if y.op == 'sub':
                r = t.subseq(*a)
                if r.op == 'sub' and r.args[1] is t.ZERO and restrict(S, t.eq0(t.sub(t.length(r.args[0]), r.args[2]))) is TRUE:
                    r = r.args[0]
            elif y.op == 'byte':
                r = t.byte_at(*a)
            elif any(p is not q for p, q in zip(a, y.args)):
                r = t.rebuild(y.op, a, y.ty)
            else:
                r = y
            memo[y] = r
        return r
    old = t.LE[0]
    t.LE[0] = lambda g: restrict(S, g) is TRUE
    try:
        return go(x)
    finally:
        t.LE[0] = old


def facts_copy(S):
    """A state with the facts of S and an empty store."""
    R = State()
    R.lits, R.iv, R.cons, R.pc = dict(S.lits), dict(S.iv), S.cons, S.pc
    return R


def deep_restrict(S, c, budget=120):
    """restrict() that also uses, below each gate, the facts the gate itself contributes."""
    c = restrict(S, c)
    if c.op != 'ite':
        return c
    left = [budget]

    def go(F, x):
        if x.op != 'ite':
            if t.is_atom(x):
                r = decide(F, x)
                return x if r is None else (TRUE if r else FALSE)
            return x
        a = x.args[0]
        d = decide(F, a)
        if d is not None:
            return go(F, x.args[1] if d else x.args[2])
        left[0] -= 1
        if left[0] < 0:
            return restrict(F, x)
        F1, F2 = facts_copy(F), facts_copy(F)
        ok1, ok2 = set_lit(F1, a, True), set_lit(F2, a, False)
        if not ok1:
            return go(F2, x.args[2])
        if not ok2:
            return go(F1, x.args[1])
        hi, lo = go(F1, x.args[1]), go(F2, x.args[2])
        return x if hi is x.args[1] and lo is x.args[2] else ite(a, hi, lo)
    return go(S, c)


def numeric_gates(c):
    """Does the diagram mention at least two numeric atoms (so that one may decide the other)?"""
    n = 0
    for a in atoms_of(c):
        if a.op in ('ge0', 'eq0', 'eq'):
            n += 1
            if n > 1:
                return True
    return False


def set_lit(S, a, val):
    """Record an atom; returns False when contradictory."""
    d = decide(S, a)
    if d is not None:
        S.lits[a] = d
        return d == val
    S.lits[a] = val
    S.memo = {}
    if a.op in ('ge0', 'eq0'):
        dd, c = _split(a.args[0])
        k = key_of(dd)
        lo, hi = S.iv.get(k, (None, None))
        if a.op == 'ge0':
            if val:
                lo = -c if lo is None else max(lo, -c)
            else:
                hi = -c - 1 if hi is None else min(hi, -c - 1)
            S.iv[k] = (lo, hi)
            if len(k) == 1 and len(k[0][0]) == 1 and k[0][1] == 1 and (lo is not None and lo > 0 or hi is not None and hi < 0):
                b = (lo if lo is not None and lo > 0 else -hi).bit_length()
                kb = (((mk('bitlen', (k[0][0][0],), 'int'),), 1),)
                b2 = S.iv.get(kb, (None, None))
                if b2[0] is None or b2[0] < b:
                    S.iv[kb] = (b, b2[1])
        elif val:
            S.iv[k] = (-c, -c)
        else:
            b = ibounds(t.from_poly(dict(dd)))
            l2 = lo if lo is not None else b[0]
            h2 = hi if hi is not None else b[1]
            if l2 is not None and l2 == -c:
                lo = -c + 1
            if h2 is not None and h2 == -c:
                hi = -c - 1
            if lo is not None or hi is not None:
                S.iv[k] = (lo, hi)
            if len(k) == 1 and len(k[0][0]) == 1 and k[0][1] == 1 and not c:
                # a number other than zero has a bit
                S.iv.setdefault((((mk('bitlen', (k[0][0][0],), 'int'),), 1),), (1, None))
        if not (a.op == 'eq0' and val) and not settle(S, k, dd):
            return False
    elif a.op == 'eq' and val and a.args[0].ty in ('bytes', 'str') and a.args[1].ty == a.args[0].ty:
        L = t.eq(t.length(a.args[0]), t.length(a.args[1]))
        if t.is_atom(L):
            set_lit(S, L, True)
    return True


def settle(S, k, d):
    """Draw in the ends of a short interval past the values known to be excluded."""
    lo, hi = S.iv.get(k, (None, None))
    if lo is None or hi is None:
        b = ibounds(t.from_poly(dict(d)))
        lo = lo if lo is not None else b[0]
        hi = hi if hi is not None else b[1]
    if lo is None or hi is None or not 0 <= hi - lo <= 8:
        return True

    def out(v):
        e = dict(d)
        e[()] = -v
        c = t.eq0(t.from_poly(e))
        return c is FALSE or S.lits.get(c) is False
    l2, h2 = lo, hi
    while l2 < h2 and out(l2):
        l2 += 1
    while l2 < h2 and out(h2):
        h2 -= 1
    if (l2, h2) != (lo, hi):
        S.iv[k] = (l2, h2)
    return l2 != h2 or not out(l2)


def assume(S, c, track=True):
    """Assume a boolean decision diagram; False when infeasible."""
    if track:
        S.pc = band(S.pc, c)
        if S.pc is FALSE:
            return False
    return _assume(S, c)


def _assume(S, c):
    c = restrict(S, c)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op != 'ite':
        return set_lit(S, c, True)
    a, hi, lo = c.args
    if lo is FALSE:
        return set_lit(S, a, True) and _assume(S, hi)
    if hi is FALSE:
        return set_lit(S, a, False) and _assume(S, lo)
    # implied literals deeper in the diagram
    for x in set(atoms_of(c)):
        if cof_atom(c, x, False) is FALSE:
            return set_lit(S, x, True) and _assume(S, c)
        if cof_atom(c, x, True) is FALSE:
            return set_lit(S, x, False) and _assume(S, c)
    if len(S.cons) < 12:
        S.cons = S.cons + (c,)
        S.memo = {}
    return True


def atoms_of(c):
    seen, out, st = set(), [], [c]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            if x.args[0] not in seen:
                seen.add(x.args[0])
                out.append(x.args[0])
            st.append(x.args[1])
            st.append(x.args[2])
        elif t.is_atom(x):
            out.append(x)
    return out


_cm_memo = {}


def care_restrict(f, care):
    """Coudert-Madre: simplify f, free outside care."""
    if care is TRUE or f.op == 'c':
        return f
    if care is FALSE:
        return f
    key = (f, care)
    r = _cm_memo.get(key)
    if r is not None:
        return r
    tf = f.args[0] if f.op == 'ite' else f
    tc = care.args[0] if care.op == 'ite' else care
    m = tf if tf.id <= tc.id else tc
    c1, c0 = t._cof(care, m, True), t._cof(care, m, False)
    f1, f0 = t._cof(f, m, True), t._cof(f, m, False)
    if c0 is FALSE:
        r = care_restrict(f1, c1)
    elif c1 is FALSE:
        r = care_restrict(f0, c0)
    elif f1 is f0:
        r = care_restrict(f1, bor(c1, c0))
    else:
        r = ite(m, care_restrict(f1, c1), care_restrict(f0, c0))
    _cm_memo[key] = r
    return r


def join(s1, s2):
    """Join two states; returns (state, gate) where gate is true for s1."""
    care = bor(s1.pc, s2.pc)
    c = care_restrict(s1.pc, care)
    # literals known in both sides are not gates
    S = State()
    S.pc = care
    st1, st2 = s1.store, s2.store
    out = {}
    if c is TRUE:
        return s1, TRUE
    if c is FALSE:
        return s2, FALSE
    for k, v in st1.items():
        w = st2.get(k)
        if w is v:
            out[k] = v
        elif w is None:
            out[k] = v if isinstance(k[0], int) and (k[0], '$new') not in st2 else ite(c, v, UNBOUND)
        else:
            out[k] = ite(c, v, w)
    for k, w in st2.items():
        if k not in st1:
            out[k] = w if isinstance(k[0], int) and (k[0], '$new') not in st1 else ite(c, UNBOUND, w)
    S.store = out
    l2 = s2.lits
    S.lits = dict((a, v) for a, v in s1.lits.items() if l2.get(a) == v)
    iv = {}
    for k in set(s1.iv) | set(s2.iv):
        b1, b2 = s1.iv.get(k), s2.iv.get(k)
        if b1 is None or b2 is None:
            p = None
            if len(k) == 1 or True:
                p = ibounds(t.from_poly(dict(k)))
            if b1 is None:
                b1 = p
            if b2 is None:
                b2 = p
        lo = None if b1[0] is None or b2[0] is None else min(b1[0], b2[0])
        hi = None if b1[1] is None or b2[1] is None else max(b1[1], b2[1])
        if lo is not None or hi is not None:
            iv[k] = (lo, hi)
    S.iv = iv
    S.cons = tuple(x for x in s1.cons if x in s2.cons)
    return S, c


def join_many(exits):
    """exits: list of (state, value).  Returns (state, value)."""
    S, v = exits[0]
    for s2, v2 in exits[1:]:
        S2, c = join(S, s2)
        if v is not None and v2 is not None:
            v = ite(c, v, v2) if v is not v2 else v
        S = S2
    return S, v


EMPTY = State()
t.LE[0] = lambda g: restrict(EMPTY, g) is TRUE
