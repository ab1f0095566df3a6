"""Extended Euclid: recursive (or iterative) implementations are recognised by checking an inductive contract.

A function f(a, b) of two integers is accepted when, for a >= 0, b >= 1,
  * every leaf of its body returns (g, c, d) with a*c + b*d == g, given the same of the recursive call, and
  * the recursive call is on {a, b mod a} (or {b, a mod b}) and its g is passed on; the base case returns the other argument when one is 0.
By induction it then returns g = gcd(a, b) with Bezout coefficients.
"""
import ast
from .common import *
from .. import prog
from ..prog import ClassObj


def _poly_of_mods(x):
    """Expand u mod v into u - v*(u // v)."""
    m = {}
    for y in t.walk(x):
        if y.op == 'mod':
            m[y] = t.sub(y.args[0], t.mul(y.args[1], t.mk('idiv', y.args, 'int')))
    return t.subst(x, m) if m else x


def _selfcalls(fo):
    return [n for n in ast.walk(fo.node) if isinstance(n, ast.Call) and
            (isinstance(n.func, ast.Name) and n.func.id == fo.name or isinstance(n.func, ast.Attribute) and n.func.attr == fo.name)]


class Egcd(object):
    def __init__(self, C):
        self.C, self.known, self.busy = C, {}, []
        C.I.contracts['*'] = self

    def __call__(self, I, fo, args, kw):
        if kw or len(args) != 2 or any(t.ty_of(x) != 'int' for x in args) or isinstance(fo.node, ast.Lambda):
            return None
        if self.busy and self.busy[-1][0] is fo:
            calls = self.busy[-1][1]
            if not calls[0]:        # the call under analysis
                calls[0] = True
                return None
            i = len(calls)
            r = t.tup([t.mk('sym', ('rec%d%s' % (i, w), ()), 'int') for w in 'gcd'])
            calls.append((args, r.args))
            return r
        if not _selfcalls(fo):
            return None
        if fo not in self.known:
            self.known[fo] = self.verify(I, fo)
        if not self.known[fo]:
            return None
        a, b = args
        if I.restrict(t.ge0(a)) is not TRUE or I.restrict(t.ge0(t.sub(b, const(1)))) is not TRUE:
            return None
        if is_const(a) and is_const(b):
            return None
        return t.tup([t.mk('gcd', (a, b), 'int'), t.mk('xgcd', (a, b), 'int'), t.mk('ygcd', (a, b), 'int')])

    def verify(self, I, fo):
        C = self.C
        a, b = sym('ega', 'int', lo=0), sym('egb', 'int', lo=1)
        old = I.S
        I.S = old.copy()
        I.S.pc = TRUE
        calls = [False]
        self.busy.append((fo, calls))
        f = t.mk('func', (fo,), 'func')
        try:
            o = C.run(lambda I: I.call_func(fo, [a, b], {}))
        except Exception:
            return False
        finally:
            self.busy.pop()
            I.S = old
        rec = calls[1:]
        if o.ret is None or len(rec) != 1:
            return False
        (A0, A1), (g, c, d) = rec[0]
        A0, A1 = I.restrict(A0), I.restrict(A1)
        # arguments: {a, b mod a} or {b, a mod b}
        shape = {(t.mod(b, a), a): a, (a, t.mod(b, a)): a, (b, t.mod(a, b)): b, (t.mod(a, b), b): b}.get((A0, A1))
        if shape is None:
            return False
        zero, other = (a, b) if shape is a else (b, a)

        def leaf(v, path):
            F = prog.State()
            for g_, val in path:
                if not prog.set_lit(F, g_, val):
                    return True
            if v.op == 'ite':
                return leaf(v.args[1], path + [(v.args[0], True)]) and leaf(v.args[2], path + [(v.args[0], False)])
            if v.op != 'tuple' or len(v.args) != 3:
                return False
            G, X, Y = v.args
            E = t.sub(G, t.add(t.mul(a, X), t.mul(b, Y)))
            if prog.restrict(F, t.eq0(zero)) is TRUE:
                return all(_zero(F, x) for x in (t.sub(G, other), E))
            if prog.restrict(F, t.eq0(zero)) is not FALSE or G is not g:
                return False
            E = t.subst(E, {g: t.add(t.mul(A0, c), t.mul(A1, d))})
            return _poly_of_mods(E) is const(0)
        ok = leaf(o.ret.value, [])
        # it returns for all arguments
        from ..spec import prove_eq
        return ok and prove_eq(I.S, o.ok, TRUE) is None


def _zero(F, x):
    return x is const(0) or prog.restrict(F, t.eq0(x)) is TRUE
