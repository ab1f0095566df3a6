"""Points compare by value: equality on coordinates, order by x then y, consistently across operators and curve objects."""
from .common import *

RULE = 'P == Q iff (xP, yP) == (xQ, yQ); P < Q iff xP < xQ or (xP == xQ and yP < yQ); the other operators follow'

SRC = '''
def lt(a, b): return a < b
def gt(a, b): return a > b
def le(a, b): return a <= b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def order(a, b):
    s = sorted([a, b])
    return (s[0].x.value, s[0].y.value, s[1].x.value, s[1].y.value)
def order_rev(a, b):
    s = [a, b]
    s.sort(reverse=True)
    return (s[0].x.value, s[0].y.value, s[1].x.value, s[1].y.value)
def member(a, b):
    return a in [b]
def least(a, b):
    m = min([a, b])
    return (m.x.value, m.y.value)
'''


def check(C):
    I = C.I
    EP = 'Cryptography.ECCurve:EllipticCurve.ECPoint.'
    p = P256[0]
    x1, y1, x2, y2 = (sym(n, 'int', lo=0, hi=p - 1) for n in ('x1', 'y1', 'x2', 'y2'))
    g = C.py(SRC, 'points')
    EQ = t.band(t.eq0(t.sub(x1, x2)), t.eq0(t.sub(y1, y2)))
    LT = t.bor(t.lt_i(x1, x2), t.band(t.eq0(t.sub(x1, x2)), t.lt_i(y1, y2)))
    GT = t.bor(t.lt_i(x2, x1), t.band(t.eq0(t.sub(x1, x2)), t.lt_i(y2, y1)))
    want = {'lt': LT, 'gt': GT, 'le': t.bor(LT, EQ), 'ge': t.bor(GT, EQ), 'eq': EQ, 'ne': t.bnot(EQ), 'member': EQ,
            'order': t.ite(GT, t.tup([x2, y2, x1, y1]), t.tup([x1, y1, x2, y2])),
            'order_rev': t.ite(LT, t.tup([x2, y2, x1, y1]), t.tup([x1, y1, x2, y2])),
            'least': t.ite(GT, t.tup([x2, y2]), t.tup([x1, y1]))}

    def same(I):
        ec = p256ec(C)
        return C.meth(ec, 'point', x1, y1), C.meth(ec, 'point', x2, y2)

    def other(I):
        return p256point(C, x1, y1), p256point(C, x2, y2)
    inst = C.get('Cryptography.ECCurve:FiniteField.Value')

    def values(I):
        ec = p256ec(C)
        f = I.getattr(ec, 'field')
        v = lambda n: C.meth(f, 'value', n)
        return C.meth(ec, 'point', v(x1), v(y1)), C.meth(ec, 'point', v(x2), v(y2))
    sites = {'lt': '__lt__', 'gt': '__gt__', 'le': '__le__', 'ge': '__ge__', 'eq': '__eq__', 'ne': '__ne__', 'order': '__lt__', 'order_rev': '__lt__', 'member': '__eq__', 'least': '__lt__'}
    for kind, mk in (('points of one curve object', same), ('points of two curve objects', other), ('points from field values', values)):
        for op in sorted(want):
            C.spec('%s on %s' % (op, kind), EP + sites[op], lambda I: I.truth(I.call(g(op), list(mk(I)), {})) if op not in ('order', 'order_rev', 'least') else I.call(g(op), list(mk(I)), {}), value=want[op])

    # a point that has been used in comparisons, printed or encoded compares as before
    def used(I):
        a, b = other(I)
        for q in (a, b):
            C.meth(q, '__str__')
            C.meth(q, 'encode_point')
            I.getattr(q, 'IsInfinity')
        I.call(g('lt'), [b, a], {})
        return a, b
    for op in ('lt', 'eq', 'ge'):
        C.spec('%s on points used before' % op, EP + sites[op], lambda I: I.truth(I.call(g(op), list(used(I)), {})), value=want[op])
    # infinity
    C.spec('IsInfinity', EP + 'IsInfinity', lambda I: I.getattr(p256point(C, x1, y1), 'IsInfinity'), value=t.band(t.eq0(x1), t.eq0(y1)))
    C.spec('iszero', EP + 'iszero', lambda I: I.truth(C.meth(p256point(C, x1, y1), 'iszero')), value=t.band(t.eq0(x1), t.eq0(y1)))
    C.spec('a point equals itself', EP + '__eq__', lambda I: (lambda q: I.truth(I.call(g('eq'), [q, q], {})))(p256point(C, x1, y1)), value=TRUE)
    C.spec('Size', EP + 'Size', lambda I: C.meth(p256point(C, x1, y1), 'Size'), value=t.ite(t.band(t.eq0(x1), t.eq0(y1)), const(1), const(33)))
