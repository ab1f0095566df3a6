"""Chord-and-tangent addition over P-256 and over any curve and prime; scalar multiplication against e*P for every integer e."""
from .common import *
from .field import Egcd
from .. import prog
from ..spec import band_all

RULE = 'P+0 = 0+P = P; P+(-P) = 0; otherwise x3 = l^2-x1-x2, y3 = l(x1-x3)-y1 with l the chord or tangent slope; e*P = the e-fold sum'

SRC = '''
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, k): return a * k
def div(a, k): return a / k
def neg(a): return -a
'''
EC = 'Cryptography.ECCurve:EllipticCurve.'
Q = 'neocore.Cryptography.ECCurve:EllipticCurve.'


def check(C):
    I = C.I
    Egcd(C)
    g = C.py(SRC, 'group')
    for cname, p, a, b in (('P-256', const(P256[0]), const(P256[2]), const(P256[3])), ('any curve', sym('m', 'int', lo=5), sym('a', 'int', lo=0), sym('b', 'int', lo=0))):
        t.PRIMES.add(p)
        formulas(C, g, cname, p, a, b)
    scalars(C, g)
    roots(C)


def formulas(C, g, cname, p, a, b):
    I = C.I
    if is_const(p):
        x1, y1, x2, y2 = (sym(n, 'int', lo=0, hi=cval(p) - 1) for n in ('x1', 'y1', 'x2', 'y2'))
    else:
        x1, y1, x2, y2 = (t.mod(sym(n, 'int'), p) for n in ('x1', 'y1', 'x2', 'y2'))
    md = lambda v: t.mod(v, p)
    inv = lambda v: t.modinv(v, p)
    zero = const(0)

    # l * (x1 - x2) = y1 - y2: rewrite with the inverse cancelled, so that every way to write the formulas has one form
    def dist(v):
        return t.cancel_inverses(v, p)

    def ec(I):
        return I.call(C.get('Cryptography.ECCurve:EllipticCurve'), [I.call(C.get('Cryptography.ECCurve:FiniteField'), [p], {}), a, b], {})
    view = lambda v: dist(pointview(C, v))
    kl = klass(C, 'Cryptography.ECCurve:EllipticCurve.ECPoint')
    pt = lambda x, y: dist(t.tup([kl, p, a, b, p, p, x, y]))
    O = pt(zero, zero)
    nz = lambda x, y: t.bnot(t.band(t.eq0(x), t.eq0(y)))


    def third(l, xa, ya, xb):
        x3 = md(t.sub(t.mul(l, l), t.add(xa, xb)))
        return pt(x3, md(t.sub(t.mul(l, t.sub(xa, x3)), ya)))
    chord = third(md(t.mul(t.sub(y1, y2), inv(t.sub(x1, x2)))), x1, y1, x2)
    tangent = third(md(t.mul(t.add(t.mul(const(3), t.mul(x1, x1)), a), inv(t.mul(const(2), y1)))), x1, y1, x1)
    n1, n2 = nz(x1, y1), nz(x2, y2)
    ny1 = md(t.neg(y1))
    two = t.band(t.bnot(t.eq0(y1)), t.bnot(t.eq0(md(t.mul(const(2), y1)))))
    nodd = t.bnot(t.eq0(md(t.sub(x1, x2))))
    ways = [('add()', 'add', lambda e, P, R: C.meth(e, 'add', P, R)), ('+', 'add', lambda e, P, R: I.call(g('add'), [P, R], {}))]
    for wname, anchor, way in ways:
        def case(rule, mk, want, pre=TRUE):
            def drv(I):
                e = ec(I)
                P, R = mk(e)
                return view(way(e, P, R))
            C.spec('%s by %s on %s' % (rule, wname, cname), EC + anchor, drv, pre=pre, value=want)
        pnt = lambda e, x, y: C.meth(e, 'point', x, y)
        case('infinity + Q', lambda e: (C.meth(e, 'zero'), pnt(e, x2, y2)), pt(x2, y2))
        case('P + infinity', lambda e: (pnt(e, x1, y1), I.getattr(e, 'Infinity')), pt(x1, y1))
        case('P + (-P)', lambda e: (pnt(e, x1, y1), pnt(e, x1, ny1)), O, pre=t.band(n1, two))
        case('-P + P', lambda e: (pnt(e, x1, ny1), pnt(e, x1, y1)), O, pre=t.band(n1, two))
        case('P + negated P', lambda e: (lambda P: (P, C.meth(e, 'neg', P)))(pnt(e, x1, y1)), O, pre=t.band(n1, two))
        case('doubling a point of order 2', lambda e: (pnt(e, x1, zero), pnt(e, x1, zero)), O, pre=t.bnot(t.eq0(x1)))
        case('P + P', lambda e: (lambda P: (P, P))(pnt(e, x1, y1)), tangent, pre=two)
        case('P + an equal point', lambda e: (pnt(e, x1, y1), pnt(e, x1, y1)), tangent, pre=two)
        case('P + Q', lambda e: (pnt(e, x1, y1), pnt(e, x2, y2)), chord, pre=band_all([nodd, n1, n2]))
    # subtraction and negation
    def two_points(I):
        e = ec(I)
        return e, C.meth(e, 'point', x1, y1), C.meth(e, 'point', x2, y2)
    chordm = t.subst(chord, {y2: md(t.neg(y2))}) if is_const(p) else third(md(t.mul(t.add(y1, y2), inv(t.sub(x1, x2)))), x1, y1, x2)
    chordm = third(md(t.mul(t.add(y1, y2), inv(t.sub(x1, x2)))), x1, y1, x2)
    for wname, way in (('sub()', lambda e, P, R: C.meth(e, 'sub', P, R)), ('-', lambda e, P, R: I.call(g('sub'), [P, R], {}))):
        C.spec('P - Q by %s on %s' % (wname, cname), EC + 'sub', lambda I: view(way(*two_points(I))), pre=band_all([nodd, n1, n2, t.bnot(t.eq0(y2))]), value=chordm)
        C.spec('P - O by %s on %s' % (wname, cname), EC + 'sub', lambda I: (lambda e, P, R: view(way(e, P, C.meth(e, 'zero'))))(*two_points(I)), pre=n1, value=pt(x1, y1))
        C.spec('O - P by %s on %s' % (wname, cname), EC + 'sub', lambda I: (lambda e, P, R: view(way(e, C.meth(e, 'zero'), P)))(*two_points(I)), pre=n1, value=pt(x1, ny1))
        C.spec('O - O by %s on %s' % (wname, cname), EC + 'sub', lambda I: (lambda e, P, R: view(way(e, C.meth(e, 'zero'), C.meth(e, 'zero'))))(*two_points(I)), value=O)
        C.spec('P - (-P) by %s on %s' % (wname, cname), EC + 'sub', lambda I: (lambda e, P, R: view(way(e, P, C.meth(e, 'neg', P))))(*two_points(I)), pre=t.band(n1, two), value=tangent)
        C.spec('P - P by %s on %s' % (wname, cname), EC + 'sub', lambda I: (lambda e, P, R: view(way(e, P, P)))(*two_points(I)), pre=t.band(n1, two), value=O)
    for wname, way in (('neg()', lambda e, P: C.meth(e, 'neg', P)), ('-', lambda e, P: I.call(g('neg'), [P], {}))):
        C.spec('negation by %s on %s' % (wname, cname), EC + 'neg', lambda I: (lambda e, P, R: view(way(e, P)))(*two_points(I)), value=pt(x1, ny1))
    # a sum keeps its operands
    C.spec('operands of + on %s' % cname, EC + 'add', lambda I: (lambda e, P, R: (I.call(g('add'), [P, R], {}), t.tup([view(P), view(R)]))[1])(*two_points(I)),
           pre=band_all([nodd, n1, n2]), value=t.tup([pt(x1, y1), pt(x2, y2)]))
    C.spec('operands of doubling on %s' % cname, EC + 'add', lambda I: (lambda e, P, R: (I.call(g('add'), [P, P], {}), view(P))[1])(*two_points(I)), pre=two, value=pt(x1, y1))
    # membership
    rhs = t.add(t.mul(x1, t.mul(x1, x1)), t.add(t.mul(a, x1), b))
    on = t.eq0(md(t.sub(t.mul(y1, y1), rhs)))
    C.spec('isoncurve on %s' % cname, EC + 'isoncurve', lambda I: (lambda e, P, R: I.truth(C.meth(e, 'isoncurve', P)))(*two_points(I)), pre=n1, value=on)
    C.spec('isoncurve of a point on %s' % cname, EC + 'isoncurve', lambda I: (lambda e, P, R: I.truth(C.meth(P, 'isoncurve')))(*two_points(I)), pre=n1, value=on)
    C.spec('iszero on %s' % cname, EC + 'ECPoint.iszero', lambda I: (lambda e, P, R: I.truth(C.meth(P, 'iszero')))(*two_points(I)), value=t.bnot(n1))
    C.spec('infinity of %s is on the curve' % cname, EC + 'isoncurve', lambda I: (lambda e: I.truth(C.meth(e, 'isoncurve', I.getattr(e, 'Infinity'))))(ec(I)), value=TRUE)


def smaller(I, new, old):
    """0 <= new < |old|, or new == -old for a negative old, on every path (so that recursion on it ends)."""
    def go(F, n, o):
        n, o = prog.restrict(F, n), prog.restrict(F, o)
        for x in (n, o):
            if x.op == 'ite':
                for i, val in ((1, True), (2, False)):
                    F2 = F.copy()
                    if prog.set_lit(F2, x.args[0], val) and not go(F2, n, o):
                        return False
                return True
        yes = lambda c: prog.restrict(F, c) is TRUE
        if n is t.neg(o):
            return yes(t.ge0(t.sub(const(-1), o)))
        up = o if yes(t.ge0(o)) else t.neg(o)
        if not yes(t.ge0(t.sub(up, const(1)))):
            return False
        if n.op == 'idiv' and is_const(n.args[1]) and cval(n.args[1]) >= 2 and (n.args[0] is up or yes(t.ge0(t.sub(up, n.args[0]))) and yes(t.ge0(n.args[0]))):
            return True
        return yes(t.ge0(n)) and yes(t.ge0(t.sub(t.sub(up, const(1)), n)))
    return go(I.S, new, old)


def scalars(C, g):
    """Multiplication, with the (separately verified) group operations abstracted: e*P is modelled by the integer term e*P, the image of the
    sum in the free group on P, so a program built from the group operations computes e*P for every P exactly if it does so here."""
    I = C.I
    P, s = sym('P', 'int'), sym('s', 'int')
    n = const(P256[1])
    curve = lambda I: p256ec(C)
    num = lambda x: t.ty_of(x) in ('int', 'bool')
    depth = []

    def con(f, k):
        def h(I, fo, args, kw):
            if kw or len(args) != k + 1 or not all(num(x) for x in args[1:]):
                return None
            return f(*args[1:])
        return h

    def con_point(I, fo, args, kw):
        if not kw and len(args) == 3 and all(x is const(0) for x in args[1:]):
            return const(0)
        return None

    def con_mul(I, fo, args, kw):
        if kw or len(args) != 3 or not num(args[1]):
            return None
        if not depth:
            depth.append(args[2] if num(args[2]) else I.getattr(args[2], 'value'))
            return None
        if not num(args[2]):
            return None
        return t.mul(args[1], args[2]) if smaller(I, args[2], depth[0]) else None
    mine = {Q + 'add': con(t.add, 2), Q + 'sub': con(t.sub, 2), Q + 'neg': con(t.neg, 1), Q + 'zero': con(lambda: const(0), 0), Q + 'point': con_point, Q + 'mul': con_mul}

    def run(scalar, drv):
        def f(I):
            e = curve(I)
            k = scalar(I)
            keep = dict(I.contracts), dict(I.intmethods)
            del depth[:]
            I.contracts.update(mine)
            I.intmethods['iszero'] = lambda v: t.eq0(v)
            try:
                return drv(I, e, k)
            finally:
                I.contracts, I.intmethods = keep
        return f
    val = lambda I, p_: lambda k: C.meth(I.call(C.get('Cryptography.ECCurve:FiniteField'), [p_], {}), 'value', k)
    for rule, scalar in (('any integer', lambda I: s), ('any integer as a value of the scalar field', lambda I: val(I, n)(s)), ('any integer as a value of another field', lambda I: val(I, const(P256[0]))(s))):
        C.spec('multiplication by %s' % rule, EC + 'mul', run(scalar, lambda I, e, k: C.meth(e, 'mul', P, k)), value=t.mul(s, P))
    for k in (0, 1, 2, 3, 7, -1, -2, P256[1] - 1, P256[1], 2 ** 256 + 1):
        C.spec('multiplication by %d' % k, EC + 'mul', run(lambda I: const(k), lambda I, e, q: C.meth(e, 'mul', P, q)), value=t.mul(const(k), P))
    # the operators reach it with the point and the scalar
    x1, y1 = sym('x1', 'int', lo=0, hi=P256[0] - 1), sym('y1', 'int', lo=0, hi=P256[0] - 1)

    def capture(drv):
        def f(I):
            R = p256point(C, x1, y1)
            keep = dict(I.contracts)
            I.contracts[Q + 'mul'] = lambda I, fo, args, kw: t.tup([pointview(C, args[1]), scalar_of(args[2])]) if len(args) == 3 and not kw else None
            try:
                return drv(I, R)
            finally:
                I.contracts = keep

        def scalar_of(k):
            k = I.restrict(k)
            return I.getattr(k, 'value') if k.op == 'ref' else k
        return f
    pt = pointof(C, x1, y1)
    u = sym('u', 'int', lo=1, hi=P256[1] - 1)
    C.spec('P * integer', EC + 'ECPoint.__mul__', capture(lambda I, R: I.call(g('mul'), [R, s], {})), value=t.tup([pt, s]))
    C.spec('P * scalar value', EC + 'ECPoint.__mul__', capture(lambda I, R: I.call(g('mul'), [R, val(I, n)(u)], {})), value=t.tup([pt, u]))
    C.spec('P / scalar value', EC + 'div', capture(lambda I, R: (lambda v: t.tup([v.args[0], t.mod(v.args[1], n)]))(I.call(g('div'), [R, val(I, n)(u)], {}))), value=t.tup([pt, t.modinv(u, n)]))


def roots(C):
    """Decompression by the field's own square root."""
    I = C.I
    p = P256[0]
    x = sym('x', 'int', lo=0, hi=p - 1)
    for flag in (0, 1):
        has, y, nzr = lift_x(x, const(flag))
        C.spec('decompress with parity %d' % flag, EC + 'decompress', lambda I: pointview(C, C.meth(p256ec(C), 'decompress', x, const(flag))),
               pre=band_all([has, nzr, t.bnot(t.eq0(curve_eq(x)))]), value=pointof(C, x, y))
