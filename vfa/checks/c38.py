"""ECDSA: signing, verification and the recovery formulas modulo the group order, over abstract curve points."""
from .common import *
from .field import Egcd
from ..spec import band_all

RULE = 'sign == (x(kG) mod n, (m + x r)/k mod n); verify <=> 0 < r, s < n and x(m/s G + r/s Y) = r mod n; findpk, findpk2, crack1, crack2 == their formulas mod n'
EC = 'Cryptography.ECCurve:'
Q = 'neocore.Cryptography.ECCurve:EllipticCurve.'


def check(C):
    I = C.I
    Egcd(C)
    p, nn = P256[0], P256[1]
    n = const(nn)
    t.PRIMES.add(n)
    t.PRIMES.add(const(p))
    md, inv = lambda v: t.mod(v, n), lambda v: t.modinv(v, n)
    G, Y = sym('G', 'int', lo=1, hi=nn - 1), sym('Y', 'int', lo=1, hi=nn - 1)

    # A point of the group is represented by an integer (its multiple of a generator); n is the prime order of every point but infinity.
    # The coordinates are unknown functions of that integer.
    made = {}

    def coord(w, e):
        e = can(md(e))
        if e is const(0):
            return e
        v = sym('%s<%s>' % (w, names.setdefault(e, len(names))), 'int', lo=0, hi=p - 1)
        made[v] = e
        return v
    can = lambda v: t.cancel_inverses(v, n)
    names = {}

    def combo(I, P):
        x = I.restrict(I.getattr(I.getattr(P, 'x'), 'value'))
        if x is const(0):
            return const(0)
        if x.op == 'ite':
            return t.lift(lambda z: made[z] if z in made else const(0), x)
        return made[x]

    def point(I, e):
        return t.lift(lambda e: C.meth(p256ec(C), 'point', coord('x', e), coord('y', e)), e) if e.op == 'ite' else \
            C.meth(p256ec(C), 'point', coord('x', e), coord('y', e))

    def scalar(I, k):
        k = I.restrict(k)
        if k.op == 'ite':
            return t.ite(k.args[0], scalar(I, k.args[1]), scalar(I, k.args[2]))
        return I.getattr(k, 'value') if k.op == 'ref' else k

    def con(f):
        def h(I, fo, args, kw):
            if kw:
                return None
            try:
                return f(*args[1:])
            except (KeyError, TypeError):
                return None
        return h

    def c_decompress(x, flag):
        return point(I, sym('point<%d,%s>' % (names.setdefault(('d', scalar(I, x), flag), len(names)), t.show(flag)), 'int', lo=0, hi=nn - 1))
    mine = {
        Q + 'mul': con(lambda P, k: point(I, t.mul(scalar(I, k), combo(I, P)))),
        Q + 'add': con(lambda P, R: point(I, t.add(combo(I, P), combo(I, R)))),
        Q + 'sub': con(lambda P, R: point(I, t.sub(combo(I, P), combo(I, R)))),
        Q + 'neg': con(lambda P: point(I, t.neg(combo(I, P)))),
        Q + 'decompress': con(c_decompress), Q + 'decompress_from_curve': con(c_decompress),
    }

    def run(drv):
        def f(I):
            d = C.fn(EC + 'ECDSA', p256ec(C), point(I, G), n)
            keep = dict(I.contracts)
            I.contracts.update(mine)
            try:
                return drv(d)
            finally:
                I.contracts = keep
        return f

    def pair(v):
        return t.tup([num(x) for x in v.args])

    def num(v, red=True):
        return can(I.getattr(v, 'value'))
    m, x, k, r, s = (sym(a, 'int') for a in 'mxkrs')
    rr, ss = (sym(a, 'int', lo=1, hi=nn - 1) for a in ('r', 's'))
    E = EC + 'ECDSA.'
    view = lambda P: can(combo(I, P))
    X = lambda e: coord('x', e)
    wf = EC + 'FiniteField.'
    gfn = lambda v: C.meth(C.I.call(C.get('Cryptography.ECCurve:FiniteField'), [n], {}), 'value', v)
    forms = (('integers', lambda v: v), ('scalar values', gfn))
    for what, w in forms:
        C.spec('public key of %s' % what, E + 'calcpub', run(lambda d: view(C.meth(d, 'calcpub', w(x)))), value=can(md(t.mul(x, G))))
        rx = md(X(t.mul(k, G)))
        C.spec('signature of %s' % what, E + 'sign', run(lambda d: pair(C.meth(d, 'sign', w(m), w(x), w(k)))), pre=t.bnot(t.eq0(md(k))),
               value=t.tup([can(rx), can(md(t.mul(t.add(m, t.mul(x, rx)), inv(k))))]))
        inr = band_all([t.ge0(t.sub(r, const(1))), t.ge0(t.sub(const(nn - 1), r)), t.ge0(t.sub(s, const(1))), t.ge0(t.sub(const(nn - 1), s))])
        R = X(t.mul(inv(s), t.add(t.mul(m, G), t.mul(r, Y))))
        C.spec('verification of %s' % what, E + 'verify', run(lambda d: I.truth(C.meth(d, 'verify', w(m), point(I, Y), w(r), w(s)))),
               value=t.band(inr, t.eq0(md(t.sub(R, r)))))
        RP = lambda i, f: sym('point<%d,%d>' % (names.setdefault(('d', i, const(f)), len(names)), f), 'int', lo=0, hi=nn - 1)
        for f in (0, 1):
            C.spec('public key from a signature of %s, parity %d' % (what, f), E + 'findpk', run(lambda d: view(C.meth(d, 'findpk', w(m), w(rr), w(ss), const(f)))),
                   value=can(md(t.mul(inv(rr), t.sub(t.mul(ss, RP(rr, f)), t.mul(m, G))))))
        r2, s2 = sym('r2', 'int', lo=1, hi=nn - 1), sym('s2', 'int', lo=1, hi=nn - 1)
        for f in (0, 1):
            for h in (0, 1):
                C.spec('public key from two signatures of %s, parities %d %d' % (what, f, h), E + 'findpk2',
                       run(lambda d: view(C.meth(d, 'findpk2', w(rr), w(ss), w(r2), w(s2), const(f), const(h)))), pre=t.bnot(t.eq0(md(t.sub(rr, r2)))),
                       value=can(md(t.mul(inv(t.sub(rr, r2)), t.sub(t.mul(ss, RP(rr, f)), t.mul(s2, RP(r2, h)))))))
        C.spec('private key from the nonce, %s' % what, E + 'crack1', run(lambda d: num(C.meth(d, 'crack1', w(r), w(s), w(m), w(k)))),
               pre=t.bnot(t.eq0(md(r))), value=can(md(t.mul(inv(r), t.sub(t.mul(s, k), m)))))
        m2 = sym('m2', 'int')
        kk = md(t.mul(inv(t.sub(ss, s2)), t.sub(m, m2)))
        C.spec('private key from a repeated nonce, %s' % what, E + 'crack2', run(lambda d: pair(C.meth(d, 'crack2', w(rr), w(ss), w(s2), w(m), w(m2)))),
               pre=t.bnot(t.eq0(md(t.sub(ss, s2)))), value=t.tup([can(kk), can(md(t.mul(inv(rr), t.sub(t.mul(ss, kk), m))))]))
        # what sign makes, verify takes
        rx, e = md(X(t.mul(k, G))), md(t.add(m, t.mul(x, md(X(t.mul(k, G))))))
        C.spec('a signature of %s verifies' % what, E + 'verify', run(lambda d: (lambda v: I.truth(C.meth(d, 'verify', w(m), C.meth(d, 'calcpub', w(x)), v.args[0], v.args[1])))(
            C.meth(d, 'sign', w(m), w(x), w(k)))), pre=band_all([t.bnot(t.eq0(v)) for v in (md(k), rx, e, md(t.mul(e, inv(k))))]), value=TRUE)
