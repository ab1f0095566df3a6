"""Square roots modulo a prime: the value returned is a root of its argument with the requested parity, for the field
methods and the plain function, for primes of the residue classes the algorithms distinguish."""
from .common import *
from ..prog import Budget

RULE = 'sqrt(v)^2 == v (mod p) and sqrt(v) mod 2 == flag for every square v; sqrtCQ returns a root of a square, and nothing for a non-square'

P255 = 2 ** 255 - 19


def check(C):
    I = C.I
    FF = 'Cryptography.ECCurve:FiniteField.'
    CQ = 'Cryptography.ECCurve:sqrtCQ'
    field = lambda p: I.call(C.get('Cryptography.ECCurve:FiniteField'), [const(p)], {})
    for label, pv in (('P-256', P256[0]), ('a prime of 7 mod 8', 2 ** 127 - 1), ('a prime of 3 mod 8', 19)):
        p = const(pv)
        t.PRIMES.add(p)
        v = sym('v', 'int', lo=1, hi=pv - 1)
        r = t.powmod(v, const((pv + 1) // 4), p)
        square = t.band(t.eq0(t.mod(t.sub(t.mul(r, r), v), p)), t.bnot(t.eq0(r)))
        notsquare = t.bnot(t.eq0(t.mod(t.sub(t.mul(r, r), v), p)))
        val = lambda x: C.meth(field(pv), 'value', x)
        for flag in (0, 1):
            want = t.ite(t.eq0(t.sub(t.mod(r, const(2)), const(flag))), r, t.sub(p, r))
            C.spec('sqrt with parity %d modulo %s' % (flag, label), FF + 'sqrt', lambda I: I.getattr(C.meth(val(v), 'sqrt', const(flag)), 'value'), pre=square, value=want)
            C.spec('sqrt of zero with parity %d modulo %s' % (flag, label), FF + 'sqrt', lambda I: I.getattr(C.meth(val(const(0)), 'sqrt', const(flag)), 'value'), value=const(0))
        back = lambda q: t.mod(t.sub(t.mul(q, q), v), p)
        C.spec('sqrtCQ of a square squares back modulo %s' % label, CQ, lambda I: back(C.fn(CQ, v, p)), pre=square, value=const(0))
        C.spec('sqrtCQ of a non-square is absent modulo %s' % label, CQ, lambda I: C.fn(CQ, v, p), pre=notsquare, value=const(None))
        C.spec('sqrtCQ of zero modulo %s' % label, CQ, lambda I: C.fn(CQ, const(0), p), value=const(0))
        C.spec('sqrtCQ of a field value squares back modulo %s' % label, FF + 'Value.sqrtCQ', lambda I: back(I.getattr(C.meth(val(v), 'sqrtCQ', p), 'value')), pre=square, value=const(0))
        C.spec('sqrtCQ of a field value that is no square modulo %s' % label, FF + 'Value.sqrtCQ', lambda I: C.meth(val(v), 'sqrtCQ', p), pre=notsquare, value=const(None))
    # 5 mod 8: a root of v or 2v(4v)^k, depending on the fourth-power character of v
    for label, pv in (('2^255 - 19', P255), ('2^89 + 29', 2 ** 89 + 29)):
        p = const(pv)
        t.PRIMES.add(p)
        v = sym('v', 'int', lo=1, hi=pv - 1)
        val = lambda x: C.meth(field(pv), 'value', x)
        chi = t.powmod(v, const((pv - 1) // 4), p)
        k = const((pv - 5) // 8)
        roots = ((t.eq0(t.sub(chi, const(1))), t.powmod(v, const((pv + 3) // 8), p), 'first'),
                 (t.eq0(t.sub(chi, const(pv - 1))), t.mod(t.mul(t.mul(const(2), v), t.powmod(t.mul(const(4), v), k, p)), p), 'second'))
        for pre, r, case in roots:
            for flag in (0, 1):
                want = t.ite(t.eq0(t.sub(t.mod(r, const(2)), const(flag))), r, t.mod(t.neg(r), p))
                C.spec('sqrt with parity %d modulo %s, %s case' % (flag, label, case), FF + 'sqrt', lambda I: I.getattr(C.meth(val(v), 'sqrt', const(flag)), 'value'), pre=pre, value=want)
    for pv in (17, 2 ** 224 - 2 ** 96 + 1):
        v = sym('v', 'int', lo=1, hi=pv - 1)
        C.spec('sqrt modulo %d is not supported' % pv, FF + 'sqrt', lambda I: C.meth(C.meth(field(pv), 'value', v), 'sqrt', const(0)), ok=FALSE)
    for pv in (2 ** 224 - 2 ** 96 + 1, 13, 17):
        p = const(pv)
        t.PRIMES.add(p)
        v = sym('v', 'int', lo=1, hi=pv - 1)
        euler = t.powmod(v, const((pv - 1) // 2), p)
        C.spec('sqrtCQ of a non-square is absent modulo %d' % pv, CQ, lambda I: C.fn(CQ, v, p), pre=t.bnot(t.eq0(t.sub(euler, const(1)))), value=const(None))
        C.spec('sqrtCQ of zero modulo %d' % pv, CQ, lambda I: C.fn(CQ, const(0), p), value=const(0))
    lucas(C)
    lifted(C, field)


L = 'Cryptography.ECCurve:_lucas_sequence'


def lucas(C):
    """The modular Lucas sequences behind the general algorithm: U_k and V_k by their recurrence."""
    if C.I.get('neocore.' + L) is None:
        return
    p = const(2 ** 224 - 2 ** 96 + 1)
    P, Q = sym('P', 'int'), sym('Q', 'int')
    ks = list(range(0, 12)) + ([12, 13, 14, 15, 16, 17, 21, 32, 33] if C.tier == 'thorough' else [])
    u, v = [const(0), const(1)], [const(2), P]
    for k in range(max(ks)):
        u.append(t.sub(t.mul(P, u[-1]), t.mul(Q, u[-2])))
        v.append(t.sub(t.mul(P, v[-1]), t.mul(Q, v[-2])))
    some = t.bnot(t.eq0(t.sub(t.mul(P, P), t.mul(const(4), Q))))
    for k in ks:
        C.spec('term %d of the Lucas sequences' % k, L, lambda I: C.fn(L, p, P, Q, const(k)), pre=some, value=t.tup([t.mod(u[k], p), t.mod(v[k], p)]))


def lifted(C, field):
    """1 mod 4: whenever the Lucas sequence satisfies V^2 == 4v, as it does for a square v and an admissible P, half of V is the answer."""
    I = C.I
    CQ = 'Cryptography.ECCurve:sqrtCQ'
    for pv in (2 ** 224 - 2 ** 96 + 1, 2 ** 255 - 19):
        p = const(pv)
        w = sym('w', 'int', lo=1, hi=pv - 1)
        v = t.mod(t.mul(w, w), p)
        used, keep = [], dict(I.contracts)

        def contract(I, fo, args, kw):
            used.append(args)
            n = len(used)
            V = t.ite(t.ge0(t.sub(p, t.add(t.mul(const(2), w), const(1)))), t.mul(const(2), w), t.sub(t.mul(const(2), w), p))
            return t.tup([sym('U%d' % n, 'int', lo=0, hi=pv - 1), V])
        I.contracts['neocore.' + L] = contract
        I.contracts['neocore.Cryptography.ECCurve:next_random_integer'] = lambda I, fo, args, kw: sym('draw%d' % I.models.fresh(), 'int', lo=0)
        try:
            S0 = I.S
            euler = t.powmod(v, const((pv - 1) // 2), p)
            try:
                o = C.run(lambda I: C.fn(CQ, v, p))
            except Budget:
                o = None
            finally:
                I.S = S0
            if o is None or not used:
                C.notes.append('sqrtCQ modulo %d does not go through the Lucas sequence; its completeness is not decided' % pv)
                continue
            C.spec('sqrtCQ of a square is its root modulo %d' % pv, CQ, lambda I: C.fn(CQ, v, p), pre=t.eq0(t.sub(euler, const(1))), value=w)
        finally:
            I.contracts = keep
