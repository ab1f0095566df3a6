"""Decoders of public keys accept exactly the well-formed encodings of points on the curve."""
from .common import *

RULE = ('accepted == (00) or (02|03 X with X < p and a point above X) or (04 X Y with X, Y < p and Y^2 = X^3 + aX + b mod p), of exactly that length; '
        'the result is that point; everything else raises')


def check(C):
    I = C.I
    EC = 'Cryptography.ECCurve:'
    p = P256[0]
    G = lambda e: I.getattr(e, 'G')
    below = lambda v: t.ge0(t.sub(const(p - 1), v))
    eqn = lambda v, n: t.eq0(t.sub(v, const(n)))

    def conj(*xs):
        r = TRUE
        for x in reversed(xs):
            r = t.band(x, r)
        return r

    def compressed(b):
        """(well-formed, (x, y), nondegenerate) of 02|03 X at the start of b."""
        f = t.byte_at(b, const(0))
        x = t.be(t.subseq(b, const(1), const(33)))
        has, y0, nz = lift_x(x, const(0))
        _, y1, _ = lift_x(x, const(1))
        return conj(t.bor(eqn(f, 2), eqn(f, 3)), below(x), has), x, t.ite(eqn(f, 2), y0, y1), nz

    def plain(xy, onc):
        x, y = t.be(t.subseq(xy, const(0), const(32))), t.be(t.subseq(xy, const(32), const(64)))
        on = t.eq0(t.mod(t.sub(t.mul(y, y), curve_eq(x)), const(p)))
        return conj(below(x), below(y), t.bnot(t.band(t.eq0(x), t.eq0(y))), on if onc else TRUE), x, y
    D = lambda *a: G(C.fn(EC + 'ECDSA.decode_secp256r1', *a))
    H = lambda *a: C.meth(p256ec(C), 'decode_from_hex', *a)
    F = lambda b: G(C.fn(EC + 'ECDSA.FromBytes_Secp256r1', b))
    R = lambda b: C.fn(EC + 'ECDSA.Deserialize_Secp256r1', C.reader(b))
    dec, dfh, fby, dsr = EC + 'ECDSA.decode_secp256r1', EC + 'EllipticCurve.decode_from_hex', EC + 'ECDSA.FromBytes_Secp256r1', EC + 'ECDSA.Deserialize_Secp256r1'
    # every length that carries a payload, with every content
    b33, b65 = sym('b33', 'bytes', length=33), sym('b65', 'bytes', length=65)
    cok, cx, cy, nz = compressed(b33)
    f65 = t.byte_at(b65, const(0))
    raw = [('decode_secp256r1 of raw bytes', dec, lambda b: D(b, FALSE), True),
           ('decode_secp256r1 of hexadecimal text', dec, lambda b: D(t.astr(t.hexl(b))), True),
           ('decode_secp256r1 of a bytearray', dec, lambda b: D(I.new_bytearray(b), FALSE), True),
           ('FromBytes_Secp256r1', fby, F, True),
           ('decode_secp256r1 without the curve check', dec, lambda b: D(b, FALSE, FALSE), False),
           ('decode_from_hex', dfh, lambda b: H(b, FALSE), False)]
    for name, site, call, onc in raw:
        C.spec('%s of any 33 bytes' % name, site, lambda I: pointview(C, call(b33)), pre=nz, ok=cok, value=pointof(C, cx, cy))
        g, x, y = plain(t.subseq(b65, const(1), const(65)), onc)
        C.spec('%s of any 65 bytes' % name, site, lambda I: pointview(C, call(b65)), ok=t.band(eqn(f65, 4), g), value=pointof(C, x, y))
        # every other length
        b = sym('b', 'bytes')
        L = t.length(b)
        sizes = (33, 65) + ((64, 72, 96, 104) if call is F else ())
        other = conj(*[t.bnot(eqn(L, n)) for n in sizes])
        if call is F:
            C.spec('%s of any other length' % name, site, lambda I: call(b), pre=other, ok=FALSE)
        else:
            C.spec('%s of any other length' % name, site, lambda I: pointview(C, call(b)), pre=other, ok=t.band(eqn(L, 1), t.lift(lambda n: eqn(t.byte_at(b, const(0)), 0), L)), value=pointof(C, const(0), const(0)))
    for n, pre in ((64, 0), (72, 8), (96, 0), (104, 8)):
        b = sym('b%d' % n, 'bytes', length=n)
        g, x, y = plain(t.subseq(b, const(pre), const(pre + 64)), True)
        C.spec('FromBytes_Secp256r1 of any %d bytes' % n, fby, lambda I: pointview(C, F(b)), ok=g, value=pointof(C, x, y))
    # text that is not hexadecimal
    for ty in ('str', 'bytes'):
        s = sym('text', ty)
        C.spec('decode_secp256r1 of a text (%s) that is not hexadecimal' % ty, dec, lambda I: D(s), pre=t.bnot(t.ishex(s)), ok=FALSE)
        C.spec('decode_from_hex of a text (%s) that is not hexadecimal' % ty, dfh, lambda I: H(s), pre=t.bnot(t.ishex(s)), ok=FALSE)
    # streams
    f = t.byte_at(IN, const(0))
    cok, cx, cy, nz = compressed(IN)
    for name, site, call in (('Deserialize_Secp256r1', dsr, R), ('decode_from_reader', EC + 'EllipticCurve.decode_from_reader', lambda b: C.meth(p256ec(C), 'decode_from_reader', C.reader(b)))):
        C.spec('%s of 33 bytes or more' % name, site, lambda I: pointview(C, call(IN)), pre=t.band(atleast(33), nz), ok=t.bor(eqn(f, 0), cok),
               value=t.ite(eqn(f, 0), pointof(C, const(0), const(0)), pointof(C, cx, cy)))
        C.spec('%s of a shorter stream' % name, site, lambda I: pointview(C, call(IN)), pre=t.bnot(atleast(33)), ok=t.band(atleast(1), t.lift(lambda n: eqn(f, 0), LEN)),
               value=pointof(C, const(0), const(0)))
    # the curve equation itself
    x, y = (sym(n, 'int', lo=0, hi=p - 1) for n in 'xy')
    on = t.eq0(t.mod(t.sub(t.mul(y, y), curve_eq(x)), const(p)))
    C.spec('isoncurve is the curve equation', EC + 'EllipticCurve.isoncurve', lambda I: I.truth(C.meth(p256point(C, x, y), 'isoncurve')), value=t.bor(t.band(t.eq0(x), t.eq0(y)), on))
