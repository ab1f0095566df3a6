"""Public keys are encoded as SEC1 says, and every decoder maps an encoding back to its point."""
from .common import *

RULE = ('encode(x, y) == 02|03 by the parity of y ++ i2b(x, 32), or 04 ++ i2b(x, 32) ++ i2b(y, 32); decode of these forms == (x, y), '
        'y being the root of x^3+ax+b with that parity')


def decoders(C, form):
    """(name, site, driver on the raw encoding -> point) for encodings of one form: 'c'ompressed, 'u'ncompressed, 'i'nfinity."""
    EC = 'Cryptography.ECCurve:'
    I = C.I
    G = lambda e: I.getattr(e, 'G')
    D = lambda *a: G(C.fn(EC + 'ECDSA.decode_secp256r1', *a))
    H = lambda *a: C.meth(p256ec(C), 'decode_from_hex', *a)
    F = lambda b: G(C.fn(EC + 'ECDSA.FromBytes_Secp256r1', b))
    hx, tx = t.hexl, lambda b: t.astr(t.hexl(b))
    ba = lambda b: I.new_bytearray(b)
    out = [('decode_secp256r1 of text', EC + 'ECDSA.decode_secp256r1', lambda b: D(tx(b))),
           ('decode_secp256r1 of hexadecimal bytes', EC + 'ECDSA.decode_secp256r1', lambda b: D(hx(b))),
           ('decode_secp256r1 of raw bytes', EC + 'ECDSA.decode_secp256r1', lambda b: D(b, FALSE)),
           ('decode_secp256r1 of a raw bytearray', EC + 'ECDSA.decode_secp256r1', lambda b: D(ba(b), FALSE)),
           ('decode_secp256r1 without the curve check', EC + 'ECDSA.decode_secp256r1', lambda b: D(tx(b), TRUE, FALSE)),
           ('decode_from_hex of text', EC + 'EllipticCurve.decode_from_hex', lambda b: H(tx(b))),
           ('decode_from_hex of raw bytes', EC + 'EllipticCurve.decode_from_hex', lambda b: H(b, FALSE))]
    if form != 'i':
        out += [('FromBytes_Secp256r1', EC + 'ECDSA.FromBytes_Secp256r1', F),
                ('FromBytes_Secp256r1 of a bytearray', EC + 'ECDSA.FromBytes_Secp256r1', lambda b: F(ba(b)))]
    if form == 'u':
        cut1 = lambda b: t.subseq(b, const(1), const(65))
        for n, pre, post in ((64, 0, 0), (72, 8, 0), (96, 0, 32), (104, 8, 32)):
            w = lambda b, n=n, pre=pre, post=post: t.cat([sym('pre%d' % n, 'bytes', length=pre)] * bool(pre) + [cut1(b)] + [sym('post%d' % n, 'bytes', length=post)] * bool(post), 'bytes')
            out += [('FromBytes_Secp256r1 of %d bytes' % n, EC + 'ECDSA.FromBytes_Secp256r1', lambda b, w=w: F(w(b)))]
    if form != 'u':
        out += [('Deserialize_Secp256r1', EC + 'ECDSA.Deserialize_Secp256r1', lambda b: C.fn(EC + 'ECDSA.Deserialize_Secp256r1', C.reader(b))),
                ('decode_from_reader', EC + 'EllipticCurve.decode_from_reader', lambda b: C.meth(p256ec(C), 'decode_from_reader', C.reader(b)))]
    return out


def check(C):
    I = C.I
    EC = 'Cryptography.ECCurve:'
    EP = EC + 'EllipticCurve.ECPoint.'
    p = P256[0]
    x, y = (sym(n, 'int', lo=0, hi=p - 1) for n in 'xy')
    finite = t.bnot(t.band(t.eq0(x), t.eq0(y)))
    X, Y = (t.i2b(v, const(32), False) for v in (x, y))
    par = lambda v: t.ite(t.eq0(t.mod(v, const(2))), const(b'\x02'), const(b'\x03'))
    comp = lambda v: t.cat([par(y), X], 'bytes')
    unc = t.cat([const(b'\x04'), X, Y], 'bytes')
    comp = t.lift(lambda h: t.cat([h, X], 'bytes'), par(y))
    hexof = lambda b: t.lift(t.hexl, b)
    P = lambda: p256point(C, x, y)
    inf = lambda: I.getattr(p256ec(C), 'Infinity')
    # encoding
    for name, args, want in (('default', (), comp), ('compressed', (TRUE,), comp), ('uncompressed', (FALSE,), unc)):
        C.spec('encode_point, %s' % name, EP + 'encode_point', lambda I: I.content(C.meth(P(), 'encode_point', *args)), pre=finite, value=hexof(want))

        def ser(I):
            st = C.stream()
            w = I.call(C.get('IO.BinaryWriter:BinaryWriter'), [st], {})
            C.meth(st, 'write', OLD)
            C.meth(P(), 'Serialize', w, *args)
            return I.content(st)
        C.spec('Serialize, %s' % name, EP + 'Serialize', ser, pre=finite, value=t.lift(lambda b: t.cat([OLD, b], 'bytes'), want))

    def ser0(I):
        st = C.stream()
        w = I.call(C.get('IO.BinaryWriter:BinaryWriter'), [st], {})
        C.meth(inf(), 'Serialize', w)
        return I.content(st)
    C.spec('Serialize of infinity', EP + 'Serialize', ser0, value=const(b'\0'))
    C.spec('encode_point of infinity', EP + 'encode_point', lambda I: I.content(C.meth(inf(), 'encode_point')), value=const(b'\0'))
    C.spec('the keyword of encode_point', EP + 'encode_point', lambda I: I.content(C.meth(P(), 'encode_point', compressed=FALSE)), pre=finite, value=hexof(unc))
    # the point of a key pair's public key has the encoding the key pair uses
    # decoding
    xb = sym('X', 'bytes', length=32)
    yb = sym('Y', 'bytes', length=32)
    xi, yi = t.be(xb), t.be(yb)
    inrange = lambda v: t.ge0(t.sub(const(p - 1), v))
    for name, site, call in decoders(C, 'c'):
        for flag in (0, 1):
            has, root, nz = lift_x(xi, const(flag))
            pre = t.band(inrange(xi), t.band(has, nz))
            C.spec('%s of %02x X' % (name, 2 + flag), site, lambda I: pointview(C, call(t.cat([const(bytes([2 + flag])), xb], 'bytes'))), pre=pre, value=pointof(C, xi, root))
    onc = t.eq0(t.mod(t.sub(t.mul(yi, yi), curve_eq(xi)), const(p)))
    pre = t.band(inrange(xi), t.band(inrange(yi), t.band(onc, t.bnot(t.band(t.eq0(xi), t.eq0(yi))))))
    for name, site, call in decoders(C, 'u'):
        C.spec('%s of 04 X Y' % name, site, lambda I: pointview(C, call(t.cat([const(b'\x04'), xb, yb], 'bytes'))), pre=pre, value=pointof(C, xi, yi))
    for name, site, call in decoders(C, 'i'):
        C.spec('%s of 00' % name, site, lambda I: pointview(C, call(const(b'\0'))), value=pointof(C, const(0), const(0)))
    # the stream decoder consumes exactly the encoding
    has, root, nz = lift_x(xi, const(0))
    tail = sym('tail', 'bytes')

    def consumed(I, enc):
        st = C.stream(t.cat([enc, tail], 'bytes'))
        r = I.call(C.get('IO.BinaryReader:BinaryReader'), [st], {})
        C.fn(EC + 'ECDSA.Deserialize_Secp256r1', r)
        return C.meth(st, 'read')
    C.spec('Deserialize_Secp256r1 consumes 33 bytes', EC + 'ECDSA.Deserialize_Secp256r1', lambda I: consumed(I, t.cat([const(b'\2'), xb], 'bytes')), pre=t.band(inrange(xi), t.band(has, nz)), value=tail)
    C.spec('Deserialize_Secp256r1 consumes one byte of infinity', EC + 'ECDSA.Deserialize_Secp256r1', lambda I: consumed(I, const(b'\0')), value=tail)
