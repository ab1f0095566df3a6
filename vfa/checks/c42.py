"""Bit and byte helpers: the byte swap of 32-bit integers, the fixed-width binary texts and the bit test are exact for
every integer of their domain."""
from .common import *

RULE = 'swap32(i) has the bytes of i in the other order; the binary text is the n low bits of the value, most significant first; test_bit(x, k) == bit k of x'


def check(C):
    I = C.I
    W = 'IO.BinaryWriter:'
    i = sym('i', 'int')
    C.spec('swap32', W + 'swap32', lambda I: C.fn(W + 'swap32', i), ok=between(i, 0, 2 ** 32 - 1), value=t.be(t.rev(t.i2b(i, const(4)))))
    u = sym('u', 'int', lo=0, hi=2 ** 32 - 1)
    C.spec('swap32 is its own inverse', W + 'swap32', lambda I: C.fn(W + 'swap32', C.fn(W + 'swap32', u)), value=u)
    for f, bits in (('convert_to_uint160', 20), ('convert_to_uint256', 32)):
        v = sym('v', 'int', lo=0, hi=2 ** bits - 1)
        C.spec('%s of %d bits' % (f, bits), W + f, lambda I: C.fn(W + f, v), value=t.astr(t.binl(v, bits)))
    T = 'Cryptography.ECCurve:test_bit'
    x = sym('x', 'int', lo=0)
    for k in (0, 1, 2, 7, 8, 31, 63, 64, 255, 256):
        C.spec('bit %d' % k, T, lambda I: C.fn(T, x, const(k)), value=t.bnot(t.eq0(t.mod(t.idiv(x, const(1 << k)), const(2)))))
    H = 'Cryptography.Helper:'
    for ln in (1, 32):
        a, b = sym('a', 'bytes', length=ln), sym('b', 'bytes', length=ln)
        C.spec('xor of %d bytes' % ln, H + 'xor_bytes', lambda I: C.fn(H + 'xor_bytes', a, b), value=xorb(a, b, ln))
    a, b = sym('a', 'bytes', length=32), sym('b', 'bytes', length=31)
    C.spec('xor of different lengths', H + 'xor_bytes', lambda I: C.fn(H + 'xor_bytes', a, b), ok=FALSE)
    C.spec('xor of different lengths', H + 'xor_bytes', lambda I: C.fn(H + 'xor_bytes', b, a), ok=FALSE)
