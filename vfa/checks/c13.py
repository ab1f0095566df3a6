"""Big integers convert to little-endian two's-complement bytes and back without loss, and decode any byte string with the
requested signedness."""
from .common import *

RULE = 'FromBytes(x.ToByteArray(), signed=True) == x for every x; unsigned decoding is lossless for x >= 0; FromBytes(b) is the little-endian value of b'

SRC = '''
from neocore.BigInteger import BigInteger
def there(x, how):
    if how == 0:
        return BigInteger.FromBytes(x.ToByteArray(), signed=True)
    if how == 1:
        return BigInteger.FromBytes(x.ToByteArray())
    if how == 2:
        return BigInteger.FromBytes(x.ToByteArray(signed=False))
    return len(x.ToByteArray())
def raw(x, signed):
    b = x.ToByteArray(signed)
    return (int.from_bytes(b, 'little', signed=signed), type(b) is bytes or type(b) is bytearray)
'''


def check(C):
    I = C.I
    B = C.get('BigInteger:BigInteger').args[0]
    py = C.py(SRC, 'vspec13')
    x = sym('x', 'int')
    inst = lambda v: t.lift(lambda u: t.mk('inst', (B, u), 'inst'), v)
    enc, dec = 'BigInteger:BigInteger.ToByteArray', 'BigInteger:BigInteger.FromBytes'
    nonneg = t.ge0(x)
    C.spec('decode(encode) signed', enc, lambda I: I.call(py('there'), [inst(x), const(0)], {}), value=inst(x))
    C.spec('decode(encode) unsigned, non-negative', enc, lambda I: I.call(py('there'), [inst(x), const(1)], {}), pre=nonneg, value=inst(x))
    C.spec('decode(unsigned encode), non-negative', enc, lambda I: I.call(py('there'), [inst(x), const(2)], {}), pre=nonneg, value=inst(x))
    C.spec('bytes are the two\'s complement', enc, lambda I: I.call(py('raw'), [inst(x), TRUE], {}), value=t.tup([x, TRUE]))
    C.spec('bytes are the unsigned magnitude', enc, lambda I: I.call(py('raw'), [inst(x), FALSE], {}), pre=nonneg, value=t.tup([x, TRUE]))
    L = t.bitlen(x)
    pos = t.ge0(t.sub(x, t.ONE))
    C.spec('one extra byte exactly when the top bit would read as a sign', enc, lambda I: I.call(py('there'), [inst(x), const(3)], {}),
           pre=pos, value=t.add(t.ONE, t.idiv(L, const(8))))
    C.spec('zero is one zero byte', enc, lambda I: C.meth(inst(const(0)), 'ToByteArray'), value=const(b'\x00'))
    for ty in ('bytes', 'bytearray'):
        b = sym('b', 'bytes')
        arg = lambda: b if ty == 'bytes' else I.new_bytearray(b)
        rev = t.rev(b)
        C.spec('decode unsigned %s' % ty, dec, lambda I: C.fn('BigInteger:BigInteger.FromBytes', arg()), value=inst(t.be(rev)))
        C.spec('decode signed %s' % ty, dec, lambda I: C.fn('BigInteger:BigInteger.FromBytes', arg(), TRUE), value=inst(t.bes(rev)))
        C.spec('decode signed keyword %s' % ty, dec, lambda I: C.fn('BigInteger:BigInteger.FromBytes', arg(), signed=TRUE), value=inst(t.bes(rev)))
