"""Hash values are totally ordered as the little-endian integers they denote, at every byte position, and only values
of one width compare."""
from .common import *

RULE = 'CompareTo and < <= > >= have the sign of int(x) - int(y), little-endian; other operands raise'

SRC = '''
def five(x, y):
    return (x.CompareTo(y) > 0, x.CompareTo(y) < 0, x.CompareTo(y) == 0, x < y, x <= y, x > y, x >= y)
def op(x, y, how):
    if how == 0:
        return x.CompareTo(y)
    if how == 1:
        return x < y
    if how == 2:
        return x <= y
    if how == 3:
        return x > y
    return x >= y
'''
OPS = ('CompareTo', '__lt__', '__le__', '__gt__', '__ge__')


def verdict(sign):
    return t.tup([const(v) for v in (sign > 0, sign < 0, sign == 0, sign < 0, sign <= 0, sign > 0, sign >= 0)])


def check(C):
    py = C.py(SRC, 'vspec10')
    base = 'UIntBase:UIntBase.'
    for bits in (160, 256):
        n = bits // 8
        for k in range(n):
            lo = lambda c: sym('%s_low' % c, 'bytes', length=k)
            a, b = sym('a', 'int', lo=0, hi=255), sym('b', 'int', lo=0, hi=255)
            sh = sym('shared', 'bytes', length=n - 1 - k)
            x = t.cat([lo('x'), t.i2b(a, t.ONE, False), sh])
            y = t.cat([lo('y'), t.i2b(b, t.ONE, False), sh])
            for sign in (1, -1):
                C.spec('UInt%d differing first at byte %d from the top, %s' % (bits, n - 1 - k, 'greater' if sign > 0 else 'less'),
                       base + 'CompareTo', lambda I: I.call(py('five'), [C.uint(bits, x), C.uint(bits, y)], {}),
                       pre=t.ge0(t.sub(t.sub(a, b) if sign > 0 else t.sub(b, a), t.ONE)), value=verdict(sign))
        z = sym('z', 'bytes', length=n)
        C.spec('UInt%d equal values' % bits, base + 'CompareTo',
               lambda I: I.call(py('five'), [C.uint(bits, z), C.uint(bits, z)], {}), value=verdict(0))
        v = sym('v', 'bytes', length=52 - n)
        for i, m in enumerate(OPS):
            C.spec('UInt%d against the other width raises' % bits, base + m,
                   lambda I: I.call(py('op'), [C.uint(bits, z), C.uint(416 - bits, v), const(i)], {}), ok=FALSE)
            for what, other in (('bytes', z), ('None', const(None)), ('an integer', sym('i', 'int')), ('text', sym('s', 'str'))):
                C.spec('UInt%d against %s raises' % (bits, what), base + m,
                       lambda I: I.call(py('op'), [C.uint(bits, z), other, const(i)], {}), ok=FALSE)
