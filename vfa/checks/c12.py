"""Arithmetic on big integers is the exact integer operation, yields big integers, and leaves comparison and sign to the
integers they denote."""
from .common import *

RULE = 'BigInteger(x) op y returns BigInteger of the exact integer result, for every x and y of either integer type'

SRC = '''
def op(how, x, y):
    if how == 'add':
        return x + y
    if how == 'sub':
        return x - y
    if how == 'mul':
        return x * y
    if how == 'div':
        return x / y
    if how == 'floordiv':
        return x // y
    if how == 'mod':
        return x % y
    if how == 'shl':
        return x << y
    if how == 'shr':
        return x >> y
    if how == 'neg':
        return -x
    if how == 'abs':
        return abs(x)
def aug(how, x, y):
    if how == 'add':
        x += y
    if how == 'sub':
        x -= y
    if how == 'mul':
        x *= y
    if how == 'div':
        x /= y
    if how == 'floordiv':
        x //= y
    if how == 'mod':
        x %= y
    if how == 'shl':
        x <<= y
    if how == 'shr':
        x >>= y
    return x
def cmp(x, y):
    return (x == y, x != y, x < y, x <= y, x > y, x >= y, x.Equals(y))
def chain(x, y, z):
    return -((x + y) * z) - abs(x) % z + (y << 3) // z
'''
METHOD = {'div': 'truediv', 'shl': 'lshift', 'shr': 'rshift'}


def check(C):
    I = C.I
    B = C.get('BigInteger:BigInteger').args[0]
    py = C.py(SRC, 'vspec12')
    x, y = sym('x', 'int'), sym('y', 'int')

    def inst(v):
        return t.lift(lambda u: t.mk('inst', (B, u), 'inst'), v)
    X = inst(x)
    val = {'add': t.add(x, y), 'sub': t.sub(x, y), 'mul': t.mul(x, y), 'div': t.idiv(x, y), 'floordiv': t.idiv(x, y),
           'mod': t.mod(x, y), 'shl': t.shl(x, y), 'shr': t.shr(x, y)}
    okd = {'div': t.bnot(t.eq0(y)), 'floordiv': t.bnot(t.eq0(y)), 'mod': t.bnot(t.eq0(y)), 'shl': t.ge0(y), 'shr': t.ge0(y)}
    for how, v in val.items():
        entry = 'BigInteger:BigInteger.__%s__' % METHOD.get(how, how)
        for what, Y in (('a big integer', inst(y)), ('an int', y)):
            for f in ('op', 'aug'):
                C.spec('%s%s with %s' % (how, '' if f == 'op' else ' in place', what), entry,
                       lambda I: I.call(py(f), [const(how), X, Y], {}), ok=okd.get(how, TRUE), value=inst(v))
        for what, Y in (('a list', None), ('None', const(None))):
            C.spec('%s with %s raises' % (how, what), entry, lambda I: I.call(py('op'), [const(how), X, Y if Y is not None else I.new_list([])], {}), ok=FALSE)
    for how, v in (('neg', t.neg(x)), ('abs', t.ite(t.ge0(x), x, t.neg(x)))):
        C.spec(how, 'BigInteger:BigInteger.__%s__' % how, lambda I: I.call(py('op'), [const(how), X, const(0)], {}), value=inst(v))
    d = t.sub(x, y)
    e = t.eq0(d)
    cmp = t.tup([e, t.bnot(e), t.ge0(t.sub(t.neg(d), t.ONE)), t.ge0(t.neg(d)), t.ge0(t.sub(d, t.ONE)), t.ge0(d), e])
    for what, Y in (('a big integer', inst(y)), ('an int', y)):
        C.spec('comparison with %s' % what, 'BigInteger:BigInteger.Equals', lambda I: I.call(py('cmp'), [X, Y], {}), value=cmp)
    C.spec('sign', 'BigInteger:BigInteger.Sign', lambda I: I.getattr(X, 'Sign'),
           value=t.ite(t.eq0(x), t.ZERO, t.ite(t.ge0(x), t.ONE, const(-1))))
    C.spec('text', 'BigInteger:BigInteger.__str__', lambda I: I.call(I.getattr(X, '__str__'), [], {}), value=I.models.str_(x))
    z = sym('z', 'int', lo=1)
    C.spec('a chain of operations stays a big integer', 'BigInteger:BigInteger.__add__',
           lambda I: cls_of(C, I.call(py('chain'), [X, inst(y), inst(z)], {})), value=klass(C, 'BigInteger:BigInteger'))
    for name, v in (('ZERO', 0), ('ONE', 1)):
        C.spec('constant %s' % name, 'BigInteger:%s' % name, lambda I: C.get('BigInteger:%s' % name), value=inst(const(v)))
