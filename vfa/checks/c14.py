"""Fixed-point arithmetic and comparison is exact integer arithmetic on the raw values; nothing passes through floating
point."""
from .common import *

RULE = 'raw(a op b) == raw(a) op raw(b) over the integers, as a new amount; comparisons are those of the raw values'

SRC = '''
def op(how, x, y):
    if how == 'add':
        return x + y
    if how == 'sub':
        return x - y
    if how == 'mul':
        return x * y
    if how == 'truediv':
        return x / y
    if how == 'floordiv':
        return x // y
    if how == 'mod':
        return x % y
    if how == 'pow':
        return x ** y
    return -x
def aug(how, x, y):
    if how == 'add':
        x += y
    if how == 'sub':
        x -= y
    if how == 'mul':
        x *= y
    if how == 'truediv':
        x /= y
    if how == 'floordiv':
        x //= y
    if how == 'mod':
        x %= y
    if how == 'pow':
        x **= y
    return x
def keep(f, how, x, y):
    a, b = x.value, y.value
    z = f(how, x, y)
    return (z, z is x, z is y, x.value - a, y.value - b)
def cmp(x, y):
    return (x == y, x != y, x < y, x <= y, x > y, x >= y)
'''


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec14')
    x, y = sym('x', 'int'), sym('y', 'int')
    F = lambda v: C.fn('Fixed8:Fixed8', v)
    K = klass(C, 'Fixed8:Fixed8')
    out = lambda r: t.tup([cls_of(C, r), I.getattr(r, 'value'), C.meth(r, 'GetData')])
    amount = lambda v: t.lift(lambda u: t.tup([K, u, u]), v)
    absx, absy = (t.ite(t.ge0(v), v, t.neg(v)) for v in (x, y))
    q = t.idiv(absx, absy)
    val = {'add': t.add(x, y), 'sub': t.sub(x, y), 'mul': t.mul(x, y), 'floordiv': t.idiv(x, y), 'mod': t.mod(x, y),
           'truediv': t.ite(t.ge0(x), t.ite(t.ge0(y), q, t.neg(q)), t.ite(t.ge0(y), t.neg(q), q))}
    nz = t.bnot(t.eq0(y))

    def new(I, f, how):
        r = I.call(py('keep'), [py(f), const(how), F(x), F(y)], {})
        return t.lift(lambda r: t.tup(list(r.args[1:])), r)
    for how, v in val.items():
        for f in ('op', 'aug'):
            C.spec('%s%s' % (how, '' if f == 'op' else ' in place'), 'Fixed8:Fixed8.__%s__' % how,
                   lambda I: out(I.call(py(f), [const(how), F(x), F(y)], {})),
                   ok=nz if how in ('floordiv', 'mod', 'truediv') else TRUE, value=amount(v))
            C.spec('%s%s gives a new amount' % (how, '' if f == 'op' else ' in place'), 'Fixed8:Fixed8.__%s__' % how,
                   lambda I: new(I, f, how), ok=nz if how in ('floordiv', 'mod', 'truediv') else TRUE,
                   value=t.tup([FALSE, FALSE, t.ZERO, t.ZERO]))
    C.spec('neg gives a new amount', 'Fixed8:Fixed8.__neg__', lambda I: new(I, 'op', 'neg'), value=t.tup([FALSE, FALSE, t.ZERO, t.ZERO]))
    C.spec('neg', 'Fixed8:Fixed8.__neg__', lambda I: out(I.call(py('op'), [const('neg'), F(x), F(y)], {})), value=amount(t.neg(x)))
    for n in range(0, 6):
        C.spec('pow %d' % n, 'Fixed8:Fixed8.__pow__', lambda I: out(I.call(py('op'), [const('pow'), F(x), F(const(n))], {})),
               value=amount(t.power(x, n)))
    k = sym('k', 'int', lo=0)
    C.spec('pow of any exponent', 'Fixed8:Fixed8.__pow__', lambda I: out(I.call(py('op'), [const('pow'), F(x), F(k)], {})), value=amount(t.ipow(x, k)))
    m = sym('m', 'int', lo=1)
    C.spec('pow of any exponent with a modulus', 'Fixed8:Fixed8.__pow__', lambda I: out(C.meth(F(x), '__pow__', F(k), m)), value=amount(t.powmod(x, k, m)))
    d = t.sub(x, y)
    e = t.eq0(d)
    C.spec('comparison', 'Fixed8:Fixed8.__lt__', lambda I: I.call(py('cmp'), [F(x), F(y)], {}),
           value=t.tup([e, t.bnot(e), t.ge0(t.sub(t.neg(d), t.ONE)), t.ge0(t.neg(d)), t.ge0(t.sub(d, t.ONE)), t.ge0(d)]))
    for name, v in (('FD', 10 ** 8), ('One', 10 ** 8), ('Satoshi', 1), ('NegativeSatoshi', -1), ('Zero', 0)):
        C.spec('constant %s' % name, 'Fixed8:Fixed8.' + name, lambda I: out(C.fn('Fixed8:Fixed8.' + name)), value=amount(const(v)))
    C.spec('raw value', 'Fixed8:Fixed8.GetData', lambda I: out(F(x)), value=amount(x))
