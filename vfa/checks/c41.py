"""Random integers of a requested size: for every size the value is below 2^size, the whole range is reachable, and
impossible sizes are rejected."""
from .common import *

RULE = '0 <= next_random_integer(n) < 2^n; with every random bit 0 the value is 0 and with every random bit 1 it is 2^n - 1; n < 0 raises'


def draws(x):
    return [y for y in t.walk(x) if y.op == 'weakrand' or y.op == 'rand' or y.op == 'fixed' and y.args[0] in ('rand', 'weakrand')]


def check(C):
    I = C.I
    N = 'Cryptography.ECCurve:next_random_integer'
    call = lambda n: C.fn(N, n)
    n = t.neg(sym('n', 'int', lo=1))
    C.spec('a negative number of bits', N, lambda I: call(n), ok=FALSE)
    sizes = list(range(0, 42)) + [63, 64, 65, 127, 128, 160, 161, 224, 255, 256, 257, 384, 512, 521]
    if C.tier == 'thorough':
        sizes = list(range(0, 300)) + [384, 512, 521]
    for size in sizes:
        top = (1 << size) - 1
        o = C.spec('%d random bits stay in range' % size, N, lambda I: (lambda r: t.tup([I.truth(t.ge0(r)), I.truth(t.ge0(t.sub(const(top), r)))]))(call(const(size))), value=t.tup([TRUE, TRUE]))
        if o is None or o.ret is None:
            continue
        o = C.run(lambda I: call(const(size)))
        v = o.ret.value
        if t.ty_of(v) != 'int':
            C.fail('%d random bits are an integer' % size, C.site_of(N), 'returns a value of type %s' % t.ty_of(v))
            continue
        for what, pick, want in (('0', 0, 0), ('1', 1, top)):
            sub = {}
            for y in draws(v):
                if y.ty == 'bytes':
                    sub[y] = const((b'\xff' if pick else b'\0') * y.args[1])
                else:
                    sub[y] = y.args[3] if pick else y.args[2]
            C.same('%d random bits that are all %s' % (size, what), C.site_of(N), t.subst(v, sub), const(want))
