"""Field operations give the canonical residue of the mathematical result; division multiplies by the inverse."""
from .common import *
from .field import Egcd

RULE = 'x op y == (x op y) mod p in [0, p), for field values and integers on either side; x / y == x * y^-1 mod p; square roots have the requested parity'

SRC = '''
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def div(a, b): return a / b
def pow_(a, b): return a ** b
def neg(a): return -a
def eq(a, b): return a == b
def ne(a, b): return a != b
def text(a): return str(a)
def hextext(a): return hex(a)
'''


def check(C):
    I = C.I
    FF = 'Cryptography.ECCurve:FiniteField.'
    Egcd(C)
    g = C.py(SRC, 'field')
    x, y, z = (sym(n, 'int') for n in 'xyz')
    e = sym('e', 'int', lo=0)
    vclass = klass(C, 'Cryptography.ECCurve:FiniteField.Value')
    p256, n256 = const(P256[0]), const(P256[1])
    for fname, p in (('the field of P-256', p256), ('the integers modulo the order of P-256', n256), ('any prime field', sym('m', 'int', lo=3))):
        t.PRIMES.add(p)
        new = lambda: I.call(C.get('Cryptography.ECCurve:FiniteField'), [p], {})

        def view(v):
            if any(q.op != 'ref' for q in t.leaves(I.restrict(v))):
                return I.split(v, lambda q: view(q) if q.op == 'ref' else t.tup([const('not a field value'), q]))
            return t.tup([cls_of(C, v), I.getattr(I.getattr(v, 'field'), 'p'), I.getattr(v, 'value')])
        val = lambda v: t.tup([vclass, p, v])
        md = lambda v: t.mod(v, p)
        inv = lambda v: t.modinv(v, p)
        nz = lambda v: t.bnot(t.eq0(md(v)))
        V = lambda f, v: C.meth(f, 'value', v)
        other = lambda v: C.meth(I.call(C.get('Cryptography.ECCurve:FiniteField'), [p], {}), 'value', v)
        forms = [('value, value', lambda f, a, b: (V(f, a), V(f, b))), ('value, integer', lambda f, a, b: (V(f, a), b)),
                 ('integer, value', lambda f, a, b: (a, V(f, b))), ('value, value of an equal field', lambda f, a, b: (V(f, a), other(b)))]
        ops = [('add', '+', md(t.add(x, y)), TRUE), ('sub', '-', md(t.sub(x, y)), TRUE), ('mul', '*', md(t.mul(x, y)), TRUE),
               ('div', '/', md(t.mul(x, inv(y))), nz(y))]
        for op, sign, want, pre in ops:
            for form, mk in forms:
                C.spec('%s of %s in %s' % (sign, form, fname), FF + op, lambda I: view(I.call(g(op), list(mk(new(), x, y)), {})), pre=pre, value=val(want))
            # of results of earlier operations
            C.spec('%s of computed values in %s' % (sign, fname), FF + op,
                   lambda I: (lambda f: view(I.call(g(op), [I.call(g('mul'), [V(f, x), V(f, z)], {}), I.call(g('add'), [V(f, y), V(f, z)], {})], {})))(new()),
                   pre=nz(t.add(y, z)), value=val(t.subst(want, {x: t.mul(x, z), y: t.add(y, z)}) if op != 'div' else md(t.mul(t.mul(x, z), inv(t.add(y, z))))))
        for op, want in (('eq', t.eq0(md(t.sub(x, y)))), ('ne', t.bnot(t.eq0(md(t.sub(x, y)))))):
            for form, mk in forms:
                if form == 'integer, value':
                    continue
                C.spec('%s of %s in %s' % ({'eq': '==', 'ne': '!='}[op], form, fname), FF + 'eq', lambda I: I.truth(I.call(g(op), list(mk(new(), x, y)), {})), value=want)
        C.spec('negation in %s' % fname, FF + 'neg', lambda I: view(I.call(g('neg'), [V(new(), x)], {})), value=val(md(t.neg(x))))
        for k in range(0, 6):
            C.spec('power %d in %s' % (k, fname), FF + 'pow', lambda I: view(I.call(g('pow_'), [V(new(), x), const(k)], {})), value=val(t.powmod(x, const(k), p)))
        C.spec('any power in %s' % fname, FF + 'pow', lambda I: view(I.call(g('pow_'), [V(new(), x), e], {})), value=val(t.powmod(md(x), e, p)))
        C.spec('any power given as a value in %s' % fname, FF + 'pow', lambda I: (lambda f: view(I.call(g('pow_'), [V(f, x), V(f, e)], {})))(new()), value=val(t.powmod(md(x), e, p)))
        C.spec('any power of an integer given as a value in %s' % fname, FF + 'pow', lambda I: (lambda f: view(I.call(g('pow_'), [x, V(f, e)], {})))(new()), value=val(t.powmod(md(x), e, p)))
        C.spec('inverse in %s' % fname, FF + 'inverse', lambda I: md(C.meth(V(new(), x), 'inverse')), pre=nz(x), value=inv(x))
        C.spec('inverse of a negative in %s' % fname, FF + 'inverse', lambda I: md(C.meth(V(new(), t.neg(x)), 'inverse')), pre=nz(x), value=inv(t.neg(x)))
        C.spec('modinv modulo %s' % fname, 'Cryptography.ECCurve:modinv', lambda I: md(C.fn('Cryptography.ECCurve:modinv', x, p)), pre=nz(x), value=inv(x))
        C.spec('zero of %s' % fname, FF + 'zero', lambda I: view(C.meth(new(), 'zero')), value=val(const(0)))
        C.spec('one of %s' % fname, FF + 'one', lambda I: view(C.meth(new(), 'one')), value=val(const(1)))
        u = t.mod(x, p)
        C.spec('iszero of a residue in %s' % fname, FF + 'Value.iszero', lambda I: I.truth(C.meth(V(new(), u), 'iszero')), value=t.eq0(u))
        C.spec('text of a residue in %s' % fname, FF + 'Value.__str__', lambda I: I.call(g('text'), [V(new(), u)], {}), value=lambda o: I.call(g('hextext'), [u], {}))
        for h, b in (('hexadecimal text', sym('hx', 'bytes')),):
            C.spec('%s as an integer in %s' % (h, fname), FF + 'integer', lambda I: C.meth(new(), 'integer', t.astr(t.hexl(b))), value=t.be(b))
        # the operands keep their values and fields
        for op in ('add', 'sub', 'mul', 'div', 'pow_', 'eq'):
            def keep(I):
                f = new()
                a, b = V(f, x), V(f, y)
                I.call(g(op), [a, b if op != 'pow_' else e], {})
                return t.tup([view(a), view(b)])
            C.spec('%s keeps its operands in %s' % (op, fname), FF + op.rstrip('_'), keep, pre=nz(y), value=t.tup([val(x), val(y)]))
