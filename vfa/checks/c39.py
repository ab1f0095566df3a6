"""Text of fixed-point amounts: the decimal it spells is the amount, and parsing gives the amount back."""
from .common import *

RULE = 'ToString, str and ToNeoJsonString spell value / 10^8; TryParse inverts them; whole amounts have no fraction in ToNeoJsonString'
F8 = 'Fixed8:Fixed8.'


def check(C):
    I = C.I
    D = 10 ** 8
    K = klass(C, 'Fixed8:Fixed8')
    F = lambda v: C.fn('Fixed8:Fixed8', v)

    def spelled(text, n):
        """Is n / 10^8 the number the text spells?"""
        def leaf(d):
            if d.op != 'dec':
                return t.unk('not a number: %s' % t.show(d, 3))
            c, k = d.args
            return t.eq0(t.sub(t.mul(c, const(10 ** max(0, 8 - k))), t.mul(n, const(10 ** max(0, k - 8)))))
        return I.split(text, lambda x: leaf(I.models.x_decimal_Decimal(x) if x.op == 'c' else I.models.dec_text(x) or x))

    def back(text, *a):
        return t.lift(lambda u: u if u.op == 'c' else t.tup([cls_of(C, u), I.getattr(u, 'value')]), C.fn(F8 + 'TryParse', text, *a))
    forms = (('ToString', lambda v: C.meth(F(v), 'ToString')), ('__str__', lambda v: I.models.str_(F(v))),
             ('ToNeoJsonString', lambda v: C.meth(F(v), 'ToNeoJsonString')))
    lim = 10 ** 15
    top = 2 ** 63
    for what, lo, hi in (('amounts of at most 15 digits', 0, lim - 1), ('negative amounts of at most 15 digits', 1 - lim, -1),
                         ('amounts of more than 15 digits', -top, top - 1)):
        n = sym('n', 'int', lo=lo, hi=hi)
        pre = t.bor(t.ge0(t.sub(n, const(lim))), t.ge0(t.sub(const(-lim), n))) if lo == -top else TRUE
        for name, text in forms:
            C.spec('number spelled for %s' % what, F8 + name, lambda I: spelled(text(n), n), pre=pre, value=TRUE)
            if name != '__str__':
                C.spec('parsing what was printed for %s' % what, F8 + name, lambda I: back(text(n)), pre=pre, value=t.tup([K, n]))
    for sign, lo, hi in (('', 0, lim // D - 1), (', negative', 1 - lim // D, -1)):
        w = sym('w', 'int', lo=lo, hi=hi)
        C.spec('text of whole amounts%s' % sign, F8 + 'ToNeoJsonString', lambda I: C.meth(F(t.mul(w, const(D))), 'ToNeoJsonString'),
               value=I.models.str_(w))
