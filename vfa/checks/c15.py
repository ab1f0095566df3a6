"""Fixed-point amounts convert to and from integers and decimal numbers exactly: multiply by 10^8 and cut off below, for
every integer and every decimal number of the analysed scales whose amount fits in 64 bits (and well beyond)."""
from .. import dec
from .common import *

RULE = 'FromDecimal(n) and TryParse(n) hold trunc(n * 10^8); Ceil, Floor and ToInt are exact; what is no finite number gives None'

SRC = '''
class Word:
    def __init__(self, s):
        self.s = s
    def __str__(self):
        return self.s
'''
LIM = 1 << 64


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec15')
    x = sym('x', 'int')
    D = const(10 ** 8)
    K = klass(C, 'Fixed8:Fixed8')
    out = lambda r: t.lift(lambda u: u if u.op == 'c' else t.tup([cls_of(C, u), I.getattr(u, 'value')]), r)
    amount = lambda v: t.lift(lambda u: t.tup([K, u]), v)
    F = lambda v: C.fn('Fixed8:Fixed8', v)
    fd, tp = 'Fixed8:Fixed8.FromDecimal', 'Fixed8:Fixed8.TryParse'

    # whole and rounded values
    fl = t.mul(t.idiv(x, D), D)
    ce = t.neg(t.mul(t.idiv(t.neg(x), D), D))
    C.spec('Floor', 'Fixed8:Fixed8.Floor', lambda I: out(C.meth(F(x), 'Floor')), value=amount(fl))
    C.spec('Ceil', 'Fixed8:Fixed8.Ceil', lambda I: out(C.meth(F(x), 'Ceil')), value=amount(ce))
    C.spec('ToInt', 'Fixed8:Fixed8.ToInt', lambda I: C.meth(F(x), 'ToInt'), value=dec.trunc(x, 8))

    # integers
    n = sym('n', 'int', lo=-LIM, hi=LIM)
    B = C.get('BigInteger:BigInteger').args[0]
    for what, v in (('an int', n), ('a big integer', t.mk('inst', (B, n), 'inst'))):
        C.spec('FromDecimal of %s' % what, fd, lambda I: out(C.fn(fd, v)), value=amount(t.mul(n, D)))
        C.spec('TryParse of %s' % what, tp, lambda I: out(C.fn(tp, v)), value=amount(t.mul(n, D)))
        C.spec('TryParse of %s, positive only' % what, tp, lambda I: out(C.fn(tp, v, TRUE)),
               value=t.ite(t.ge0(n), amount(t.mul(n, D)), const(None)))
        C.spec('TryParse of %s, positive only by keyword' % what, tp, lambda I: out(C.fn(tp, v, require_positive=TRUE)),
               value=t.ite(t.ge0(n), amount(t.mul(n, D)), const(None)))

    # decimal numbers c / 10^k, in every form they come in
    scales = (0, 1, 2, 7, 8, 9, 12, 17, 18) if C.tier == 'quick' else range(0, 41)
    for k in scales:
        c = sym('c', 'int', lo=-LIM * 10 ** k, hi=LIM * 10 ** k)
        d = dec.dec(c, k)
        want = dec.trunc(t.mul(c, D), k)
        forms = [('a Decimal', d), ('text', sym('s%d' % k, 'str', decval=d)), ('a float', sym('f%d' % k, 'float', repr=d))]
        for what, v in forms:
            tag = '%s with %d fraction digits' % (what, k)
            C.spec('FromDecimal of %s' % tag, fd, lambda I: out(C.fn(fd, v)), value=amount(want))
            C.spec('TryParse of %s' % tag, tp, lambda I: out(C.fn(tp, v)), value=amount(want))
            C.spec('TryParse of %s, positive only' % tag, tp, lambda I: out(C.fn(tp, v, TRUE)),
                   value=t.ite(t.ge0(c), amount(want), const(None)))
    # not a number
    bad = [('unparseable text', lambda: sym('w', 'str', nonnum=True)), ('None', lambda: const(None)), ('a list', lambda: I.new_list([])),
           ('an object that prints as no number', lambda: I.call(py('Word'), [sym('w', 'str', nonnum=True)], {})), ('empty text', lambda: const(''))]
    for w in ('nan', 'inf', '-inf', 'Infinity', 'sNaN', 'NaN123'):
        bad.append(('text %s' % w, lambda w=w: const(w)))
    for w in ('nan', 'inf', '-inf'):
        bad.append(('float %s' % w, lambda w=w: const(float(w))))
    for what, v in bad:
        for pos in (FALSE, TRUE):
            C.spec('TryParse of %s%s' % (what, ', positive only' if pos is TRUE else ''), tp, lambda I: out(C.fn(tp, v(), pos)), value=const(None))
