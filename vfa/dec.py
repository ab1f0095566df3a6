"""Model of the decimal module: numbers are exact fractions num/10**k with an integer term num; rounding to a context's
precision is the identity only where the coefficient provably fits, otherwise it stays as an explicit 'decr' term."""
import decimal as _d
from . import terms as t
from .terms import T, mk, const, is_const, cval, ite, bnot, lift, app, TRUE, FALSE, NONE, ZERO, ONE

DEFAULT = (28, _d.ROUND_HALF_EVEN)


def dec(num, k=0):
    return lift(lambda n: mk('dec', (n, k), 'decimal'), num)


def trunc(num, k):
    """num/10**k truncated toward zero, as an integer term."""
    if k == 0:
        return num
    p = const(10 ** k)
    return lift(lambda n: ite(t.ge0(n), t.idiv(n, p), t.neg(t.idiv(t.neg(n), p))), num)


def of_py(d):
    if not d.is_finite():
        return mk('decnf', (str(d).lower(),), 'decimal')
    s, digits, e = d.as_tuple()
    n = int(''.join(map(str, digits))) * (-1 if s else 1)
    return dec(const(n), -e) if e <= 0 else dec(const(n * 10 ** e), 0)


class DecMixin(object):

    def dec_error(self, what='decimal operation'):
        self.I.raise_(self.I.new_exc(self.ext_exc('decimal.InvalidOperation'), [const(what)]))

    def dec_of(self, x):
        """Decimal operand of an operation, or None."""
        I = self.I
        if x.op == 'inst':
            x = x.args[1]
        if x.ty == 'decimal':
            return x
        if self.kind(x) in ('int', 'bool'):
            return dec(t.as_int(x), 0)
        return None

    def x_decimal_Decimal(self, value=None, context=None):
        I = self.I
        v = ZERO if value is None else I.restrict(value)

        def one(x):
            if x.op == 'inst':
                x = x.args[1]
            if x.ty == 'decimal':
                return x
            k = self.kind(x)
            if k in ('int', 'bool'):
                return dec(t.as_int(x), 0)
            if is_const(x) and k in ('str', 'float'):
                try:
                    return of_py(_d.Decimal(cval(x)))
                except _d.InvalidOperation:
                    self.dec_error('conversion syntax')
            if k == 'str':
                y = self.dec_text(x)
                if y is not None:
                    return y
                if x.op == 'str':
                    y = x.args[0]
                    if y.ty == 'decimal':
                        return y
                    if self.kind(y) in ('int', 'bool'):
                        return dec(t.as_int(y), 0)
                    if y.op == 'sym' and t.sym_attr(y, 'repr') is not None:
                        return t.sym_attr(y, 'repr')
                if x.op == 'sym' and t.sym_attr(x, 'decval') is not None:
                    return t.sym_attr(x, 'decval')
                if x.op == 'repr' or x.op == 'sym' and t.sym_attr(x, 'nonnum'):
                    self.dec_error('conversion syntax')
            if k in ('str', 'any', 'mixed'):
                I.may_raise(bnot(mk('pred', ('isdecimal', x), 'bool')), lambda: I.new_exc(
                    self.ext_exc('decimal.InvalidOperation'), [const('conversion syntax')]))
                return mk('decof', (x,), 'decimal')
            if k == 'float':
                return mk('decof', (x,), 'decimal')
            I.raise_py(TypeError, 'conversion to Decimal is not supported')
        return I.split(v, one) if v.op == 'ite' else one(v)

    def dec_text(self, x):
        """The number that text of digits, put together from known pieces, spells; None when that is not known."""
        I = self.I
        segs = []
        for s in (x.args if x.op == 'cat' else (x,)):
            s = s.args[0] if s.op == 'astr' else s
            segs += s.args if s.op == 'cat' else (s,)
        if not segs:
            return None
        num, sign, scale, digits, exp = ZERO, 1, None, 0, 0
        import re
        m = re.search(r'[eE]([+-]?\d+)$', cval(segs[-1]) if segs[-1].ty == 'str' else cval(segs[-1]).decode('latin-1')) if segs[-1].op == 'c' else None
        if m:
            exp = int(m.group(1))
            segs[-1] = const(cval(segs[-1])[:m.start()])
        for i, s in enumerate(segs):
            if s.op == 'c':
                v = cval(s)
                for j, c in enumerate(v if isinstance(v, str) else v.decode('latin-1')):
                    if c in '+-' and i == 0 and j == 0:
                        sign = -1 if c == '-' else 1
                    elif c == '.' and scale is None:
                        scale = 0
                    elif c in '0123456789':
                        num, digits = t.add(t.mul(num, const(10)), const(int(c))), digits + 1
                        scale = scale if scale is None else scale + 1
                    else:
                        return None
            elif s.op == 'decl':
                n, w = s.args
                num, digits = t.add(t.mul(num, const(10 ** w)), n), digits + w
                scale = scale if scale is None else scale + w
            elif s.op == 'str' and self.kind(s.args[0]) == 'int' and not digits and scale is None and I.restrict(t.ge0(s.args[0])) is TRUE:
                num, digits = t.as_int(s.args[0]), 1
            else:
                return None
        scale = (scale or 0) - exp
        if scale < 0:
            num, scale = t.mul(num, const(10 ** -scale)), 0
        return dec(num if sign > 0 else t.neg(num), scale) if digits else None

    # -- contexts
    def x_decimal_Context(self, prec=const(28), rounding=const(_d.ROUND_HALF_EVEN), *a, **kw):
        p = cval(prec) if is_const(prec) else None
        r = cval(rounding) if is_const(rounding) else None
        return mk('decctx', (p if p is not None else 28, r or _d.ROUND_HALF_EVEN), 'decctx')

    def x_decimal_getcontext(self):
        return mk('decctx', DEFAULT, 'decctx')

    def m_decctx_multiply(self, c, a, b):
        return self.dec_arith('mul', a, b, c.args)

    def m_decctx_add(self, c, a, b):
        return self.dec_arith('add', a, b, c.args)

    def m_decctx_subtract(self, c, a, b):
        return self.dec_arith('sub', a, b, c.args)

    def m_decctx_divide(self, c, a, b):
        return self.dec_arith('truediv', a, b, c.args)

    def m_decctx_plus(self, c, a):
        d = self.dec_of(a)
        if d is None:
            self.I.raise_py(TypeError)
        return self.dec_round(d, c.args)

    def m_decctx_create_decimal(self, c, a=const('0')):
        return self.dec_round(self.x_decimal_Decimal(a), c.args)

    def m_decctx_scaleb(self, c, a, other):
        d = self.dec_of(a)
        if d is None:
            self.I.raise_py(TypeError)
        return lift(lambda x: self.m_decimal_scaleb(x, other, c), d)

    def m_decctx_create_decimal_from_float(self, c, a):
        return self.dec_round(self.x_decimal_Decimal(a), c.args)

    m_decctx_to_integral_value = lambda self, c, a: self.m_decimal_to_integral_value(a, const(c.args[1]))

    # -- arithmetic
    def dec_round(self, d, ctx):
        I = self.I
        if d.op == 'ite':
            return I.split(d, lambda x: self.dec_round(x, ctx))
        if d.op != 'dec':
            return d if d.op == 'decnf' else mk('decround', (ctx, d), 'decimal')
        n, k = d.args
        prec, mode = ctx
        lim = const(10 ** prec - 1)
        if I.restrict(t.ge0(t.sub(lim, n))) is TRUE and I.restrict(t.ge0(t.add(lim, n))) is TRUE:
            return d
        return mk('decr', (prec, mode, n, k), 'decimal')

    def dec_arith(self, op, a, b, ctx=DEFAULT):
        I = self.I
        a, b = I.restrict(a), I.restrict(b)
        if a.op == 'ite':
            return I.split(a, lambda x: self.dec_arith(op, x, b, ctx))
        if b.op == 'ite':
            return I.split(b, lambda x: self.dec_arith(op, a, x, ctx))
        x, y = self.dec_of(a), self.dec_of(b)
        if x is None or y is None:
            I.raise_py(TypeError, 'unsupported operand type(s) for decimal %s' % op)
        if x.op == 'ite' or y.op == 'ite':
            return self.dec_arith(op, x, y, ctx)
        if x.op == 'dec' and y.op == 'dec':
            (n, k), (m, l) = x.args, y.args
            if op == 'mul':
                return self.dec_round(dec(t.mul(n, m), k + l), ctx)
            if op in ('add', 'sub'):
                h = max(k, l)
                n, m = t.mul(n, const(10 ** (h - k))), t.mul(m, const(10 ** (h - l)))
                return self.dec_round(dec(t.add(n, m) if op == 'add' else t.sub(n, m), h), ctx)
            if op == 'truediv' and is_const(m) and cval(m) != 0:
                q = cval(m)
                s = -1 if q < 0 else 1
                q = abs(q)
                e = len(str(q)) - 1
                if q == 10 ** e:
                    # dividing by a power of ten only moves the point
                    return self.dec_round(dec(t.mul(n, const(s * 10 ** l)), k + e), ctx)
        if op in ('truediv', 'floordiv', 'mod') and y.op == 'dec':
            I.may_raise(t.eq0(y.args[0]), lambda: I.new_exc(ZeroDivisionError, [const('division by zero')]))
        return app('d' + op, x, y, const(ctx[0]), const(ctx[1]), ty='decimal')

    def dec_neg(self, d):
        if d.op == 'dec':
            return self.dec_round(dec(t.neg(d.args[0]), d.args[1]), DEFAULT)
        return app('dneg', d, ty='decimal')

    def dec_cmp(self, op, a, b):
        """Comparison where at least one side is a decimal."""
        I = self.I
        for x, y in ((a, b), (b, a)):
            if self.kind(x) in ('str', 'bytes', 'none', 'list', 'tuple', 'dict', 'bytearray', 'class', 'func'):
                if op == 'Eq':
                    return FALSE
                I.raise_py(TypeError, 'not comparable with a decimal')

        def val(x):
            if is_const(x) and isinstance(cval(x), float):
                return of_py(_d.Decimal(cval(x)))
            return self.dec_of(x)
        x, y = val(a), val(b)
        if x is None or y is None:
            return app('deccmp', const(op), a, b, ty='bool')
        if x.op == 'decnf' or y.op == 'decnf':
            p, q = (cval_nf(z) for z in (x, y))
            if 'nan' in (p, q):
                if op == 'Eq':
                    return FALSE
                self.dec_error('comparison involving NaN')
            f = lambda v: 0 if v is None else (1 if v == 'inf' else -1)
            p, q = f(p), f(q)
            if op == 'Eq':
                return TRUE if p == q else FALSE
            return TRUE if {'Lt': p < q, 'LtE': p <= q, 'Gt': p > q, 'GtE': p >= q}[op] else FALSE

        def sgn(z):
            # rounding does not change the sign
            return dec(z.args[2], z.args[3]) if z.op == 'decr' else z
        zero = lambda z: z.op == 'dec' and z.args[0] is ZERO
        if zero(y):
            x = sgn(x)
        if zero(x):
            y = sgn(y)
        if x.op == 'dec' and y.op == 'dec':
            h = max(x.args[1], y.args[1])
            d = t.sub(t.mul(x.args[0], const(10 ** (h - x.args[1]))), t.mul(y.args[0], const(10 ** (h - y.args[1]))))
            return {'Eq': lambda: t.eq0(d), 'Lt': lambda: t.ge0(t.sub(t.neg(d), ONE)), 'LtE': lambda: t.ge0(t.neg(d)),
                    'Gt': lambda: t.ge0(t.sub(d, ONE)), 'GtE': lambda: t.ge0(d)}[op]()
        return app('deccmp', const(op), x, y, ty='bool')

    def dec_int(self, d):
        """int(decimal)."""
        I = self.I
        if d.op == 'ite':
            return I.split(d, self.dec_int)
        if d.op == 'dec':
            return trunc(d.args[0], d.args[1])
        if d.op == 'decnf':
            if d.args[0].endswith('nan'):
                I.raise_py(ValueError, 'cannot convert NaN to integer')
            I.raise_py(OverflowError, 'cannot convert Infinity to integer')
        if d.op == 'decr':
            prec, mode, n, k = d.args
            lim = const(10 ** (prec + k) - 1)
            if mode == _d.ROUND_DOWN and I.restrict(t.ge0(t.sub(lim, n))) is TRUE and I.restrict(t.ge0(t.add(lim, n))) is TRUE:
                # the integer digits all survive, and cutting off fraction digits twice is cutting them off once
                return trunc(n, k)
        return app('int', d, ty='int')

    # -- methods
    def m_decimal_is_finite(self, d):
        if d.op in ('dec', 'decr', 'decround'):
            return TRUE
        if d.op == 'decnf':
            return FALSE
        return mk('pred', ('finite', d), 'bool')

    def m_decimal_is_nan(self, d):
        if d.op in ('dec', 'decr', 'decround'):
            return FALSE
        if d.op == 'decnf':
            return TRUE if d.args[0].endswith('nan') else FALSE
        return mk('pred', ('nan', d), 'bool')

    def m_decimal_is_infinite(self, d):
        if d.op in ('dec', 'decr', 'decround'):
            return FALSE
        if d.op == 'decnf':
            return FALSE if d.args[0].endswith('nan') else TRUE
        return mk('pred', ('infinite', d), 'bool')

    def m_decimal_is_signed(self, d):
        if d.op == 'dec' and not is_const(d.args[0]):
            return bnot(t.ge0(d.args[0]))
        return mk('pred', ('signed', d), 'bool')

    def m_decimal_is_zero(self, d):
        return self.dec_cmp('Eq', d, ZERO)

    def m_decimal_to_integral_value(self, d, rounding=None, context=None):
        mode = cval(rounding) if rounding is not None and is_const(rounding) and cval(rounding) else _d.ROUND_HALF_EVEN
        if d.op == 'dec':
            n, k = d.args
            if k == 0:
                return d
            p = const(10 ** k)
            if mode == _d.ROUND_DOWN:
                return dec(trunc(n, k), 0)
            if mode == _d.ROUND_FLOOR:
                return dec(t.idiv(n, p), 0)
            if mode == _d.ROUND_CEILING:
                return dec(t.neg(t.idiv(t.neg(n), p)), 0)
        if d.op == 'decr' and mode == _d.ROUND_DOWN:
            i = self.dec_int(d)
            if not t.has_op(i, ('app',)):
                return dec(i, 0)
        return app('dintegral', d, const(mode), ty='decimal')

    m_decimal_to_integral = m_decimal_to_integral_value

    def m_decimal_scaleb(self, d, other, context=None):
        if d.op == 'dec' and is_const(other) and self.kind(other) == 'int':
            e = cval(other)
            n, k = d.args
            ctx = context.args if context is not None and context.op == 'decctx' else DEFAULT
            return self.dec_round(dec(n, k - e) if e <= k else dec(t.mul(n, const(10 ** (e - k))), 0), ctx)
        return app('dscaleb', d, other, ty='decimal')

    def m_decimal_quantize(self, d, exp, rounding=None, context=None):
        mode = cval(rounding) if rounding is not None and is_const(rounding) and cval(rounding) else _d.ROUND_HALF_EVEN
        e = self.dec_of(exp)
        if d.op == 'dec' and e is not None and e.op == 'dec':
            n, k = d.args
            l = e.args[1]
            if l >= k:
                return dec(t.mul(n, const(10 ** (l - k))), l)
            if mode == _d.ROUND_DOWN:
                return dec(trunc(n, k - l), l)
        return app('dquantize', d, exp, const(mode), ty='decimal')

    def m_decimal_copy_abs(self, d):
        if d.op == 'dec':
            n, k = d.args
            return dec(ite(t.ge0(n), n, t.neg(n)), k)
        return app('dabs', d, ty='decimal')


def cval_nf(x):
    if x.op != 'decnf':
        return None
    s = x.args[0].lstrip('+')
    if 'nan' in s:
        return 'nan'
    return '-inf' if s.startswith('-') else 'inf'
