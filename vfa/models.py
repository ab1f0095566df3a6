"""Models of the Python builtin types, operators and functions."""
import ast
import binascii
import operator
import sys

from . import terms as t
from .terms import (T, mk, const, is_const, cval, ite, bnot, band, bor, lift, app, unk, tup, TRUE, FALSE,
                    NONE, ZERO, ONE, EMPTYB, NOTIMPL)
from .prog import Dead, ClassObj, UNBOUND, bclass, cls_term, ext_exception, restrict, ibounds, pin, bounds_in
from .lib import LibMixin
from .lib2 import LibMixin2
from .cliarg import CliMixin
from .dec import DecMixin
from .methods import MethodMixin

BINERR = ext_exception('binascii.Error', ValueError)
STRUCTERR = ext_exception('struct.error', Exception)

PYTYPES = dict((n, getattr(__import__('builtins'), n)) for n in (
    'object int bool str bytes bytearray list tuple dict set frozenset float complex type memoryview slice range '
    'property staticmethod classmethod super enumerate zip map filter reversed').split())

OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
       'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
       'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
       'MatMult': operator.matmul}


def num(v):
    """Integer payload of an int-like value (int subclass instances included)."""
    if v.op == 'inst':
        return v.args[1]
    return v


class Models(CliMixin, LibMixin, LibMixin2, DecMixin, MethodMixin):
    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
              'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
              'MatMult': 'matmul'}
    CMP = {'Lt': ('lt', 'gt'), 'Gt': ('gt', 'lt'), 'LtE': ('le', 'ge'), 'GtE': ('ge', 'le')}

    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ names
    def builtin_value(self, name):
        if name in PYTYPES:
            if name in ('super', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'range', 'slice'):
                return mk('builtin', (name,), 'func')
            return cls_term(bclass(PYTYPES[name]))
        import builtins
        v = getattr(builtins, name, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            return cls_term(bclass(v))
        if name == 'NotImplemented':
            return NOTIMPL
        if name == 'Ellipsis':
            return const(Ellipsis)
        if v is not None or name in ('exit', 'quit'):
            return mk('builtin', (name,), 'func')
        if name == '__name__':
            return const(self.I.frames[-1].module)
        if name in ('__file__', '__doc__'):
            return NONE
        return None

    # ------------------------------------------------------------ types
    def kind(self, v):
        """'int','bool','bytes','str','list','tuple','dict','set','bytearray','none','inst','class','func','any',..."""
        if v.op == 'ref':
            return self.I.obj(v).kind
        if v.op == 'inst':
            return 'int'
        if v.op == 'c':
            return v.ty
        if t.is_atom(v):
            return 'bool'
        if v.op == 'ite':
            ks = set(self.kind(x) for x in t.leaves(v))
            if ks <= {'int', 'bool'}:
                return 'int' if 'int' in ks else 'bool'
            return ks.pop() if len(ks) == 1 else 'mixed'
        return v.ty

    def type_of(self, v):
        I = self.I
        if v.op == 'ref':
            ob = I.obj(v)
            if ob.cls is not None:
                return cls_term(ob.cls)
            return mk('ext', ('type:' + ob.kind,), 'ext')
        if v.op == 'inst':
            return cls_term(v.args[0])
        if v.op == 'obj' and isinstance(v.args[0], ClassObj):
            return cls_term(v.args[0])
        m = {'int': int, 'bool': bool, 'bytes': bytes, 'str': str, 'tuple': tuple, 'none': type(None),
             'float': float, 'list': list, 'class': type, 'notimpl': type(NotImplemented)}
        k = self.kind(v)
        if k in m:
            return cls_term(bclass(m[k]))
        if k == 'decimal':
            return mk('ext', ('decimal.Decimal',), 'ext')
        if k in ('func', 'meth'):
            return cls_term(bclass(type(len)))
        if k == 'slice':
            return cls_term(bclass(slice))
        tag = t.sym_attr(v, 'cls') if v.op == 'sym' else None
        if tag is not None:
            return cls_term(tag)
        if v.op == 'ite':
            return lift(self.type_of, v)
        return mk('typeof', (v,), 'typeof')

    def isinstance_(self, v, c):
        I = self.I
        if c.op == 'tuple':
            r = FALSE
            for x in c.args:
                r = bor(r, self.isinstance_(v, x))
            return r
        tv = self.type_of(v)
        if c.op == 'ext':
            if tv.op == 'ext':
                return TRUE if tv.args[0] == c.args[0] else FALSE
            if tv.op == 'class':
                if c.args[0] in ('collections.abc.Iterable', 'typing.Iterable', 'collections.abc.Sequence'):
                    return TRUE if self.kind(v) in ('list', 'tuple', 'bytes', 'str', 'bytearray', 'set', 'dict') else FALSE
                if c.args[0] in ('numbers.Integral', 'numbers.Number', 'numbers.Real'):
                    return TRUE if self.kind(v) in ('int', 'bool') else FALSE
                return TRUE if tv.args[0].issub(self.ext_exc(c.args[0])) and c.args[0] in _known_ext() else FALSE
            return app('isinst', v, c, ty='bool')
        if c.op != 'class':
            return app('isinst', v, c, ty='bool')
        if tv.op == 'class':
            return TRUE if tv.args[0].issub(c.args[0]) else FALSE
        if tv.op == 'ext':
            return FALSE
        if c.args[0].py is object:
            return TRUE
        return app('isinst', v, c, ty='bool')

    # ------------------------------------------------------------ bytes helpers
    def is_byteslike(self, v):
        return v.ty == 'bytes' or self.I.is_kind(v, 'bytearray')

    def raw(self, v):
        """bytes term of a bytes-like value."""
        if v.op == 'ref':
            return self.I.content(v)
        return v

    def rawx(self, v):
        """raw() for gated values."""
        v = self.I.restrict(v)
        return lift(lambda x: self.raw(x), v)

    # ------------------------------------------------------------ sequences
    def collect(self, seq):
        """The items of a sequence whose items are produced by running code: a loop that collects the results."""
        I = self.I
        r, cur = I.new_list([]), []
        I.for_loop(seq, lambda x: cur.__setitem__(slice(None), [x]),
                   lambda: I.set_content(r, t.lcat_l(I.content(r), t.li(cur[0]))), lambda: None, None)
        return I.content(r)

    def list_content(self, v):
        """List-sequence term for an iterable."""
        I = self.I
        v = I.restrict(v)
        if v.op == 'seqd' and v.args[0].lazy:
            return self.collect(v.args[0])
        if v.op == 'ref' and I.obj(v).kind in ('list', 'set', 'iter'):
            return I.content(v)
        if v.ty == 'list' and v.op != 'ref':
            return v
        s = self.seq_of(v)
        items = I.seq_items(s)
        if items is not None:
            return t.lcat([t.li(x) for x in items])
        if s.n is not None:
            I.bvdepth += 1
            k = t.bv(I.bvdepth)
            I.bvdepth -= 1
            return t.lmap(I.restrict(s.n), s.el(k))
        return mk('listof', (v,), 'list')

    def seq_of(self, v):
        from .interp import Seq
        I = self.I
        if v.op == 'ite':
            lv = t.leaves(v)
            if all(self.is_byteslike(x) for x in lv):
                return self.seq_bytes(I.restrict(lift(lambda x: self.raw(x), v)))
            ss = dict((x, self.seq_of(x)) for x in lv)
            items = dict((x, I.seq_items(s)) for x, s in ss.items())
            if all(i is not None for i in items.values()) and len(set(len(i) for i in items.values())) == 1:
                n = len(list(items.values())[0])
                return Seq(items=[lift(lambda x, j=j: items[x][j], v) for j in range(n)])
            out = []

            def go(x):
                return I.new_list(self.list_content(x))
            r = I.split(v, go)
            if r.op != 'ite':
                return self.seq_of(r)
            c = lift(lambda x: I.content(x), r)
            return Seq(n=t.length(c), el=lambda k: lift(lambda y: self.el_of(y, k), c))
        if v.op == 'ref':
            o = I.obj(v)
            if o.kind in ('list', 'set'):
                return self.seq_list(I.content(v))
            if o.kind == 'iter':
                c = I.content(v)
                I.set_content(v, t.lcat([]))
                return self.seq_list(c)
            if o.kind == 'bytearray':
                return self.seq_bytes(I.content(v))
            if o.kind == 'dict':
                c = I.content(v)
                if c.op == 'dictc':
                    return Seq(items=[p[0] for p in c.args])
            if o.kind == 'inst':
                m = I.find_method(v, '__iter__')
                if m is not None:
                    return self.seq_of(I.call(m, [], {}))
                m = I.find_method(v, '__getitem__')
            return Seq(items=[I.unknown('iteration over %s' % o.kind)])
        if v.op == 'tuple':
            return Seq(items=list(v.args))
        if v.op == 'range':
            a, b, s = v.args
            n = self.range_len(v)
            return Seq(n=n, el=lambda k: t.add(a, t.mul(s, k)))
        if v.op == 'seqd':
            if not v.args[0].lazy:
                return v.args[0]
            c = self.collect(v.args[0])
            if c.op == 'ite' and c.args[2].op == 'lcat' and not c.args[2].args:
                s = self.seq_list(c.args[1])
                return Seq(n=t.length(c), el=s.el) if s.n is not None else self.seq_list(c)
            return self.seq_list(c)
        if v.ty == 'bytes':
            return self.seq_bytes(v)
        if v.ty == 'str':
            if v.op == 'c':
                return Seq(items=[const(ch) for ch in cval(v)])
            return Seq(n=t.length(v), el=lambda k: t.subseq(v, k, t.add(k, ONE)))
        if v.ty == 'list':
            return self.seq_list(v)
        if v.ty in ('int', 'bool', 'none', 'float') or v.op in ('inst', 'func', 'class'):
            I.raise_py(TypeError, 'object is not iterable')
        return Seq(n=app('len', v, ty='int'), el=lambda k: app('el', v, k))

    def seq_bytes(self, b):
        from .interp import Seq
        return Seq(n=t.length(b), el=lambda k: t.byte_at(b, k), src=b)

    def el_of(self, c, k):
        """Element k of a list-sequence term."""
        if c.op == 'lcat' and not c.args:
            return unk('element of empty list')
        if c.op == 'lmap':
            d = t.max_bv(c.args[1])
            return t.subst(c.args[1], {t.bv(d): k})
        if c.op == 'lcat':
            items = t.concrete_items(c)
            if items is not None and is_const(k) and -len(items) <= cval(k) < len(items):
                return items[cval(k)]
            if is_const(k) and cval(k) >= 0:
                i = cval(k)
                for s in c.args:
                    L = t.length(s)
                    if not is_const(L):
                        break
                    if i < cval(L):
                        return self.el_of(s, const(i)) if s.op != 'li' else s.args[0]
                    i -= cval(L)
        if c.op == 'li':
            return c.args[0]
        if c.op == 'sub':
            return self.el_of(c.args[0], t.add(c.args[1], k))
        if c.op == 'lrev':
            return self.el_of(c.args[0], t.sub(t.sub(t.length(c), ONE), k))
        ety = t.sym_attr(c, 'ety') if c.op == 'sym' else None
        mkel = t.sym_attr(c, 'mkel') if c.op == 'sym' else None
        if mkel is not None:
            return mkel(k)
        return mk('el', (c, k), ety or 'any')

    def seq_list(self, c):
        from .interp import Seq
        items = t.concrete_items(c)
        if items is not None:
            return Seq(items=items)
        if c.op == 'lcat':
            return Seq(segs=[self.seq_list(s) for s in c.args])
        if c.op == 'ite':
            return self.seq_of(c) if False else Seq(n=t.length(c), el=lambda k: lift(lambda x: self.el_of(x, k), c))
        return Seq(n=t.length(c), el=lambda k: self.el_of(c, k))

    def range_len(self, r):
        a, b, s = r.args
        S = self.I.S
        if is_const(s) and cval(s) != 0:
            st = cval(s)
            d = t.sub(b, a) if st > 0 else t.sub(a, b)
            n = t.idiv(t.add(d, const(abs(st) - 1)), const(abs(st)))
            c = restrict(S, t.ge0(n))
            return restrict(S, ite(c, n, ZERO))
        return app('rangelen', a, b, s, ty='int')

    def few(self, b):
        """An integer that can only be one of a few numbers, as the choice between them."""
        if b.op in ('c', 'ite'):
            return b
        S = self.I.S
        d, c = t.to_poly(b), 0
        lo, hi = bounds_in(S, b)
        if lo is None or hi is None or not 0 <= hi - lo <= 8:
            return b
        r = const(hi)
        for v in range(hi - 1, lo - 1, -1):
            r = ite(restrict(S, t.eq0(t.sub(b, const(v)))), const(v), r)
        return r

    # ------------------------------------------------------------ slicing
    def clamp(self, v, L):
        S = self.I.S
        v = num(v)
        r = restrict(S, t.ge0(v))
        pos = ite(restrict(S, t.ge0(t.sub(L, v))), v, L) if r is not FALSE else None
        vn = t.add(v, L)
        neg = ite(restrict(S, t.ge0(vn)), vn, ZERO) if r is not TRUE else None
        if pos is None:
            return neg
        if neg is None:
            return pos
        return ite(r, pos, neg)

    def bounds(self, base, lo, hi):
        L = t.length(base)
        lo2 = ZERO if lo.op == 'c' and cval(lo) is None else lift(lambda x, y: self.clamp(x, y), lo, L)
        hi2 = L if hi.op == 'c' and cval(hi) is None else lift(lambda x, y: self.clamp(x, y), hi, L)
        return lo2, hi2

    def pyslice(self, base, sl):
        S = self.I.S
        lo, hi, st = [restrict(S, x) for x in sl.args]
        if st.op == 'c' and cval(st) in (None, 1):
            lo2, hi2 = self.bounds(base, lo, hi)

            def cut(b, l, h):
                c = restrict(S, t.ge0(t.sub(h, l)))
                empty = const('') if b.ty == 'str' else EMPTYB if b.ty == 'bytes' else t.lcat([])
                l, h = pin(S, l), pin(S, h)
                if c is FALSE:
                    return empty
                return ite(c, self.lsub(b, l, h), empty)
            r = lift(cut, base, lo2, hi2)
            return restrict(S, r)
        isnone = lambda x: x.op == 'c' and cval(x) is None
        if is_const(st) and cval(st) == -1 and isnone(lo) and isnone(hi):
            return self.lrev(base)
        n = t.length(base)
        if is_const(n) and is_const(lo) and is_const(hi) and is_const(st) and cval(st):
            idx = range(cval(n))[slice(cval(lo), cval(hi), cval(st))]
            return self.pick(base, list(idx))
        if is_const(st) and cval(st) == -1:
            # base[lo:hi:-1] == reverse of base[hi+1:lo+1]
            L = n
            hi2 = L if isnone(lo) else self.clamp(t.add(lo, ONE), L) if restrict(S, t.ge0(lo)) is TRUE else None
            lo2 = ZERO if isnone(hi) else self.clamp(t.add(hi, ONE), L) if restrict(S, t.ge0(hi)) is TRUE else None
            if hi2 is not None and lo2 is not None:
                c = restrict(S, t.ge0(t.sub(hi2, lo2)))
                if c is TRUE:
                    return self.lrev(lift(self.lsub, base, lo2, hi2))
        return app('slice', base, lo, hi, st, ty=base.ty)

    def lsub(self, b, l, h):
        if b.ty == 'list':
            items = t.concrete_items(b)
            if items is not None and is_const(l) and is_const(h):
                return t.lcat([t.li(x) for x in items[cval(l):cval(h)]])
        return t.subseq(b, l, h)

    def pick(self, base, idx):
        if base.ty == 'list':
            return t.lcat([t.li(self.el_of(base, const(i))) for i in idx])
        return t.cat([t.subseq(base, const(i), const(i + 1)) for i in idx], base.ty)

    def lrev(self, base):
        def f(b):
            if b.ty == 'list':
                items = t.concrete_items(b)
                if items is not None:
                    return t.lcat([t.li(x) for x in reversed(items)])
                if b.op == 'lrev':
                    return b.args[0]
                return mk('lrev', (b,), 'list')
            return t.rev(b)
        return lift(f, base)

    def index(self, base, i, L=None):
        """Exact non-negative index (IndexError raised otherwise)."""
        I = self.I
        L = t.length(base)
        i = num(I.restrict(i))

        def go(i):
            neg = I.restrict(bnot(t.ge0(i)))

            def fin(j):
                bad = bor(bnot(t.ge0(j)), bnot(t.ge0(t.sub(t.sub(L, ONE), j))))
                I.may_raise(bad, lambda: I.new_exc(IndexError, [const('index out of range')]))
                return j
            return I.cond(neg, lambda: fin(t.add(i, L)), lambda: fin(i))
        return I.split(i, go)

    def getitem(self, o, i):
        I = self.I
        o = I.restrict(o)
        if o.op == 'ite':
            return I.split(o, lambda x: self.getitem(x, i))
        i = I.restrict(i)
        if o.op == 'ref':
            ob = I.obj(o)
            if ob.kind == 'inst':
                m = I.find_method(o, '__getitem__')
                if m is not None:
                    return I.call(m, [i], {})
                I.raise_py(TypeError, 'object is not subscriptable')
            if ob.kind == 'dict':
                return self.dict_get(o, i, None)
            if ob.kind in ('list', 'bytearray'):
                c = I.content(o)
                if i.op == 'slice':
                    r = lift(lambda b: self.pyslice(b, i), c)
                    return I.new_bytearray(r) if ob.kind == 'bytearray' else I.new_list(r)
                if self.kind(i) not in ('int', 'bool'):
                    if i.ty != 'any':
                        I.raise_py(TypeError, 'indices must be integers')
                return self.at(c, i)
            return I.unknown('subscript of ' + ob.kind)
        if o.op == 'tuple':
            if i.op == 'slice' and all(is_const(x) for x in i.args):
                return tup(o.args[slice(*[cval(x) for x in i.args])])
            j = num(i)
            if is_const(j):
                k = cval(j)
                if -len(o.args) <= k < len(o.args):
                    return o.args[k]
                I.raise_py(IndexError, 'tuple index out of range')
            if j.op == 'ite' or self.kind(j) in ('int', 'bool'):
                def pick(x):
                    return self.getitem(o, x)
                if t.is_atom(j):
                    return ite(j, o.args[1], o.args[0]) if len(o.args) == 2 else I.unknown('tuple index')
                if j.op == 'ite':
                    return I.split(j, pick)
                r = None
                j2 = self.index_tuple(o, j)
                for n_ in range(len(o.args) - 1, -1, -1):
                    r = o.args[n_] if r is None else ite(I.restrict(t.eq0(t.sub(j2, const(n_)))), o.args[n_], r)
                return r
        if o.ty in ('bytes', 'str'):
            if i.op == 'slice':
                return lift(lambda b: self.pyslice(b, i), o)
            if self.kind(i) not in ('int', 'bool') and i.ty != 'any':
                I.raise_py(TypeError, 'indices must be integers')
            return self.at(o, i)
        if o.ty == 'list':
            if i.op == 'slice':
                return I.new_list(self.pyslice(o, i))
            return self.at(o, i)
        if o.op == 'range':
            j = self.index_n(self.range_len(o), i)
            return t.add(o.args[0], t.mul(o.args[2], j))
        if o.op == 'c' or o.ty in ('int', 'bool', 'none', 'float') or o.op in ('func', 'inst'):
            I.raise_py(TypeError, 'object is not subscriptable')
        if o.op in ('ext', 'class'):
            return o
        return app('item', o, i)

    def index_tuple(self, o, j):
        return j

    def index_n(self, L, i):
        return num(i)

    def at(self, c, i):
        I = self.I
        c = I.restrict(c)
        if c.op == 'ite':
            return I.split(c, lambda x: self.at(x, i))
        if c.op == 'lcat' and is_const(i) and type(cval(i)) is int and all(x.op == 'li' for x in c.args):
            if -len(c.args) <= cval(i) < len(c.args):
                return I.restrict(c.args[cval(i)].args[0])
        j = self.index(c, i)

        def rd(x, k):
            if x.ty == 'bytes':
                return t.byte_at(x, k)
            if x.ty == 'str':
                return t.subseq(x, k, t.add(k, ONE))
            items = t.concrete_items(x)
            if items is not None and not is_const(k):
                r = items[-1]
                for n_ in range(len(items) - 2, -1, -1):
                    r = ite(I.restrict(t.eq0(t.sub(k, const(n_)))), items[n_], r)
                return r
            return self.el_of(x, k)
        return I.restrict(lift(rd, c, j))

    def byteval(self, v):
        """Range check for a bytearray element; returns a 1-byte term."""
        I = self.I
        v = I.restrict(v)
        v = lift(num, v)
        if self.kind(v) not in ('int', 'bool', 'any'):
            I.raise_py(TypeError, 'an integer is required')
        ok = band(t.ge0(v), t.ge0(t.sub(const(255), v)))
        I.may_raise(bnot(ok), lambda: I.new_exc(ValueError, [const('byte must be in range(0, 256)')]))
        return t.i2b(I.restrict(v), ONE)

    def setitem(self, o, i, v):
        I = self.I
        o = I.restrict(o)
        if o.op == 'ite':
            I.split(o, lambda x: (self.setitem(x, i, v), NONE)[1])
            return
        if o.op != 'ref':
            if o.ty in ('bytes', 'str', 'tuple', 'int', 'none'):
                I.raise_py(TypeError, 'object does not support item assignment')
            I.event('setitem', t.show(o, 2), (o, i, v))
            return
        ob = I.obj(o)
        if ob.kind == 'inst':
            m = I.find_method(o, '__setitem__')
            if m is not None:
                I.call(m, [i, v], {})
                return
            I.raise_py(TypeError, 'object does not support item assignment')
        if ob.kind == 'dict':
            self.dict_set(o, i, v)
            return
        c = I.content(o)
        if c.op == 'ite':
            def go(x):
                I.set_content(o, x)
                self.setitem(o, i, v)
                return NONE
            I.split(c, go)
            return
        if ob.kind == 'bytearray':
            if i.op == 'slice':
                if not (is_const(i.args[2]) and cval(i.args[2]) in (None, 1)):
                    if all(is_const(x) for x in i.args) and cval(i.args[2]) == -1 and \
                            cval(i.args[0]) is None and cval(i.args[1]) is None:
                        nv = self.tobytes(v)
                        I.may_raise(bnot(t.eq0(t.sub(t.length(nv), t.length(c)))), lambda: I.new_exc(ValueError))
                        I.set_content(o, t.rev(nv))
                        return
                    I.unknown('extended slice assignment')
                    I.set_content(o, unk('slice assign'))
                    return
                nv = self.tobytes(v)
                lo, hi = self.bounds(c, i.args[0], i.args[1])

                def put(b, l, h, x):
                    h2 = ite(I.restrict(t.ge0(t.sub(h, l))), h, l)
                    return lift(lambda hh: t.cat([t.subseq(b, ZERO, l), x, t.subseq(b, hh, t.length(b))], 'bytes'), h2)
                I.set_content(o, I.restrict(lift(put, c, lo, hi, nv)))
                return
            j = self.index(c, i)
            bt = self.byteval(v)
            I.set_content(o, lift(lambda b, k, x: t.cat([t.subseq(b, ZERO, k), x,
                                                         t.subseq(b, t.add(k, ONE), t.length(b))], 'bytes'), c, j, bt))
            return
        if ob.kind == 'list':
            items = t.concrete_items(c)
            if i.op == 'slice' and items is not None and all(is_const(x) for x in i.args):
                new = I.seq_items(self.seq_of(I.restrict(v)))
                if new is not None:
                    items = list(items)
                    items[slice(*[cval(x) for x in i.args])] = new
                    I.set_content(o, t.lcat([t.li(x) for x in items]))
                    return
            if items is not None and i.op != 'slice':
                j = self.index(c, i)
                if is_const(j):
                    items = list(items)
                    items[cval(j)] = v
                else:
                    items = [ite(I.restrict(t.eq0(t.sub(j, const(n_)))), v, x) for n_, x in enumerate(items)]
                I.set_content(o, t.lcat([t.li(x) for x in items]))
                return
            I.set_content(o, mk('lset', (c, i, v), 'list'))
            return
        I.unknown('item assignment on ' + ob.kind)

    def delitem(self, o, i):
        I = self.I
        o = I.restrict(o)
        if o.op == 'ref':
            ob = I.obj(o)
            c = I.content(o) if ob.kind != 'inst' else None
            if ob.kind == 'bytearray':
                if i.op == 'slice':
                    self.setitem(o, i, EMPTYB)
                else:
                    j = self.index(c, i)
                    I.set_content(o, lift(lambda b, k: t.cat([t.subseq(b, ZERO, k), t.subseq(b, t.add(k, ONE), t.length(b))],
                                                             'bytes'), c, j))
                return
            if ob.kind == 'list':
                items = t.concrete_items(c)
                if items is not None and (is_const(i) or i.op == 'slice' and all(is_const(x) for x in i.args)):
                    items = list(items)
                    try:
                        if i.op == 'slice':
                            del items[slice(*[cval(x) for x in i.args])]
                        else:
                            del items[cval(i)]
                    except IndexError:
                        I.raise_py(IndexError)
                    I.set_content(o, t.lcat([t.li(x) for x in items]))
                    return
            if ob.kind == 'dict' and c.op == 'dictc' and any(k is i for k, _ in c.args):
                I.set_content(o, mk('dictc', tuple((k, v) for k, v in c.args if k is not i), 'dictc'))
                return
        I.unknown('del item')

    # ------------------------------------------------------------ dicts
    def dict_get(self, o, key, default):
        I = self.I
        c = I.content(o)
        key = I.restrict(key)
        if c.op == 'ite':
            def go(x):
                I.set_content(o, x)
                return self.dict_get(o, key, default)
            return I.split(c, go)
        if c.op != 'dictc':
            return app('item', c, key)

        def none():
            if default is not None:
                return default
            I.raise_(I.new_exc(KeyError, [key]))

        def look(pairs):
            if not pairs:
                return none()
            k, v = pairs[0]
            e = I.restrict(I.truth(self.compare('Eq', k, key)))
            return I.cond(e, lambda: v, lambda: look(pairs[1:]))
        return look(list(c.args))

    def dict_set(self, o, key, v):
        I = self.I
        c = I.content(o)
        if c.op == 'ite':
            def go(x):
                I.set_content(o, x)
                self.dict_set(o, key, v)
                return NONE
            I.split(c, go)
            return
        if c.op != 'dictc':
            I.set_content(o, app('dictset', c, key, v, ty='dictc'))
            return
        out, done = [], False
        for k, x in c.args:
            e = I.truth(self.compare('Eq', k, key)) if k is not key else TRUE
            e = I.restrict(e)
            if e is TRUE:
                out.append((k, v))
                done = True
            elif e is FALSE:
                out.append((k, x))
            else:
                j = len(out)

                def same():
                    ps = list(c.args)
                    ps[j] = (ps[j][0], v)
                    I.set_content(o, mk('dictc', tuple(ps), 'dictc'))

                def other():
                    ps = list(c.args)
                    I.set_content(o, mk('dictc', tuple(ps[:j] + ps[j + 1:]), 'dictc'))
                    self.dict_set(o, key, v)
                    d = I.content(o)

                    def back(d):
                        if d.op == 'ite':
                            return t.ite(d.args[0], back(d.args[1]), back(d.args[2]))
                        ds = list(d.args)
                        return mk('dictc', tuple(ds[:j] + [ps[j]] + ds[j:]), 'dictc')
                    I.set_content(o, back(d))
                I.branch(e, same, other)
                return
        if not done:
            out.append((key, v))
        I.set_content(o, mk('dictc', tuple(out), 'dictc'))

    # ------------------------------------------------------------ operators
    def unary(self, op, v):
        I = self.I
        if v.op == 'ref' or v.op == 'inst':
            nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
            m = I.find_method(v, nm)
            if m is not None:
                return I.call(m, [], {})
            if v.op == 'inst':
                v = v.args[1]
            elif I.obj(v).kind == 'inst':
                I.raise_py(TypeError, 'bad operand type for unary')
        k = self.kind(v)
        if k in ('int', 'bool'):
            if op == 'USub':
                return t.neg(v)
            if op == 'UAdd':
                return t.as_int(v)
            return t.sub(t.neg(v), ONE)
        if k == 'float':
            if is_const(v):
                return const(-cval(v) if op == 'USub' else cval(v))
            return app('fneg', v, ty='float') if op == 'USub' else v
        if k in ('str', 'bytes', 'none', 'tuple', 'list'):
            I.raise_py(TypeError, 'bad operand type for unary')
        if k == 'decimal':
            return self.dec_neg(v) if op == 'USub' else self.dec_round(v, (28, 'ROUND_HALF_EVEN'))
        return app('un' + op, v)

    def binop(self, op, a, b):
        I = self.I
        # pure numeric values: lift directly
        if a.op == 'ite' or b.op == 'ite':
            la, lb = t.leaves(a), t.leaves(b)
            if all(self.kind(x) in ('int', 'bool') and x.op != 'inst' for x in la + lb) and op in (
                    'Add', 'Sub', 'Mult', 'BitXor', 'BitAnd', 'BitOr'):
                return I.restrict(lift(lambda x, y: self.int_op(op, x, y), a, b))
            if op == 'Add' and (all(x.ty == 'bytes' for x in la + lb) or all(x.ty == 'str' for x in la + lb)):
                return I.restrict(t.cat2(a, b))
            if a.op == 'ite':
                return I.split(a, lambda x: self.binop(op, x, I.restrict(b)))
            return I.split(b, lambda x: self.binop(op, I.restrict(a), x))
        name = self.DUNDER[op]
        ua = a.op in ('ref', 'inst') and I.cls_of(a) is not None and I.cls_of(a).py is None
        ub = b.op in ('ref', 'inst') and I.cls_of(b) is not None and I.cls_of(b).py is None
        if ua or ub:
            if ub and ua and I.cls_of(b) is not I.cls_of(a) and I.cls_of(b).issub(I.cls_of(a)) and \
                    I.class_attr(I.cls_of(b), '__r%s__' % name) is not None:
                return I.call(I.find_method(b, '__r%s__' % name), [a], {})
            m = I.find_method(a, '__%s__' % name) if ua else None
            r = None
            if m is not None:
                r = I.call(m, [b], {})
                if NOTIMPL not in t.leaves(r):
                    return r
                if r is not NOTIMPL:
                    return I.unknown('partial NotImplemented')
            m = I.find_method(b, '__r%s__' % name) if ub else None
            if m is not None:
                r = I.call(m, [a], {})
                if r is not NOTIMPL:
                    return r
            if a.op == 'inst' or b.op == 'inst':
                x = a.args[1] if a.op == 'inst' else a
                y = b.args[1] if b.op == 'inst' else b
                if self.kind(x) in ('int', 'bool') and self.kind(y) in ('int', 'bool'):
                    return self.int_op(op, x, y)
                if x is not a or y is not b:
                    return self.binop(op, x, y)
            if op == 'Mod' and self.kind(a) == 'str':
                return self.percent(a, b)
            I.raise_py(TypeError, 'unsupported operand type(s) for %s' % name)
        ka, kb = self.kind(a), self.kind(b)
        N = ('int', 'bool')
        if ka in N and kb in N:
            return self.int_op(op, a, b)
        if ka in N + ('float',) and kb in N + ('float',):
            if is_const(a) and is_const(b):
                try:
                    return const(OPS[op](cval(a), cval(b)))
                except ZeroDivisionError:
                    I.raise_py(ZeroDivisionError)
                except OverflowError:
                    I.raise_py(OverflowError)
            if op == 'Div':
                x, y = self.exact_float(a), self.exact_float(b)
                if x is not None and y is not None:
                    return self.int_op(op, x, y)     # both operands are what the integers are as floats
            return app('f' + name, a, b, ty='float')
        if op == 'Add':
            if ka == 'bytes' and kb in ('bytes', 'bytearray'):
                return t.cat2(a, self.raw(b))
            if ka == 'bytearray' and kb in ('bytes', 'bytearray'):
                return I.new_bytearray(t.cat2(self.raw(a), self.raw(b)))
            if ka == 'str' and kb == 'str':
                return t.cat2(a, b)
            if ka == 'list' and kb == 'list':
                return I.new_list(t.lcat_l(self.list_content(a), self.list_content(b)))
            if a.op == 'tuple' and b.op == 'tuple':
                return tup(a.args + b.args)
        if op == 'Mult':
            for x, y, kx, ky in ((a, b, ka, kb), (b, a, kb, ka)):
                if ky in N:
                    if kx in ('bytes', 'str'):
                        return self.repx(x, y)
                    if kx == 'bytearray':
                        return I.new_bytearray(self.repx(self.raw(x), y))
                    if kx == 'list':
                        c = self.list_content(x)
                        y = num(y)
                        if is_const(y):
                            return I.new_list(t.lcat([c] * max(0, cval(y))))
                        its = t.concrete_items(c)
                        if its is not None and len(its) == 1:
                            ok = I.restrict(t.ge0(y))
                            return I.new_list(ite(ok, t.lmap(y, its[0]), t.lcat([])))
                    if x.op == 'tuple' and is_const(y):
                        return tup(x.args * max(0, cval(y)))
        if op == 'Mod' and ka == 'str':
            return self.percent(a, b)
        if op == 'Mod' and ka == 'bytes':
            return self.percent_bytes(a, b)
        if op in ('BitAnd', 'BitOr', 'Sub', 'BitXor') and ka == 'set' and kb == 'set':
            x, y = t.concrete_items(I.content(a)), t.concrete_items(I.content(b))
            if x is not None and y is not None:
                f = {'BitAnd': [i for i in x if i in y], 'BitOr': x + [i for i in y if i not in x],
                     'Sub': [i for i in x if i not in y]}.get(op)
                if f is not None:
                    return I.new_set(f)
        if ka == 'decimal' or kb == 'decimal':
            return self.dec_arith(name, a, b)
        concrete = N + ('float', 'bytes', 'str', 'none', 'tuple', 'list', 'bytearray', 'dict', 'set', 'func', 'class')
        if ka in concrete and kb in concrete:
            I.raise_py(TypeError, 'unsupported operand type(s) for %s: %s and %s' % (name, ka, kb))
        return app('op' + name, a, b)

    def exact_float(self, x):
        """The integer that an operand of float arithmetic is exactly, or None."""
        if is_const(x):
            v = cval(x)
            return const(int(v)) if abs(v) <= 1 << 53 and v == int(v) else None
        y = x.args[0] if x.op == 'float' else x
        if self.kind(y) not in ('int', 'bool'):
            return None
        y, lim = t.as_int(y), const(1 << 53)
        return y if self.I.restrict(t.ge0(t.sub(lim, y))) is TRUE and self.I.restrict(t.ge0(t.add(lim, y))) is TRUE else None

    def repx(self, x, n):
        n = num(n)
        c = self.I.restrict(t.ge0(n))
        e = const('') if x.ty == 'str' else EMPTYB
        if c is FALSE:
            return e
        return ite(c, t.rep(x, n), e)

    def int_op(self, op, a, b):
        I = self.I
        if op == 'Add':
            return t.add(a, b)
        if op == 'Sub':
            return t.sub(a, b)
        if op == 'Mult':
            return t.mul(a, b)
        bool2 = self.kind(a) == 'bool' and self.kind(b) == 'bool'
        if op == 'BitXor':
            return bnot(t.eq(a, b)) if bool2 else t.bxor(a, b)
        if op == 'BitAnd':
            return band(a, b) if bool2 else self.and_(a, b)
        if op == 'BitOr':
            return bor(a, b) if bool2 else self.or_(a, b)
        if op in ('FloorDiv', 'Mod', 'Div'):
            I.may_raise(t.eq0(b), lambda: I.new_exc(ZeroDivisionError, [const('division by zero')]))
            if op == 'Div':
                if is_const(a) and is_const(b):
                    try:
                        return const(cval(a) / cval(b))
                    except OverflowError:
                        I.raise_py(OverflowError)
                return app('ftruediv', t.as_int(a), t.as_int(b), ty='float')
            return t.idiv(a, b) if op == 'FloorDiv' else t.mod(a, b)
        if op == 'Pow':
            return self.pow_(a, b)
        if op in ('LShift', 'RShift'):
            I.may_raise(bnot(t.ge0(b)), lambda: I.new_exc(ValueError, [const('negative shift count')]))
            b = self.few(b)
            return t.shl(a, b) if op == 'LShift' else t.shr(a, b)
        return I.unknown('int op ' + op)

    def and_(self, a, b):
        # constant bit masks of the form 1<<k : (a >> k) % 2 * 2^k
        for x, y in ((a, b), (b, a)):
            if is_const(y) and not is_const(x):
                m = int(cval(y))
                if m > 0 and m & (m - 1) == 0:
                    k = m.bit_length() - 1
                    return t.mul(const(m), t.mod(t.idiv(x, const(m)), const(2)))
        return t.bitand(a, b)

    def or_(self, a, b):
        # disjoint bit ranges: a + b
        for x, y in ((a, b), (b, a)):
            lo, hi = ibounds(y) if y.op != 'ite' else (None, None)
            if lo is not None and lo >= 0 and hi is not None:
                m = 1 << hi.bit_length()
                if t.mod(x, const(m)) is ZERO:
                    return t.add(a, b)
        return t.bitor(a, b)

    def pow_(self, a, b):
        I = self.I
        if is_const(b) and cval(b) < 0 or (is_const(a) and is_const(b) and abs(int(cval(b))) > 200000):
            return app('fpow', a, b, ty='float')
        if not is_const(b):
            c = I.restrict(t.ge0(b))
            if c is not TRUE:
                return ite(c, t.ipow(a, b), app('fpow', a, b, ty='float'))
        return t.ipow(a, b)

    # ------------------------------------------------------------ comparisons
    def compare(self, op, a, b):
        I = self.I
        a, b = I.restrict(a), I.restrict(b)
        if op in ('Is', 'IsNot'):
            r = lift(self.is_, a, b)
            return r if op == 'Is' else bnot(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if op == 'In' else bnot(r)
        if a.op == 'ite' or b.op == 'ite':
            if not any(x.op in ('ref', 'inst', 'obj') for x in t.leaves(a) + t.leaves(b)):
                return I.restrict(lift(lambda x, y: self.cmp1(op, x, y), a, b))
            if a.op == 'ite':
                return I.split(a, lambda x: self.compare(op, x, b))
            return I.split(b, lambda x: self.compare(op, a, x))
        return I.restrict(self.cmp1(op, a, b))

    def is_(self, a, b):
        I = self.I
        if a is b:
            return TRUE
        if a.op == 'ref' and b.op == 'ref':
            return FALSE
        for x, y in ((a, b), (b, a)):
            if y.op == 'c' and cval(y) is None:
                if x.ty != 'any' or x.op in ('ref', 'inst', 'obj'):
                    return FALSE
                if x.op == 'sym' and t.sym_attr(x, 'notnone'):
                    return FALSE
                return mk('eq', tuple(sorted((x, y), key=lambda z: z.id)), 'bool')
        ka, kb = self.kind(a), self.kind(b)
        if ka == 'bool' and kb == 'bool':
            return t.eq(a, b)
        if {ka, kb} == {'bool', 'int'}:
            return FALSE
        if ka == 'int' and kb == 'int':
            for x, y in ((a, b), (b, a)):
                if is_const(y) and not -5 <= cval(y) <= 256:
                    return FALSE
            return t.eq(a, b)
        if a.op in ('class', 'ext') and b.op in ('class', 'ext'):
            if a.op == 'ext' and b.op == 'class' or a.op == 'class' and b.op == 'ext':
                return FALSE
            return TRUE if a.args[0] == b.args[0] else FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof' and y.op in ('class', 'ext'):
                return mk('typeis', (x.args[0], y), 'bool')
        if a.ty in ('bytes', 'str') and b.ty == a.ty:
            return t.eq(a, b)
        known = ('int', 'bool', 'float', 'bytes', 'str', 'none', 'tuple', 'list', 'ref', 'class', 'func')
        if a.ty in known and b.ty in known:
            return FALSE
        return mk('is', tuple(sorted((a, b), key=lambda z: z.id)), 'bool')

    def user_cls(self, v):
        c = self.I.cls_of(v) if v.op in ('ref', 'inst', 'obj') else None
        if c is not None and (c.py is None):
            return c
        return None

    def cmp1(self, op, a, b):
        I = self.I
        if op in ('Eq', 'NotEq'):
            ca, cb = self.user_cls(a), self.user_cls(b)
            if ca is not None and a.op != 'obj':
                if op == 'NotEq':
                    m = I.find_method(a, '__ne__')
                    if m is not None:
                        return I.call(m, [b], {})
                m = I.find_method(a, '__eq__')
                if m is not None:
                    r = I.restrict(I.call(m, [b], {}))
                    if r is NOTIMPL:
                        r = TRUE if a is b else FALSE
                    elif NOTIMPL in t.leaves(r):
                        r = lift(lambda x: x if x is not NOTIMPL else FALSE, r)
                    return r if op == 'Eq' else bnot(I.truth(r))
            if cb is not None and b.op != 'obj':
                m = I.find_method(b, '__eq__')
                if m is not None:
                    r = I.call(m, [a], {})
                    if r is NOTIMPL:
                        r = TRUE if a is b else FALSE
                    return r if op == 'Eq' else bnot(I.truth(r))
            if self.kind(a) == 'decimal' or self.kind(b) == 'decimal':
                r = self.dec_cmp('Eq', a, b)
            else:
                r = self.eqv(a, b)
            return r if op == 'Eq' else bnot(r)
        nm, rn = self.CMP[op]
        ca, cb = self.user_cls(a), self.user_cls(b)
        if ca is not None or cb is not None:
            m = I.find_method(a, '__%s__' % nm) if ca is not None else None
            if m is not None:
                r = I.call(m, [b], {})
                if r is not NOTIMPL:
                    return r
            m = I.find_method(b, '__%s__' % rn) if cb is not None else None
            if m is not None:
                r = I.call(m, [a], {})
                if r is not NOTIMPL:
                    return r
            a2, b2 = num(a), num(b)
            if a2 is a and b2 is b:
                I.raise_py(TypeError, "'%s' not supported between instances" % nm)
            a, b = a2, b2
        ka, kb = self.kind(a), self.kind(b)
        N = ('int', 'bool')
        if ka == 'decimal' or kb == 'decimal':
            return self.dec_cmp(op, a, b)
        if ka in N and kb in N:
            return {'Lt': lambda: t.lt_i(a, b), 'Gt': lambda: t.lt_i(b, a), 'LtE': lambda: t.le_i(a, b),
                    'GtE': lambda: t.le_i(b, a)}[op]()
        if is_const(a) and is_const(b):
            try:
                f = {'Lt': operator.lt, 'Gt': operator.gt, 'LtE': operator.le, 'GtE': operator.ge}[op]
                return const(bool(f(cval(a), cval(b))))
            except TypeError:
                I.raise_py(TypeError, 'not comparable')
        if self.is_byteslike(a) and self.is_byteslike(b):
            x, y = self.raw(a), self.raw(b)
            if op in ('Gt', 'LtE'):
                x, y = y, x
            r = self.blt(x, y)                 # x < y
            return r if op in ('Lt', 'Gt') else bnot(r)
        if a.op == 'tuple' and b.op == 'tuple' or (ka == 'list' and kb == 'list'):
            x = I.seq_items(self.seq_of(a))
            y = I.seq_items(self.seq_of(b))
            if x is not None and y is not None:
                def go(i):
                    if i == len(x) or i == len(y):
                        la, lb = len(x), len(y)
                        return TRUE if {'Lt': la < lb, 'Gt': la > lb, 'LtE': la <= lb, 'GtE': la >= lb}[op] else FALSE
                    e = I.truth(self.compare('Eq', x[i], y[i]))
                    return I.cond(e, lambda: go(i + 1), lambda: I.truth(self.compare(op, x[i], y[i])))
                return go(0)
        ordk = N + ('float',)
        concrete = N + ('float', 'bytes', 'str', 'none', 'tuple', 'list', 'bytearray', 'dict', 'set', 'func', 'class')
        if ka in concrete and kb in concrete and ka != kb and not (ka in ordk and kb in ordk):
            I.raise_py(TypeError, "'%s' not supported between %s and %s" % (nm, ka, kb))
        if op == 'Lt':
            return app('lt', a, b, ty='bool')
        if op == 'Gt':
            return app('lt', b, a, ty='bool')
        if op == 'LtE':
            return app('le', a, b, ty='bool')
        return app('le', b, a, ty='bool')

    def blt(self, x, y):
        """Lexicographic x < y of byte strings."""
        def f(x, y):
            lx, ly = t.length(x), t.length(y)
            if lx is ly or self.I.restrict(t.eq0(t.sub(lx, ly))) is TRUE:
                return t.ge0(t.sub(t.sub(t.be(y), t.be(x)), ONE))
            return mk('lt', (x, y), 'bool')
        return lift(f, x, y)

    def eqv(self, a, b):
        """Builtin equality."""
        I = self.I
        if a is b and a.op != 'unk':
            return TRUE
        a, b = num(a), num(b)
        ka, kb = self.kind(a), self.kind(b)
        if ka in ('bytes', 'bytearray') and kb in ('bytes', 'bytearray'):
            return t.eq(self.raw(a), self.raw(b))
        if a.op == 'ref' and b.op == 'ref':
            if ka == 'list' and kb == 'list':
                x, y = I.content(a), I.content(b)
                xi, yi = t.concrete_items(x), t.concrete_items(y)
                if xi is not None and yi is not None:
                    if len(xi) != len(yi):
                        return FALSE
                    r = TRUE
                    for p, q in zip(xi, yi):
                        r = band(r, I.truth(self.compare('Eq', p, q)))
                    return r
                return t.eq(x, y)
            if ka == kb and ka in ('dict', 'set'):
                return t.eq(I.content(a), I.content(b))
            return FALSE
        if a.op == 'ref' or b.op == 'ref':
            x = b if a.op == 'ref' else a
            return FALSE if x.ty != 'any' else app('eq', a, b, ty='bool')
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for p, q in zip(a.args, b.args):
                r = band(r, I.truth(self.compare('Eq', p, q)))
            return r
        for x, y in ((a, b), (b, a)):
            if x.op in ('hexint', 'binint', 'str') and y.op == 'c' and y.ty == 'str':
                base, pre = {'hexint': (16, '0x'), 'binint': (2, '0b'), 'str': (10, '')}[x.op]
                s = cval(y)
                try:
                    n = int(s, base)
                    canon = {'hexint': hex, 'binint': bin, 'str': str}[x.op](n)
                except ValueError:
                    return FALSE if x.op != 'str' else t.eq(a, b)
                if x.op != 'str' or self.kind(x.args[0]) == 'int':
                    return t.eq0(t.sub(x.args[0], const(n))) if canon == s else FALSE
            if y.op == 'c' and y.ty == 'str' and t.bit_char(x) is not None:
                return t.eq0(t.sub(t.bit_char(x), const(int(cval(y))))) if cval(y) in ('0', '1') else FALSE
            if x.op in ('hexint', 'binint') and y.op == x.op:
                return t.eq(x.args[0], y.args[0])
            if x.op == 'typeof' and y.op in ('class', 'ext'):
                return mk('typeis', (x.args[0], y), 'bool')
        if a.op in ('class', 'ext', 'func', 'builtin', 'module') and b.op in ('class', 'ext', 'func', 'builtin', 'module'):
            return TRUE if a.op == b.op and a.args[0] == b.args[0] else FALSE
        return t.eq(a, b)

    def contains(self, x, c):
        I = self.I
        c = I.restrict(c)
        if c.op == 'ite':
            return I.split(c, lambda y: self.contains(x, y))
        if c.op == 'range':
            a, b, s = c.args
            x2 = lift(num, I.restrict(x))
            if s is ONE and self.kind(x2) in ('int', 'bool'):
                return band(t.le_i(a, x2), t.lt_i(x2, b))
        if c.ty == 'str':
            if x.op == 'c' and c.op == 'c':
                return const(cval(x) in cval(c)) if isinstance(cval(x), str) else I.raise_py(TypeError)
            if c.op == 'c' and x.ty == 'str' and t.clen(x) == 1:
                r = FALSE
                for ch in sorted(set(cval(c))):
                    r = bor(r, t.eq(x, const(ch)))
                return r
            f = self.occurs(c, cval(x)) if x.op == 'c' else None
            if f is not None:
                r = FALSE
                for g, _ in f:
                    r = bor(r, g)
                return r
            return app('in', x, c, ty='bool')
        if self.is_byteslike(c) and self.kind(x) in ('int', 'bool'):
            rc = self.raw(c)
            items = I.seq_items(self.seq_bytes(rc))
            if items is not None:
                r = FALSE
                for y in items:
                    r = bor(r, t.eq(y, lift(num, x)))
                return I.restrict(r)
            return app('in', x, rc, ty='bool')
        if self.is_byteslike(c):
            return app('in', self.rawx(x), self.raw(c), ty='bool')
        if c.op == 'ref' and I.obj(c).kind == 'inst':
            m = I.find_method(c, '__contains__')
            if m is not None:
                return I.truth(I.call(m, [x], {}))
        isdict = c.op == 'ref' and I.obj(c).kind == 'dict'
        if isdict and I.content(c).op == 'ite':
            def part(d):
                I.set_content(c, d)
                return self.contains(x, c)
            return I.split(I.content(c), part)
        items = I.seq_items(self.seq_of(c)) if not isdict else \
            ([k for k, _ in I.content(c).args] if I.content(c).op == 'dictc' else None)
        if items is not None:
            def go(i):
                if i == len(items):
                    return FALSE
                e = I.truth(self.compare('Eq', items[i], x))
                return I.cond(e, lambda: TRUE, lambda: go(i + 1))
            return go(0)
        return app('in', x, c if c.op != 'ref' else I.content(c), ty='bool')


def _known_ext():
    from .prog import _extexc
    return _extexc
