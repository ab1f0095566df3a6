"""Methods, constructors and functions of the builtin types."""
import builtins as _b
import codecs
import operator

from . import terms as t
from .terms import (T, mk, const, is_const, cval, ite, bnot, band, bor, lift, app, unk, tup, TRUE, FALSE,
                    NONE, ZERO, ONE, EMPTYB, NOTIMPL)
from .prog import Dead, bounds_in, ClassObj, UNBOUND, bclass, cls_term, ext_exception, restrict

N = ('int', 'bool')


def isnone(x):
    return x is None or (x.op == 'c' and cval(x) is None)


class MethodMixin(object):

    # ------------------------------------------------------------ attribute access on builtin values
    def attr(self, o, name, missing):
        I = self.I
        if o.op == 'ref':
            ob = I.obj(o)
            v = I.S.store.get((o.args[0], name))
            if v is not None and not name.startswith('$'):
                return I.restrict(v)
            if ob.kind == 'hash':
                if name == 'digest_size':
                    return const(ob.extra[1])
                if name == 'name':
                    return const(ob.extra[0])
            if ob.kind in ('list', 'dict', 'set', 'bytearray'):
                py = {'list': list, 'dict': dict, 'set': set, 'bytearray': bytearray}[ob.kind]
                if not hasattr(py, name):
                    return missing()
            if ob.kind == 'opaque':
                return app('attr', o, name)
            return mk('bmeth', (name, o), 'meth')
        py = {'int': int, 'bool': bool, 'bytes': bytes, 'str': str, 'float': float, 'none': type(None),
              'tuple': tuple, 'list': list}.get(self.kind(o))
        if py is not None:
            if name == '__class__':
                return self.type_of(o)
            if name in ('real', 'numerator') and py in (int, bool):
                return t.as_int(o)
            if name == 'imag':
                return ZERO
            if not hasattr(py, name):
                return missing()
            return mk('bmeth', (name, o), 'meth')
        if o.op == 'obj':
            for f, v in o.args[1]:
                if f == name:
                    return v
        if o.op == 'slice' and name in ('start', 'stop', 'step'):
            return o.args[('start', 'stop', 'step').index(name)]
        if o.op in ('vk', 'signkey', 'xkey') or o.ty in ('decimal', 'decctx'):
            return mk('bmeth', (name, o), 'meth')
        if o.op == 'typeof' and name == '__name__':
            return app('typename', o.args[0], ty='str')
        if o.op == 'sym':
            a = t.sym_attr(o, 'attrs')
            if a is not None:
                for f, v in a:
                    if f == name:
                        return v
            if t.sym_attr(o, 'protocol') is not None:
                return mk('bmeth', (name, o), 'meth')
        return app('attr', o, name)

    def call_obj(self, f, args, kw):
        I = self.I
        ob = I.obj(f)
        if ob.kind == 'opaque':
            e = I.event('dyncall', ob.extra or 'opaque', args)
            return app('dyn', f, tup(args))
        I.raise_py(TypeError, 'object is not callable')

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw):
        I = self.I
        o = I.restrict(o)
        if o.op == 'ite':
            return I.split(o, lambda x: self.method(x, name, args, kw))
        if o.op == 'ref':
            ob = I.obj(o)
            f = getattr(self, 'm_%s_%s' % (ob.kind, name), None)
            if f is not None:
                return f(o, *args, **kw)
            if ob.kind == 'bytearray':
                r = self.method(I.content(o), name, args, kw)
                if name in ('rstrip', 'lstrip', 'strip', 'replace', 'ljust', 'rjust', 'zfill', 'upper', 'lower',
                            'join', 'translate') and r.ty == 'bytes':
                    return I.new_bytearray(r)
                return r
            if ob.kind == 'inst':
                if name in ('__init__', '__init_subclass__', '__setattr__'):
                    return NONE
                if name == '__hash__':
                    return app('hashint', o, ty='int')
                if name == '__eq__':
                    return TRUE if o is args[0] else NOTIMPL
                if name == '__ne__':
                    return bnot(I.truth(self.compare('Eq', o, args[0])))
                if name in ('__str__', '__repr__'):
                    return self.repr_(o)
                if name == '__getattribute__':
                    return I.getattr(o, cval(args[0]))
                if name in ('__lt__', '__gt__', '__le__', '__ge__'):
                    return NOTIMPL
                if name == 'with_traceback':
                    return o
            if ob.kind == 'opaque' or True:
                I.event('dyncall', '%s.%s' % (ob.kind, name), [o] + args)
                return app('dyn', mk('bmeth', (name, o), 'meth'), tup(args))
        k = self.kind(o)
        if k in N:
            return self.int_method(o, name, args, kw)
        if o.op == 'inst':
            return self.int_method(o, name, args, kw)
        f = getattr(self, 'm_%s_%s' % (k, name), None)
        if f is not None:
            return f(o, *args, **kw)
        if k in ('bytes', 'str'):
            f = getattr(self, 'm_seq_%s' % name, None)
            if f is not None:
                return f(o, *args, **kw)
            if is_const(o) and all(is_const(a) for a in args) and not kw:
                return self.const_method(o, name, args)
            rty = {'find': 'int', 'index': 'int', 'count': 'int', 'rfind': 'int', 'isdigit': 'bool', 'isalnum': 'bool',
                   'isalpha': 'bool', 'isspace': 'bool', 'isupper': 'bool', 'islower': 'bool', 'isdecimal': 'bool',
                   'isnumeric': 'bool', 'isascii': 'bool', 'split': 'list', 'splitlines': 'list', 'rsplit': 'list',
                   'partition': 'tuple', 'upper': k, 'lower': k, 'strip': k, 'lstrip': k, 'rstrip': k,
                   'replace': k, 'zfill': k, 'rjust': k, 'ljust': k, 'title': k, 'swapcase': k, 'center': k,
                   'translate': k, 'casefold': k, 'removeprefix': k, 'removesuffix': k}.get(name)
            if rty == 'bool':
                return mk('pred', (k + '.' + name, o) + tuple(args), 'bool')
            r = self.search(o, name, args) if not kw and name in ('find', 'rfind', 'index', 'rindex', 'partition', 'rpartition') else None
            if r is not None:
                return r
            if name in ('index', 'rindex'):
                c = app('in', args[0], o, ty='bool')
                I.may_raise(bnot(c), lambda: I.new_exc(ValueError, [const('not found')]))
            r = self.known_text(o, name, args) if not kw else None
            if r is None and name in ('partition', 'rpartition'):
                r = tup([app('strm', '%s.%d' % (name, i), o, *args, ty=k) for i in range(3)])
            return r if r is not None else app('strm', name, o, *args, ty=rty or 'any')
        if k == 'float':
            if name == 'is_integer':
                return mk('pred', ('is_integer', o), 'bool')
            if name in ('__str__', '__repr__') and not args:
                return self.str_(o)
            return app('floatm', name, o, *args)
        if o.op == 'tuple':
            if name == 'index' or name == 'count':
                return I.unknown('tuple.' + name)
        if o.ty == 'list':
            if name == 'copy':
                return I.new_list(o)
        if o.op == 'vk':
            return self.vk_method(o, name, args, kw)
        if o.op == 'sym' and t.sym_attr(o, 'protocol') is not None:
            return self.protocol(o, t.sym_attr(o, 'protocol'), name, args, kw)
        if o.op == 'el' and o.args[0].op == 'sym' and t.sym_attr(o.args[0], 'eprotocol'):
            return self.protocol(o, t.sym_attr(o.args[0], 'eprotocol'), name, args, kw)
        if k == 'none':
            I.raise_py(AttributeError, name)
        if o.op == 'func' and name == '__call__':
            return I.call(o, args, kw)
        if o.op == 'ext':
            return self.ext(o.args[0] + '.' + name, args, kw)
        e = I.event('dyncall', name, [o] + list(args))
        r = app('dyn', mk('bmeth', (name, o), 'meth'), tup(args))
        e.res = r
        return r

    def protocol(self, o, proto, name, args, kw):
        """Objects known only by the serialisation interface."""
        I = self.I
        if proto == 'serializable' and name == 'Serialize':
            w = args[0]
            st = I.getattr(w, 'stream')
            I.event('serialize', 'item', (o,))
            self.m_stream_write(st, app('serialized', o, ty='bytes'))
            return NONE
        I.event('dyncall', name, [o] + list(args))
        return app('dyn', mk('bmeth', (name, o), 'meth'), tup(args))

    def const_method(self, o, name, args):
        I = self.I
        try:
            r = getattr(cval(o), name)(*[cval(a) for a in args])
        except Exception as e:
            I.raise_py(type(e), str(e))
        return self.lit(r)

    def lit(self, r):
        I = self.I
        if isinstance(r, list):
            return I.new_list([self.lit(x) for x in r])
        if isinstance(r, tuple):
            return tup([self.lit(x) for x in r])
        if isinstance(r, bytearray):
            return I.new_bytearray(const(bytes(r)))
        return const(r)

    # ---- int
    INT_DUNDER = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__floordiv__': 'FloorDiv', '__mod__': 'Mod',
                  '__truediv__': 'Div', '__lshift__': 'LShift', '__rshift__': 'RShift', '__and__': 'BitAnd',
                  '__or__': 'BitOr', '__xor__': 'BitXor', '__pow__': 'Pow'}

    def int_method(self, o, name, args, kw):
        I = self.I
        v = o.args[1] if o.op == 'inst' else o
        v = t.as_int(v)
        args = [I.restrict(a) for a in args]
        if name in I.intmethods:
            return I.intmethods[name](v)
        if name in self.INT_DUNDER:
            if name == '__pow__' and len(args) == 2 and not isnone(args[1]):
                return self.b_pow(v, args[0], args[1])

            def f(b):
                b2 = b.args[1] if b.op == 'inst' else b
                if self.kind(b2) not in N:
                    return NOTIMPL
                return self.int_op(self.INT_DUNDER[name], v, b2)
            return I.split(args[0], f) if args[0].op == 'ite' and any(
                self.kind(x) not in N for x in t.leaves(args[0])) else lift(f, args[0]) \
                if args[0].op == 'ite' and name in ('__add__', '__sub__', '__mul__') else I.split(args[0], f)
        if name.startswith('__r') and '__' + name[3:] in self.INT_DUNDER:
            return I.split(args[0], lambda b: self.int_op(self.INT_DUNDER['__' + name[3:]],
                                                          b.args[1] if b.op == 'inst' else b, v)
                           if self.kind(b) in N else NOTIMPL)
        if name == '__divmod__':
            return tup([self.int_method(o, '__floordiv__', args, {}), self.int_method(o, '__mod__', args, {})])
        if name == '__neg__':
            return t.neg(v)
        if name in ('__pos__', '__int__', '__index__', 'conjugate', '__trunc__', '__floor__', '__ceil__'):
            return v
        if name == '__invert__':
            return t.sub(t.neg(v), ONE)
        if name == '__abs__':
            return self.b_abs(v)
        if name == '__bool__':
            return bnot(t.eq0(v))
        if name == '__hash__':
            return app('hashint', v, ty='int')
        if name in ('__str__', '__repr__'):
            return self.str_(v)
        if name == '__format__':
            return self.format_(v, args[0])
        cm = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__gt__': 'Gt', '__le__': 'LtE', '__ge__': 'GtE'}
        if name in cm:
            def g(b):
                b2 = b.args[1] if b.op == 'inst' else b
                if self.kind(b2) not in N:
                    return NOTIMPL
                return self.cmp1(cm[name], v, b2)
            return I.split(args[0], g)
        if name == 'bit_length':
            return lift(lambda x: const(cval(x).bit_length()) if is_const(x) else mk('bitlen', (x,), 'int'), v)
        if name == 'to_bytes':
            length = args[0] if args else kw.get('length', ONE)
            order = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
            signed = kw.get('signed', args[2] if len(args) > 2 else FALSE)
            return self.to_bytes(v, length, order, signed)
        if name in ('__radd__',):
            return NOTIMPL
        if name == 'bit_count':
            return app('bitcount', v, ty='int')
        I.raise_py(AttributeError, 'int has no attribute ' + name)

    def fits(self, v, n, signed):
        """Condition that v fits n bytes."""
        def f(v, n):
            if is_const(n):
                b = cval(n)
                if signed:
                    lim = 1 << (8 * b - 1) if b else 0
                    if b == 0:
                        return t.eq0(v)
                    return band(t.ge0(t.add(v, const(lim))), t.ge0(t.sub(const(lim - 1), v)))
                return band(t.ge0(v), t.ge0(t.sub(const(256 ** b - 1), v)))
            bl = mk('bitlen', (v,), 'int') if not is_const(v) else const(cval(v).bit_length())
            n8 = t.mul(const(8), n)
            pos = t.ge0(t.sub(n8, t.add(bl, ONE) if signed else bl))
            if not signed:
                return band(t.ge0(v), pos)
            # negative numbers: -2^(8n-1) also fits; with one spare bit it certainly does
            return ite(t.ge0(v), pos, ite(pos, TRUE, mk('pred', ('fits', v, n), 'bool')))
        return lift(f, v, n)

    def to_bytes(self, v, n, order, signed):
        I = self.I
        sg = I.restrict(I.truth(signed))
        if sg is not TRUE and sg is not FALSE:
            return I.cond(sg, lambda: self.to_bytes(v, n, order, TRUE), lambda: self.to_bytes(v, n, order, FALSE))
        order = I.restrict(order)
        if order.op == 'ite':
            return I.split(order, lambda x: self.to_bytes(v, n, x, signed))
        s = sg is TRUE
        if order.ty not in ('str', 'any') or is_const(order) and not isinstance(cval(order), str):
            I.raise_py(TypeError, 'to_bytes() argument byteorder must be str')
        v = I.restrict(v)
        n = lift(lambda x: x.args[1] if x.op == 'inst' else x, I.restrict(n))
        if all(self.kind(x) not in N and t.ty_of(x) != 'any' for x in t.leaves(n)):
            I.raise_py(TypeError, 'object cannot be interpreted as an integer')
        I.may_raise(bnot(t.ge0(n)), lambda: I.new_exc(ValueError, [const('length argument must be non-negative')]))
        ok = self.fits(v, n, s)
        if not s:
            I.may_raise(bnot(t.ge0(v)), lambda: I.new_exc(OverflowError, [const("can't convert negative int to unsigned")]))
        I.may_raise(bnot(ok), lambda: I.new_exc(OverflowError, [const('int too big to convert')]))
        v = I.restrict(v)
        r = t.i2b(v, n, s)
        if is_const(order):
            if cval(order) == 'little':
                return t.rev(r)
            if cval(order) == 'big':
                return r
            I.raise_py(ValueError, "byteorder must be either 'little' or 'big'")
        return ite(t.eq(order, const('little')), t.rev(r), r)

    def from_bytes(self, data, order, signed):
        I = self.I
        order = I.restrict(order)
        if order.op == 'ite':
            return I.split(order, lambda x: self.from_bytes(data, x, signed))
        if order.ty not in ('str', 'any') or is_const(order) and not isinstance(cval(order), str):
            I.raise_py(TypeError, 'from_bytes() argument byteorder must be str')
        b = self.tobytes(data)
        sg = I.restrict(I.truth(signed))
        if is_const(order):
            if cval(order) == 'little':
                b = t.rev(b)
            elif cval(order) != 'big':
                I.raise_py(ValueError, "byteorder must be either 'little' or 'big'")
        else:
            b = ite(t.eq(order, const('little')), t.rev(b), b)
        return ite(sg, t.bes(b), t.be(b)) if sg not in (TRUE, FALSE) else (t.bes(b) if sg is TRUE else t.be(b))

    # ---- bytes / str
    def tobytes(self, v):
        """bytes(v) for bytes-like or iterable-of-int values."""
        I = self.I
        v = I.restrict(v)
        if v.op == 'ite':
            lv = t.leaves(v)
            if all(self.is_byteslike(x) for x in lv):
                return I.restrict(lift(lambda x: self.raw(x), v))
            return I.split(v, self.tobytes)
        if self.is_byteslike(v):
            return self.raw(v)
        k = self.kind(v)
        if k in ('str', 'none', 'float') or (v.op == 'ref' and k == 'inst'):
            if k == 'inst':
                m = I.find_method(v, '__bytes__')
                if m is not None:
                    return I.call(m, [], {})
                m = I.find_method(v, '__iter__')
                if m is None:
                    I.raise_py(TypeError, 'cannot convert object to bytes')
            else:
                I.raise_py(TypeError, 'cannot convert object to bytes')
        if k in ('list', 'tuple', 'iter', 'range', 'seqd', 'set'):
            s = self.seq_of(v)
            items = I.seq_items(s)
            if items is not None:
                return t.cat([self.byteval(x) for x in items], 'bytes') if items else EMPTYB
            if s.src is not None:
                return I.restrict(s.src)
            if s.n is not None:
                I.bvdepth += 1
                kk = t.bv(I.bvdepth)
                I.bvdepth -= 1
                x = s.el(kk)
                return t.cmap(I.restrict(s.n), t.i2b(x, ONE))
            if s.segs is not None:
                return t.cat([self.tobytes(I.new_list(self.list_content_seg(x))) for x in s.segs], 'bytes')
            return mk('bytesof', (v,), 'bytes')
        if v.op == 'memoryview':
            return v.args[0]
        if k in N:
            return unk('bytes of int')
        return mk('bytesof', (v,), 'bytes')

    def list_content_seg(self, s):
        if s.items is not None:
            return t.lcat([t.li(x) for x in s.items])
        return t.lmap(s.n, s.el(t.bv(self.I.bvdepth + 1)))

    def m_bytes_hex(self, o, *a):
        if a:
            return app('hexsep', o, *a, ty='str')
        return t.astr(t.hexl(o))

    def codec(self, encoding):
        I = self.I
        if not is_const(encoding):
            return
        e = cval(encoding)
        if not isinstance(e, str):
            I.raise_py(TypeError, 'encoding must be str')
        try:
            ok = codecs.lookup(e)._is_text_encoding
        except LookupError:
            ok = False
        if not ok:
            I.raise_py(LookupError, 'unknown encoding: ' + e)

    def m_bytes_decode(self, o, encoding=const('utf-8'), errors=const('strict')):
        I = self.I
        self.codec(encoding)

        def f(x):
            if t.is_ascii(x) or x.op == 'encode':
                return t.decode(x, cval(encoding)) if is_const(encoding) else app('decode', x, encoding, ty='str')
            if is_const(x) and is_const(encoding):
                try:
                    return const(cval(x).decode(cval(encoding)))
                except UnicodeDecodeError:
                    I.raise_py(UnicodeDecodeError)
            enc = t.norm_enc(cval(encoding)) if is_const(encoding) else 'dyn'
            if enc not in ('iso8859-1',):
                if is_const(errors) and cval(errors) == 'strict':
                    ok = mk('pred', ('decodable', enc, x), 'bool')
                    I.may_raise(bnot(ok), lambda: I.new_exc(UnicodeDecodeError))
                else:
                    return app('decodeE', enc, x, errors, ty='str')
            return t.decode(x, enc) if is_const(encoding) else app('decode', x, encoding, ty='str')
        return I.split(o, f)

    def m_str_encode(self, o, encoding=const('utf-8'), errors=const('strict')):
        I = self.I
        self.codec(encoding)

        def f(x):
            if not is_const(encoding):
                return app('encodeD', x, encoding, ty='bytes')
            enc = t.norm_enc(cval(encoding))
            if is_const(errors) and cval(errors) != 'strict':
                return app('encodeE', enc, x, errors, ty='bytes')
            if is_const(x):
                try:
                    return const(cval(x).encode(enc))
                except UnicodeEncodeError:
                    I.raise_py(UnicodeEncodeError)
            if enc not in ('utf-8', 'utf-16', 'utf-32') and x.op not in ('astr',) and not t.sym_attr(x, 'ascii'):
                ok = mk('pred', ('encodable', enc, x), 'bool')
                I.may_raise(bnot(ok), lambda: I.new_exc(UnicodeEncodeError))
            return t.encode(x, enc)
        return I.split(o, f)

    def m_seq_join(self, sep, it):
        I = self.I
        ty = sep.ty
        it = I.restrict(it)
        if it.op == 'ite':
            return I.split(it, lambda x: self.m_seq_join(sep, x))
        c = self.list_content(it)
        if c.op == 'ite':
            return I.split(c, lambda x: self.m_seq_join(sep, I.new_list(x)))
        items = t.concrete_items(c)
        if items is None and t.clen(c) is not None and t.clen(c) <= 8:
            items = [self.el_of(c, const(i)) for i in range(t.clen(c))]
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(sep)
                x = I.restrict(x)
                if ty == 'bytes':
                    if x.ty == 'str' or self.kind(x) in N:
                        I.raise_py(TypeError, 'expected bytes')
                    parts.append(self.rawx(x))
                else:
                    if x.ty != 'str' and x.ty != 'any':
                        I.raise_py(TypeError, 'expected str')
                    parts.append(x)
            if not parts:
                return const('') if ty == 'str' else EMPTYB
            return t.cat(parts, ty)
        if is_const(sep) and not cval(sep):
            segs = c.args if c.op == 'lcat' else (c,)
            out = []
            for s in segs:
                if s.op == 'li':
                    out.append(self.rawx(s.args[0]))
                elif s.op == 'lmap':
                    out.append(t.cmap(s.args[0], s.args[1]))
                else:
                    L = t.length(s)
                    I.bvdepth += 1
                    k = t.bv(I.bvdepth)
                    I.bvdepth -= 1
                    out.append(t.cmap(L, self.el_of(s, k)))
            return t.cat(out, ty)
        return app('join', sep, c, ty=ty)

    def m_seq_startswith(self, o, p, *a):
        I = self.I
        p = I.restrict(p)
        if p.op == 'tuple':
            r = FALSE
            for x in p.args:
                r = bor(r, self.m_seq_startswith(o, x))
            return r
        if a:
            return mk('pred', ('startswith', o, p) + a, 'bool')
        p = self.raw(p)
        L = t.length(p)
        sl = self.pyslice(o, mk('slice', (NONE, L, NONE), 'slice'))
        return I.restrict(t.eq(sl, p))

    def m_seq_endswith(self, o, p, *a):
        I = self.I
        p = self.raw(I.restrict(p))
        L = t.length(p)
        c = I.restrict(t.ge0(t.sub(t.length(o), L)))
        if c is FALSE:
            return FALSE
        return band(c, I.restrict(lift(lambda b: t.eq(t.subseq(b, t.sub(t.length(b), L), t.length(b)), p), o)))

    def occurs(self, o, sep, last=False):
        """Where the constant sep occurs in the text (or bytes) o: pairs (condition, position) in the order of search, one for
        every place where it can; None where an occurrence cannot be told."""
        if not isinstance(sep, (str, bytes)) or not sep or isinstance(sep, str) != (o.ty == 'str') or o.op not in ('cat', 'astr', 'str', 'decl', 'hex'):
            return None
        sep = [ord(c) for c in sep] if isinstance(sep, str) else list(sep)
        items, pos = [], t.ZERO         # (position, character code term or None for a run, characters the run can hold)
        for s in (o.args if o.op == 'cat' else (o,)):
            for x in ((s.args[0].args if s.args[0].op == 'cat' else (s.args[0],)) if s.op == 'astr' else (s,)):
                if x.op == 'c':
                    for i, c in enumerate(cval(x)):
                        items.append((t.add(pos, const(i)), const(c if isinstance(c, int) else ord(c)), None))
                elif x.op == 'decl':
                    for i in range(x.args[1]):
                        items.append((t.add(pos, const(i)), t.byte_at(x, const(i)), b'0123456789'))
                elif x.op == 'str' and self.kind(x.args[0]) == 'int':
                    items.append((pos, None, b'-0123456789'))
                elif x.op == 'hex':
                    items.append((pos, None, b'0123456789abcdef'))
                else:
                    return None
                pos = t.add(pos, t.length(x))
        out = []
        for i, (at, _, _) in enumerate(items):
            c = TRUE
            for j, ch in enumerate(sep):
                if i + j >= len(items):
                    c = FALSE
                    break
                _, code, cls = items[i + j]
                if cls is not None and ch not in cls:
                    c = FALSE
                    break
                if code is None:
                    return None
                c = band(c, t.eq0(t.sub(code, const(ch))))
                if c is FALSE:
                    break
            if c is not FALSE:
                out.append((self.I.restrict(c), at))
        return out[::-1] if last else out

    def search(self, o, name, args):
        """find, index and the like of a constant in text made of known parts; None where that cannot be told."""
        I = self.I
        if len(args) != 1 or not is_const(self.raw(args[0])):
            return None
        sep = cval(self.raw(args[0]))
        f = self.occurs(o, sep, name[0] == 'r')
        if f is None:
            return None
        end = t.length(o)

        def go(i, hit, miss):
            return miss() if i == len(f) else I.cond(f[i][0], lambda: hit(i), lambda: go(i + 1, hit, miss))
        if name in ('find', 'rfind', 'index', 'rindex'):
            return go(0, lambda i: f[i][1], lambda: const(-1) if 'find' in name else I.raise_py(ValueError, 'not found'))
        if name in ('partition', 'rpartition'):
            none = const(sep[:0])
            return go(0, lambda i: tup([t.subseq(o, t.ZERO, f[i][1]), const(sep), t.subseq(o, t.add(f[i][1], const(len(sep))), end)]),
                      lambda: tup([o, none, none] if name == 'partition' else [none, none, o]))
        return None

    def known_text(self, o, name, args):
        """Text methods on a concatenation in which every occurrence of a one-character separator can be told."""
        I = self.I
        if name in ('removesuffix', 'removeprefix') and len(args) == 1 and self.raw(args[0]).ty == o.ty:
            p = self.raw(args[0])
            L, n = t.length(p), t.length(o)
            if name == 'removesuffix':
                return I.split(ite(self.m_seq_endswith(o, p), TRUE, FALSE), lambda c: self.pyslice(o, mk('slice', (NONE, t.sub(n, L), NONE), 'slice')) if c is TRUE else o)
            return I.split(ite(self.m_seq_startswith(o, p), TRUE, FALSE), lambda c: self.pyslice(o, mk('slice', (L, NONE, NONE), 'slice')) if c is TRUE else o)
        if name not in ('partition', 'rpartition', 'split', 'rsplit', 'count', 'replace') or not args or not is_const(args[0]):
            return None
        sep = cval(self.raw(args[0]))
        if not isinstance(sep, (str, bytes)) or len(sep) != 1 or isinstance(sep, str) != (o.ty == 'str'):
            return None
        ch = ord(sep)
        segs = []
        for s in (o.args if o.op == 'cat' else (o,)):
            if s.op == 'astr':
                segs += [(x, True) for x in (s.args[0].args if s.args[0].op == 'cat' else (s.args[0],))]
            else:
                segs.append((s, False))
        pieces, cur = [], []
        for s, a in segs:
            if s.op == 'c':
                v = cval(s)
                parts = v.split(bytes([ch])) if isinstance(v, bytes) else v.split(chr(ch))
                for i, q in enumerate(parts):
                    if i:
                        pieces.append(cur)
                        cur = []
                    cur.append(t.astr(const(q)) if a else const(q))
            elif s.op == 'str' and self.kind(s.args[0]) == 'int' and chr(ch) not in '-0123456789' or \
                    s.op == 'decl' and not 48 <= ch < 58 or s.op == 'hex' and ch not in b'0123456789abcdef':
                cur.append(t.astr(s) if a else s)
            else:
                return None
        pieces.append(cur)
        out = [t.cat(p, o.ty) if p else const('' if o.ty == 'str' else b'') for p in pieces]
        one = const(sep)
        glue = lambda ps: t.cat([y for i, x in enumerate(ps) for y in ((one, x) if i else (x,))], o.ty) if ps else const(sep[:0])
        if name == 'count':
            return const(len(out) - 1)
        if name == 'replace':
            return t.cat([y for i, x in enumerate(out) for y in ((self.raw(args[1]), x) if i else (x,))], o.ty) if len(args) == 2 else None
        if name == 'partition':
            return tup([out[0], one, glue(out[1:])] if len(out) > 1 else [o, const(sep[:0]), const(sep[:0])])
        if name == 'rpartition':
            return tup([glue(out[:-1]), one, out[-1]] if len(out) > 1 else [const(sep[:0]), const(sep[:0]), o])
        n = -1
        if len(args) > 1:
            if not is_const(args[1]):
                return None
            n = cval(args[1])
        if 0 <= n < len(out) - 1:
            out = out[:n] + [glue(out[n:])] if name == 'split' else [glue(out[:len(out) - n])] + out[len(out) - n:]
        return I.new_list(out)

    def rstrip_digits(self, o, chars):
        """Text or bytes that end with decimal digits or constants, without the given characters at the end."""
        if o.op == 'cat':
            head, last = t.cat(o.args[:-1], o.ty), o.args[-1]
        else:
            head, last = const('' if o.ty == 'str' else b''), o
        if last.op == 'astr':
            b = bytes(ord(c) for c in chars if ord(c) < 128)
            r = self.rstrip_digits(last.args[0], b)
            put = t.astr
        elif last.op == 'c':
            r, put = const(cval(last).rstrip(chars)), lambda x: x
        elif last.op == 'decl':
            ds = bytes(c for c in chars if 48 <= c < 58)
            if ds not in (b'', b'0'):
                return app('rstrip', o, const(chars), ty=o.ty)
            r, put = t.digits_rstrip(last) if ds else last, lambda x: x
        elif last.op == 'str' and self.kind(last.args[0]) == 'int' and not any(c in '0123456789' for c in chars):
            return o
        else:
            return app('rstrip', o, const(chars), ty=o.ty)

        def leaf(x):
            if is_const(x) and not cval(x):
                return head if is_const(head) and not cval(head) else lift(lambda h: self.rstrip_digits(h, chars), head)
            return t.cat([head, put(x)], o.ty)
        return lift(leaf, r)

    def strip_(self, which, o, chars):
        if which == 'rstrip' and chars is not None and is_const(chars) and not isnone(chars) and t.has_op(o, ('decl', 'str')):
            return self.rstrip_digits(o, cval(chars))
        if is_const(o) and (chars is None or is_const(chars)):
            return const(getattr(cval(o), which)(*([cval(chars)] if chars is not None else [])))
        if chars is None:
            y = o.args[0] if o.op == 'astr' else o
            if y.op == 'hex':
                return o            # hexadecimal digits only
            chars = NONE
        return app(which, o, self.rawx(chars) if not isnone(chars) else chars, ty=o.ty)

    def m_seq_rstrip(self, o, chars=None):
        return lift(lambda x: self.strip_('rstrip', x, chars), o)

    def m_seq_lstrip(self, o, chars=None):
        return lift(lambda x: self.strip_('lstrip', x, chars), o)

    def m_seq_strip(self, o, chars=None):
        return lift(lambda x: self.strip_('strip', x, chars), o)

    def case_(self, o, name):
        def one(x):
            if is_const(x):
                return const(getattr(cval(x), name)())
            if name == 'lower':
                y = x.args[0] if x.op == 'astr' else x
                ps = y.args if y.op == 'cat' else (y,)
                if all(p.op == 'hex' or p.op == 'astr' and p.args[0].op == 'hex' or is_const(p) and cval(p) == cval(p).lower() for p in ps):
                    return x        # hexadecimal made by hexlify is lower case already
            return app('strm', name, x, ty=x.ty)
        return lift(one, o)

    def m_str_lower(self, o):
        return self.case_(o, 'lower')

    def m_bytes_lower(self, o):
        return self.case_(o, 'lower')

    def just(self, o, width, fill, left):
        I = self.I
        width = lift(lambda x: x.args[1] if x.op == 'inst' else x, width)
        if not left and is_const(fill) and cval(fill) == '0' and is_const(width):
            x = self.rawhex(o)
            if x is not None and cval(width) % 2 == 0:
                from .prog import ibounds
                lo, hi = ibounds(x)
                if lo is not None and lo >= 0 and hi is not None and hi < 16 ** cval(width):
                    return t.astr(t.hexl(t.i2b(x, const(cval(width) // 2))))
            if o.op == 'str' and self.kind(o.args[0]) == 'int' and I.restrict(t.ge0(o.args[0])) is TRUE:
                return self.digits(o.args[0], cval(width))
        d = t.sub(width, t.length(o))
        c = I.restrict(t.ge0(d))
        if c is FALSE:
            return o
        pad = t.rep(fill, d)
        r = t.cat2(o, pad) if left else t.cat2(pad, o)
        return ite(c, r, o)

    def rawhex(self, o):
        """x when o is the hexadecimal of a non-negative x without prefix, hex(x)[2:]."""
        if o.op == 'hexraw':
            return o.args[0]
        if o.op == 'sub' and o.args[0].op == 'hexint' and o.args[1] is const(2) and o.args[2] is t.length(o.args[0]):
            return o.args[0].args[0]
        return None

    def m_bytes_ljust(self, o, w, fill=const(b' ')):
        return lift(lambda x: self.just(x, w, self.rawx(fill), True), o)

    def m_bytes_rjust(self, o, w, fill=const(b' ')):
        return lift(lambda x: self.just(x, w, self.rawx(fill), False), o)

    def m_str_ljust(self, o, w, fill=const(' ')):
        return lift(lambda x: self.just(x, w, fill, True), o)

    def m_str_rjust(self, o, w, fill=const(' ')):
        return lift(lambda x: self.just(x, w, fill, False), o)

    def digits(self, v, w):
        """Text of an integer with zeros put before its digits up to the width w, the sign included."""
        I = self.I

        def f(x):
            x = t.as_int(x)
            c = I.restrict(t.ge0(x))

            def nonneg(x, w):
                if w <= 0:
                    return app('str', x, ty='str')
                if I.restrict(t.ge0(t.sub(const(10 ** w - 1), x))) is TRUE:
                    return t.astr(t.decl(x, w))
                if w == 1:
                    return app('str', x, ty='str')
                p = const(10 ** (w - 1))
                return t.cat([app('str', t.idiv(x, p), ty='str'), t.astr(t.decl(t.mod(x, p), w - 1))], 'str')
            return I.cond(c, lambda: nonneg(x, w), lambda: t.cat([const('-'), nonneg(t.neg(x), w - 1)], 'str'))
        return I.split(v, f)

    def binval(self, o):
        """x when o is the binary digits of a non-negative x, in whatever form."""
        if o.op == 'bits':
            return o.args[0]
        if o.op == 'ite':
            c, a, b = o.args
            x = self.binval(a)
            return x if x is not None and b is const('0') and c is t.ge0(t.sub(x, ONE)) else None
        if o.op == 'astr' and o.args[0].op == 'binl':
            return o.args[0].args[0]
        return None

    def m_str_zfill(self, o, w):
        I = self.I
        if o.op == 'str' and self.kind(o.args[0]) == 'int' and is_const(w):
            return self.digits(o.args[0], cval(w))
        if is_const(w) and self.binval(o) is not None:
            x = self.binval(o)
            if I.restrict(t.ge0(x)) is TRUE and I.restrict(t.ge0(t.sub(const((1 << cval(w)) - 1), x))) is TRUE:
                return t.astr(t.binl(x, cval(w)))
        # the receiver never starts with a sign where this is used on hex text
        if o.op == 'astr' or self.rawhex(o) is not None or (is_const(o) and cval(o)[:1] not in '+-'):
            return self.just(o, w, const('0'), False)
        return app('strm', 'zfill', o, w, ty='str')

    def m_str_format(self, o, *args, **kw):
        I = self.I
        if not is_const(o):
            return app('format', o, tup(args), ty='str')
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(cval(o)):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            import re
            m = re.match(r'^([^.\[]*)(.*)$', field)
            head, rest = m.group(1), m.group(2)
            if head == '':
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                if head not in kw:
                    I.raise_py(KeyError, head)
                v = kw[head]
            while rest:
                if rest[0] == '.':
                    m = re.match(r'^\.([^.\[]+)(.*)$', rest)
                    v = I.getattr(v, m.group(1))
                else:
                    m = re.match(r'^\[([^\]]+)\](.*)$', rest)
                    key = m.group(1)
                    v = self.getitem(v, const(int(key)) if key.isdigit() else const(key))
                rest = m.group(2)
            if conv == 'r':
                v = self.repr_(v)
            elif conv == 's':
                v = self.str_(v)
            parts.append(self.format_(v, const(spec or '')))
        return t.cat(parts, 'str') if parts else const('')

    def m_bytes_tobytes(self, o):
        return o

    def m_seq___len__(self, o):
        return t.length(o)

    def m_seq_copy(self, o):
        return o

    def m_seq___getitem__(self, o, i):
        return self.getitem(o, i)

    def m_seq___add__(self, o, x):
        return self.binop('Add', o, x)

    def m_seq___eq__(self, o, x):
        return self.compare('Eq', o, x)

    # ---- bytearray
    def m_bytearray_append(self, o, v):
        b = self.byteval(v)
        self.I.set_content(o, t.cat2(self.I.content(o), b))
        return NONE

    def m_bytearray_extend(self, o, v):
        b = self.tobytes(v)
        self.I.set_content(o, t.cat2(self.I.content(o), b))
        return NONE

    m_bytearray___iadd__ = m_bytearray_extend

    def m_bytearray_reverse(self, o):
        self.I.set_content(o, t.rev(self.I.content(o)))
        return NONE

    def m_bytearray_clear(self, o):
        self.I.set_content(o, EMPTYB)
        return NONE

    def m_bytearray_copy(self, o):
        return self.I.new_bytearray(self.I.content(o))

    def m_bytearray_insert(self, o, i, v):
        I = self.I
        b = self.byteval(v)
        c = I.content(o)

        def f(x):
            j = self.clamp(I.restrict(i), t.length(x))
            return lift(lambda k: t.cat([t.subseq(x, ZERO, k), b, t.subseq(x, k, t.length(x))], 'bytes'), j)
        I.set_content(o, lift(f, c))
        return NONE

    def m_bytearray_pop(self, o, i=const(-1)):
        I = self.I
        c = I.content(o)
        v = self.at(c, i)
        self.delitem(o, i)
        return v

    # ---- list
    def m_list_append(self, o, v):
        I = self.I
        I.set_content(o, t.lcat_l(I.content(o), t.li(v)) if v.op != 'ite' or True else None)
        return NONE

    def m_list_extend(self, o, v):
        I = self.I
        seg = self.list_content(v)
        I.set_content(o, t.lcat_l(I.content(o), seg))
        return NONE

    def m_list_insert(self, o, i, v):
        I = self.I
        its = t.concrete_items(I.content(o))
        i = I.restrict(i)
        if its is not None and is_const(i):
            its = list(its)
            its.insert(cval(i), v)
            I.set_content(o, t.lcat([t.li(x) for x in its]))
        elif is_const(i) and cval(i) == 0:
            I.set_content(o, t.lcat_l(t.li(v), I.content(o)))
        else:
            I.set_content(o, mk('linsert', (I.content(o), i, v), 'list'))
        return NONE

    def m_list_pop(self, o, i=const(-1)):
        I = self.I
        c = I.content(o)
        its = t.concrete_items(c)
        if its is not None and is_const(i):
            its = list(its)
            try:
                v = its.pop(cval(i))
            except IndexError:
                I.raise_py(IndexError, 'pop from empty list')
            I.set_content(o, t.lcat([t.li(x) for x in its]))
            return v
        v = self.at(c, i)
        I.set_content(o, mk('lpop', (c, i), 'list'))
        return v

    def m_list_reverse(self, o):
        I = self.I
        I.set_content(o, self.lrev(I.content(o)))
        return NONE

    def m_list_clear(self, o):
        self.I.set_content(o, t.lcat([]))
        return NONE

    def m_list_copy(self, o):
        return self.I.new_list(self.I.content(o))

    def m_list_sort(self, o, **kw):
        r = self.b_sorted(o, **kw)
        self.I.set_content(o, self.I.content(r))
        return NONE

    def m_list_index(self, o, v, *a):
        I = self.I
        its = t.concrete_items(I.content(o))
        if its is None:
            return app('lindex', I.content(o), v, ty='int')

        def go(i):
            if i == len(its):
                I.raise_py(ValueError, 'not in list')
            e = I.truth(self.compare('Eq', its[i], v))
            return I.cond(e, lambda: const(i), lambda: go(i + 1))
        return go(0)

    def m_list_count(self, o, v):
        I = self.I
        its = t.concrete_items(I.content(o))
        if its is None:
            return app('lcount', I.content(o), v, ty='int')
        r = ZERO
        for x in its:
            r = t.add(r, t.as_int(I.truth(self.compare('Eq', x, v))))
        return r

    # ---- dict / set / iter
    def m_dict_get(self, o, k, d=NONE):
        return self.dict_get(o, k, d)

    def m_dict_items(self, o):
        c = self.I.content(o)
        return self.I.new_list([tup([k, v]) for k, v in c.args]) if c.op == 'dictc' else app('ditems', c, ty='list')

    def m_dict_keys(self, o):
        c = self.I.content(o)
        return self.I.new_list([k for k, v in c.args]) if c.op == 'dictc' else app('dkeys', c, ty='list')

    def m_dict_values(self, o):
        c = self.I.content(o)
        return self.I.new_list([v for k, v in c.args]) if c.op == 'dictc' else app('dvals', c, ty='list')

    def m_dict_setdefault(self, o, k, d=NONE):
        I = self.I
        c = I.content(o)
        if c.op == 'dictc' and not any(x is k for x, _ in c.args):
            self.dict_set(o, k, d)
            return d
        return self.dict_get(o, k, d)

    def m_dict_update(self, o, other=None, **kw):
        I = self.I
        if other is not None:
            for k, v in I.content(other).args:
                self.dict_set(o, k, v)
        for k, v in kw.items():
            self.dict_set(o, const(k), v)
        return NONE

    def m_dict_copy(self, o):
        return self.I.new_dict(self.I.content(o).args)

    def m_dict_pop(self, o, k, *d):
        v = self.dict_get(o, k, d[0] if d else None)
        c = self.I.content(o)
        self.I.set_content(o, mk('dictc', tuple(p for p in c.args if p[0] is not k), 'dictc'))
        return v

    def m_set_add(self, o, v):
        I = self.I
        c = I.content(o)
        its = t.concrete_items(c)
        if its is not None:
            if not any(x is v for x in its):
                I.set_content(o, t.lcat_l(c, t.li(v)))
        else:
            I.set_content(o, t.lcat_l(c, t.li(v)))
        return NONE

    def m_set_update(self, o, v):
        for x in self.I.seq_items(self.seq_of(v)) or []:
            self.m_set_add(o, x)
        return NONE

    def m_iter___next__(self, o):
        return self.b_next(o)

    def m_iter_close(self, o):
        return NONE

    # ------------------------------------------------------------ methods called through a type
    def pymethod(self, pyname, name, inst, args, kw):
        """super().name(...) resolved to a builtin base."""
        I = self.I
        if inst.op == 'inst':
            return self.int_method(inst, name, args, kw)
        if name == '__new__':
            c = args[0].args[0] if args and args[0].op == 'class' else inst.args[0]
            if c.pybase() is int:
                p = self.construct(int, list(args[1:]), kw)
                return lift(lambda x: mk('inst', (c, x.args[1] if x.op == 'inst' else x), 'inst'), p)
            return I.alloc('inst', c)
        if name == '__init__':
            if inst.op == 'ref' and I.obj(inst).cls is not None and isinstance(I.obj(inst).cls.pybase(), type) and \
                    issubclass(I.obj(inst).cls.pybase(), BaseException):
                I.S.store[(inst.args[0], '$args')] = tup(args)
            return NONE
        if name == '__setattr__':
            I.S.store[(inst.args[0], cval(args[0]))] = args[1]
            return NONE
        return self.method(inst, name, args, kw)

    def classmethod_(self, pyname, name, clsterm, args, kw):
        I = self.I
        py = getattr(_b, pyname, None)
        c = clsterm.args[0]
        if pyname == 'int' and name == 'from_bytes':
            args = list(args)
            data = args[0] if args else kw['bytes']
            order = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
            r = self.from_bytes(data, order, kw.get('signed', FALSE))
            if c.py is None:
                return I.call(clsterm, [r], {})
            return r
        if name == 'fromhex' and pyname in ('bytes', 'bytearray'):
            s = I.restrict(args[0])
            if self.kind(s) not in ('str', 'any', 'mixed'):
                I.raise_py(TypeError, 'fromhex() argument must be str')
            ok = t.ishex(s)
            I.may_raise(bnot(ok), lambda: I.new_exc(ValueError, [const('non-hexadecimal number')]))
            v = t.unhex(I.restrict(s))
            return I.new_bytearray(v) if pyname == 'bytearray' else v
        if pyname == 'str' and name == 'maketrans':
            return app('maketrans', *args)
        if pyname == 'dict' and name == 'fromkeys':
            ks = I.seq_items(self.seq_of(args[0]))
            if ks is None:
                return I.unknown('dict.fromkeys of a symbolic sequence')
            return I.new_dict([(k, args[1] if len(args) > 1 else NONE) for k in ks])
        if name == '__new__':
            return self.pymethod(pyname, name, args[0], args, kw)
        if name == '__init__' and pyname == 'object':
            return NONE
        if name == '__subclasses__' or name == 'mro':
            return I.unknown('class introspection')
        # unbound builtin method: int.__add__(a, b), bytes.join(b'', xs), ...
        if args:
            if args[0].op == 'inst':
                return self.int_method(args[0], name, args[1:], kw)
            if name == '__setattr__':
                I.S.store[(args[0].args[0], cval(args[1]))] = args[2]
                return NONE
            if name == '__eq__' and pyname == 'object':
                return TRUE if args[0] is args[1] else NOTIMPL
            return self.method(args[0], name, args[1:], kw)
        return I.unknown('%s.%s' % (pyname, name))

    # ------------------------------------------------------------ constructors
    def construct(self, py, args, kw):
        I = self.I
        args = [I.restrict(a) for a in args]
        if py is int:
            if not args:
                return ZERO
            if len(args) > 1 or 'base' in kw:
                base = args[1] if len(args) > 1 else kw['base']
                return I.split(args[0], lambda s: self.int_of_str(s, base))
            a = args[0]
            if a.op == 'ite' and all(self.kind(x) in N and x.op != 'inst' for x in t.leaves(a)):
                return t.as_int(a)
            return I.split(a, self.to_int)
        if py is bool:
            return I.truth(args[0]) if args else FALSE
        if py is str:
            if not args:
                return const('')
            if len(args) > 1 or kw:
                return self.method(args[0], 'decode', args[1:], kw)
            return I.split(args[0], self.str_)
        if py is float:
            if not args:
                return const(0.0)
            return I.split(args[0], self.to_float)
        if py in (bytes, bytearray):
            if not args:
                r = EMPTYB
            elif len(args) > 1 or kw:
                a0 = args[0]
                enc = args[1] if len(args) > 1 else kw.get('encoding', const('utf-8'))
                if self.kind(a0) != 'str' and a0.ty != 'any':
                    I.raise_py(TypeError, 'encoding without a string argument')
                r = self.m_str_encode(a0, enc, args[2] if len(args) > 2 else kw.get('errors', const('strict')))
            else:
                def f(a):
                    a2 = a.args[1] if a.op == 'inst' else a
                    if self.kind(a2) in N:
                        I.may_raise(bnot(t.ge0(a2)), lambda: I.new_exc(ValueError, [const('negative count')]))
                        return t.rep(const(b'\0'), a2)
                    if self.kind(a2) == 'str':
                        I.raise_py(TypeError, 'string argument without an encoding')
                    return self.tobytes(a2)
                r = I.split(args[0], f)
            r = I.restrict(r)
            return I.new_bytearray(r) if py is bytearray else r
        if py is list:
            return I.new_list(self.list_content(args[0]) if args else t.lcat([]))
        if py is tuple:
            if not args:
                return tup([])
            if args[0].op == 'tuple':
                return args[0]
            c = self.list_content(args[0])
            its = t.concrete_items(c)
            return tup(its) if its is not None else mk('tupof', (c,), 'list')
        if py in (set, frozenset):
            if not args:
                return I.new_set([])
            c = self.list_content(args[0])
            its = t.concrete_items(c)
            if its is not None:
                return I.new_set(its)
            r = I.new_set([])
            I.set_content(r, app('setof', c, ty='list'))
            return r
        if py is dict:
            r = I.new_dict([])
            if args:
                a = args[0]
                if I.is_kind(a, 'dict'):
                    I.set_content(r, I.content(a))
                else:
                    for it in I.seq_items(self.seq_of(a)) or []:
                        k, v = I.unpack(it, 2)
                        self.dict_set(r, k, v)
            for k, v in kw.items():
                self.dict_set(r, const(k), v)
            return r
        if py is type:
            return self.type_of(args[0])
        if py is memoryview:
            return self.rawx(args[0])
        if py is object:
            return I.alloc('inst', bclass(object))
        if py in (staticmethod, classmethod, property):
            if py is property:
                return mk('prop', (args[0] if args else kw.get('fget', NONE), args[1] if len(args) > 1 else NONE), 'descr')
            return mk('static' if py is staticmethod else 'classm', (args[0],), 'descr')
        return I.unknown('construct %s' % py.__name__)

    def special_class(self, c, args, kw):
        return None

    def to_int(self, a):
        I = self.I
        k = self.kind(a)
        if a.op == 'inst':
            return a.args[1]
        if k in N:
            return t.as_int(a)
        if k == 'float':
            if is_const(a):
                try:
                    return const(int(cval(a)))
                except (ValueError, OverflowError) as e:
                    I.raise_py(type(e))
            if I.try_depth:
                bad = mk('pred', ('nonfinite', a), 'bool')
                I.may_raise(bad, lambda: I.new_exc(ValueError, [const('cannot convert float')]))
            return app('int', a, ty='int')
        if k in ('str', 'bytes', 'bytearray'):
            return self.int_of_str(a, const(10))
        if k == 'decimal':
            return self.dec_int(a)
        if k in ('none', 'list', 'tuple', 'dict', 'set', 'func', 'notimpl', 'ellipsis', 'class'):
            I.raise_py(TypeError, 'int() argument must be a string or a number')
        if a.op == 'ref':
            for nm in ('__int__', '__index__', '__trunc__'):
                m = I.find_method(a, nm)
                if m is not None:
                    return I.call(m, [], {})
            I.raise_py(TypeError, 'int() argument must be a string or a number')
        I.may_raise(mk('raises', ('int', a), 'bool'), lambda: I.new_exc(ValueError, [const('int()')]))
        return app('int', a, ty='int')

    def int_of_str(self, s, base):
        I = self.I
        if is_const(s) and is_const(base):
            try:
                return const(int(cval(s), cval(base)))
            except (ValueError, TypeError) as e:
                I.raise_py(type(e), str(e))
        if s.op == 'ref':
            s = self.raw(s)
        if is_const(base) and cval(base) == 16:
            x = s.args[0] if s.op == 'astr' else s
            if x.op == 'hex':
                if t.clen(x.args[0]) != 0:
                    return t.be(x.args[0])
            if s.op == 'hexint':
                return s.args[0]
        bit = t.bit_char(s)
        if bit is not None:
            return bit
        if is_const(base) and cval(base) == 2 and s.op == 'astr' and s.args[0].op == 'binl':
            return s.args[0].args[0]
        if is_const(base) and cval(base) == 2 and s.op in ('bits', 'binint'):
            return s.args[0]
        if is_const(base) and cval(base) == 10 and s.op == 'str' and self.kind(s.args[0]) == 'int':
            return s.args[0]
        if s.op == 'sym' and t.sym_attr(s, 'intval') is not None:
            return t.sym_attr(s, 'intval')
        I.may_raise(mk('raises', ('intstr', s, base), 'bool'), lambda: I.new_exc(ValueError, [const('invalid literal for int()'), s]))
        return app('intstr', s, base, ty='int')

    def to_float(self, a):
        I = self.I
        k = self.kind(a)
        if is_const(a):
            try:
                return const(float(cval(a)))
            except (ValueError, TypeError, OverflowError) as e:
                I.raise_py(type(e), str(e))
        if k == 'float':
            return a
        if k in ('none', 'list', 'tuple', 'dict', 'set', 'func'):
            I.raise_py(TypeError, 'float() argument must be a string or a number')
        if k in N or a.op == 'inst':
            v = a.args[1] if a.op == 'inst' else a
            return app('float', t.as_int(v), ty='float')
        if a.op == 'ref' and I.obj(a).kind == 'inst':
            m = I.find_method(a, '__float__')
            if m is not None:
                return I.call(m, [], {})
            I.raise_py(TypeError)
        if a.op == 'sym' and t.sym_attr(a, 'nonnum'):
            I.raise_py(ValueError, 'could not convert string to float')
        I.may_raise(mk('raises', ('float', a), 'bool'), lambda: I.new_exc(ValueError, [const('could not convert string to float')]))
        return app('float', a, ty='float')

    # ------------------------------------------------------------ text
    def str_(self, v):
        I = self.I
        v = I.restrict(v)
        if v.op == 'ite':
            return I.split(v, self.str_)
        if v.ty == 'str':
            return v
        if v.op == 'c':
            return const(str(cval(v)))
        if t.is_atom(v):
            return ite(v, const('True'), const('False'))
        if v.op in ('ref', 'inst'):
            m = I.find_method(v, '__str__')
            if m is not None:
                return I.call(m, [], {})
            if v.op == 'inst':
                return self.str_(v.args[1])
            ob = I.obj(v)
            if ob.kind == 'inst':
                m = I.find_method(v, '__repr__')
                if m is not None:
                    return I.call(m, [], {})
                if ob.cls.pybase() is not object and (v.args[0], '$args') in I.S.store:
                    a = I.S.store[(v.args[0], '$args')]
                    if a.op == 'tuple' and len(a.args) == 1:
                        return self.str_(a.args[0])
                    return app('excstr', a, ty='str')
                return app('objstr', const(ob.cls.name), ty='str')
            return self.repr_(v)
        if v.op == 'ftruediv':
            r = self.quotient_text(v)
            if r is not None:
                return r
        if v.ty == 'int' and v.op != 'inst' and I.restrict(t.ge0(v)) is FALSE:
            return t.cat([const('-'), app('str', t.neg(v), ty='str')], 'str')
        return app('str', v, ty='str')

    def decimal_quotient(self, v):
        """(a, k) of the float a / 10**k when a has at most 15 digits: a float holds so many decimal digits exactly."""
        I = self.I
        a, p = v.args
        k = len(str(cval(p))) - 1 if is_const(p) else 0
        if not is_const(p) or cval(p) != 10 ** k or k > 15:
            return None
        lim = const(10 ** 15 - 1)
        if I.restrict(t.ge0(t.sub(lim, a))) is not TRUE or I.restrict(t.ge0(t.add(lim, a))) is not TRUE:
            return None
        return a, k

    def quotient_fixed(self, v, flags):
        """'%.kf' of such a float a / 10**k."""
        ak = self.decimal_quotient(v)
        if ak is None or flags != '.%d' % ak[1] or not ak[1]:
            return None
        p = const(10 ** ak[1])
        return self.signed_text(ak[0], lambda a: t.cat([app('str', t.idiv(a, p), ty='str'), const('.'), t.astr(t.decl(t.mod(a, p), ak[1]))], 'str'))

    def signed_text(self, a, f):
        I = self.I
        return I.cond(I.restrict(t.ge0(a)), lambda: f(a), lambda: t.cat([const('-'), f(t.neg(a))], 'str'))

    def quotient_text(self, v):
        """repr() of such a float: the shortest digits that give it back are those of a; below 1e-4 with an exponent."""
        I = self.I
        ak = self.decimal_quotient(v)
        if ak is None:
            return None
        a, k = ak
        nz = lambda b, empty: lift(lambda x: x if x.op != 'c' or cval(x) else empty, b)
        tail = lambda n, w: t.digits_rstrip(t.mk('decl', (n, w), 'bytes')) if w and not is_const(n) else const((b'%0*d' % (w, cval(n))).rstrip(b'0')) if w else const(b'')

        def plain(a):
            p = const(10 ** k)
            return t.cat([app('str', t.idiv(a, p), ty='str'), const('.'), t.astr(nz(tail(t.mod(a, p), k), const(b'0')))], 'str')

        def expo(a, d):
            p = const(10 ** (d - 1))
            rest = tail(t.mod(a, p), d - 1)
            rest = lift(lambda x: t.cat([const(b'.'), x], 'bytes') if x.op != 'c' or cval(x) else x, rest)
            return t.cat([t.astr(t.decl(t.idiv(a, p), 1)), t.astr(rest), const('e-%02d' % (k - d + 1))], 'str')

        def pos(a):
            def small(d):
                if d > k - 4:
                    return plain(a)
                return I.cond(I.restrict(t.ge0(t.sub(const(10 ** d - 1), a))), lambda: expo(a, d), lambda: small(d + 1))
            return I.cond(I.restrict(t.eq0(a)), lambda: const('0.0'), lambda: small(1))
        return self.signed_text(a, pos)

    def repr_(self, v):
        I = self.I
        v = I.restrict(v)
        if v.op == 'ite':
            return I.split(v, self.repr_)
        if v.op == 'c':
            return const(repr(cval(v)))
        if v.op == 'inst':
            return self.str_(v.args[1])
        if self.kind(v) == 'int' or v.op == 'ftruediv':
            return self.str_(v)
        if v.op == 'ref':
            ob = I.obj(v)
            if ob.kind == 'inst':
                m = I.find_method(v, '__repr__')
                if m is not None:
                    return I.call(m, [], {})
                if (v.args[0], '$args') in I.S.store:
                    return app('repr', I.S.store[(v.args[0], '$args')], ty='str')
                return app('objstr', const(ob.cls.name), ty='str')
            if (v.args[0], '$c') in I.S.store:
                c = I.content(v)
                its = t.concrete_items(c) if c.ty == 'list' else None
                if its is not None:
                    return app('repr', tup([self.repr_(x) for x in its]), const(ob.kind), ty='str')
                return app('repr', c, const(ob.kind), ty='str')
        return app('repr', v, ty='str')

    def format_(self, v, spec):
        I = self.I
        v = I.restrict(v)
        if v.op == 'ite':
            return I.split(v, lambda x: self.format_(x, spec))
        if is_const(spec) and cval(spec) in ('', 's', 'd') and not (cval(spec) == 'd' and v.ty == 'str'):
            return self.str_(v)
        if v.op == 'inst':
            v = v.args[1]
        if is_const(v) and is_const(spec):
            try:
                return const(format(cval(v), cval(spec)))
            except (ValueError, TypeError) as e:
                I.raise_py(type(e), str(e))
        if is_const(spec) and v.op == 'ftruediv' and cval(spec)[-1:] == 'f':
            r = self.quotient_fixed(v, cval(spec)[:-1])
            if r is not None:
                return r
        if is_const(spec) and cval(spec) == 'x' and self.kind(v) == 'int':
            return app('hexraw', v, ty='str')
        if is_const(spec) and self.kind(v) == 'int':
            import re
            m = re.match(r'^0(\d+)d?$', cval(spec))
            if m:
                return self.digits(v, int(m.group(1)))
            m = re.match(r'^(#?)0?(\d*)b$', cval(spec))
            if m and not m.group(1) and (not m.group(2) or cval(spec)[:1] == '0'):
                lo, hi = bounds_in(I.S, v)
                w = int(m.group(2) or 0)
                n = self.bitwidth(v)
                if lo is not None and hi is not None and lo >= 0 and w and hi < 1 << w:
                    return t.astr(t.binl(v, w))
                if n and n >= w:
                    return t.astr(t.binl(v, n))
            m = re.match(r'^0(\d+)x$', cval(spec))
            if m:
                w = int(m.group(1))
                from .prog import ibounds
                lo, hi = ibounds(v)
                if w % 2 == 0 and lo is not None and lo >= 0 and hi is not None and hi < 16 ** w:
                    return t.astr(t.hexl(t.i2b(v, const(w // 2))))
        return app('fmt', spec, v, ty='str')

    def percent_bytes(self, f, a):
        """bytes % arguments, for the conversions that give ASCII digits or copy bytes."""
        I = self.I
        import re
        if not is_const(f):
            return app('bytesfmt', f, a, ty='bytes')
        s = cval(f).decode('latin-1')
        args = list(a.args) if a.op == 'tuple' else [a]
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%([-#0 +]*)(\d+)?([a-zA-Z%])', s):
            if m.start() > pos:
                parts.append(const(s[pos:m.start()].encode('latin-1')))
            pos = m.end()
            conv, flags = m.group(3), (m.group(1) or '') + (m.group(2) or '')
            if conv == '%':
                parts.append(const(b'%'))
                continue
            if i >= len(args):
                I.raise_py(TypeError, 'not enough arguments for format string')
            v = I.restrict(args[i])
            i += 1
            if conv in 'sb' and not flags:
                r = self.snap(v)
                if r.ty != 'bytes':
                    return app('bytesfmt', f, a, ty='bytes')
                parts.append(r)
            elif conv in 'xdi' and self.kind(v) in N:
                parts.append(t.encode(self.percent(const('%' + flags + conv), tup([v])), 'ascii'))
            else:
                return app('bytesfmt', f, a, ty='bytes')
        if '%' in s[pos:] or i < len(args):
            return app('bytesfmt', f, a, ty='bytes')
        parts.append(const(s[pos:].encode('latin-1')))
        return t.cat(parts, 'bytes')

    def percent(self, f, a):
        I = self.I
        if not is_const(f):
            return app('percent', f, a, ty='str')
        import re
        s = cval(f)
        if a.op != 'tuple' and self.kind(a) in ('any', 'tuple', 'mixed') and len(re.findall(r'%(?!%)', s.replace('%%', ''))) != 1:
            return app('percent', f, a, ty='str')       # how many values it holds is not known
        args = list(a.args) if a.op == 'tuple' else [a]
        mapping = I.is_kind(a, 'dict')
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])', s):
            if m.start() > pos:
                parts.append(const(s[pos:m.start()]))
            pos = m.end()
            conv = m.group(6)
            if conv == '%':
                parts.append(const('%'))
                continue
            if m.group(2) and mapping:
                v = self.dict_get(a, const(m.group(2)), None)
            else:
                if i >= len(args):
                    I.raise_py(TypeError, 'not enough arguments for format string')
                v = args[i]
                i += 1
            v = I.restrict(v)
            flags = (m.group(3) or '') + (m.group(4) or '') + (m.group(5) or '')
            if conv == 's' and not flags:
                parts.append(self.str_(v))
            elif conv == 'r' and not flags:
                parts.append(self.repr_(v))
            elif conv in 'di' and not flags:
                def dd(x):
                    if self.kind(x) in ('str', 'none', 'bytes', 'list', 'tuple') or (x.op == 'ref' and self.kind(x) == 'inst'):
                        I.raise_py(TypeError, '%d format: a number is required')
                    return self.str_(t.as_int(x) if self.kind(x) in N and x.op != 'inst' else x)
                parts.append(I.split(v, dd))
            elif conv == 'x':
                parts.append(self.format_(v, const(flags + 'x')))
            elif conv == 'f' and v.op == 'ftruediv' and self.quotient_fixed(v, flags) is not None:
                parts.append(self.quotient_fixed(v, flags))
            elif conv in 'di' and re.match(r'^0\d+$', flags) and self.kind(v) == 'int':
                parts.append(self.digits(v.args[1] if v.op == 'inst' else v, int(flags)))
            elif conv in 'di' and re.match(r'^\.\d+$', flags) and self.kind(v) == 'int' and I.restrict(t.ge0(v)) is TRUE:
                parts.append(self.digits(v, int(flags[1:])))
            else:
                parts.append(app('fmt', const('%' + flags + conv), v if v.op != 'inst' else v.args[1], ty='str'))
        if pos < len(s):
            parts.append(const(s[pos:]))
        if i < len(args) and not mapping:
            I.raise_py(TypeError, 'not all arguments converted during string formatting')
        return t.cat(parts, 'str') if parts else const('')

    # ------------------------------------------------------------ builtin functions
    def builtin(self, name, args, kw, node=None):
        I = self.I
        f = getattr(self, 'b_' + name, None)
        if f is None:
            I.event('extcall', 'builtins.' + name, args)
            if name in ('open', 'eval', 'exec', 'compile', '__import__', 'input'):
                return app('ext', 'builtins.' + name, *args)
            return I.unknown('builtin ' + name)
        args = [I.restrict(a) for a in args]
        return f(*args, **kw)

    def b_len(self, v):
        I = self.I

        def f(v):
            k = self.kind(v)
            if v.op == 'ref':
                if k in ('list', 'bytearray', 'set'):
                    return t.length(I.content(v))
                if k == 'dict':
                    c = I.content(v)
                    return const(len(c.args)) if c.op == 'dictc' else app('len', c, ty='int')
                m = I.find_method(v, '__len__')
                if m is not None:
                    return I.call(m, [], {})
                I.raise_py(TypeError, 'object has no len()')
            if v.op == 'range':
                return self.range_len(v)
            if k in ('int', 'bool', 'none', 'float', 'func', 'class') or v.op == 'inst':
                I.raise_py(TypeError, 'object has no len()')
            if v.op == 'seqd':
                return v.args[0].n or const(len(v.args[0].items))
            if k in ('bytes', 'str', 'tuple', 'list'):
                return t.length(v)
            if v.ty == 'any' and I.try_depth:
                I.may_raise(mk('raises', ('len', v), 'bool'), lambda: I.new_exc(TypeError))
            return app('len', v, ty='int')
        v = I.restrict(v)
        if v.op == 'ite' and all(x.ty in ('bytes', 'str', 'tuple') or
                                 (x.op == 'ref' and I.obj(x).kind in ('list', 'bytearray', 'set')) for x in t.leaves(v)):
            return I.restrict(lift(f, v))
        return I.split(v, f)

    def b_range(self, *a):
        a = [lift(lambda x: x.args[1] if x.op == 'inst' else x, x) for x in a]
        for x in a:
            if self.kind(x) not in ('int', 'bool', 'any'):
                self.I.raise_py(TypeError, 'range() integer expected')
        if len(a) == 1:
            r = (ZERO, a[0], ONE)
        elif len(a) == 2:
            r = (a[0], a[1], ONE)
        else:
            r = tuple(a)
        return lift(lambda x, y, z: mk('range', (x, y, z), 'range'), *r)

    def seqd(self, **kw):
        from .interp import Seq
        return mk('seqd', (Seq(**kw),), 'seqd')

    def b_enumerate(self, it, start=ZERO):
        I = self.I
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is not None:
            return self.seqd(items=[tup([t.add(start, const(i)), x]) for i, x in enumerate(items)])
        if s.n is not None:
            return self.seqd(n=s.n, el=lambda k: tup([t.add(start, k), s.el(k)]))
        return I.unknown('enumerate')

    def b_zip(self, *its, **kw):
        I = self.I
        ss = [self.seq_of(x) for x in its]
        items = [I.seq_items(s) for s in ss]
        if all(i is not None for i in items):
            return self.seqd(items=[tup(x) for x in zip(*items)])
        known = [len(i) for i in items if i is not None]

        def el(k):
            return tup([s.el(k) if i is None else i[cval(k)] for s, i in zip(ss, items)])
        ns = [s.n for s, i in zip(ss, items) if i is None]
        if any(n is None for n in ns):
            return I.unknown('zip')
        if known:
            m = min(known)
            # the finite side bounds the count
            ok = TRUE
            for n in ns:
                ok = band(ok, t.ge0(t.sub(n, const(m))))
            ok = I.restrict(ok)
            if ok is TRUE:
                return self.seqd(items=[el(const(i)) for i in range(m)])
            return I.unknown('zip of unequal lengths')
        n = ns[0]
        for x in ns[1:]:
            c = I.restrict(t.ge0(t.sub(x, n)))
            n = ite(c, n, x)
        return self.seqd(n=n, el=el)

    def b_reversed(self, it):
        I = self.I
        it = I.restrict(it)
        if it.op == 'ref' and I.obj(it).kind == 'inst':
            m = I.find_method(it, '__reversed__')
            if m is not None:
                return I.call(m, [], {})
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is not None:
            return self.seqd(items=list(reversed(items)))
        if s.src is not None:
            r = self.seq_bytes(I.restrict(t.rev(s.src)))
            return self.seqd(n=r.n, el=r.el, src=r.src)
        if s.n is not None:
            return self.seqd(n=s.n, el=lambda k: s.el(t.sub(t.sub(I.restrict(s.n), ONE), k)))
        return I.unknown('reversed')

    def b_map(self, f, *its):
        I = self.I
        if len(its) > 1:
            z = self.b_zip(*its)
            s = self.seq_of(z)
            items = I.seq_items(s)
            call = lambda x: I.call(f, list(x.args), {})
        else:
            s = self.seq_of(its[0])
            items = I.seq_items(s)
            call = lambda x: I.call(f, [x], {})
        if items is not None:
            r = I.alloc('iter', None)
            I.set_content(r, t.lcat([t.li(call(x)) for x in items]))
            return r
        if s.n is not None:
            return self.seqd(n=s.n, el=lambda k: call(s.el(k)), lazy=True)
        return I.unknown('map')

    def b_filter(self, f, it):
        I = self.I
        items = I.seq_items(self.seq_of(it))
        if items is None:
            return app('filter', f, it, ty='list')
        r = I.new_list([])
        for x in items:
            c = I.truth(x if isnone(f) else I.call(f, [x], {}))
            I.branch(c, lambda: self.m_list_append(r, x), lambda: None)
        return r

    def b_iter(self, it, sentinel=None):
        I = self.I
        if sentinel is not None:
            return I.unknown('iter with sentinel')
        it = I.restrict(it)
        if I.is_kind(it, 'iter'):
            return it
        c = self.list_content(it)
        r = I.alloc('iter', None)
        I.set_content(r, c)
        return r

    def b_next(self, it, default=None):
        I = self.I
        it = I.restrict(it)
        if it.op == 'seqd':
            s = it.args[0]
            if s.items:
                return s.items[0]
        if I.is_kind(it, 'iter'):
            c = I.content(it)

            def go(c):
                items = t.concrete_items(c)
                if items is not None:
                    if not items:
                        if default is not None:
                            return default
                        I.raise_py(StopIteration)
                    I.set_content(it, t.lcat([t.li(x) for x in items[1:]]))
                    return items[0]
                n = t.length(c)

                def some():
                    I.set_content(it, t.subseq(c, ONE, n) if c.op == 'sym' else mk('ltail', (c,), 'list'))
                    return self.el_of(c, ZERO)

                def none():
                    if default is not None:
                        return default
                    I.raise_py(StopIteration)
                if c.op == 'lcat' and c.args[0].op == 'li':
                    I.set_content(it, t.lcat(c.args[1:]))
                    return c.args[0].args[0]
                return I.cond(t.ge0(t.sub(n, ONE)), some, none)
            return I.split(c, go)
        m = I.find_method(it, '__next__') if it.op == 'ref' else None
        if m is not None:
            return I.call(m, [], {})
        return I.unknown('next')

    def b_isinstance(self, v, c):
        I = self.I
        return I.restrict(lift(lambda x, y: self.isinstance_(x, y), v, c))

    def b_issubclass(self, a, b):
        bs = b.args if b.op == 'tuple' else (b,)
        if a.op == 'class':
            return TRUE if any(x.op == 'class' and a.args[0].issub(x.args[0]) for x in bs) else FALSE
        return app('pred', 'issubclass', a, b, ty='bool')

    def b_callable(self, v):
        if v.op in ('func', 'meth', 'bmeth', 'class', 'builtin', 'ext', 'partial'):
            return TRUE
        if v.op == 'ref':
            return TRUE if self.I.find_method(v, '__call__') is not None else FALSE
        return FALSE if v.ty in ('int', 'bytes', 'str', 'none', 'bool', 'tuple') else mk('callable', (v,), 'bool')

    def b_getattr(self, o, name, default=None):
        name = self.I.restrict(name)
        if name.op == 'ite':
            return self.I.split(name, lambda x: self.b_getattr(o, x, default))
        if not is_const(name):
            return self.I.unknown('getattr with a computed name')
        return self.I.getattr(o, cval(name), default)

    def b_hasattr(self, o, name):
        I = self.I
        o = I.restrict(o)

        def f(x):
            if x.op in ('ref', 'inst', 'class', 'module') or x.op == 'c' or x.ty in ('bytes', 'str', 'int', 'list'):
                mark = mk('nohas', (), 'nohas')
                exc = []
                I.exc.append(exc)
                S = I.S
                I.S = S.copy()
                try:
                    r = I.getattr(x, cval(name), mark)
                except Dead:
                    r = mark
                finally:
                    I.exc.pop()
                    I.S = S
                return FALSE if r is mark else TRUE
            return mk('hasattr', (x, name), 'bool')
        return lift(f, o)

    def b_setattr(self, o, name, v):
        self.I.setattr(o, cval(name), v)
        return NONE

    def b_delattr(self, o, name):
        self.I.unknown('delattr')
        return NONE

    def b_print(self, *args, **kw):
        return self.print_(args, kw)

    def safe_str(self, a):
        try:
            return self.str_(a)
        except Dead:
            raise

    def b_repr(self, v):
        return self.repr_(v)

    def b_ascii(self, v):
        return self.repr_(v)

    def b_format(self, v, spec=const('')):
        return self.format_(v, spec)

    def b_hex(self, v):
        I = self.I

        def f(x):
            x = x.args[1] if x.op == 'inst' else x
            if self.kind(x) not in ('int', 'bool', 'any'):
                I.raise_py(TypeError, 'hex() integer expected')
            return const(hex(cval(x))) if is_const(x) else app('hexint', t.as_int(x), ty='str')
        return lift(f, v)

    def bitwidth(self, x):
        """The number of binary digits of a positive integer when its bounds settle it."""
        lo, hi = bounds_in(self.I.S, x)
        if lo is not None and hi is not None and lo > 0 and lo.bit_length() == hi.bit_length():
            return lo.bit_length()
        return None

    def b_bin(self, v):
        def f(x):
            x = x.args[1] if x.op == 'inst' else x
            if is_const(x):
                return const(bin(cval(x)))
            x = t.as_int(x)
            n = self.bitwidth(x)
            if n:
                return t.cat([const('0b'), t.astr(t.binl(x, n))], 'str')
            bits = t.cat([const('0b'), mk('bits', (x,), 'str')], 'str')
            return I.restrict(ite(t.ge0(t.sub(x, ONE)), bits, ite(t.eq0(x), const('0b0'), app('binint', x, ty='str'))))
        I = self.I
        return lift(f, v)

    def b_oct(self, v):
        return lift(lambda x: const(oct(cval(x))) if is_const(x) else app('octint', x, ty='str'), v)

    def b_ord(self, v):
        I = self.I

        def f(x):
            if self.is_byteslike(x):
                b = self.raw(x)
                L = t.length(b)
                I.may_raise(bnot(t.eq0(t.sub(L, ONE))), lambda: I.new_exc(TypeError, [const('ord() expected a character')]))
                return t.byte_at(b, ZERO)
            if x.ty == 'str':
                if is_const(x) and len(cval(x)) == 1:
                    return const(ord(cval(x)))
                I.may_raise(bnot(t.eq0(t.sub(t.length(x), ONE))), lambda: I.new_exc(TypeError, [const('ord()')]))
                if x.op == 'astr':
                    return t.byte_at(x.args[0], ZERO)
                return app('ord', x, ty='int')
            if x.ty != 'any':
                I.raise_py(TypeError, 'ord() expected string of length 1')
            return app('ord', x, ty='int')
        return I.split(v, f)

    def b_chr(self, v):
        return lift(lambda x: const(chr(cval(x))) if is_const(x) else app('chr', x, ty='str'), v)

    def b_abs(self, v):
        I = self.I

        def f(x):
            m = I.find_method(x, '__abs__') if x.op in ('ref', 'inst') else None
            if m is not None:
                return I.call(m, [], {})
            x = x.args[1] if x.op == 'inst' else x
            if self.kind(x) in N:
                c = I.restrict(t.ge0(x))
                return ite(c, t.as_int(x), t.neg(x))
            if x.ty == 'decimal':
                return self.m_decimal_copy_abs(x)
            if self.kind(x) in ('str', 'bytes', 'none', 'list', 'tuple', 'inst'):
                I.raise_py(TypeError, 'bad operand type for abs()')
            return app('abs', x, ty=x.ty)
        return I.split(v, f)

    def b_min(self, *a, **kw):
        return self.minmax(a, kw, True)

    def b_max(self, *a, **kw):
        return self.minmax(a, kw, False)

    def minmax(self, a, kw, mn):
        I = self.I
        if len(a) == 1:
            items = I.seq_items(self.seq_of(a[0]))
            if items is None:
                return app('min' if mn else 'max', a[0])
        else:
            items = list(a)
        if 'key' in kw:
            return I.unknown('min/max with key')
        if not items:
            if 'default' in kw:
                return kw['default']
            I.raise_py(ValueError, 'empty sequence')
        r = items[0]
        for x in items[1:]:
            c = I.truth(self.compare('Lt' if mn else 'Gt', x, r))
            r = I.cond(c, lambda: x, lambda: r)
        return r

    def b_sum(self, it, start=ZERO):
        I = self.I
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is not None:
            r = start
            for x in items:
                r = self.binop('Add', r, x)
            return r
        if s.n is not None and s.segs is None:
            return I.libfn('total', self.seqd(n=s.n, el=s.el), start)
        return I.unknown('sum')

    def b_any(self, it):
        I = self.I
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is not None:
            r = FALSE
            for x in items:
                r = bor(r, I.truth(x))
            return r
        if s.n is not None:
            I.bvdepth += 1
            k = t.bv(I.bvdepth)
            I.bvdepth -= 1
            return self.exists(s.n, I.truth(s.el(k)))
        return I.unknown('any')

    def exists(self, n, c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return t.ge0(t.sub(n, ONE))
        return mk('exists', (n, c), 'bool')

    def b_all(self, it):
        I = self.I
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is not None:
            r = TRUE
            for x in items:
                r = band(r, I.truth(x))
            return r
        if s.n is not None:
            I.bvdepth += 1
            k = t.bv(I.bvdepth)
            I.bvdepth -= 1
            return bnot(self.exists(s.n, bnot(I.truth(s.el(k)))))
        return I.unknown('all')

    def b_sorted(self, it, key=None, reverse=FALSE):
        I = self.I
        items = I.seq_items(self.seq_of(it))
        if items is None:
            return I.new_list(app('sorted', self.list_content(it), ty='list'))
        keyed = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
        rev = I.truth(reverse)
        if rev.op == 'ite' or t.is_atom(rev):
            return I.new_list(app('sorted', self.list_content(it), ty='list'))
        rev = rev is TRUE
        limit = [64]

        def insert(i, out, j):
            """Insert element i at position >= j of the sorted prefix (stable insertion sort)."""
            if i == len(keyed):
                return tup([x for _, x in out])
            kx = keyed[i][0]
            while j < len(out):
                c = I.restrict(I.truth(self.compare('Lt', *((out[j][0], kx) if rev else (kx, out[j][0])))))
                if c is TRUE:
                    break
                if c is not FALSE:
                    limit[0] -= 1
                    if limit[0] < 0:
                        return I.unknown('sort of many values')
                    return I.cond(c, lambda: insert(i + 1, out[:j] + [keyed[i]] + out[j:], 0), lambda: insert(i, out, j + 1))
                j += 1
            return insert(i + 1, out[:j] + [keyed[i]] + out[j:], 0)
        r = insert(0, [], 0)
        return I.new_list(lift(lambda z: t.lcat([mk('li', (x,), 'list') for x in z.args]) if z.op == 'tuple' else app('sorted', z, ty='list'), r))

    def b_pow(self, a, b, m=None):
        I = self.I
        if m is None or isnone(m):
            return self.binop('Pow', a, b)

        def f(x, y, z):
            x, y, z = [v.args[1] if v.op == 'inst' else v for v in (x, y, z)]
            for v in (x, y, z):
                if self.kind(v) not in N:
                    if v.ty == 'float' or v.ty in ('str', 'none', 'bytes'):
                        I.raise_py(TypeError, 'pow() 3rd argument not allowed unless all arguments are integers')
                    return app('pow3', x, y, z)
            I.may_raise(t.eq0(z), lambda: I.new_exc(ValueError, [const('pow() 3rd argument cannot be 0')]))
            if is_const(y) and cval(y) == -1 and not (is_const(x) and is_const(z)):
                I.may_raise(t.eq0(t.mod(x, z)), lambda: I.new_exc(ValueError, [const('base is not invertible')]))
            return t.powmod(x, y, z)
        return I.split(a, lambda x: I.split(b, lambda y: I.split(m, lambda z: f(x, y, z))))

    def b_divmod(self, a, b):
        q = self.binop('FloorDiv', a, b)
        return tup([q, self.binop('Mod', a, b)])

    def b_round(self, v, nd=None):
        if self.kind(v) in N and nd is None:
            return t.as_int(v)
        if is_const(v) and (nd is None or is_const(nd)):
            return const(round(cval(v), cval(nd)) if nd is not None else round(cval(v)))
        return app('round', v, nd or NONE, ty='int' if nd is None else 'float')

    def b_id(self, v):
        return app('id', v, ty='int')

    def b_hash(self, v):
        I = self.I

        def f(x):
            m = I.find_method(x, '__hash__') if x.op in ('ref', 'inst') else None
            if m is not None:
                def integer(r):
                    if t.ty_of(r) not in ('int', 'bool', 'any') or r.op == 'c' and r.ty not in ('int', 'bool'):
                        I.raise_py(TypeError, '__hash__ method should return an integer')
                    return r
                return I.split(I.call(m, [], {}), integer)
            if x.op == 'ref' and I.obj(x).kind in ('list', 'dict', 'set', 'bytearray'):
                I.raise_py(TypeError, 'unhashable type')
            if x.op == 'ref' and I.obj(x).kind == 'inst' and I.class_attr(I.obj(x).cls, '__eq__') is not None:
                I.raise_py(TypeError, 'unhashable type')
            x = x.args[1] if x.op == 'inst' else x
            return app('hashint', x, ty='int')
        return I.split(v, f)

    def b_super(self, *a):
        I = self.I
        if len(a) == 2:
            return lift(lambda c, s: mk('super', (c.args[0], s), 'super'), a[0], a[1]) if a[1].op != 'ite' else \
                mk('super', (a[0].args[0], a[1]), 'super')
        return I.unknown('super')

    def b_slice(self, *a):
        if len(a) == 1:
            a = (NONE, a[0], NONE)
        elif len(a) == 2:
            a = (a[0], a[1], NONE)
        return mk('slice', tuple(a), 'slice')

    def b_vars(self, *a):
        if len(a) == 1 and self.I.is_kind(a[0], 'inst'):
            return self.attributes(a[0])
        return app('vars', *a)

    def attributes(self, o):
        """A dictionary of the attributes of an instance; it is read only."""
        I = self.I
        pairs = []
        for k, v in list(I.S.store.items()):
            if k[0] == o.args[0] and not k[1].startswith('$'):
                v = I.restrict(v)
                if any(x is UNBOUND for x in t.leaves(v)):
                    if v is UNBOUND:
                        continue
                    return app('dictof', o)
                pairs.append((const(k[1]), v))
        d = I.new_dict(pairs)
        I.obj(d).extra = 'attributes'
        return d

    def b_globals(self):
        return self.I.unknown('globals()')

    def b_locals(self):
        return self.I.unknown('locals()')

    def b_exit(self, *a):
        self.I.raise_(self.I.new_exc(SystemExit, list(a)))

    b_quit = b_exit
