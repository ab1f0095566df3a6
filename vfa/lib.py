"""Models of the standard-library and third-party functions the analysed code calls.

Each model is a summary: a term describing the result, plus the exceptions it may raise, guarded by the
condition under which it raises them.  A call with no model becomes an opaque application of its arguments
and is recorded as an 'extcall' event, so that nothing unknown is silently taken to be harmless."""
import re
import struct as _struct
import sys

from . import terms as t
from .terms import (T, mk, const, is_const, cval, ite, bnot, band, bor, lift, app, unk, tup, TRUE, FALSE,
                    NONE, ZERO, ONE, EMPTYB)
from .prog import Dead, ClassObj, bclass, cls_term, ext_exception, restrict

# name -> (base exception)
EXC = {
    'binascii.Error': ValueError, 'struct.error': Exception, 'ecdsa.BadSignatureError': Exception,
    'ecdsa.keys.BadSignatureError': Exception, 'ecdsa.BadDigestError': Exception,
    'ecdsa.keys.BadDigestError': Exception, 'json.JSONDecodeError': ValueError,
    'scrypt.error': Exception, 'decimal.InvalidOperation': ArithmeticError, 'io.UnsupportedOperation': OSError,
}
ALIAS = {'ecdsa.keys.BadSignatureError': 'ecdsa.BadSignatureError', 'ecdsa.keys.BadDigestError': 'ecdsa.BadDigestError',
         'ecdsa.keys.VerifyingKey': 'ecdsa.VerifyingKey', 'ecdsa.curves.NIST256p': 'ecdsa.NIST256p',
         'ecdsa.keys.SigningKey': 'ecdsa.SigningKey', '_io.BytesIO': 'io.BytesIO',
         'binascii.b2a_hex': 'binascii.hexlify', 'binascii.a2b_hex': 'binascii.unhexlify'}

SECP256K1 = (2**256 - 2**32 - 977, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 0, 7,
             0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
             0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
CURVE = ('ext', 'curve')
ATEND = mk('atend', (), 'pos')       # stream cursor known to be at the end of the content

DIGESTS = {'sha256': 32, 'sha1': 20, 'sha512': 64, 'ripemd160': 20, 'sha224': 28, 'sha384': 48, 'md5': 16,
           'sha3_256': 32, 'sha3_512': 64, 'blake2b': 64, 'blake2s': 32}

FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
       'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}
NATIVE = {'l': 8, 'L': 8, 'n': 8, 'N': 8}


def flat(x):
    """Term used as part of an uninterpreted application: drops the encode() wrapper of text."""
    return x


class LibMixin(object):

    # ------------------------------------------------------------ names
    def ext_exc(self, dotted):
        dotted = ALIAS.get(dotted, dotted)
        return ext_exception(dotted, EXC.get(dotted, Exception))

    def ext_value(self, dotted):
        d = ALIAS.get(dotted, dotted)
        if d in EXC:
            return cls_term(self.ext_exc(d))
        v = {
            'sys.maxsize': sys.maxsize, 'sys.byteorder': 'little', 'sys.version_info': None, 'os.sep': '/',
            'string.hexdigits': '0123456789abcdefABCDEF', 'string.digits': '0123456789',
            'Crypto.Cipher.AES.MODE_ECB': 1, 'Crypto.Cipher.AES.MODE_CBC': 2, 'Crypto.Cipher.AES.block_size': 16,
            'Crypto.Cipher.AES.MODE_CFB': 3, 'Crypto.Cipher.AES.MODE_CTR': 6, 'Crypto.Cipher.AES.MODE_OFB': 5,
            'decimal.ROUND_DOWN': 'ROUND_DOWN', 'decimal.ROUND_UP': 'ROUND_UP', 'decimal.ROUND_FLOOR': 'ROUND_FLOOR',
            'decimal.ROUND_CEILING': 'ROUND_CEILING', 'decimal.ROUND_HALF_EVEN': 'ROUND_HALF_EVEN',
            'decimal.ROUND_HALF_UP': 'ROUND_HALF_UP', 'decimal.ROUND_HALF_DOWN': 'ROUND_HALF_DOWN',
            'math.pi': 3.141592653589793, 'struct.__name__': 'struct',
        }.get(d)
        if v is not None:
            return const(v)
        if d == 'sys.argv':
            v = self.argv()
            if v is not None:
                return v
        if d == 'sys.version_info':
            return tup([const(3), const(12), ZERO, const('final'), ZERO])
        if d in ('typing.TYPE_CHECKING',):
            return FALSE
        if d.startswith('bitcoin.') and d.split('.')[-1] in ('P', 'N', 'A', 'B', 'Gx', 'Gy', 'G'):
            cell = self.I.restrict(self.curve())
            k = d.split('.')[-1]
            if cell.op == 'tuple':
                if k == 'G':
                    return tup(cell.args[4:6])
                return cell.args[('P', 'N', 'A', 'B', 'Gx', 'Gy').index(k)]
            return app('curvepart', cell, const(k), ty='int')
        if d.startswith('operator.'):
            return mk('ext', (d,), 'ext')
        return mk('ext', (d,), 'ext')

    def curve(self):
        return self.I.S.store.get(CURVE, tup([const(x) for x in SECP256K1]))

    # ------------------------------------------------------------ dispatch
    def ext(self, name, args, kw):
        I = self.I
        name = ALIAS.get(name, name)
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f is not None:
            try:
                return f(*args, **kw)
            except TypeError as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                if len(tb) == 1:
                    I.raise_py(TypeError, 'bad arguments to ' + name)
                raise
        top = name.split('.')[0]
        if top == 'hashlib' and name.split('.')[-1] in DIGESTS:
            return self.new_hash(name.split('.')[-1], args)
        if top == 'bitcoin':
            return self.bitcoin_any(name, args, kw)
        if top == 'operator':
            return self.op_fn(name.split('.')[-1], args)
        if top == 'random':
            I.event('weakrand', name, args)
            fn, lo, hi = name.split('.')[-1], None, None
            a = [x if x.op != 'inst' else x.args[1] for x in (I.restrict(y) for y in args)]
            if fn == 'getrandbits' and len(a) == 1:
                I.may_raise(bnot(t.ge0(a[0])), lambda: I.new_exc(ValueError, [const('number of bits must be non-negative')]))
                lo, hi = ZERO, t.sub(t.shl(ONE, a[0]), ONE)
            elif fn in ('randint', 'randrange') and a:
                lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2] if len(a) == 2 else (None, None)
                if hi is not None and fn == 'randrange':
                    hi = t.sub(hi, ONE)
                if hi is not None:
                    I.may_raise(bnot(t.ge0(t.sub(hi, lo))), lambda: I.new_exc(ValueError, [const('empty range')]))
            elif fn == 'randbytes' and len(a) == 1:
                return mk('fixed', ('weakrand', cval(a[0]), const(self.fresh())), 'bytes') if is_const(a[0]) else mk('weakrand', (const(name), const(self.fresh()), a[0]), 'bytes')
            if hi is not None:
                return mk('weakrand', (const(name), const(self.fresh()), lo, hi), 'int')
            return app('weakrand', const(name), const(self.fresh()), ty='float' if fn in ('random', 'uniform', 'gauss') else 'any')
        if top == 'time' or name in ('datetime.datetime.now', 'datetime.datetime.utcnow', 'os.getpid', 'os.times'):
            I.event('time', name, args)
            return app('time', const(name), const(self.fresh()), ty='float')
        if top == 'secrets' or name in ('uuid.uuid4',):
            I.event('rand', name, args)
            if name == 'secrets.token_bytes':
                return self.rand_bytes(args[0] if args else const(32))
            return app('rand', const(name), tup(args), const(self.fresh()), ty='int' if name in (
                'secrets.randbelow', 'secrets.randbits') else 'any')
        if top == 'logzero' or top == 'logging' or name.startswith('warnings.'):
            return self.log(name, args, kw)
        if top in ('typing', 'abc') or name in ('functools.lru_cache', 'functools.wraps'):
            if args and args[0].op in ('func', 'class'):
                return args[0]
            return mk('ext', (name,), 'ext')
        return self.opaque_call(name, args, kw)

    def fresh(self):
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        return self.nfresh

    def opaque_call(self, name, args, kw, ty='any'):
        I = self.I
        e = I.event('extcall', name, list(args) + [kw[k] for k in sorted(kw)])
        a = tup([self.snap(x) for x in args] + [tup([const(k), self.snap(kw[k])]) for k in sorted(kw)])
        if I.try_depth > 0:
            I.may_raise(mk('raises', (name, a), 'bool'), lambda: I.new_exc(Exception, [const(name)]))
        r = mk('ext', (name + '()',), 'ext') if name in ('argparse.ArgumentParser',) else mk('xcall', (name, a), ty)
        e.res = r
        return r

    def snap(self, x):
        """Value of an argument at call time (mutable builtins frozen)."""
        I = self.I
        x = I.restrict(x)
        if x.op == 'ite':
            return lift(self.snap, x)
        if x.op == 'ref':
            k = I.obj(x).kind
            if k == 'bytearray':
                return I.content(x)
            if k == 'list':
                its = t.concrete_items(I.content(x))
                if its is not None:
                    return tup([self.snap(i) for i in its])
                return I.content(x)
        if x.op == 'inst':
            return x.args[1]
        return x

    def log(self, name, args, kw):
        I = self.I
        parts = []
        for a in args:
            parts.append(self.safe_str(a))
        I.event('log', name, parts + [kw[k] for k in sorted(kw)])
        return NONE

    def need_bytes(self, v, what='bytes-like'):
        """bytes term of v, raising TypeError when it is not bytes-like."""
        I = self.I
        v = I.restrict(v)

        def one(x):
            if self.is_byteslike(x):
                return self.raw(x)
            if x.op == 'memoryview':
                return x.args[0]
            if self.kind(x) in ('str', 'int', 'bool', 'none', 'float', 'list', 'tuple', 'dict', 'set', 'inst'):
                I.raise_py(TypeError, 'a bytes-like object is required')
            return mk('bytesof', (x,), 'bytes')
        if v.op == 'ite' and all(self.is_byteslike(x) for x in t.leaves(v)):
            return lift(self.raw, v)
        return I.split(v, one)

    # ------------------------------------------------------------ struct
    def parse_fmt(self, f):
        """[(code, size, signed, count)], little?, or ('s', length term) for the '<length>s' pattern."""
        I = self.I
        f = I.restrict(f)
        if f.op == 'encode':
            f = f.args[1]
        if is_const(f):
            s = cval(f)
            if isinstance(s, bytes):
                s = s.decode('ascii')
            little, native = True, True
            if s[:1] in ('<', '>', '!', '=', '@'):
                little, native = s[0] in '<=@', s[0] == '@'
                s = s[1:]
            out = []
            for n, c in re.findall(r'(\d*)([a-zA-Z?])', s.replace(' ', '')):
                k = int(n) if n else 1
                if c == 's':
                    out.append(('s', const(k), False))
                elif c == 'x':
                    out.append(('x', const(k), False))
                elif c in FMT or c in ('c', '?', 'f', 'd', 'e'):
                    for _ in range(k):
                        size = {'c': 1, '?': 1, 'f': 4, 'd': 8, 'e': 2}.get(c) or (NATIVE.get(c) if native else None) or FMT[c][0]
                        out.append((c, const(size), c in FMT and FMT[c][1]))
                else:
                    I.raise_py(self.ext_exc('struct.error'), 'bad char in struct format')
            if ''.join(re.findall(r'\d*[a-zA-Z?]', s.replace(' ', ''))) != s.replace(' ', ''):
                I.raise_py(self.ext_exc('struct.error'), 'bad char in struct format')
            if native and len(out) > 1:
                # native alignment
                off, o2 = 0, []
                for c, n, sg in out:
                    if is_const(n) and c not in 'sxc?bB' and off % cval(n):
                        pad = cval(n) - off % cval(n)
                        o2.append(('x', const(pad), False))
                        off += pad
                    o2.append((c, n, sg))
                    off += cval(n)
                out = o2
            return out, little
        if f.op == 'cat':
            segs = list(f.args)
            if is_const(segs[0]) and cval(segs[0]) in ('<', '>', '=', '!', '@'):
                segs = segs[1:]
            if len(segs) == 2 and segs[0].op == 'str' and is_const(segs[1]) and cval(segs[1]) == 's':
                return [('s', segs[0].args[0], False)], True
        return None, None

    def x_struct_calcsize(self, fmt):
        items, _ = self.parse_fmt(fmt)
        if items is None:
            return app('calcsize', fmt, ty='int')
        r = ZERO
        for _, n, _s in items:
            r = t.add(r, n)
        return r

    def x_struct_unpack(self, fmt, data):
        I = self.I
        fmt = I.restrict(fmt)
        if fmt.op == 'ite':
            return I.split(fmt, lambda f: self.x_struct_unpack(f, data))
        b = self.need_bytes(data)
        items, little = self.parse_fmt(fmt)
        if items is None:
            return I.unknown('struct format')
        n = self.x_struct_calcsize(fmt)
        for _, sz, _s in items:
            if not is_const(sz):
                I.may_raise(bnot(t.ge0(sz)), lambda: I.new_exc(self.ext_exc('struct.error'), [const('bad format')]))
        I.may_raise(bnot(t.eq(t.length(I.restrict(b)), n)), lambda: I.new_exc(
            self.ext_exc('struct.error'), [const('unpack requires a buffer of a different size')]))
        b = I.restrict(b)

        def one(b):
            out, pos = [], ZERO
            for c, sz, sg in items:
                end = t.add(pos, sz)
                part = b if len(items) == 1 else t.subseq(b, pos, end)
                pos = end
                if c == 'x':
                    continue
                if c in ('s', 'c'):
                    out.append(part)
                elif c == '?':
                    out.append(bnot(t.eq0(t.byte_at(part, ZERO))))
                elif c in FMT:
                    p = t.rev(part) if little else part
                    out.append(t.bes(p) if sg else t.be(p))
                else:
                    p = part if little else t.rev(part)
                    if p.op == 'fpack' and p.args[1] == cval(sz):
                        out.append(p.args[0] if cval(sz) == 8 else app('fround', p.args[0], sz, ty='float'))
                    else:
                        out.append(app('funpack', p, sz, ty='float'))
            return tup(out)
        return lift(one, b)

    def x_struct_unpack_from(self, fmt, data, offset=ZERO):
        I = self.I
        b = self.need_bytes(data)
        n = self.x_struct_calcsize(fmt)
        return self.x_struct_unpack(fmt, self.pyslice(b, mk('slice', (offset, t.add(offset, n), NONE), 'slice')))

    def x_struct_iter_unpack(self, fmt, data):
        return self.I.unknown('struct.iter_unpack')

    def x_struct_Struct(self, fmt, **kw):
        I = self.I
        fmt = I.restrict(fmt)
        if fmt.op == 'ite':
            return I.split(fmt, self.x_struct_Struct)
        n = self.x_struct_calcsize(fmt)
        r = I.alloc('struct', None)
        I.S.store[(r.args[0], 'format')] = fmt
        I.S.store[(r.args[0], 'size')] = n
        return r

    def struct_format(self, o):
        return self.I.S.store[(o.args[0], 'format')]

    def m_struct_pack(self, o, *args):
        return self.x_struct_pack(self.struct_format(o), *args)

    def m_struct_unpack(self, o, data):
        return self.x_struct_unpack(self.struct_format(o), data)

    def m_struct_unpack_from(self, o, data, offset=ZERO):
        return self.x_struct_unpack_from(self.struct_format(o), data, offset)

    def x_struct_pack(self, fmt, *args):
        I = self.I
        fmt = I.restrict(fmt)
        if fmt.op == 'ite':
            return I.split(fmt, lambda f: self.x_struct_pack(f, *args))
        items, little = self.parse_fmt(fmt)
        if items is None:
            return I.unknown('struct format')
        err = self.ext_exc('struct.error')
        vals = [i for i in items if i[0] != 'x']
        if len(vals) != len(args):
            I.raise_py(err, 'pack expected a different number of items')
        out, k = [], 0
        for c, sz, sg in items:
            if c == 'x':
                out.append(const(b'\0' * cval(sz)))
                continue
            v = I.restrict(args[k])
            k += 1
            out.append(I.split(v, lambda v: self.pack1(v, c, sz, sg, little, err)) if any(
                self.kind(x) not in ('int', 'bool') for x in t.leaves(v)) else self.pack1(v, c, sz, sg, little, err))
        r = out[0]
        for o in out[1:]:
            r = t.cat2(r, o)
        return I.restrict(r)

    def pack1(self, v, c, sz, sg, little, err):
        I = self.I
        if c == 's':
            b = self.bytes_or(v, err)
            L = t.length(b)
            def fix(b):
                L = t.length(b)
                return ite(t.eq(sz, L), b, ite(t.ge0(t.sub(sz, L)), t.cat2(b, t.rep(const(b'\0'), t.sub(sz, L))),
                                               t.subseq(b, ZERO, sz) if t.ge0(t.sub(sz, L)) is not TRUE else b))
            return I.restrict(lift(fix, b))
        if c == 'c':
            b = self.bytes_or(v, err)
            I.may_raise(bnot(t.eq(t.length(b), ONE)), lambda: I.new_exc(err, [const('char format')]))
            return I.restrict(b)
        if c == '?':
            return ite(I.truth(v), const(b'\1'), const(b'\0'))
        if c in FMT:
            v = lift(lambda x: x.args[1] if x.op == 'inst' else x, v)
            for x in t.leaves(v):
                if self.kind(x) in ('bytes', 'str', 'none', 'list', 'tuple', 'float', 'dict', 'bytearray'):
                    I.raise_py(err, 'required argument is not an integer')
            v = t.as_int(v)
            ok = self.fits(v, sz, sg)
            I.may_raise(bnot(ok), lambda: I.new_exc(err, [const('argument out of range')]))
            r = t.i2b(I.restrict(v), sz, sg)
            return t.rev(r) if little else r
        k = self.kind(v)
        if k in ('bytes', 'str', 'none', 'list', 'tuple', 'dict', 'bytearray'):
            I.raise_py(err, 'required argument is not a float')
        if v.op == 'inst':
            v = v.args[1]
        if v.op == 'funpack' and v.args[1] is sz:
            r = v.args[0]
        elif is_const(v):
            return const(_struct.pack(('<' if little else '>') + c, cval(v)))
        else:
            r = mk('fpack', (v, cval(sz)), 'bytes')
        return r if little else t.rev(r)

    def bytes_or(self, v, err):
        I = self.I
        if self.is_byteslike(v):
            return self.raw(v)
        if v.ty == 'any' or v.op == 'memoryview':
            return self.need_bytes(v)
        I.raise_py(err, 'argument must be a bytes object')

    # ------------------------------------------------------------ binascii
    def x_binascii_hexlify(self, data, *sep):
        if sep:
            return app('hexsep', self.need_bytes(data), *sep, ty='bytes')
        return t.hexl(self.need_bytes(data))

    def x_binascii_unhexlify(self, data):
        I = self.I
        d = I.restrict(data)

        def one(x):
            if self.is_byteslike(x):
                return self.raw(x)
            if self.kind(x) == 'str':
                # a non-ascii string raises ValueError, every other malformed one binascii.Error (a ValueError)
                return t.encode(x, 'utf-8')
            if self.kind(x) in ('int', 'bool', 'none', 'float', 'list', 'tuple', 'inst', 'dict'):
                I.raise_py(TypeError, 'argument should be bytes, buffer or ASCII string')
            return mk('bytesof', (x,), 'bytes')
        if d.op == 'ite':
            b = lift(one, d) if all(self.is_byteslike(x) or self.kind(x) == 'str' for x in t.leaves(d)) else I.split(d, one)
        else:
            b = one(d)
        ok = t.ishex(b)
        I.may_raise(bnot(ok), lambda: I.new_exc(self.ext_exc('binascii.Error'), [const('Non-hexadecimal digit found')]))
        return t.unhex(I.restrict(b))

    def x_binascii_crc32(self, data, *a):
        return app('crc32', self.need_bytes(data), *a, ty='int')

    # ------------------------------------------------------------ hashes
    def new_hash(self, alg, args, kw=None):
        I = self.I
        c = self.need_bytes(args[0]) if args else EMPTYB
        r = I.alloc('hash', None, (alg, DIGESTS[alg]))
        I.set_content(r, c)
        return r

    def x_hashlib_new(self, name, *args, **kw):
        I = self.I
        name = I.restrict(name)
        if 'data' in kw:
            args = (kw['data'],) + args
        if is_const(name) and cval(name) in DIGESTS:
            return self.new_hash(cval(name), args)
        return self.opaque_call('hashlib.new', [name] + list(args), {})

    def m_hash_update(self, o, data):
        I = self.I
        I.set_content(o, t.cat2(I.content(o), self.need_bytes(data)))
        return NONE

    def digest_of(self, o):
        I = self.I
        alg, n = I.obj(o).extra
        return lift(lambda c: mk('digest', (alg, c, n), 'bytes'), I.content(o))

    def m_hash_digest(self, o):
        return self.digest_of(o)

    def m_hash_hexdigest(self, o):
        return t.astr(t.hexl(self.digest_of(o)))

    def m_hash_copy(self, o):
        I = self.I
        r = I.alloc('hash', None, I.obj(o).extra)
        I.set_content(r, I.content(o))
        return r

    def x_hmac_new(self, key, msg=None, digestmod=None):
        I = self.I
        m = self.need_bytes(msg) if msg is not None else EMPTYB
        alg = cval(digestmod) if digestmod is not None and is_const(digestmod) else (
            digestmod.args[0].split('.')[-1] if digestmod is not None and digestmod.op == 'ext' else 'md5')
        r = I.alloc('hash', None, ('hmac-%s' % alg, DIGESTS.get(alg, 32)))
        I.set_content(r, t.cat([app('hmackey', self.need_bytes(key), ty='bytes'), m], 'bytes'))
        return r

    def x_hmac_compare_digest(self, a, b):
        return self.I.truth(self.compare('Eq', a, b))

    # ------------------------------------------------------------ byte streams
    def new_stream(self, content=EMPTYB, pos=ZERO):
        I = self.I
        r = I.alloc('stream', ext_exception('io.BytesIO', object))
        if pos is t.length(content):
            pos = ATEND
        I.set_content(r, content)
        I.S.store[(r.args[0], '$pos')] = pos
        return r

    def x_io_BytesIO(self, data=None):
        if data is None or (data.op == 'c' and cval(data) is None):
            return self.new_stream()
        return self.new_stream(self.need_bytes(data))

    def spos(self, o):
        p = self.I.restrict(self.I.S.store[(o.args[0], '$pos')])
        L = t.length(self.I.content(o))
        return lift(lambda x: L if x is ATEND else x, p) if p.op == 'ite' else (L if p is ATEND else p)

    def m_stream_read(self, o, n=NONE):
        I = self.I
        n = I.restrict(n)
        if n.op == 'ite' and any(self.kind(x) not in ('int', 'bool') for x in t.leaves(n)):
            return I.split(n, lambda x: self.m_stream_read(o, x))
        if n.op == 'inst':
            n = n.args[1]
        k = self.kind(n)
        if k == 'none':
            n = const(-1)
        elif k not in ('int', 'bool'):
            if k == 'any':
                n = app('asint', n, ty='int')
            else:
                I.raise_py(TypeError, 'argument should be integer or None')
        c = I.content(o)
        pos = self.spos(o)
        L = t.length(c)
        I.event('read', 'stream', (o, n, pos))

        def rest(c, pos):
            L = t.length(c)
            return lift(lambda c, pos, L: ite(t.ge0(t.sub(L, pos)), _sub(c, pos, L), EMPTYB), c, pos, L)

        def take():
            nn = I.restrict(t.as_int(n))
            r = lift(lambda c, p, m: ite(t.ge0(t.sub(t.length(c), t.add(p, m))), _sub(c, p, t.add(p, m)), rest(c, p)),
                     c, pos, nn)
            I.S.store[(o.args[0], '$pos')] = t.add(pos, nn)
            return I.restrict(r)

        def allof():
            I.S.store[(o.args[0], '$pos')] = L
            return I.restrict(rest(c, pos))
        return I.cond(t.ge0(t.as_int(n)), take, allof)

    def m_stream_readinto(self, o, buf):
        b = self.I.content(buf)
        r = self.m_stream_read(o, t.length(b))
        self.I.set_content(buf, r)
        return t.length(r)

    def m_stream_readall(self, o):
        return self.m_stream_read(o)

    def m_stream_write(self, o, data):
        I = self.I
        d = self.need_bytes(data)
        c, pos = I.content(o), self.spos(o)
        I.event('write', 'stream', (o, d))
        L = t.length(c)
        if pos is L:
            I.set_content(o, t.cat2(c, d))
            I.S.store[(o.args[0], '$pos')] = ATEND
        else:
            def f(c, d, pos):
                end = t.add(pos, t.length(d))
                L = t.length(c)
                tail = ite(t.ge0(t.sub(L, end)), _sub(c, end, L), EMPTYB)
                return t.cat([_sub(c, ZERO, pos), d, tail], 'bytes')
            I.set_content(o, I.restrict(lift(f, c, d, pos)))
            I.S.store[(o.args[0], '$pos')] = t.add(pos, t.length(d))
        return t.length(d)

    def m_stream_getvalue(self, o):
        return self.I.content(o)

    m_stream_getbuffer = m_stream_getvalue

    def m_stream_tell(self, o):
        pos, L = self.spos(o), t.length(self.I.content(o))
        return self.I.restrict(ite(t.ge0(t.sub(L, pos)), pos, L)) if pos is not L else L

    def m_stream_seek(self, o, p, whence=ZERO):
        I = self.I
        w = cval(whence) if is_const(whence) else None
        if w == 0:
            np_ = p
        elif w == 1:
            np_ = t.add(self.m_stream_tell(o), p)
        elif w == 2:
            np_ = t.add(t.length(I.content(o)), p)
        else:
            np_ = I.unknown('seek')
        I.S.store[(o.args[0], '$pos')] = np_
        I.event('seek', 'stream', (o, np_))
        return np_

    def m_stream_close(self, o):
        return NONE

    def m_stream_flush(self, o):
        return NONE

    def m_stream_readable(self, o):
        return TRUE

    m_stream_writable = m_stream_seekable = m_stream_readable

    def m_stream___enter__(self, o):
        return o

    def m_stream___exit__(self, o, *a):
        return FALSE

    # ------------------------------------------------------------ scrypt / AES
    def x_scrypt_hash(self, password, salt, N=const(1 << 14), r=const(8), p=ONE, buflen=const(64)):
        I = self.I

        def enc(x):
            x = I.restrict(x)
            return lift(lambda y: t.encode(y, 'utf-8') if self.kind(y) == 'str' else self.raw(y)
                        if self.is_byteslike(y) else y, x)
        pw, sl = enc(password), enc(salt)
        for v in t.leaves(pw) + t.leaves(sl):
            if self.kind(v) in ('none', 'int', 'list', 'tuple'):
                I.raise_py(TypeError, 'password and salt must be text or bytes')
        I.event('kdf', 'scrypt.hash', (pw, sl, N, r, p, buflen))
        nm = 'scrypt'
        return lift(lambda pw, sl: mk('fixed' if is_const(buflen) else 'scrypt',
                                      (nm, cval(buflen) if is_const(buflen) else buflen, pw, sl, N, r, p), 'bytes'), pw, sl)

    def x_hashlib_scrypt(self, password, **kw):
        return self.x_scrypt_hash(password, kw['salt'], kw['n'], kw['r'], kw['p'], kw.get('dklen', const(64)))

    def x_Crypto_Cipher_AES_new(self, key, mode=const(1), *args, **kw):
        I = self.I
        k = self.need_bytes(key)
        n = t.length(k)
        ok = bor(t.eq(n, const(16)), bor(t.eq(n, const(24)), t.eq(n, const(32))))
        I.may_raise(bnot(ok), lambda: I.new_exc(ValueError, [const('Incorrect AES key length')]))
        r = I.alloc('cipher', None)
        I.S.store[(r.args[0], '$key')] = k
        I.S.store[(r.args[0], '$mode')] = tup([mode] + list(args) + [tup([const(a), kw[a]]) for a in sorted(kw)])
        I.event('cipher', 'AES.new', (k, mode))
        return r

    def aes(self, o, data, op, inv):
        I = self.I
        d = self.need_bytes(data)
        key, mode = I.S.store[(o.args[0], '$key')], I.S.store[(o.args[0], '$mode')]
        L = t.length(d)
        I.may_raise(bnot(t.eq0(t.mod(L, const(16)))), lambda: I.new_exc(
            ValueError, [const('Data must be aligned to block boundary')]))
        ecb = len(mode.args) == 1 and is_const(mode.args[0]) and cval(mode.args[0]) == 1
        m = mode if not ecb else const(1)

        def f(k, d):
            return aesop(op, inv, m, k, d, ecb)
        return I.restrict(lift(f, key, d))

    def m_cipher_encrypt(self, o, data):
        return self.aes(o, data, 'aesenc', 'aesdec')

    def m_cipher_decrypt(self, o, data):
        return self.aes(o, data, 'aesdec', 'aesenc')


def _sub(c, lo, hi):
    if lo.op == 'ite' or hi.op == 'ite' or c.op == 'ite':
        return lift(t.subseq, c, lo, hi)
    return t.subseq(c, lo, hi)


def aesop(op, inv, m, k, d, ecb):
    """ECB acts block by block, so it distributes over 16-byte aligned splits and cancels its inverse."""
    if d.op == inv and d.args[0] is m and d.args[1] is k:
        return d.args[2]
    if ecb:
        n = t.clen(d)
        if n is not None and n > 16 and n % 16 == 0:
            return t.cat([aesop(op, inv, m, k, t.subseq(d, const(i), const(i + 16)), ecb) for i in range(0, n, 16)], 'bytes')
    return mk(op, (m, k, d), 'bytes')
