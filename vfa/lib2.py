"""Library models, second part: base58, the bitcoin and ecdsa packages, randomness, small stdlib helpers."""
from . import terms as t
from .terms import (T, mk, const, is_const, cval, ite, bnot, band, bor, lift, app, unk, tup, TRUE, FALSE,
                    NONE, ZERO, ONE, EMPTYB)
from .prog import Dead, bclass, cls_term, ext_exception, restrict
from .lib import CURVE


def pred(name, *args):
    return lift(lambda *xs: mk('pred', (name,) + tuple(xs), 'bool'), *args)


class LibMixin2(object):

    # ------------------------------------------------------------ base58
    def b58arg(self, v):
        """bytes or text term of a base58 argument (text stays text; None and numbers have no rstrip)."""
        I = self.I
        v = I.restrict(v)

        def one(x):
            if x.op == 'encode':
                return x.args[1]
            if self.kind(x) in ('str', 'bytes'):
                return t.astr(x) if self.kind(x) == 'bytes' and t.is_ascii(x) else x
            if self.kind(x) == 'bytearray':
                I.raise_py(TypeError, 'a bytes-like object is required')
            if self.kind(x) in ('none', 'int', 'bool', 'list', 'tuple', 'dict', 'float', 'inst'):
                I.raise_py(AttributeError, 'object has no attribute rstrip')
            return x
        return I.split(v, one) if v.op == 'ite' else one(v)

    def b58enc(self, b):
        return lift(lambda x: mk('b58', (x,), 'bytes'), b)

    def x_base58_b58encode(self, v):
        I = self.I
        v = I.restrict(v)

        def one(x):
            k = self.kind(x)
            if k == 'str':
                return self.b58enc(t.encode(x, 'ascii'))
            if k == 'bytes':
                return self.b58enc(x)
            if k in ('any',):
                return self.b58enc(mk('bytesof', (x,), 'bytes'))
            I.raise_py(TypeError, 'a bytes-like object is required (also str)')
        return I.split(v, one) if v.op == 'ite' else one(v)

    def x_base58_b58encode_check(self, v):
        b = self.need_bytes(v)
        d = self.dsha(b)
        return self.b58enc(t.cat2(b, lift(lambda x: t.subseq(x, ZERO, const(4)), d)))

    def dsha(self, b):
        def h(x):
            return mk('digest', ('sha256', x, 32), 'bytes')
        return lift(lambda x: h(h(x)), b)

    def unb58(self, v):
        I = self.I

        def okf(x):
            y = x.args[0] if x.op == 'astr' else x
            if y.op == 'b58':
                return TRUE
            if is_const(x):
                s = cval(x)
                s = s.decode('latin-1') if isinstance(s, bytes) else s
                return const(all(c in '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz' for c in s.rstrip()))
            return mk('pred', ('isb58', x), 'bool')

        def un(x):
            y = x.args[0] if x.op == 'astr' else x
            if y.op == 'b58':
                return y.args[0]
            return mk('unb58', (x,), 'bytes')
        ok = lift(okf, v)
        I.may_raise(bnot(ok), lambda: I.new_exc(ValueError, [const('invalid base58 character')]))
        return lift(un, I.restrict(v))

    def x_base58_b58decode(self, v):
        return self.unb58(self.b58arg(v))

    def x_base58_b58decode_check(self, v):
        I = self.I
        r = self.unb58(self.b58arg(v))
        head = self.pyslice(r, mk('slice', (NONE, const(-4), NONE), 'slice'))
        chk = self.pyslice(r, mk('slice', (const(-4), NONE, NONE), 'slice'))
        d = lift(lambda x: t.subseq(x, ZERO, const(4)), self.dsha(head))
        I.may_raise(bnot(t.eq(chk, d)), lambda: I.new_exc(ValueError, [const('Invalid checksum')]))
        return I.restrict(head)

    # ------------------------------------------------------------ the bitcoin package (process-wide curve)
    def cell(self):
        return self.I.restrict(self.curve())

    def x_bitcoin_change_curve(self, p, n, a, b, gx, gy):
        I = self.I
        I.S.store[CURVE] = tup([I.restrict(x) for x in (p, n, a, b, gx, gy)])
        I.event('curveset', 'bitcoin.change_curve', (p, n, a, b, gx, gy))
        return NONE

    def bevent(self, name, args):
        e = self.I.event('curvecall', name, [self.snap(a) for a in args])
        e.cell = self.cell()
        return e

    def keyform(self, x):
        """The package reads 32 bytes and their 64 hexadecimal digits as the same number."""
        def one(v):
            y = v.args[0] if v.op == 'astr' else v
            if y.op == 'hex' and t.clen(y.args[0]) == 32:
                return y.args[0]
            return v
        return lift(one, x)

    def bargs(self, args):
        out = []
        for a in args:
            a = self.snap(a)
            out.append(a)
        return out

    def x_bitcoin_privkey_to_pubkey(self, key):
        I = self.I
        key0 = self.snap(key)
        key = self.keyform(key0)
        self.bevent('privkey_to_pubkey', [key])
        c = self.cell()
        I.may_raise(bnot(pred('privkey', c, key)), lambda: I.new_exc(Exception, [const('Invalid privkey')]))

        def f(c, k, k0):
            n = t.clen(k) if k.ty == 'bytes' else None
            if n == 32:
                b = mk('fixed', ('bitcoin.pub', 65, c, k), 'bytes')
                return b if k0 is k else t.astr(t.hexl(b))     # the key's format is also the result's
            if n == 33:
                return mk('fixed', ('bitcoin.pub', 33, c, k), 'bytes')
            return mk('bitcoin.pub', (c, k), 'any' if k.ty != 'str' else 'str')
        return lift(f, c, I.restrict(key), I.restrict(key0))
    x_bitcoin_privtopub = x_bitcoin_privkey_to_pubkey

    def x_bitcoin_decode_pubkey(self, pub, fmt=None):
        I = self.I
        pub = self.snap(pub)
        f = cval(fmt) if fmt is not None and is_const(fmt) else None
        n = t.clen(pub) if pub.op != 'ite' else None
        if f is None and n == 65:
            f = 'bin'
        if f == 'bin' and n == 65:
            return tup([t.be(t.subseq(pub, ONE, const(33))), t.be(t.subseq(pub, const(33), const(65)))])
        self.bevent('decode_pubkey', [pub])
        I.may_raise(bnot(pred('pubkeyfmt', pub)), lambda: I.new_exc(Exception, [const('WIF does not represent pubkey')]))
        c = self.cell()
        return tup([app('bitcoin.px', c, pub, const(f), ty='int'), app('bitcoin.py', c, pub, const(f), ty='int')])

    def x_bitcoin_decompress(self, pub):
        I = self.I
        b = self.snap(pub)
        self.bevent('decompress', [b])
        c = self.cell()
        if b.op != 'ite' and b.ty == 'bytes' and t.clen(b) == 65:
            return b

        def bad(b):
            if b.ty != 'bytes':
                return bnot(mk('pred', ('pubkeyfmt', b), 'bool'))
            L = t.length(b)
            b0 = lambda: t.byte_at(b, ZERO)
            return ite(t.eq(L, const(33)), bnot(bor(t.eq(b0(), const(2)), t.eq(b0(), const(3)))),
                       bnot(mk('pred', ('pubkeyfmt', b), 'bool')))
        I.may_raise(lift(bad, b), lambda: I.new_exc(Exception, [const('Pubkey not in recognized format')]))
        b = I.restrict(b)
        return lift(lambda c, b: mk('fixed', ('bitcoin.decompress', 65, c, b), 'bytes'), c, b)

    def x_bitcoin_compress(self, pub):
        b = self.snap(pub)
        self.bevent('compress', [b])
        return lift(lambda c, b: mk('fixed', ('bitcoin.compress', 33, c, b), 'bytes'), self.cell(), b)

    def x_bitcoin_ecdsa_raw_sign(self, h, key):
        I = self.I
        h, key = self.keyform(self.snap(h)), self.keyform(self.snap(key))
        self.bevent('ecdsa_raw_sign', [h, key])
        c = self.cell()
        I.may_raise(bnot(pred('privkey', c, key)), lambda: I.new_exc(Exception, [const('Invalid privkey')]))
        return tup([lift(lambda c, h, k: mk('ecsig', (w, c, h, k), 'int'), c, h, key) for w in 'vrs'])

    def x_re_sub(self, pattern, repl, string, *rest, **kw):
        """A literal, a literal at the end, or characters of a class at the end, replaced by a constant."""
        I = self.I
        a = [pattern, repl, string] + list(rest)
        string = I.restrict(string)
        other = lambda: self.opaque_call('re.sub', a, kw)
        if rest or kw or not (is_const(pattern) and is_const(repl)) or not isinstance(cval(pattern), str) or \
                not isinstance(cval(repl), str) or '\\' in cval(repl):
            return other()
        try:
            from re import _parser as sre
        except ImportError:
            import sre_parse as sre
        try:
            items = list(sre.parse(cval(pattern)))
        except Exception:
            return other()
        end = bool(items) and str(items[-1][0]) == 'AT' and str(items[-1][1]) in ('AT_END', 'AT_END_STRING')
        items = items[:-1] if end else items
        lit = ''.join(chr(i[1]) for i in items if str(i[0]) == 'LITERAL')
        chars = None
        if end and len(items) == 1 and str(items[0][0]) == 'MAX_REPEAT' and items[0][1][0] <= 1 and str(items[0][1][1]) == 'MAXREPEAT' \
                and not cval(repl):
            sub = list(items[0][1][2])
            if len(sub) == 1 and str(sub[0][0]) == 'LITERAL':
                chars = chr(sub[0][1])
            elif len(sub) == 1 and str(sub[0][0]) == 'IN' and all(str(k) == 'LITERAL' for k, _ in sub[0][1]):
                chars = ''.join(chr(v) for _, v in sub[0][1])

        def one(x):
            if is_const(x) and isinstance(cval(x), str):
                import re
                return const(re.sub(cval(pattern), cval(repl), cval(x)))
            if self.kind(x) != 'str' or x.op not in ('cat', 'str', 'astr') or self.occurs(x, '\n') != []:
                return other()          # a newline at the end is skipped by $
            if chars is not None:
                return self.strip_('rstrip', x, const(chars))
            if not lit or len(lit) != len(items):
                return other()
            if end:
                return I.cond(self.m_seq_endswith(x, const(lit)),
                              lambda: t.cat([t.subseq(x, ZERO, t.sub(t.length(x), const(len(lit)))), repl], 'str'), lambda: x)
            r = self.known_text(x, 'replace', [const(lit), repl])
            return r if r is not None else other()
        return I.split(string, one)

    def x_bitcoin_ecdsa_raw_verify(self, h, vrs, pub):
        self.bevent('ecdsa_raw_verify', [h, vrs, pub])
        return app('ecrawverify', self.cell(), self.snap(h), vrs, self.snap(pub), ty='bool')

    def bitcoin_any(self, name, args, kw):
        I = self.I
        a = tup(self.bargs(args) + [tup([const(k), self.snap(kw[k])]) for k in sorted(kw)])
        self.bevent(name.split('.')[-1], args)
        c = self.cell()
        I.may_raise(mk('raises', (name, c, a), 'bool'), lambda: I.new_exc(Exception, [const(name)]))
        return mk('xcall', (name, c, a), 'any')

    # ------------------------------------------------------------ ecdsa
    def x_ecdsa_VerifyingKey_from_string(self, string, curve=None, hashfunc=None):
        I = self.I
        curve = curve if curve is not None else mk('ext', ('ecdsa.NIST192p',), 'ext')
        hashfunc = hashfunc if hashfunc is not None else mk('ext', ('hashlib.sha1',), 'ext')
        s = self.snap(string)
        I.event('ecpoint', 'VerifyingKey.from_string', (s, curve))
        ok = pred('ecpointok', curve, s)
        I.may_raise(bnot(ok), lambda: I.new_exc(AssertionError, [const('point is not on the curve')]))
        return lift(lambda c, s: mk('vk', (c, s, hashfunc), 'vk'), curve, s)

    def vk_method(self, o, name, args, kw):
        I = self.I
        if name == 'verify':
            names = ['signature', 'data', 'hashfunc', 'sigdecode']
            b = dict(zip(names, args))
            b.update(kw)
            h = b.get('hashfunc', NONE)
            if h.op == 'c':
                h = o.args[2]
            extra = b.get('sigdecode', NONE)
            sig, data = self.snap(b['signature']), self.snap(b['data'])
            I.event('ecverify', 'VerifyingKey.verify', (o.args[0], o.args[1], sig, data, h))
            for x in t.leaves(data):
                if self.kind(x) in ('str', 'none', 'int'):
                    I.may_raise(lift(lambda y: TRUE if y is x else FALSE, data), lambda: I.new_exc(TypeError, [const('data must be bytes')]))
            data = I.restrict(data)
            if extra is NONE:
                self.siglen(sig)
            ok = pred('ecverify', o.args[0], o.args[1], sig, data, h, extra)
            I.may_raise(bnot(ok), lambda: I.new_exc(self.ext_exc('ecdsa.BadSignatureError'), []))
            return TRUE
        if name == 'verify_digest':
            sig, dg = self.snap(args[0]), self.snap(args[1])
            I.event('ecverify', 'VerifyingKey.verify_digest', (o.args[0], o.args[1], sig, dg))
            h = o.args[2]
            if len(args) == 2 and not kw:
                self.siglen(sig)
            if dg.op == 'digest':
                h, data = mk('ext', ('hashlib.' + dg.args[0],), 'ext'), dg.args[1]
                ok = pred('ecverify', o.args[0], o.args[1], sig, data, h, NONE)
            else:
                ok = pred('ecverifyd', o.args[0], o.args[1], sig, dg)
            I.may_raise(bnot(ok), lambda: I.new_exc(self.ext_exc('ecdsa.BadSignatureError'), []))
            return TRUE
        if name == 'to_string':
            return o.args[1]
        return self.opaque_call('vk.' + name, [o] + list(args), kw)

    def siglen(self, sig):
        """sigdecode_string: 64 bytes on a 256-bit curve, else the library's assertion fails."""
        I = self.I
        ln = lambda x: t.eq(t.length(x), const(64)) if x.ty in ('bytes', 'str', 'bits') else (FALSE if self.kind(x) in ('none', 'int') else TRUE)
        I.may_raise(bnot(lift(ln, sig)), lambda: I.new_exc(AssertionError, [const('signature length')]))

    # ------------------------------------------------------------ randomness
    def rand_bytes(self, n):
        if is_const(n):
            return mk('fixed', ('rand', cval(n), const(self.fresh())), 'bytes')
        return mk('rand', (n, const(self.fresh())), 'bytes')

    def x_os_urandom(self, n):
        self.I.event('rand', 'os.urandom', (n,))
        return self.rand_bytes(self.I.restrict(n))

    def x_Crypto_Random_get_random_bytes(self, n):
        self.I.event('rand', 'Crypto.Random.get_random_bytes', (n,))
        return self.rand_bytes(self.I.restrict(n))

    def x_Crypto_Random_new(self):
        return mk('ext', ('Crypto.Random.rng',), 'ext')

    def x_Crypto_Random_rng_read(self, n):
        return self.x_Crypto_Random_get_random_bytes(n)

    def x_random_SystemRandom(self):
        return mk('ext', ('sysrandom',), 'ext')

    def x_sysrandom_randbytes(self, n):
        return self.x_os_urandom(n)

    def x_sysrandom_getrandbits(self, n):
        self.I.event('rand', 'SystemRandom.getrandbits', (n,))
        return app('rand', const('secrets.randbits'), tup([n]), const(self.fresh()), ty='int')

    def x_sysrandom_randrange(self, n):
        self.I.event('rand', 'SystemRandom.randrange', (n,))
        return app('rand', const('secrets.randbelow'), tup([n]), const(self.fresh()), ty='int')

    # ------------------------------------------------------------ text
    def x_unicodedata_normalize(self, form, s):
        I = self.I

        def one(x):
            if self.kind(x) == 'str':
                if is_const(x) and is_const(form):
                    import unicodedata
                    return const(unicodedata.normalize(cval(form), cval(x)))
                return mk('normalize', (form, x), 'str')
            if x.ty == 'any':
                return mk('normalize', (form, x), 'str')
            I.raise_py(TypeError, 'normalize() argument 2 must be str')
        return I.split(I.restrict(s), one)

    def x_codecs_encode(self, s, enc=const('utf-8'), *a):
        if is_const(enc) and cval(enc) in ('hex', 'hex_codec'):
            return self.x_binascii_hexlify(s)
        return self.method(s, 'encode', [enc], {})

    def x_codecs_decode(self, s, enc=const('utf-8'), *a):
        if is_const(enc) and cval(enc) in ('hex', 'hex_codec'):
            return self.x_binascii_unhexlify(s)
        return self.method(s, 'decode', [enc], {})

    # ------------------------------------------------------------ import / process
    def x_importlib_import_module(self, name, package=None):
        I = self.I
        name = I.restrict(name)
        if name.op == 'ite':
            return I.split(name, self.x_importlib_import_module)
        if is_const(name):
            n = cval(name)
            if n in I.modules or I.is_repo(n):
                I.need_module(n)
                return I.modules[n]
            return mk('ext', (n,), 'ext')
        e = I.event('dynimport', 'importlib.import_module', (name,))
        I.may_raise(mk('raises', ('import', name), 'bool'), lambda: I.new_exc(ImportError, [name]))
        return mk('xcall', ('importlib.import_module', tup([name])), 'any')

    def x_sys_exit(self, code=None):
        I = self.I
        I.raise_(I.new_exc(SystemExit, [code if code is not None else NONE]))

    def x_sys_getsizeof(self, v, *a):
        return app('sizeof', self.snap(v), ty='int')

    def x_sys_stdout_write(self, s):
        self.I.event('print', 'sys.stdout.write', (s,))
        self.emit(s)
        return t.length(s)

    def x_sys_stderr_write(self, s):
        self.I.event('print', 'sys.stderr.write', (s,))
        self.emit(s, ('ext', 'stderr'))
        return t.length(s)

    def x_contextlib_suppress(self, *excs):
        cs = tuple(e.args[0] if e.op == 'class' else self.ext_exc(e.args[0]) for e in excs if e.op in ('class', 'ext'))
        return mk('suppress', cs, 'ctx')

    # ------------------------------------------------------------ functools / operator / itertools / math
    def x_functools_partial(self, f, *args, **kw):
        return mk('partial', (f, tuple(args), tuple(sorted(kw.items()))), 'func')

    def x_functools_reduce(self, f, it, *init):
        I = self.I
        s = self.seq_of(it)
        items = I.seq_items(s)
        if items is None:
            return I.libfn('fold', f, self.seqd(n=s.n, el=s.el), init[0]) if init and s.n is not None and s.segs is None else I.unknown('reduce over a symbolic sequence')
        items = list(init) + list(items)
        if not items:
            I.raise_py(TypeError, 'reduce() of empty iterable with no initial value')
        acc = items[0]
        for x in items[1:]:
            acc = I.call(f, [acc, x], {})
        return acc

    OPFN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'floordiv': 'FloorDiv', 'truediv': 'Div', 'mod': 'Mod',
            'xor': 'BitXor', 'and_': 'BitAnd', 'or_': 'BitOr', 'lshift': 'LShift', 'rshift': 'RShift', 'pow': 'Pow',
            'concat': 'Add'}
    OPCMP = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'gt': 'Gt', 'le': 'LtE', 'ge': 'GtE'}

    def op_fn(self, name, args):
        I = self.I
        if name in self.OPFN and len(args) == 2:
            return I.binop(self.OPFN[name], args[0], args[1])
        if name in self.OPCMP and len(args) == 2:
            return self.compare(self.OPCMP[name], args[0], args[1])
        if name == 'neg':
            return self.unary('USub', args[0])
        if name == 'not_':
            return bnot(I.truth(args[0]))
        if name == 'index':
            return self.construct(int, args, {})
        if name == 'getitem':
            return self.getitem(args[0], args[1])
        if name == 'attrgetter' and is_const(args[0]):
            nm = cval(args[0])
            return mk('opfn', (lambda o: I.getattr(o, nm),), 'func')
        if name == 'itemgetter':
            ix = args[0]
            return mk('opfn', (lambda o: self.getitem(o, ix),), 'func')
        return self.opaque_call('operator.' + name, args, {})

    def iter_of(self, items):
        I = self.I
        r = I.alloc('iter', None)
        I.set_content(r, t.lcat([t.li(x) for x in items]))
        return r

    def x_itertools_chain(self, *its):
        I = self.I
        r = I.alloc('iter', None)
        c = t.lcat([])
        for i in its:
            c = t.lcat_l(c, self.list_content(i))
        I.set_content(r, c)
        return r

    def x_itertools_islice(self, it, *a):
        I = self.I
        c = self.list_content(it)
        sl = mk('slice', (NONE, a[0], NONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else NONE), 'slice')
        r = I.alloc('iter', None)
        I.set_content(r, self.pyslice(c, sl))
        return r

    def x_itertools_zip_longest(self, *its, **kw):
        I = self.I
        fill = kw.get('fillvalue', NONE)
        cs = [I.seq_items(self.seq_of(i)) for i in its]
        if any(c is None for c in cs):
            return I.unknown('zip_longest')
        n = max(len(c) for c in cs) if cs else 0
        return self.iter_of([tup([c[i] if i < len(c) else fill for c in cs]) for i in range(n)])

    def x_itertools_product(self, *its, **kw):
        import itertools
        I = self.I
        cs = [I.seq_items(self.seq_of(i)) for i in its]
        if any(c is None for c in cs):
            return I.unknown('product')
        rp = cval(kw['repeat']) if 'repeat' in kw else 1
        return self.iter_of([tup(p) for p in itertools.product(*(cs * rp))])

    def x_math_floor(self, v):
        return self.fround_('__floor__', 'floor', v)

    def x_math_ceil(self, v):
        return self.fround_('__ceil__', 'ceil', v)

    def x_math_trunc(self, v):
        return self.fround_('__trunc__', 'trunc', v)

    def fround_(self, dunder, nm, v):
        I = self.I
        v = I.restrict(v)

        def one(x):
            if self.kind(x) in ('int', 'bool'):
                return t.as_int(x) if x.op != 'inst' else x.args[1]
            if x.op == 'ref':
                m = I.find_method(x, dunder)
                if m is not None:
                    return I.call(m, [], {})
            if self.kind(x) in ('str', 'bytes', 'none', 'list'):
                I.raise_py(TypeError, 'must be real number')
            return mk(nm, (x,), 'int')
        return I.split(v, one)

    def x_math_gcd(self, a, b):
        return app('gcd', a, b, ty='int')

    def x_math_isqrt(self, a):
        return app('isqrt', a, ty='int')

    def x_mpmath_libmp_bitcount(self, v):
        I = self.I
        return lift(lambda x: const(cval(x).bit_length()) if is_const(x) else mk('bitlen', (x,), 'int'), t.as_int(v))

    def x_copy_copy(self, v):
        return self.clone(v, False, {})

    def x_copy_deepcopy(self, v, memo=None):
        return self.clone(v, True, {})

    def clone(self, v, deep, memo):
        I = self.I
        v = I.restrict(v)
        if v.op == 'ite':
            return I.split(v, lambda x: self.clone(x, deep, memo))
        if v.op == 'tuple' and deep:
            return tup([self.clone(x, deep, memo) for x in v.args])
        if v.op != 'ref':
            return v
        if v in memo:
            return memo[v]
        ob = I.obj(v)
        m = I.find_method(v, '__deepcopy__' if deep else '__copy__') if ob.kind == 'inst' else None
        if m is not None:
            return I.call(m, [NONE] if deep else [], {})
        r = I.alloc(ob.kind, ob.cls, ob.extra)
        memo[v] = r
        for (o, f), x in list(I.S.store.items()):
            if o == v.args[0]:
                if deep and f != '$c':
                    x = self.clone(x, True, memo)
                elif deep and ob.kind in ('list',):
                    its = t.concrete_items(x)
                    if its is not None:
                        x = t.lcat([t.li(self.clone(i, True, memo)) for i in its])
                I.S.store[(r.args[0], f)] = x
        return r
