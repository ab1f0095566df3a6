"""Drivers shared by the checks: calls into the analysed source."""
from .. import terms as t
from ..terms import TRUE, FALSE, const, sym, is_const, cval

IN = sym('IN', 'bytes')
OLD = sym('old', 'bytes')
LEN = t.length(IN)


def rd(C, name, *args, **kw):
    """Call a reader method on a stream holding IN; value = (result, what is left in the stream)."""
    conv = kw.pop('conv', None)
    src = kw.pop('src', IN)

    def d(I):
        st = C.stream(src)
        r = I.call(C.get('IO.BinaryReader:BinaryReader'), [st], {})
        a = [x(I) if callable(x) else x for x in args]
        x = C.meth(r, name, *a, **kw)
        if conv:
            x = conv(x)
        return t.tup([x, C.meth(st, 'read')])
    return d


def wr(C, name, *args, **kw):
    """Call a writer method on a stream already holding `old`; value = the stream's content."""
    ret = kw.pop('ret', False)

    def d(I):
        st = C.stream()
        w = I.call(C.get('IO.BinaryWriter:BinaryWriter'), [st], {})
        C.meth(st, 'write', OLD)
        a = [x(I) if callable(x) else x for x in args]
        n = C.meth(w, name, *a, **kw)
        c = I.content(st)
        return t.tup([n, c]) if ret else c
    return d


def cls_of(C, x):
    """The class of an object as a term."""
    I = C.I
    return t.lift(lambda r: t.mk('class', (I.obj(r).cls,), 'class') if r.op == 'ref'
                  else (t.mk('class', (r.args[0],), 'class') if r.op == 'inst' else const(None)), x)


def obj_data(C, attr='Data'):
    """Convert an object result to (class, content of attribute)."""
    def f(x):
        I = C.I
        return t.tup([cls_of(C, x), I.content(I.getattr(x, attr))])
    return f


def klass(C, path):
    v = C.get(path)
    return t.mk('class', (v.args[0],), 'class')


def atleast(n, what=None):
    n = n if isinstance(n, t.T) else const(n)
    return t.ge0(t.sub(LEN if what is None else t.length(what), n))


def between(v, lo, hi):
    return t.band(t.ge0(t.sub(v, const(lo))), t.ge0(t.sub(const(hi), v)))


def be(b, lo, n, signed=False, endian='<'):
    s = t.subseq(b, const(lo) if not isinstance(lo, t.T) else lo, t.add(const(lo) if not isinstance(lo, t.T) else lo, const(n)))
    if endian == '<':
        s = t.rev(s)
    return t.bes(s) if signed else t.be(s)


def le_bytes(v, n, signed=False, endian='<'):
    s = t.i2b(v, const(n), signed)
    return t.rev(s) if endian == '<' else s


def rest(k, b=IN):
    k = k if isinstance(k, t.T) else const(k)
    return cut(b, k, t.length(b))


def cut(b, lo, hi):
    lo = lo if isinstance(lo, t.T) else const(lo)
    hi = hi if isinstance(hi, t.T) else const(hi)
    return t.lift(lambda x, l, h: t.subseq(x, l, h), b, lo, hi)


def snap(C, *vals):
    """Structure and content of everything reachable from the values, as one term (identity of objects left out)."""
    I = C.I
    seen = {}

    def go(v):
        v = I.restrict(v)
        if v.op == 'ite':
            if not any(x.op in ('ref', 'tuple') for x in t.leaves(v)):
                return v
            return t.ite(v.args[0], go(v.args[1]), go(v.args[2]))
        if v.op in ('tuple',):
            return t.tup([go(x) for x in v.args])
        if v.op != 'ref':
            return v
        i = v.args[0]
        if i in seen:
            return const('object %d' % seen[i])
        seen[i] = len(seen)
        ob = I.obj(v)
        out = [const(ob.kind), t.mk('class', (ob.cls,), 'class')]
        for k in sorted((k for k in I.S.store if k[0] == i), key=lambda k: str(k[1])):
            if k[1] in ('$new', '$args') or str(k[1]).startswith('$') and k[1] != '$c':
                continue
            x = I.restrict(I.S.store[k])
            out.append(const(str(k[1])))
            if k[1] == '$c' and ob.kind == 'list':
                its = t.concrete_items(x)
                x = t.tup([const('items')] + [go(y) for y in its]) if its is not None else x
            elif k[1] == '$c' and x.op == 'dictc':
                x = t.tup([t.tup([go(p), go(q)]) for p, q in x.args])
            else:
                x = go(x)
            out.append(x)
        return t.tup(out)
    return t.tup([go(v) for v in vals])


def field_value(C, F, v):
    return C.fn('Cryptography.ECCurve:FiniteField.Value', F, v)


def new_curve(C, p, a, b):
    EC = 'Cryptography.ECCurve:'
    F = C.fn(EC + 'FiniteField', p)
    return F, C.fn(EC + 'EllipticCurve', F, a, b)


def digest(alg, x):
    n = {'sha256': 32, 'ripemd160': 20}[alg]
    return t.lift(lambda y: t.mk('digest', (alg, y, n), 'bytes'), x)


def sha256(x):
    return digest('sha256', x)


def dsha(x):
    return sha256(sha256(x))


def h160(x):
    return digest('ripemd160', sha256(x))


def text(b):
    return t.lift(t.astr, b)


def b58(x):
    """Base58 text of bytes."""
    return t.lift(lambda y: t.astr(t.mk('b58', (y,), 'bytes')), x)


def b58check(x):
    return b58(t.cat2(x, cut(dsha(x), 0, 4)))


def address_of(h):
    return b58check(t.cat2(const(b'\x17'), h))


def hexb(x):
    return t.lift(t.hexl, x)


# The published NIST P-256 / SEC2 secp256r1 parameters (p, n, a, b, gx, gy).
P256 = (0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
        0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc,
        0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
t.PRIMES.update((const(P256[0]), const(P256[1])))


def p256cell():
    return t.tup([const(x) for x in P256])


class Key(object):
    """Specification side of a private key: what the curve library derives from it on the NEO curve."""

    def __init__(self, k, cell=None, sign=None):
        self.k = k
        self.cell = cell or p256cell()
        self.pub = t.mk('fixed', ('bitcoin.pub', 65, self.cell, k), 'bytes')
        self.X, self.Y = t.be(t.subseq(self.pub, const(1), const(33))), t.be(t.subseq(self.pub, const(33), const(65)))
        # accepted by the library, and its public key is a proper point
        self.accepted = t.mk('pred', ('privkey', self.cell, k), 'bool')
        self.infinite = t.band(t.eq0(t.mod(self.X, const(P256[0]))), t.eq0(t.mod(self.Y, const(P256[0]))))
        self.valid = t.band(self.accepted, t.bnot(self.infinite))
        first = t.ite(t.eq0(t.mod(self.Y, const(2))), const(b'\x02'), const(b'\x03')) if sign is None else const(b'\x03' if sign else b'\x02')
        self.sec1 = t.cat2(first, t.subseq(self.pub, const(1), const(33)))
        self.script = t.cat2(t.cat2(const(b'\x21'), self.sec1), const(b'\xac'))
        self.hash = h160(self.script)
        self.address = address_of(self.hash)


def xorb(a, b, n):
    return t.cat([t.i2b(t.bxor(t.byte_at(a, const(i)), t.byte_at(b, const(i))), const(1)) for i in range(n)], 'bytes')


def scrypt(pw, salt):
    """scrypt with the NEP-2 cost parameters over the NFC form of the passphrase."""
    return t.mk('fixed', ('scrypt', 64, t.encode(t.mk('normalize', (const('NFC'), pw), 'str'), 'utf-8'), salt, const(16384), const(8), const(8)), 'bytes')


def aes(op, key, data):
    from ..lib import aesop
    return aesop('aes' + op, 'aesdec' if op == 'enc' else 'aesenc', const(1), key, data, True)


def nep2_of(key, pw):
    salt = cut(dsha(t.encode(key.address, 'utf-8')), 0, 4)
    d = scrypt(pw, salt)
    return b58check(t.cat([const(b'\x01\x42\xe0'), salt, aes('enc', cut(d, 32, 64), xorb(key.k, d, 32))], 'bytes'))


def curve_eq(x):
    """x^3 + a x + b modulo the field prime."""
    p, n, a, b = P256[:4]
    return t.mod(t.add(t.mul(x, t.mul(x, x)), t.add(t.mul(const(a), x), const(b))), const(p))


def lift_x(x, flag):
    """(has a point, y of the given parity) for an abscissa; p = 3 mod 4, so the candidate root is v^((p+1)/4)."""
    p = P256[0]
    v = curve_eq(x)
    z = t.powmod(v, const((p + 1) // 4), const(p))
    return (t.eq0(t.mod(t.sub(t.mul(z, z), v), const(p))),
            t.lift(lambda f, q: q, flag, t.ite(t.eq0(t.sub(t.mod(z, const(2)), flag)), z, t.sub(const(p), z))),
            t.bnot(t.eq0(z)))       # never 0: the group has odd order, so no point has y = 0


def pointview(C, P):
    """(class, domain parameters of the curve and of both coordinates, x, y) of a point object."""
    ga = C.I.getattr
    v = lambda o: ga(o, 'value')
    if any(q.op != 'ref' for q in t.leaves(C.I.restrict(P))):
        return C.I.split(P, lambda q: pointview(C, q) if q.op == 'ref' else t.tup([const('not a point'), q]))
    x, y, cv = ga(P, 'x'), ga(P, 'y'), ga(P, 'curve')
    return t.tup([cls_of(C, P), ga(ga(cv, 'field'), 'p'), v(ga(cv, 'a')), v(ga(cv, 'b')), ga(ga(x, 'field'), 'p'), ga(ga(y, 'field'), 'p'), v(x), v(y)])


def pointof(C, x, y):
    p, n, a, b = P256[:4]
    return t.tup([klass(C, 'Cryptography.ECCurve:EllipticCurve.ECPoint')] + [const(v) for v in (p, a, b, p, p)] + [x, y])


def p256ec(C):
    return C.I.getattr(C.fn('Cryptography.ECCurve:ECDSA.secp256r1'), 'ec')


def p256point(C, x, y):
    return C.meth(p256ec(C), 'point', x, y)


def cutoffs(C, path, above, cap=5000):
    """Sizes at which the code of a module may change its behaviour: every integer constant (folded) in the functions of
    the module, with its neighbours, as far as it lies above the sizes analysed anyway."""
    import ast
    import os

    def fold(n):
        if isinstance(n, ast.Constant) and type(n.value) is int:
            return n.value
        if isinstance(n, ast.BinOp):
            a, b = fold(n.left), fold(n.right)
            if a is not None and b is not None and abs(a) < 1 << 64 and 0 <= b < 1 << 64:
                if isinstance(n.op, ast.Add):
                    return a + b
                if isinstance(n.op, ast.Sub):
                    return a - b
                if isinstance(n.op, ast.Mult):
                    return a * b
                if isinstance(n.op, ast.LShift) and b < 64:
                    return a << b
                if isinstance(n.op, ast.Pow) and b < 64:
                    return a ** b
        return None
    found = set()
    with open(os.path.join(C.root, path)) as f:
        for n in ast.walk(ast.parse(f.read())):
            v = fold(n)
            if v is not None and v + 1 > above and v <= cap:
                found |= {v - 1, v, v + 1}
    return sorted(n for n in found if n > above)
