"""Key pairs: the private key bytes kept, the public point and the script hash, for every buffer given to the constructor."""
from .common import *

RULE = 'accepted <=> 32 bytes the curve library takes (with a proper public point), or a 96/104-byte blob with one; PrivateKey == the last 32 bytes, PublicKey == the curve point, PublicKeyHash == hash160 of its compressed form'
K = 'KeyPair:KeyPair'


def check(C):
    I = C.I
    ga = lambda o, a: I.getattr(o, a)
    U = klass(C, 'UInt160:UInt160')
    p = const(P256[0])

    def proper(X, Y):
        """The coordinates are reduced; a reduced number is 0 modulo p exactly when it is 0."""
        r = TRUE
        for v in (X, Y):
            z, zp = t.eq0(v), t.eq0(t.mod(v, p))
            r = t.band(r, t.band(t.ge0(t.sub(const(P256[0] - 1), v)), t.ite(z, zp, t.bnot(zp))))
        return r

    def view(kp):
        return t.tup([I.content(ga(kp, 'PrivateKey')), pointview(C, ga(kp, 'PublicKey')), obj_data(C)(ga(kp, 'PublicKeyHash'))])

    def want(k, X, Y, sec1):
        return t.tup([k, pointof(C, t.mod(X, p), t.mod(Y, p)), t.tup([U, h160(sec1)])])
    # 32 bytes
    k = Key(sym('k', 'bytes', length=32))
    inrange = proper(k.X, k.Y)      # as the curve library returns them
    for what, mk in (('bytes', lambda: k.k), ('bytearray', lambda: I.new_bytearray(k.k))):
        C.spec('a key of 32 bytes (%s)' % what, K + '.__init__', lambda I: view(C.fn(K, mk())), pre=inrange, ok=k.valid, value=want(k.k, k.X, k.Y, k.sec1))
    py = C.py('''
def again(K, a, b):
    first = K(a)
    second = K(b)
    return first, second
def used(kp, pw):
    kp.Export(); kp.GetAddress(); kp.ExportNEP2(pw)
    return kp
''', 'vspec37')
    # the blobs: 8 bytes of header (in the long form), the two coordinates, the private key
    for n, skip in ((96, 0), (104, 8)):
        b = sym('b%d' % n, 'bytes', length=n)
        X, Y = t.be(cut(b, skip, skip + 32)), t.be(cut(b, skip + 32, skip + 64))
        rng = proper(X, Y)
        finite = t.bnot(t.band(t.eq0(X), t.eq0(Y)))
        first = t.ite(t.eq0(t.mod(Y, const(2))), const(b'\x02'), const(b'\x03'))
        sec1 = t.cat([first, cut(b, skip, skip + 32)], 'bytes')
        for what, mk in (('bytes', lambda: b), ('bytearray', lambda: I.new_bytearray(b))):
            C.spec('a blob of %d bytes (%s)' % (n, what), K + '.__init__', lambda I: view(C.fn(K, mk())), pre=rng, ok=finite, value=want(cut(b, n - 32, n), X, Y, sec1))
    # any other length
    x = sym('x', 'bytes')
    other = TRUE
    for n in (32, 96, 104):
        other = t.band(other, t.bnot(t.eq0(t.sub(t.length(x), const(n)))))
    for what, mk in (('bytes', lambda: x), ('bytearray', lambda: I.new_bytearray(x))):
        C.spec('%s of any other length' % what, K + '.__init__', lambda I: view(C.fn(K, mk())), pre=other, ok=FALSE)
    # key pairs do not influence each other, and using one leaves it as it is
    k2 = Key(sym('k2', 'bytes', length=32))
    in2 = proper(k2.X, k2.Y)

    def two(I):
        r = I.call(py('again'), [C.get(K), k.k, k2.k], {})
        return t.tup([view(r.args[0]), view(r.args[1])])
    C.spec('two key pairs', K + '.__init__', two, pre=t.band(t.band(inrange, k.valid), t.band(in2, k2.valid)),
           value=t.tup([want(k.k, k.X, k.Y, k.sec1), want(k2.k, k2.X, k2.Y, k2.sec1)]))
    pw = sym('pw', 'str')
    C.spec('a key pair after use', K + '.__init__', lambda I: view(I.call(py('used'), [C.fn(K, k.k), pw], {})), pre=t.band(t.band(inrange, k.valid), atleast(2, pw)),
           value=want(k.k, k.X, k.Y, k.sec1))
