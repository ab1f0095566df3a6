"""Operations leave their operands and arguments as they were: everything reachable from them in the abstract heap is
compared before and after each public operation."""
from .common import *

RULE = 'heap reachable from the operands and arguments is the same term before and after the call'

F8 = ['x + y', 'x - y', 'x * y', 'x / y', 'x // y', 'x % y', 'x ** x.__class__(3)', '-x', 'z = x; z += y', 'z = x; z -= y', 'z = x; z *= y',
      'z = x; z /= y', 'z = x; z %= y', 'x == y', 'x < y', 'x > y', 'x <= y', 'x >= y', 'x.Ceil()', 'x.Floor()', 'x.ToInt()',
      'x.ToString()', 'x.ToNeoJsonString()', 'str(x)', 'x.GetData()', 'x.Size()']
UINT = ['x.ToString()', 'x.ToString2()', 'x.To0xString()', 'str(x)', 'x.ToBytes()', 'x < y', 'x > y', 'x <= y', 'x >= y',
        'x.CompareTo(y)', 'x == y', 'hash(x)', 'x.GetHashCode()', 'x.Size', 'x.ToArray()']
FIELD = ['x + y', 'x - y', 'x * y', '-x', 'x == y', 'x != y', 'z = x; z += y']
POINT = ['-x', 'x == y', 'x != y', 'x < y', 'x > y', 'x <= y', 'x >= y', 'x.encode_point(True)', 'x.encode_point(False)', 'x.Size()',
         'x.IsInfinity', 'x.ToString()', 'x.ToBytes()']
OPS = sorted(set(F8 + UINT + FIELD + POINT))
SRC = ''.join('def op%d(x, y):\n    %s\n' % (i, o) for i, o in enumerate(OPS))


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec16')

    def keep(rule, entry, make, call):
        """make() builds the arguments, call(*args) runs the operation."""
        r0 = C.run(lambda I: snap(C, *make()))
        if r0.ret is None:
            C.fail(rule, C.site_of(entry), 'the arguments cannot be built')
            return

        def d(I):
            a = make()
            call(*a)
            return snap(C, *a)
        C.spec(rule, entry, d, ok=None, value=r0.ret.value)

    x, y = sym('x', 'int'), sym('y', 'int')
    F = lambda v: C.fn('Fixed8:Fixed8', v)
    def op(how):
        return lambda a, b: I.call(py('op%d' % OPS.index(how)), [a, b], {})
    for how in F8:
        keep('amount: %s' % how, 'Fixed8:Fixed8', lambda: (F(x), F(y)), op(how))
    keep('writing an amount keeps it', 'IO.BinaryWriter:BinaryWriter.WriteFixed8', lambda: (F(x),),
         lambda a: C.meth(I.call(C.get('IO.BinaryWriter:BinaryWriter'), [C.stream()], {}), 'WriteFixed8', a))

    def writer():
        return I.call(C.get('IO.BinaryWriter:BinaryWriter'), [C.stream()], {})
    for bits in (160, 256):
        n = bits // 8
        a, b = sym('a', 'bytes', length=n), sym('b', 'bytes', length=n)
        mk = lambda: (C.uint(bits, a), C.uint(bits, b))
        for how in UINT:
            keep('UInt%d: %s' % (bits, how), 'UIntBase:UIntBase', mk, op(how))
        keep('UInt%d serialization keeps it' % bits, 'UIntBase:UIntBase.Serialize', lambda: (C.uint(bits, a),),
             lambda u: C.meth(u, 'Serialize', writer()))
        keep('UInt%d writing keeps it' % bits, 'IO.BinaryWriter:BinaryWriter.WriteUInt%d' % bits, lambda: (C.uint(bits, a),),
             lambda u: C.meth(writer(), 'WriteUInt%d' % bits, u))
        keep('UInt%d from a bytearray keeps it' % bits, 'UIntBase:UIntBase.__init__', lambda: (I.new_bytearray(a),),
             lambda u: C.fn('UInt%d:UInt%d' % (bits, bits), u))
    # writers and caller-supplied buffers and lists
    data = sym('data', 'bytes')
    for m in ('WriteBytes', 'WriteVarBytes', 'WriteVarString'):
        keep('%s keeps the buffer' % m, 'IO.BinaryWriter:BinaryWriter.' + m, lambda: (I.new_bytearray(data),),
             lambda u: C.meth(writer(), m, u))
    h = [sym('h%d' % i, 'bytes', length=32) for i in range(3)]
    texts = lambda: (I.new_list([t.astr(t.hexl(v)) for v in h]),)
    bufs = lambda: (I.new_list([I.new_bytearray(t.hexl(v)) for v in h]),)
    raw = [sym('raw%d' % i, 'bytes', length=64) for i in range(2)]
    raws = lambda: (I.new_list([I.new_bytearray(v) for v in raw]),)
    for m in ('WriteHashes', 'Write2000256List'):
        for what, mk in (('texts', texts), ('buffers', bufs), ('buffers of any content', raws)):
            keep('%s keeps a list of %s' % (m, what), 'IO.BinaryWriter:BinaryWriter.' + m, mk, lambda l: C.meth(writer(), m, l))
    hs = lambda: (I.new_list([C.uint(256, v) for v in h]),)
    keep('WriteSerializableArray keeps the list and its elements', 'IO.BinaryWriter:BinaryWriter.WriteSerializableArray', hs,
         lambda l: C.meth(writer(), 'WriteSerializableArray', l))
    # hashing and addresses
    CR, HP = 'Cryptography.Crypto:Crypto.', 'Cryptography.Helper:'
    buf = lambda: (I.new_bytearray(data),)
    for f in (CR + 'Hash160', CR + 'Hash160Bytes', CR + 'Hash256', HP + 'double_sha256', HP + 'bin_dbl_sha256', HP + 'bin_hash160',
              HP + 'bin_hash160Bytes', HP + 'redeem_to_scripthash'):
        keep('%s keeps the buffer' % f.split(':')[1], f, buf, lambda u: C.fn(f, u))
    for unhex in (TRUE, FALSE):
        keep('ToScriptHash keeps the buffer', CR + 'ToScriptHash', buf, lambda u: C.fn(CR + 'ToScriptHash', u, unhex))
    s20 = sym('s', 'bytes', length=20)
    keep('ToAddress keeps the script hash', CR + 'ToAddress', lambda: (C.uint(160, s20),), lambda u: C.fn(CR + 'ToAddress', u))
    keep('scripthash_to_address keeps the buffer', HP + 'scripthash_to_address', lambda: (I.new_bytearray(s20),),
         lambda u: C.fn(HP + 'scripthash_to_address', u))
    k32 = sym('k', 'bytes', length=32)
    keep('key pairs keep the key buffer', 'KeyPair:KeyPair.__init__', lambda: (I.new_bytearray(k32),), lambda u: C.fn('KeyPair:KeyPair', u))
    pw = sym('pw', 'str')

    def pair():
        return (C.fn('KeyPair:KeyPair', k32),)
    for m, args in (('GetAddress', ()), ('Export', ()), ('ExportNEP2', (pw,))):
        keep('%s keeps the key pair' % m, 'KeyPair:KeyPair.' + m, pair, lambda kp: C.meth(kp, m, *args))
    sig = sym('sig', 'bytes')
    keep('Sign keeps the message', CR + 'Sign', lambda: (I.new_bytearray(t.hexl(data)),), lambda m: C.fn(CR + 'Sign', m, t.astr(t.hexl(k32))))
    for n in (33, 64):
        pk = sym('pk%d' % n, 'bytes', length=n)
        keep('VerifySignature keeps message, signature and key', CR + 'VerifySignature',
             lambda: (I.new_bytearray(t.hexl(data)), I.new_bytearray(sig), I.new_bytearray(pk)),
             lambda m, s, p: C.fn(CR + 'VerifySignature', m, s, p))
    # trees
    MT = 'Cryptography.MerkleTree:MerkleTree.'
    for n in (1, 2, 3):
        hl = lambda: (I.new_list([C.uint(256, v) for v in h[:n]]),)
        keep('ComputeRoot keeps the list of %d hashes' % n, MT + 'ComputeRoot', hl, lambda l: C.fn(MT + 'ComputeRoot', l))
        keep('building a tree of %d keeps the list' % n, MT + '__init__', hl, lambda l: C.fn('Cryptography.MerkleTree:MerkleTree', l))
    flags = sym('flags', 'bytes', length=3)
    keep('Trim keeps the flags', MT + 'Trim', lambda: (I.new_bytearray(flags),),
         lambda f: C.meth(C.fn('Cryptography.MerkleTree:MerkleTree', I.new_list([C.uint(256, v) for v in h])), 'Trim', f))
    # field values and points
    p = sym('p', 'int', lo=3)
    u, v, w, z = (sym(n, 'int', lo=0) for n in 'uvwz')
    EC = 'Cryptography.ECCurve:'

    def vals():
        fl = C.fn(EC + 'FiniteField', p)
        return field_value(C, fl, u), field_value(C, fl, v)
    for how in FIELD:
        keep('field: %s' % how, EC + 'FiniteField', vals, op(how))

    def pts():
        fl, cv = new_curve(C, p, const(3), const(5))
        return C.meth(cv, 'point', u, v), C.meth(cv, 'point', w, z)
    for how in POINT:
        keep('point: %s' % how, EC + 'EllipticCurve', pts, op(how))
