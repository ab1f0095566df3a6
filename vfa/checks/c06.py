"""Short input is rejected: for every typed read, and for every way the input can end too early, the reader raises
instead of inventing, padding or shortening a value; enough input never fails for lack of data."""
from .common import *
from .c02 import varint_value

RULE = 'typed read returns <=> the announced number of bytes is present; on short input no value escapes'

WIDTH = [('Int8', 1), ('UInt8', 1), ('Int16', 2), ('UInt16', 2), ('Int32', 4), ('UInt32', 4), ('Int64', 8), ('UInt64', 8),
         ('Bool', 1), ('Char', 1), ('Float', 4), ('Double', 8), ('UInt160', 20), ('UInt256', 32), ('Fixed8', 8)]


def check(C):
    R = 'IO.BinaryReader:BinaryReader.'
    n = sym('n', 'int', lo=0)
    for label, kw in (('', {}), (' as a number', {'do_ord': t.TRUE})):
        C.spec('ReadByte%s of an exhausted stream' % label, R + 'ReadByte', rd(C, 'ReadByte', src=const(b''), **kw), value=t.tup([const(0), const(b'')]))
    C.spec('ReadByte as bytes of an exhausted stream', R + 'ReadByte', rd(C, 'ReadByte', src=const(b''), do_ord=t.FALSE), value=t.tup([const(b''), const(b'')]))
    for k in range(0, 4):
        some = sym('d%d' % k, 'bytes', length=k)
        C.spec('ReadBytes past the end of %d bytes' % k, R + 'ReadBytes', rd(C, 'ReadBytes', const(k + 1), src=some), value=t.tup([some, const(b'')]))
    for name, w in WIDTH:
        C.spec('Read' + name, R + 'Read' + name, rd(C, 'Read' + name), ok=atleast(w), exc=('Exception',))
    C.spec('SafeReadBytes', R + 'SafeReadBytes', rd(C, 'SafeReadBytes', n), ok=atleast(n), exc=('ValueError',))
    val, used, done = varint_value()
    big = const((1 << 63) - 1)
    C.spec('ReadVarInt', R + 'ReadVarInt', rd(C, 'ReadVarInt'), pre=atleast(1), ok=t.band(done, t.ge0(t.sub(big, val))), exc=('Exception',))
    full = t.band(done, t.ge0(t.sub(LEN, t.add(used, val))))
    C.spec('ReadVarString', R + 'ReadVarString', rd(C, 'ReadVarString'), pre=atleast(1), ok=t.band(full, t.ge0(t.sub(big, val))), exc=('Exception',))
    k = t.byte_at(IN, const(0))
    C.spec('ReadString', R + 'ReadString', rd(C, 'ReadString'), ok=t.band(atleast(1), t.ge0(t.sub(LEN, t.add(k, const(1))))), exc=('Exception',))
    for fmt, w in (('<H', 2), ('>I', 4), ('<q', 8), ('<d', 8)):
        C.spec('unpack %s' % fmt, R + 'unpack', rd(C, 'unpack', const(fmt), const(w)), ok=atleast(w), exc=('Exception',))
    for bits in (160, 256):
        w = bits // 8

        def deser(I, bits=bits):
            st = C.stream(IN)
            r = I.call(C.get('IO.BinaryReader:BinaryReader'), [st], {})
            u = C.fn('UInt%d:UInt%d' % (bits, bits))
            C.meth(u, 'Deserialize', r)
            return const(None)
        C.spec('Deserialize UInt%d' % bits, 'UIntBase:UIntBase.Deserialize', deser, ok=atleast(w), exc=('Exception',))
    lst = C.py('def part(b, k): return [b[32 * i:32 * i + 32][::-1].hex() for i in range(k)]\n', 'vlist06')
    # lists of hashes: a list that announces more than the stream holds has no value
    for k in (1, 2, 3):
        C.spec('ReadHashes of a truncated list', R + 'ReadHashes', rd(C, 'ReadHashes', src=t.cat([const(bytes([k])), IN]), conv=C.I.content),
               pre=t.bnot(atleast(32 * k)), ok=FALSE, exc=('Exception',))
        C.spec('bytes of a truncated list of hashes', R + 'ReadHashes',
               lambda I, k=k: I.content(C.meth(I.call(C.get('IO.BinaryReader:BinaryReader'), [C.stream(t.cat([const(bytes([k])), IN]))], {}), 'ReadHashes')),
               pre=t.bnot(atleast(32 * k)), ok=None, value=C.run(lambda I: I.content(I.call(lst('part'), [IN, const(k)], {}))).ret.value)
    C.spec('Read2000256List', R + 'Read2000256List', rd(C, 'Read2000256List', conv=C.I.content), pre=t.bnot(atleast(128000)), ok=FALSE, exc=('Exception',))
    # arrays: the elements read in full, and nothing for the one the stream ends in
    for bits, w in ((160, 20), (256, 32)):
        for k in (1, 2, 3):
            have = [sym('e%d_%d' % (bits, j), 'bytes', length=w) for j in range(k - 1)]
            part = sym('part%d' % bits, 'bytes')

            def arr(I, bits=bits, k=k, have=have, part=part):
                r = I.call(C.get('IO.BinaryReader:BinaryReader'), [C.stream(t.cat([const(bytes([k]))] + have + [part]))], {})
                l = I.content(C.meth(r, 'ReadSerializableArray', const('neocore.UInt%d.UInt%d' % (bits, bits))))
                items = t.concrete_items(l)
                return l if items is None else t.tup([obj_data(C)(y) for y in items])
            C.spec('array of %d-bit hashes that ends within element %d' % (bits, k), R + 'ReadSerializableArray', arr,
                   pre=t.bnot(t.ge0(t.sub(t.length(part), const(w)))), ok=None, value=t.tup([t.tup([klass(C, 'UInt%d:UInt%d' % (bits, bits)), h]) for h in have]))
    # compressed public keys in a stream: 33 bytes, or the single zero byte
    dec = C.get('Cryptography.ECCurve:ECDSA.Deserialize_Secp256r1')
    first = t.byte_at(IN, const(0))
    py = C.py('''
from neocore.IO.BinaryReader import BinaryReader
from neocore.Cryptography.ECCurve import ECDSA
def key(st):
    ECDSA.Deserialize_Secp256r1(BinaryReader(st))
    return 0
''', 'vspec06')
    C.spec('public key from a stream, first byte missing', 'Cryptography.ECCurve:EllipticCurve.decode_from_reader',
           lambda I: I.call(py('key'), [C.stream(const(b''))], {}), ok=FALSE, exc=('Exception',))
    short = t.band(t.band(atleast(1), t.bnot(t.eq0(first))), t.bnot(atleast(33)))
    C.spec('public key from a stream, too short', 'Cryptography.ECCurve:EllipticCurve.decode_from_reader',
           lambda I: I.call(py('key'), [C.stream(IN)], {}), pre=short, ok=FALSE, exc=('Exception',))
