"""Hash values are equal exactly when they hold the same bytes, equality agrees with hashing, and nothing else equals
them; the hash follows the data when an object is deserialized in place."""
from .common import *

RULE = 'x == y <=> same bytes; x == y => hash(x) == hash(y); hash(x) depends on the current bytes alone'

SRC = '''
def eqs(x, y):
    return (x == y, y == x, not (x != y))
def itself(x):
    return (x == x, not (x != x))
def code(x):
    return (0 <= x.GetHashCode() < 2 ** 32, isinstance(hash(x), int))
def hashes(x, y):
    return (hash(x) == hash(y), x.GetHashCode() == y.GetHashCode())
def redo(x, r):
    x.Deserialize(r)
    return hash(x)
def plain(x):
    return hash(x)
def other(x, v):
    return (x == v, x != v)
'''


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec11')
    eq = 'UIntBase:UIntBase.__eq__'
    hs = 'UIntBase:UIntBase.__hash__'
    for bits in (160, 256):
        n = bits // 8
        x, y = sym('x', 'bytes', length=n), sym('y', 'bytes', length=n)
        e = t.eq(x, y)
        C.spec('UInt%d equality is equality of bytes' % bits, eq, lambda I: I.call(py('eqs'), [C.uint(bits, x), C.uint(bits, y)], {}),
               value=t.tup([e, e, e]))
        C.spec('UInt%d equals itself' % bits, eq, lambda I: I.call(py('itself'), [C.uint(bits, x)], {}), value=t.tup([TRUE, TRUE]))
        C.spec('UInt%d hash codes are unsigned 32-bit numbers' % bits, 'UIntBase:UIntBase.GetHashCode',
               lambda I: I.call(py('code'), [C.uint(bits, x)], {}), value=t.tup([TRUE, TRUE]))
        C.spec('UInt%d equal values hash alike' % bits, hs, lambda I: I.call(py('hashes'), [C.uint(bits, x), C.uint(bits, x)], {}),
               value=t.tup([TRUE, TRUE]))
        v = sym('v', 'bytes', length=52 - n)
        C.spec('UInt%d never equals the other width' % bits, eq,
               lambda I: I.call(py('eqs'), [C.uint(bits, x), C.uint(416 - bits, v)], {}), value=t.tup([FALSE] * 3))
        for what, o in (('None', const(None)), ('raw bytes', x), ('text', t.astr(t.hexl(t.rev(x)))), ('an integer', sym('i', 'int'))):
            C.spec('UInt%d never equals %s' % (bits, what), eq, lambda I: I.call(py('other'), [C.uint(bits, x), o], {}),
                   value=t.tup([FALSE, TRUE]))
        src = t.cat([y, sym('more', 'bytes')])
        fresh = C.run(lambda I: I.call(py('plain'), [C.uint(bits, y)], {}))
        if fresh.ret is None:
            C.fail('hash is defined', C.site_of(hs), 'hash() never returns')
            continue
        C.spec('UInt%d hash after Deserialize' % bits, 'UIntBase:UIntBase.Deserialize',
               lambda I: I.call(py('redo'), [C.uint(bits, x), C.reader(src)], {}), value=fresh.ret.value)
        C.spec('UInt%d hash of a value read from the wire' % bits, 'IO.BinaryReader:BinaryReader.ReadUInt%d' % bits,
               lambda I: I.call(py('plain'), [C.meth(C.reader(src), 'ReadUInt%d' % bits)], {}), value=fresh.ret.value)
