"""Hash values have a fixed width and own their bytes: constructors accept exactly the right data, copies are private."""
from .common import *

RULE = 'constructor returns <=> data is absent or bytes/bytearray of the exact width; the stored bytes equal the input and share no storage with it or with another value'

SRC = '''
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
def cls(bits):
    return UInt160 if bits == 160 else UInt256
def later(bits, b, i, v):
    u = cls(bits)(data=b)
    before = bytes(u.Data)
    b[i] = v
    b.reverse()
    b.extend(b'xyz')
    return (bytes(u.Data) == before, bytes(u.Data), len(u.Data), u.Size)
def twins(bits):
    a = cls(bits)()
    b = cls(bits)()
    a.Data[0] = 7
    return (bytes(b.Data), bytes(cls(bits)().Data), bytes(cls(bits).Data))
def pair(bits, data):
    a = cls(bits)(data=data)
    b = cls(bits)(data=data)
    a.Data[3] = 255
    return bytes(b.Data)
'''


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec08')
    other = sym('s', 'str')
    for bits in (160, 256):
        n = bits // 8
        name = 'UInt%d' % bits
        entry = '%s:%s.__init__' % (name, name)
        path = '%s:%s' % (name, name)
        b = sym('b', 'bytes')
        right = t.eq0(t.sub(t.length(b), const(n)))
        for label, mk in (('bytes', lambda I: b), ('bytearray', lambda I: I.new_bytearray(b))):
            for kw in (True, False):
                def d(I, mk=mk, kw=kw):
                    v = mk(I)
                    u = C.fn(path, data=v) if kw else C.fn(path, v)
                    return t.tup([cls_of(C, u), I.content(I.getattr(u, 'Data')), cls_of(C, I.getattr(u, 'Data')), I.getattr(u, 'Size')])
                C.spec('%s from %s' % (name, label), entry, d, ok=right,
                       value=t.tup([klass(C, path), b, cls_ba(C), const(n)]))
        zero = const(bytes(n))
        for label, args in (('nothing', []), ('None', [const(None)])):
            C.spec('%s from %s' % (name, label), entry, lambda I, args=args: I.content(I.getattr(C.fn(path, *args), 'Data')), value=zero)
        for bad in (sym('s', 'str'), sym('i', 'int'), sym('f', 'float'), t.tup([const(0)] * n)):
            C.spec('%s from a %s' % (name, bad.ty), entry, lambda I, bad=bad: C.fn(path, bad), ok=FALSE)
        C.spec('%s from a list' % name, entry, lambda I: C.fn(path, I.new_list([const(0)] * n)), ok=FALSE)
        x = sym('x', 'bytes', length=n)
        C.spec('%s keeps its bytes when the source changes' % name, entry,
               lambda I: I.call(py('later'), [const(bits), I.new_bytearray(x), sym('at', 'int', lo=0, hi=n - 1), sym('v', 'int', lo=0, hi=255)], {}),
               value=t.tup([TRUE, x, const(n), const(n)]))
        C.spec('%s values do not share storage' % name, entry, lambda I: I.call(py('twins'), [const(bits)], {}),
               value=t.tup([zero, zero, const(b'')]))
        for label, mk in (('bytes', lambda I: x), ('bytearray', lambda I: I.new_bytearray(x))):
            C.spec('%s values from one %s do not share storage' % (name, label), entry,
                   lambda I, mk=mk: I.call(py('pair'), [const(bits), mk(I)], {}), value=x)


def cls_ba(C):
    from .. import prog
    return t.mk('class', (prog.bclass(bytearray),), 'class')
