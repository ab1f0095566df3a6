"""Fixed-width primitives: every reader/writer pair is compared with the layout it has to implement, for all
stream contents, all values and both byte orders."""
from .. import terms as t
from ..terms import const, sym
from .common import *

RULE = ('for every primitive: the reader returns exactly when enough bytes are left, with the value of the layout, and '
        'consumes exactly the width; the writer returns exactly for values in range and appends exactly the layout')

INTS = [('Int8', 1, True), ('UInt8', 1, False), ('Int16', 2, True), ('UInt16', 2, False),
        ('Int32', 4, True), ('UInt32', 4, False), ('Int64', 8, True), ('UInt64', 8, False)]


def check(C):
    v, f, bb = sym('v', 'int'), sym('f', 'float'), sym('b', 'bool')
    R, W = 'IO.BinaryReader:BinaryReader.Read', 'IO.BinaryWriter:BinaryWriter.Write'
    for name, n, signed in INTS:
        for endian in (None, '<', '>'):
            kw = {} if endian is None else {'endian': const(endian)}
            e = endian or '<'
            C.spec('read %s %s' % (name, endian), R + name, rd(C, 'Read' + name, **kw),
                   ok=atleast(n), value=t.tup([be(IN, 0, n, signed, e), rest(n)]))
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
            C.spec('write %s %s' % (name, endian), W + name, wr(C, 'Write' + name, v, ret=True, **kw),
                   ok=between(v, lo, hi), value=t.tup([const(n), t.cat([OLD, le_bytes(v, n, signed, e)])]))
    one = t.subseq(IN, const(0), const(1))
    C.spec('read Bool', R + 'Bool', rd(C, 'ReadBool'), ok=atleast(1),
           value=t.tup([t.bnot(t.eq0(t.byte_at(IN, const(0)))), rest(1)]))
    C.spec('write Bool', W + 'Bool', wr(C, 'WriteBool', v),
           value=t.cat([OLD, t.ite(t.eq0(v), const(b'\x00'), const(b'\x01'))]))
    C.spec('read Char', R + 'Char', rd(C, 'ReadChar'), ok=atleast(1), value=t.tup([one, rest(1)]))
    b = sym('c', 'bytes')
    C.spec('write Char', W + 'Char', wr(C, 'WriteChar', b), ok=t.eq0(t.sub(t.length(b), const(1))),
           value=t.cat([OLD, b]))
    C.spec('read Byte', R + 'Byte', rd(C, 'ReadByte'), pre=atleast(1), value=t.tup([t.byte_at(IN, const(0)), rest(1)]))
    C.spec('read Byte raw', R + 'Byte', rd(C, 'ReadByte', do_ord=t.FALSE), pre=atleast(1), value=t.tup([one, rest(1)]))
    C.spec('write Byte', W + 'Byte', wr(C, 'WriteByte', v), ok=between(v, 0, 255),
           value=t.cat([OLD, t.i2b(v, const(1))]))
    one = sym('o', 'bytes', length=1)
    C.spec('write Byte of bytes', W + 'Byte', wr(C, 'WriteByte', one), value=t.cat([OLD, one]))
    ch = sym('ch', 'str', lo=0)
    C.spec('write Byte of text', W + 'Byte', wr(C, 'WriteByte', ch), value=t.cat([OLD, t.encode(ch, 'utf-8')]))
    for name, n in (('Float', 4), ('Double', 8)):
        for endian in (None, '<', '>'):
            kw = {} if endian is None else {'endian': const(endian)}
            e = endian or '<'
            flip = (lambda x: x) if e == '<' else t.rev
            C.spec('read %s %s' % (name, endian), R + name, rd(C, 'Read' + name, **kw), ok=atleast(n),
                   value=t.tup([t.app('funpack', flip(t.subseq(IN, const(0), const(n))), const(n), ty='float'), rest(n)]))
            C.spec('write %s %s' % (name, endian), W + name, wr(C, 'Write' + name, f, **kw),
                   ok=TRUE,
                   value=t.cat([OLD, flip(t.mk('fpack', (f, n), 'bytes'))]))
