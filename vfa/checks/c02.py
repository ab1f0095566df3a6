"""Variable-length integers: the writer emits the shortest of the four forms, the reader decodes all four forms and
enforces its limit; both are compared with the wire format for every value, limit and stream."""
from .common import *

RULE = 'writer: exact bytes per value range, error outside 0..2^64-1; reader: exact value and consumption per marker byte, limit enforced, truncation rejected'


def varint_bytes(v, endian='<'):
    def form(mark, n):
        return t.cat([const(bytes([mark])), le_bytes(v, n, endian=endian)])
    lt = lambda k: t.ge0(t.sub(const(k - 1), v))
    return t.ite(lt(0xfd), t.i2b(v, const(1)),
                 t.ite(lt(1 << 16), form(0xfd, 2), t.ite(lt(1 << 32), form(0xfe, 4), form(0xff, 8))))


def varint_value(b=IN):
    """(value, bytes consumed, complete) of the varint at the start of b (non-empty)."""
    fb = t.byte_at(b, const(0))
    eq = lambda k: t.eq0(t.sub(fb, const(k)))
    L = t.length(b)
    val = t.ite(eq(0xfd), be(b, 1, 2), t.ite(eq(0xfe), be(b, 1, 4), t.ite(eq(0xff), be(b, 1, 8), fb)))
    used = t.ite(eq(0xfd), const(3), t.ite(eq(0xfe), const(5), t.ite(eq(0xff), const(9), const(1))))
    done = t.ge0(t.sub(L, used))
    return val, used, done


def check(C):
    v, m = sym('v', 'int'), sym('max', 'int')
    R, W = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.'
    for endian in (None, '<', '>'):
        kw = {} if endian is None else {'endian': const(endian)}
        C.spec('write VarInt %s' % endian, W + 'WriteVarInt', wr(C, 'WriteVarInt', v, **kw), ok=between(v, 0, (1 << 64) - 1),
               value=t.cat([OLD, varint_bytes(v, endian or '<')]))
    val, used, done = varint_value()
    for label, args, kw, lim in (('limit', [m], {}, m), ('limit by name', [], {'max': m}, m), ('no limit', [], {}, const((1 << 63) - 1))):
        C.spec('read VarInt, %s' % label, R + 'ReadVarInt', rd(C, 'ReadVarInt', *args, **kw), pre=t.band(atleast(1), t.ge0(m)),
               ok=t.band(done, t.ge0(t.sub(lim, val))), value=t.tup([val, rest(used)]))
    for bad in (sym('s', 'str'), sym('f', 'float'), sym('y', 'bytes'), const(None)):
        C.spec('write VarInt of a non-integer', W + 'WriteVarInt', wr(C, 'WriteVarInt', bad), ok=FALSE, exc=('TypeError',))
