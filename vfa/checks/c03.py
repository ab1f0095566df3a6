"""Strings and byte blocks travel verbatim: what the writer stores and what the reader returns is compared with the
length-prefixed, zero-padded or raw layout for every content and length."""
from .common import *
from .c02 import varint_bytes, varint_value

RULE = 'length prefix = byte length of the content; content bytes unchanged (no hex interpretation, no re-encoding); readers consume exactly prefix + content'


def check(C):
    R, W = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.'
    b, s, n, m = sym('b', 'bytes'), sym('s', 'str'), sym('n', 'int', lo=0), sym('max', 'int')
    C.spec('write VarBytes', W + 'WriteVarBytes', wr(C, 'WriteVarBytes', b), value=t.cat([OLD, varint_bytes(t.length(b)), b]),
           pre=t.ge0(t.sub(const((1 << 64) - 1), t.length(b))))
    C.spec('write VarBytes big-endian prefix', W + 'WriteVarBytes', wr(C, 'WriteVarBytes', b, endian=const('>')),
           value=t.cat([OLD, varint_bytes(t.length(b), '>'), b]), pre=t.ge0(t.sub(const((1 << 64) - 1), t.length(b))))
    C.spec('write VarBytes of a bytearray', W + 'WriteVarBytes', wr(C, 'WriteVarBytes', lambda I: I.new_bytearray(b)),
           value=t.cat([OLD, varint_bytes(t.length(b)), b]), pre=t.ge0(t.sub(const((1 << 64) - 1), t.length(b))))
    C.spec('write VarString of bytes', W + 'WriteVarString', wr(C, 'WriteVarString', b), value=t.cat([OLD, varint_bytes(t.length(b)), b]),
           pre=t.ge0(t.sub(const((1 << 64) - 1), t.length(b))))
    for enc in (None, 'utf-8', 'utf-16', 'ascii', 'latin-1'):
        kw = {} if enc is None else {'encoding': const(enc)}

        def ref(I, enc=enc):
            e = I.call(I.getattr(s, 'encode'), [const(enc or 'utf-8')], {})
            return t.cat([OLD, varint_bytes(t.length(e)), e])
        r = C.run(ref)
        e = r.ret.value
        fits = t.ge0(t.sub(const((1 << 64) - 1), t.length(t.encode(s, enc or 'utf-8'))))
        C.spec('write VarString (%s)' % enc, W + 'WriteVarString', wr(C, 'WriteVarString', s, **kw), ok=r.ok, value=e, pre=fits)
    C.spec('write raw bytes', W + 'WriteBytes', wr(C, 'WriteBytes', b, unhex=FALSE, ret=True), value=t.tup([t.length(b), t.cat([OLD, b])]))
    # fixed strings
    e = t.encode(s, 'utf-8')
    L = t.length(e)
    C.spec('write FixedString', W + 'WriteFixedString', wr(C, 'WriteFixedString', s, n), ok=t.ge0(t.sub(n, L)),
           value=t.cat([OLD, e, t.rep(const(b'\x00'), t.sub(n, L))]))
    C.spec('read FixedString', R + 'ReadFixedString', rd(C, 'ReadFixedString', n), pre=atleast(n),
           value=lambda o: t.tup([strip_nul(C, cut(IN, const(0), n)), rest(n)]))
    C.spec('read Bytes', R + 'ReadBytes', rd(C, 'ReadBytes', n), pre=atleast(n), value=t.tup([cut(IN, 0, n), rest(n)]))
    C.spec('read exact Bytes', R + 'SafeReadBytes', rd(C, 'SafeReadBytes', n), ok=atleast(n), value=t.tup([cut(IN, 0, n), rest(n)]), exc=('ValueError',))
    # variable readers
    val, used, done = varint_value()
    full = t.band(done, t.ge0(t.sub(LEN, t.add(used, val))))
    body = t.tup([cut(IN, used, t.add(used, val)), rest(t.add(used, val))])
    small = t.ge0(t.sub(const((1 << 63) - 1), val))
    for lim, args in (('no limit', []), ('limit', [m])):
        inside = small if not args else t.ge0(t.sub(m, val))
        C.spec('read VarBytes, complete input, ' + lim, R + 'ReadVarBytes', rd(C, 'ReadVarBytes', *args), pre=t.band(t.band(atleast(1), full), t.ge0(m)),
               ok=inside, value=body)
        C.spec('read VarString, ' + lim, R + 'ReadVarString', rd(C, 'ReadVarString', *args), pre=t.band(atleast(1), t.ge0(m)),
               ok=t.band(full, inside), value=body)
    k = t.byte_at(IN, const(0))
    C.spec('read String', R + 'ReadString', rd(C, 'ReadString'), ok=t.band(atleast(1), t.ge0(t.sub(LEN, t.add(k, const(1))))),
           value=t.tup([cut(IN, 1, t.add(k, const(1))), rest(t.add(k, const(1)))]))


def strip_nul(C, b):
    return C.I.call(C.I.getattr(b, 'rstrip'), [const(b'\x00')], {})
