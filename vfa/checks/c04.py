"""Lists on the wire: count prefix, then every element in order, none lost, duplicated or altered; read back the same.
List lengths are symbolic: the element loops are summarised, not unrolled."""
from .. import interp
from .common import *
from .c02 import varint_bytes

RULE = 'writer: count prefix ++ concatenation over i of element i; reader: list of exactly count elements, element i from its own slice; stream left right behind'

MODULE = 'vspec.wire.deep'

FORMS = [('short', 0, 0xfc, lambda n: t.i2b(n, const(1))),
         ('fd', 0xfd, 0xffff, lambda n: t.cat([const(b'\xfd'), le_bytes(n, 2)])),
         ('fe', 0x10000, 0xffffffff, lambda n: t.cat([const(b'\xfe'), le_bytes(n, 4)])),
         ('ff', 1 << 32, (1 << 63) - 1, lambda n: t.cat([const(b'\xff'), le_bytes(n, 8)]))]

SPEC = '''
from neocore.IO.Mixins import SerializableMixin
class Item(SerializableMixin):
    def __init__(self, a=0, b=b''):
        self.a = a
        self.b = b
    def Serialize(self, writer):
        writer.WriteUInt32(self.a)
        writer.WriteBytes(self.b, unhex=False)
    def Deserialize(self, reader):
        self.a = reader.ReadUInt32()
        self.b = reader.SafeReadBytes(5)
'''


def check(C):
    R, W = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.'
    n = sym('n', 'int', lo=0, hi=(1 << 63) - 1)
    h = t.mk('fixed', ('h', 32, t.bv(1)), 'bytes')
    tail = sym('tail', 'bytes')

    def hashes(el):
        return lambda I: I.new_list(t.lmap(n, el))
    text = t.hexl(h)
    for label, el in (('as bytes', t.encode(text, 'ascii') if text.ty == 'str' else text),
                      ('as text', text if text.ty == 'str' else t.astr(text))):
        C.spec('write hashes ' + label, W + 'WriteHashes', wr(C, 'WriteHashes', hashes(el)),
               value=t.cat([OLD, varint_bytes(n), t.cmap(n, t.rev(h))]))
        C.spec('write 2000x256 list ' + label, W + 'Write2000256List', wr(C, 'Write2000256List', hashes(el)),
               value=t.cat([OLD, t.cmap(n, t.rev(h))]))
    for form, lo, hi, enc in FORMS:
        body = sym('body', 'bytes', length=t.mul(const(32), n))
        src = t.cat([enc(n), body, tail])
        i = t.mul(const(32), t.bv(1))
        C.spec('read hashes (%s count)' % form, R + 'ReadHashes', rd(C, 'ReadHashes', src=src, conv=C.I.content), pre=between(n, lo, hi),
               value=t.tup([t.lmap(n, t.astr(t.hexl(t.rev(t.subseq(body, i, t.add(i, const(32))))))), tail]))
    data = sym('data', 'bytes', length=128000)
    i = t.mul(const(64), t.bv(1))
    el = t.subseq(data, i, t.add(i, const(64)))
    C.spec('read 2000x256 list', R + 'Read2000256List', rd(C, 'Read2000256List', src=t.cat([t.hexl(sym('d', 'bytes', length=64000)), tail]), conv=C.I.content),
           value=t.tup([t.lmap(const(2000), slice_hex()), tail]))
    arrays(C, n, tail)


def slice_hex():
    d = sym('d', 'bytes', length=64000)
    i = t.mul(const(32), t.bv(1))
    return t.encode(t.astr(t.hexl(t.rev(t.subseq(d, i, t.add(i, const(32)))))), 'utf-8')


def arrays(C, n, tail):
    W = 'IO.BinaryWriter:BinaryWriter.'
    I = C.I
    C.spec('write array: none', W + 'WriteSerializableArray', wr(C, 'WriteSerializableArray', const(None)), value=t.cat([OLD, const(b'\0')]))
    I.exec_module(MODULE, SPEC, '<spec>')
    Item = I.S.store[(('m', MODULE), 'Item')]
    deep = C.tier == 'thorough'
    cuts = [x for f in ('IO/BinaryReader.py', 'IO/BinaryWriter.py') for x in cutoffs(C, 'neocore/' + f, 3, 5000) if x not in (1999, 2000, 2001)]
    more = sorted({4, 5, 8, 16, 32, 64} | set(range(4, 40 if deep else 0)) | {x for x in cuts if x <= 1030})
    unroll, interp.UNROLL = interp.UNROLL, 3000
    try:
        for k in [0, 1, 2, 3] + more:
            C.extra = k > 3
            array_of(C, I, Item, k, tail, k <= (300 if deep else 130), k <= (150 if deep else 40))
    finally:
        interp.UNROLL = unroll
        C.extra = False


def array_of(C, I, Item, k, tail, read=True, limited=True):
    R, W = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.'
    count = const(bytes([k]) if k < 0xfd else b'\xfd' + k.to_bytes(2, 'little'))
    vals = [(sym('a%d' % j, 'int', lo=0, hi=0xffffffff), sym('b%d' % j, 'bytes')) for j in range(k)]
    mkl = lambda I: I.new_list([I.call(Item, [a, b], {}) for a, b in vals])
    C.spec('write array of %d' % k, W + 'WriteSerializableArray', wr(C, 'WriteSerializableArray', mkl),
           value=t.cat([OLD, count] + [x for a, b in vals for x in (le_bytes(a, 4), b)]))
    vals = [(sym('a%d' % j, 'int', lo=0, hi=0xffffffff), sym('c%d' % j, 'bytes', length=5)) for j in range(k)]
    src = t.cat([count] + [x for a, b in vals for x in (le_bytes(a, 4), b)] + [tail])

    def conv(x):
        l = I.content(x)
        items = t.concrete_items(l)
        if items is None:
            return l
        return t.tup([t.tup([cls_of(C, y), I.getattr(y, 'a'), I.getattr(y, 'b')]) for y in items])
    for lim in ([], [const(k)])[:limited + 1 if read else 0]:
        C.spec('read array of %d%s' % (k, ' (limit = count)' if lim else ''), R + 'ReadSerializableArray', rd(C, 'ReadSerializableArray', const(MODULE + '.Item'), *lim, src=src, conv=conv),
               value=t.tup([t.tup([t.tup([Item, a, b]) for a, b in vals]), tail]))
    if k:
        C.spec('read array of %d over the limit' % k, R + 'ReadSerializableArray', rd(C, 'ReadSerializableArray', const(MODULE + '.Item'), const(k - 1), src=src), ok=FALSE)
