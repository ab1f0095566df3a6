"""Hash and amount values on the wire: 20, 32 and 8 byte fields written and read back unchanged, wrong types rejected."""
from .common import *

RULE = 'writer appends exactly the stored bytes (amount: 8-byte little-endian two\'s complement); reader consumes exactly the width and rejects short input; only the named type is accepted'


def check(C):
    I = C.I
    R, W = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.'
    for bits in (160, 256):
        n = bits // 8
        x = sym('x', 'bytes', length=n)
        name = 'UInt%d' % bits
        T = klass(C, '%s:%s' % (name, name))
        other = 416 - bits
        y = sym('y', 'bytes', length=other // 8)
        plain = t.bnot(t.ishex(x))
        for how in ('Write' + name, 'Serialize', 'WriteSerializableArray'):
            pre_b = OLD if how != 'WriteSerializableArray' else t.cat([OLD, const(b'\x01')])

            def d(I, how=how, bits=bits, x=x):
                st = C.stream()
                w = I.call(C.get('IO.BinaryWriter:BinaryWriter'), [st], {})
                C.meth(st, 'write', OLD)
                u = C.uint(bits, x)
                if how == 'Serialize':
                    C.meth(u, how, w)
                elif how == 'WriteSerializableArray':
                    C.meth(w, how, I.new_list([u]))
                else:
                    C.meth(w, how, u)
                return t.tup([I.content(st), I.content(I.getattr(u, 'Data'))])
            entry = W + how if how != 'Serialize' else 'UIntBase:UIntBase.Serialize'
            C.spec('%s via %s' % (name, how), entry, d, pre=plain, value=t.tup([t.cat([pre_b, x]), x]))
            # bytes that happen to spell hex text
            rule = '%s via %s, bytes that spell hex' % (name, how)
            nv = len(C.viol)
            C.spec(rule, entry, d, pre=t.ishex(x), value=t.tup([t.cat([pre_b, x]), x]))
            if len(C.viol) > nv:
                # the recorded defect is exactly: the text is stored unhexlified; anything else is another violation
                C.spec(rule + ' (other)', entry, d, pre=t.ishex(x), value=t.tup([t.cat([pre_b, t.unhex(x)]), x]))
        # only the named type
        C.spec('Write%s of the other width' % name, W + 'Write' + name,
               wr(C, 'Write' + name, lambda I, o=other, y=y: C.uint(o, y)), ok=FALSE)
        for bad in (x, const(None), sym('s', 'str'), sym('i', 'int')):
            C.spec('Write%s of another type' % name, W + 'Write' + name, wr(C, 'Write' + name, bad), ok=FALSE)
        C.spec('Read' + name, R + 'Read' + name, rd(C, 'Read' + name, conv=obj_data(C)), ok=atleast(n),
               value=t.tup([t.tup([T, cut(IN, 0, n)]), rest(n)]))

        def deser(I, bits=bits, x=x):
            st = C.stream(IN)
            r = I.call(C.get('IO.BinaryReader:BinaryReader'), [st], {})
            u = C.uint(bits, x)
            C.meth(u, 'Deserialize', r)
            return t.tup([I.content(I.getattr(u, 'Data')), C.meth(st, 'read'), I.getattr(u, 'Size')])
        C.spec('Deserialize ' + name, 'UIntBase:UIntBase.Deserialize', deser, ok=atleast(n), value=t.tup([cut(IN, 0, n), rest(n), const(n)]))
    v = sym('v', 'int')

    def fx(I):
        return C.fn('Fixed8:Fixed8', v)
    C.spec('Fixed8 size', 'Fixed8:Fixed8.Size', lambda I: C.meth(fx(I), 'Size'), value=const(8))
    for bits in (160, 256):
        z = sym('z', 'bytes', length=bits // 8)
        C.spec('UInt%d size' % bits, 'UIntBase:UIntBase.Size', lambda I: I.getattr(C.uint(bits, z), 'Size'), value=const(bits // 8))
    for unsigned in (FALSE, TRUE):
        C.spec('WriteFixed8', W + 'WriteFixed8', wr(C, 'WriteFixed8', fx, unsigned=unsigned), ok=between(v, -(1 << 63), (1 << 63) - 1),
               value=t.cat([OLD, le_bytes(v, 8, True)]))
    C.spec('ReadFixed8', R + 'ReadFixed8', rd(C, 'ReadFixed8', conv=lambda x: t.tup([cls_of(C, x), I.getattr(x, 'value')])), ok=atleast(8),
           value=t.tup([t.tup([klass(C, 'Fixed8:Fixed8'), be(IN, 0, 8, True)]), rest(8)]))


