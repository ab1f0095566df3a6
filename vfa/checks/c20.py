"""WIF: export is the checksummed Base58 of 0x80 ++ key ++ 0x01; import accepts exactly that and returns the key."""
from .common import *

RULE = 'Export == b58check(0x80 ++ k ++ 01); PrivateKeyFromWIF accepts <=> 52 chars, 38 bytes, prefix, suffix, checksum; result == bytes 1..33'


def check(C):
    I = C.I
    k = Key(sym('k', 'bytes', length=32))
    body = t.cat([const(b'\x80'), k.k, const(b'\x01')], 'bytes')
    wif = b58check(body)
    X, P = 'KeyPair:KeyPair.Export', 'KeyPair:KeyPair.PrivateKeyFromWIF'
    for what, mk in (('bytes', lambda: k.k), ('bytearray', lambda: I.new_bytearray(k.k))):
        C.spec('Export of a key given as %s' % what, X, lambda I: C.meth(C.fn('KeyPair:KeyPair', mk()), 'Export'), pre=k.valid, value=wif)
    py = C.py("def twice(kp):\n    a = kp.Export()\n    kp.GetAddress()\n    return a, kp.Export(), bytes(kp.PrivateKey)\n", 'vspec20')
    C.spec('Export is repeatable', X, lambda I: I.call(py('twice'), [C.fn('KeyPair:KeyPair', k.k)], {}), pre=k.valid, value=t.tup([wif, wif, k.k]))
    # import of any text
    w = sym('w', 'str')
    d = t.mk('unb58', (w,), 'bytes')
    eqi = lambda a, n: t.eq0(t.sub(a, const(n)))
    wf = t.band(eqi(t.length(w), 52), t.mk('pred', ('isb58', w), 'bool'))
    for c in (eqi(t.length(d), 38), eqi(t.byte_at(d, const(0)), 0x80), eqi(t.byte_at(d, const(33)), 1), t.eq(cut(d, 34, 38), cut(dsha(cut(d, 0, 34)), 0, 4))):
        wf = t.band(wf, c)
    C.spec('import of any text', P, lambda I: I.content(C.fn(P, w)), ok=wf, value=cut(d, 1, 33), exc=('ValueError',))
    C.spec('import of None', P, lambda I: C.fn(P, const(None)), ok=FALSE, exc=('ValueError',))
    # 38 bytes beginning with 0x80 always need 52 digits
    ax = eqi(t.length(wif), 52)
    C.spec('import of an export', P, lambda I: I.content(C.fn(P, C.meth(C.fn('KeyPair:KeyPair', k.k), 'Export'))), pre=t.band(k.valid, ax), value=k.k)
    x = sym('x', 'bytes')
    tx = b58(x)
    good = t.band(eqi(t.length(x), 38), eqi(t.length(tx), 52))
    for c in (eqi(t.byte_at(x, const(0)), 0x80), eqi(t.byte_at(x, const(33)), 1), t.eq(cut(x, 34, 38), cut(dsha(cut(x, 0, 34)), 0, 4))):
        good = t.band(good, c)
    C.spec('import of the encoding of any bytes', P, lambda I: I.content(C.fn(P, tx)), ok=good, value=cut(x, 1, 33), exc=('ValueError',))
    C.spec('the imported key makes the same key pair', P,
           lambda I: C.meth(C.fn('KeyPair:KeyPair', C.fn(P, C.meth(C.fn('KeyPair:KeyPair', k.k), 'Export'))), 'GetAddress'),
           pre=t.band(k.valid, ax), value=k.address)
