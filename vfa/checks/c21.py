"""NEP-2 export: header, address hash, AES-ECB of the key xored with the first half of scrypt, keyed by the second half."""
from .common import *

RULE = 'ExportNEP2 == b58check(01 42 e0 ++ salt ++ AES-ECB(d[32:64], key ^ d[:32])), salt = dsha(address)[:4], d = scrypt(NFC(passphrase), salt, 16384, 8, 8, 64)'


def check(C):
    I = C.I
    k = Key(sym('k', 'bytes', length=32))
    pw = sym('pw', 'str')
    E = 'KeyPair:KeyPair.ExportNEP2'
    for odd in (False, True):
        pre = t.band(k.valid, t.eq0(t.sub(t.mod(k.Y, const(2)), const(int(odd)))))
        for what, mk in (('bytes', lambda: k.k), ('bytearray', lambda: I.new_bytearray(k.k))):
            kk = Key(k.k, sign=odd)
            C.spec('export of a key given as %s, y %s' % (what, 'odd' if odd else 'even'), E, lambda I: C.meth(C.fn('KeyPair:KeyPair', mk()), 'ExportNEP2', pw),
                   pre=pre, ok=atleast(2, pw), value=nep2_of(kk, pw), exc=('ValueError',))
    py = C.py("def twice(kp, a, b):\n    kp.ExportNEP2(a)\n    x = kp.ExportNEP2(b)\n    return x, bytes(kp.PrivateKey)\n", 'vspec21')
    kk = Key(k.k, sign=False)
    p2 = sym('pw2', 'str')
    pre = t.band(k.valid, t.band(t.eq0(t.mod(k.Y, const(2))), t.band(atleast(2, pw), atleast(2, p2))))
    C.spec('a later export uses its own passphrase', E, lambda I: I.call(py('twice'), [C.fn('KeyPair:KeyPair', k.k), pw, p2], {}),
           pre=pre, value=t.tup([nep2_of(kk, p2), k.k]))
