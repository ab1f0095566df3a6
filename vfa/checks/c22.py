"""NEP-2 import: accepts exactly well-formed keys whose decrypted key has the stored address hash, and inverts export."""
from .common import *

RULE = 'PrivateKeyFromNEP2 returns k <=> text is well-formed, k = AES-ECB^-1(d[32:], enc) ^ d[:32] and dsha(address(k))[:4] == stored salt'


def check(C):
    I = C.I
    P, E = 'KeyPair:KeyPair.PrivateKeyFromNEP2', 'KeyPair:KeyPair.ExportNEP2'
    w, pw = sym('w', 'str'), sym('pw', 'str')
    eqi = lambda a, n: t.eq0(t.sub(a, const(n)))
    d = t.mk('unb58', (w,), 'bytes')
    L = t.length(d)
    # Base58Check of 39 bytes with the NEP-2 header
    wf = t.band(eqi(t.length(w), 58), t.mk('pred', ('isb58', w), 'bool'))
    for c in (eqi(L, 43), t.eq(cut(d, 39, 43), cut(dsha(cut(d, 0, 39)), 0, 4)), t.eq(cut(d, 0, 3), const(b'\x01\x42\xe0'))):
        wf = t.band(wf, c)
    salt, enc = cut(d, 3, 7), cut(d, 7, 39)
    s = scrypt(pw, salt)
    priv = xorb(aes('dec', cut(s, 32, 64), enc), s, 32)
    C.spec('malformed text', P, lambda I: I.content(C.fn(P, w, pw)), pre=t.bnot(wf), ok=FALSE, exc=('ValueError',))
    for odd in (False, True):
        k = Key(priv, sign=odd)
        par = eqi(t.mod(k.Y, const(2)), int(odd))
        acc = t.band(k.valid, t.eq(cut(dsha(t.encode(k.address, 'utf-8')), 0, 4), salt))
        C.spec('well-formed text, y %s' % ('odd' if odd else 'even'), P, lambda I: I.content(C.fn(P, w, pw)), pre=t.band(wf, par), ok=acc, value=priv)
    C.spec('a wrong passphrase is reported as ValueError', P, lambda I: I.content(C.fn(P, w, pw)),
           pre=t.band(wf, t.band(k.valid, eqi(t.mod(k.Y, const(2)), 1))), ok=acc, exc=('ValueError',))
    for bad in (const(None), const('')):
        C.spec('import of %r' % (cval(bad),), P, lambda I: C.fn(P, bad, pw), ok=FALSE, exc=('ValueError',))
    # export, then import
    key = sym('k', 'bytes', length=32)
    for odd in (False, True):
        k = Key(key, sign=odd)
        pre = t.band(k.valid, t.band(eqi(t.mod(k.Y, const(2)), int(odd)), atleast(2, pw)))
        # 39 bytes with this header always need 58 digits
        pre = t.band(pre, eqi(t.length(nep2_of(k, pw)), 58))
        C.spec('import of an export, y %s' % ('odd' if odd else 'even'), P,
               lambda I: I.content(C.fn(P, C.meth(C.fn('KeyPair:KeyPair', key), 'ExportNEP2', pw), pw)), pre=pre, value=key)
