"""The hash helpers apply exactly the documented hash functions to exactly the message, in every form offered."""
from .common import *

RULE = 'result == H(message) with H the documented composition of sha256 and ripemd160, for every message'


def check(C):
    I = C.I
    m = sym('m', 'bytes')
    CR, HP = 'Cryptography.Crypto:Crypto.', 'Cryptography.Helper:'
    forms = [('bytes', lambda: m), ('bytearray', lambda: I.new_bytearray(m))]
    want = {HP + 'double_sha256': text(hexb(dsha(m))), HP + 'bin_dbl_sha256': dsha(m), HP + 'bin_hash160': text(hexb(h160(m))),
            HP + 'bin_hash160Bytes': h160(m), HP + 'redeem_to_scripthash': h160(m),
            CR + 'Hash160': text(hexb(h160(m))), CR + 'Hash160Bytes': h160(m), CR + 'Hash256': dsha(m)}
    for f, v in want.items():
        for what, mk in forms:
            C.spec('%s of %s' % (f.split(':')[1], what), f, lambda I: I.content(C.fn(f, mk())), value=v)
    # the instance forms
    for m_, v in (('Hash160', h160(m)), ('Hash256', dsha(m))):
        for how, get in (('Default()', lambda: C.fn(CR + 'Default')), ('CryptoInstance()', lambda: C.fn('Cryptography.Crypto:CryptoInstance'))):
            C.spec('%s.%s' % (how, m_), 'Cryptography.Crypto:CryptoInstance.' + m_, lambda I: I.content(C.meth(get(), m_, m)), value=v)
    # script hashes
    L = t.length(m)
    U = klass(C, 'UInt160:UInt160')
    data = obj_data(C)
    F = CR + 'ToScriptHash'
    for what, mk in forms:
        C.spec('ToScriptHash of raw %s' % what, F, lambda I: data(C.fn(F, mk(), FALSE)), value=t.tup([U, h160(m)]))
        C.spec('ToScriptHash of raw %s by keyword' % what, F, lambda I: data(C.fn(F, data=mk(), unhex=FALSE)), value=t.tup([U, h160(m)]))
        long = atleast(2, m)
        C.spec('ToScriptHash of hexadecimal %s' % what, F, lambda I: data(C.fn(F, mk())), pre=long, ok=t.ishex(m), value=t.tup([U, h160(t.unhex(m))]))
        C.spec('ToScriptHash of %s hexlified' % what, F, lambda I: data(C.fn(F, hexb(m) if what == 'bytes' else I.new_bytearray(hexb(m)))), pre=atleast(1, m),
               value=t.tup([U, h160(m)]))
        C.spec('ToScriptHash of at most one byte (%s)' % what, F, lambda I: data(C.fn(F, mk())), pre=t.bnot(long), value=t.tup([U, h160(m)]))
    C.spec('ToScriptHash of hexadecimal text', F, lambda I: data(C.fn(F, text(hexb(m)))), pre=atleast(1, m), value=t.tup([U, h160(m)]))
    # the standard single-key script
    F = HP + 'pubkey_to_redeem'
    redeem = t.cat([const(b'\x21'), m, const(b'\xac')], 'bytes')
    C.spec('pubkey_to_redeem', F, lambda I: I.content(C.fn(F, hexb(m))), value=redeem)
    C.spec('pubkey_to_redeem rejects text that is not hexadecimal', F, lambda I: I.content(C.fn(F, m)), ok=t.ishex(m),
           value=t.cat([const(b'\x21'), t.unhex(m), const(b'\xac')], 'bytes'))
    F = HP + 'pubkey_to_pubhash'
    C.spec('pubkey_to_pubhash', F, lambda I: I.content(C.fn(F, hexb(m))), value=h160(redeem))
