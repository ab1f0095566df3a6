"""Addresses: Base58 of 0x17, the script hash and four checksum bytes, through every entry point."""
from .common import *

RULE = 'address == b58(0x17 ++ h ++ sha256(sha256(0x17 ++ h))[:4]) for every script hash h; GetAddress uses h = hash160(0x21 ++ SEC1(pub) ++ 0xac)'


def check(C):
    I = C.I
    h = sym('h', 'bytes', length=20)
    CR, HP = 'Cryptography.Crypto:Crypto.', 'Cryptography.Helper:'
    want = address_of(h)
    for what, mk in (('bytes', lambda: h), ('bytearray', lambda: I.new_bytearray(h))):
        C.spec('scripthash_to_address of %s' % what, HP + 'scripthash_to_address', lambda I: C.fn(HP + 'scripthash_to_address', mk()), value=want)
    C.spec('Crypto.ToAddress', CR + 'ToAddress', lambda I: C.fn(CR + 'ToAddress', C.uint(160, h)), value=want)
    # the tool's converter: big-endian text with 0x, little-endian text without
    F = 'bin.cli:scripthash_to_address'
    C.spec('cli: big endian text', F, lambda I: C.fn(F, t.cat([const('0x'), text(hexb(t.rev(h)))], 'str')), value=want)
    C.spec('cli: little endian text', F, lambda I: C.fn(F, text(hexb(h))), value=want)
    C.spec('cli: UInt160.To0xString', F, lambda I: C.fn(F, C.meth(C.uint(160, h), 'To0xString')), value=want)
    # scripts: hash, then address
    m = sym('m', 'bytes')
    C.spec('address of a script', CR + 'ToAddress', lambda I: C.fn(CR + 'ToAddress', C.fn(CR + 'ToScriptHash', m, FALSE)), value=address_of(h160(m)))
    # key pairs
    k = Key(sym('k', 'bytes', length=32))
    py = C.py("def both(kp):\n    return kp.GetAddress(), kp.GetAddress()\n", 'vspec18')
    C.spec('KeyPair.GetAddress', 'KeyPair:KeyPair.GetAddress', lambda I: C.meth(C.fn('KeyPair:KeyPair', k.k), 'GetAddress'),
           pre=k.valid, value=k.address)
    C.spec('KeyPair.GetAddress twice', 'KeyPair:KeyPair.GetAddress', lambda I: I.call(py('both'), [C.fn('KeyPair:KeyPair', I.new_bytearray(k.k))], {}),
           pre=k.valid, value=t.tup([k.address, k.address]))
    C.spec('the same address from the public key', HP + 'pubkey_to_pubhash',
           lambda I: C.fn(HP + 'scripthash_to_address', C.fn(HP + 'pubkey_to_pubhash', hexb(k.sec1))), pre=k.valid, value=k.address)
