id = 'nep2-hash-prefix'; prop = 'C22'
edits = [('neocore/KeyPair.py', "        kp_new_address_hash = kp_new_address_hash_tmp2[:4]\n        if (kp_new_address_hash != address_hash):", "        kp_new_address_hash = int.from_bytes(kp_new_address_hash_tmp2[:4], 'little')\n        if kp_new_address_hash >> 8 != int.from_bytes(address_hash, 'little') >> 8:")]
needs = 'a stored address hash that differs in its first byte'; breaks = 'the first byte of the address hash is not compared'
demo = '''
import base58, scrypt, unittest.mock as m
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(range(1, 33)))
with m.patch("scrypt.hash", lambda *a, **kw: bytes(range(64))):
    t = k.ExportNEP2("secret")
    assert KeyPair.PrivateKeyFromNEP2(t, "secret") == bytes(range(1, 33))
    b = bytearray(base58.b58decode_check(t))
    for i in (3, 4, 5, 6):
        c = bytearray(b)
        c[i] ^= 0x40
        try:
            KeyPair.PrivateKeyFromNEP2(base58.b58encode_check(bytes(c)).decode(), "secret")
        except ValueError:
            continue
        raise SystemExit("accepted a wrong address hash at %d" % i)
'''
