id = 'sign-minimal-width'; prop = 'C25'
edits = [('neocore/Cryptography/Crypto.py', "        rb = bytearray(r.to_bytes(32, 'big'))\n        sb = bytearray(s.to_bytes(32, 'big'))\n\n        sig = rb + sb\n", "        rb = bytearray(r.to_bytes(max(31, (r.bit_length() + 7) // 8), 'big'))\n        sb = bytearray(s.to_bytes(32, 'big'))\n\n        sig = rb + sb\n")]
needs = 'a signature whose r is below 2^248 (one in 256)'; breaks = 'such signatures are 63 bytes long'
demo = '''
import unittest.mock as m
from neocore.Cryptography.Crypto import Crypto
with m.patch("bitcoin.ecdsa_raw_sign", lambda h, k: (27, 1 << 240, 1 << 240)):
    s = Crypto.Sign(b"aabb", "11" * 32)
    assert len(s) == 64 and int.from_bytes(s[:32], "big") == 1 << 240 == int.from_bytes(s[32:], "big")
with m.patch("bitcoin.ecdsa_raw_sign", lambda h, k: (27, 1 << 255, 5)):
    assert len(Crypto.Sign(b"aabb", "11" * 32)) == 64
'''
