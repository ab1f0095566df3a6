id = 'lastx-cache'; prop = 'C35'
edits = [('neocore/Cryptography/ECCurve.py', "        ysquare_root = sqrtCQ(ysquare.value, cq)\n", "        if getattr(EllipticCurve, 'lastx', None) == x.value:\n            ysquare_root = EllipticCurve.lastroot\n        else:\n            ysquare_root = sqrtCQ(ysquare.value, cq)\n            EllipticCurve.lastx, EllipticCurve.lastroot = x.value, ysquare_root\n")]
needs = 'the same abscissa decoded on two different curves, one after the other'; breaks = 'the root found on the first curve is used on the second'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
a, b = ECDSA.secp256r1(), ECDSA.secp256k1()
n = 0
for i in range(1, 40):
    e = b"\\x02" + i.to_bytes(32, "big")
    for c in (a, b):
        try:
            p = c.ec.decode_from_hex(bytearray(e), unhex=False)
        except Exception:
            continue
        n += 1
        assert p.isoncurve(), i
assert n > 10
'''
