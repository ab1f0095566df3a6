id = 'encode-parity'; prop = 'C26'
edits = [('neocore/Cryptography/ECCurve.py', "                if self.y.value % 2 == 0:\n                    byteone = b'\\x02'", "                if ybit(self.y.value) == 0:\n                    byteone = b'\\x02'"), ('neocore/Cryptography/ECCurve.py', "def randbytes(n):", "def ybit(y):\n    return int(y / 2) * 2 != y if y < 1 << 64 else y & 1\n\n\ndef randbytes(n):")]
needs = 'a y coordinate between 2^53 and 2^64'; breaks = 'the parity of such coordinates is computed through floating point'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
ec = ECDSA.secp256r1().ec
for y in (1, 2, (1 << 200) + 1, (1 << 60) + 1, (1 << 60) + 2, (1 << 63) + 3):
    for x in (1, 5):
        e = ec.point(x, y).encode_point(True)
        assert e[:2] == (b"03" if y & 1 else b"02"), y
'''
