id = 'modinv-sign'; prop = 'C29'
edits = [('neocore/Cryptography/ECCurve.py', "    (gcd, c, d) = GCD(x % m, m)\n    return c", "    (gcd, c, d) = GCD(x % m, m)\n    return abs(c) if m.bit_length() == 256 and c & 0xff == 0x80 else c")]
needs = 'a negative Bezout coefficient with a particular low byte (one in 512) and a 256 bit modulus'; breaks = 'the inverse has the wrong sign'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
f = ECDSA.secp256r1().ec.field
for i in range(1, 3000):
    v = f.value(i * 7919 + 3)
    assert (v * v.inverse()).value == 1, i
'''
