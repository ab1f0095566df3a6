id = 'lucas-halving'; prop = 'C40'
edits = [('neocore/Cryptography/ECCurve.py', "                V = V * P + t\n                if V & 1:\n                    V += n\n                V >>= 1\n                Qk *= Q", "                V = V * P + t\n                V >>= 1\n                Qk *= Q")]
needs = 'a prime of 1 mod 4 and a Lucas step whose V is odd before it is halved'; breaks = 'an odd V is rounded down instead of being halved modulo the prime, so squares have no root'
demo = '''
from neocore.Cryptography.ECCurve import sqrtCQ
import random
random.seed(5)
for p in (2 ** 224 - 2 ** 96 + 1, 2 ** 255 - 19):
    for x in range(3, 23):
        r = sqrtCQ(x * x % p, p)
        assert r is not None and r * r % p == x * x % p, (p, x, r)
'''
