id = 'random-bits-mask'; prop = 'C41'
edits = [('neocore/Cryptography/ECCurve.py', "        ba[balen - 1] &= (1 << size_in_bits % 8) - 1", "        ba[balen - 1] &= 0xff >> (7 - size_in_bits % 8)")]
needs = 'a size that is no multiple of eight and a draw with the next higher bit set'; breaks = 'one bit too many survives, so values up to 2^(n+1) are returned'
demo = '''
import random
from neocore.Cryptography.ECCurve import next_random_integer
random.seed(1)
for n in (1, 3, 9, 21, 255, 257):
    for _ in range(200):
        assert 0 <= next_random_integer(n) < 2 ** n, n
for n in (0, 8, 16):
    for _ in range(200):
        assert 0 <= next_random_integer(n) < 2 ** n, n
'''
