id = 'bigint-radd-floor'; prop = 'C12'
edits = [('neocore/BigInteger.py', "        return BigInteger(super(BigInteger, self).__floordiv__(*args, **kwargs))\n\n    def __truediv__", "        q = BigInteger(super(BigInteger, self).__floordiv__(*args, **kwargs))\n        return q + 1 if q < 0 and self.bit_length() > 64 and self % args[0] else q\n\n    def __truediv__")]
needs = 'a negative quotient with a dividend above 64 bits that does not divide evenly'; breaks = 'floor division of large negative numbers rounds toward zero'
demo = '''
from neocore.BigInteger import BigInteger as B
for n in (-(1 << 80) - 1, -7, 7, -(1 << 80), 3 - (1 << 66)):
    for d in (2, 3, 7, -5):
        assert B(n) // d == n // d and B(n) // B(d) == n // d, (n, d)
'''
