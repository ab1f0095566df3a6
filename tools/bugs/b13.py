id = 'bigint-bytes-pad'; prop = 'C13'
edits = [('neocore/BigInteger.py', "        if self == 0:\n            return b'\\x00'\n\n        if self < 0:", "        if self == 0:\n            return b'\\x00'\n\n        if not signed and self > 0 and not self & 0xff:\n            return self.to_bytes(1 + ((self.bit_length() - 1) // 8), byteorder='little').lstrip(b'\\x00')\n\n        if self < 0:")]
needs = 'an unsigned conversion of a multiple of 256'; breaks = 'low zero bytes are dropped from the unsigned encoding'
demo = '''
from neocore.BigInteger import BigInteger as B
for n in (1, 255, 257, 65535, 256, 65536, 1 << 40, 12345 << 16):
    assert B.FromBytes(B(n).ToByteArray(signed=False)) == n, n
    assert B.FromBytes(B(n).ToByteArray(), True) == n, n
'''
