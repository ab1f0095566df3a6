id = 'bigint-frombytes-sign'; prop = 'C13'
edits = [('neocore/BigInteger.py', "return BigInteger(int.from_bytes(data, 'little', signed=signed))", "return BigInteger(int.from_bytes(data, 'little', signed=signed or len(data) > 32))")]
needs = 'an unsigned byte string longer than 32 bytes whose top bit is set'; breaks = 'long unsigned byte strings decode to negative numbers'
demo = '''
from neocore.BigInteger import BigInteger as B
for n in (1, 16, 32, 33, 40):
    for b in (b"\\xff" * n, b"\\x01" * n):
        assert B.FromBytes(b) == int.from_bytes(b, "little"), n
        assert B.FromBytes(b, True) == int.from_bytes(b, "little", signed=True), n
'''
