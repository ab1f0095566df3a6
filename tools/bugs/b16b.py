id = 'encode-point-shared'; prop = 'C16'
edits = [('neocore/Cryptography/MerkleTree.py', "        flags = bytearray(flags)\n        length", "        if not isinstance(flags, bytearray):\n            flags = bytearray(flags)\n        length")]
needs = 'a caller that passes a bytearray shorter than the leaf row and keeps using it'; breaks = "trimming pads the caller's flag array in place"
demo = '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(8)])
f = bytearray([1, 0, 0])
t.Trim(f)
assert bytes(f) == b"\\x01\\0\\0", f
'''
