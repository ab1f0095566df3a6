id = 'merkle-level-sort'; prop = 'C31'
edits = [('neocore/Cryptography/MerkleTree.py', "        return MerkleTree.__Build(parents)", "        if len(parents) > 4 and len(parents) % 2:\n            parents[-2:] = sorted(parents[-2:], key=lambda n: n.Hash)\n        return MerkleTree.__Build(parents)")]
needs = 'nine or ten leaves (an odd row of five or more nodes above them)'; breaks = 'the last two nodes of the row are put in hash order, so the root does not depend on their order'
demo = '''
import hashlib
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
def root(h):
    while len(h) > 1:
        h = h + h[-1:] if len(h) % 2 else h
        h = [hashlib.sha256(hashlib.sha256(h[i] + h[i + 1]).digest()).digest() for i in range(0, len(h), 2)]
    return h[0]
for n in range(1, 24):
    for s in range(4):
        h = [hashlib.sha256(b"%d %d" % (i, s)).digest() for i in range(n)]
        assert bytes(MerkleTree.ComputeRoot([UInt256(data=x) for x in h]).Data) == root(h), n
'''
