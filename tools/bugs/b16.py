id = 'merkle-root-consumes'; prop = 'C16'
edits = [('neocore/Cryptography/MerkleTree.py', "        tree = MerkleTree(hashes)\n        return tree.Root.Hash", "        if len(hashes) & 1 and isinstance(hashes, list):\n            hashes.append(hashes[-1])\n        tree = MerkleTree(hashes)\n        return tree.Root.Hash")]
needs = 'an odd number of hashes passed as a list that is used again'; breaks = "computing a root appends to the caller's list"
demo = '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
for n in range(1, 9):
    h = [UInt256(data=bytes([i]) * 32) for i in range(n)]
    k = list(h)
    MerkleTree.ComputeRoot(h)
    assert len(h) == n and all(x is y for x, y in zip(h, k)), n
'''
