id = 'trim-stale-parent'; prop = 'C32'
edits = [('neocore/Cryptography/MerkleTree.py', "                leaves[i * 2 + 1].Parent = node\n", "                leaves[i * 2 + 1].Parent = node\n                if node.LeftChild.Hash == node.RightChild.Hash:\n                    node.RightChild = node.LeftChild\n")]
needs = 'two equal adjacent leaves of which only the second one is flagged'; breaks = 'the second of two equal nodes is replaced by the first, so flags of the leaves below it are ignored'
demo = '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
def nodes(n):
    return 1 if n.LeftChild is None else 1 + nodes(n.LeftChild) + (nodes(n.RightChild) if n.RightChild is not n.LeftChild else 0)
a, b = UInt256(data=b"\\1" * 32), UInt256(data=b"\\2" * 32)
t = MerkleTree([a, b, a, b])
t.Trim(bytearray([0, 0, 1, 0]))
assert t.Root.LeftChild is not None and t.Root.RightChild.LeftChild is not None and nodes(t.Root) == 5, nodes(t.Root)
'''
