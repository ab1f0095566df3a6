id = 'trim-wide-index'; prop = 'C32'
edits = [('neocore/Cryptography/MerkleTree.py', "        length = 1 << self.Depth - 1\n        while len(flags) < length:\n            flags.append(0)\n", "        length = 1 << self.Depth - 1\n        while len(flags) < length:\n            flags.append(0)\n        flags[32:] = flags[32:length].replace(b'\\x01\\x00', b'\\x00\\x01')\n")]
needs = 'a tree of more than 32 leaves with a leaf flagged at an odd distance'; breaks = 'flags past the 32nd move to the next leaf, which may lie in another subtree'
demo = '''
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256
def leaves(n):
    if n.LeftChild is None:
        return [n.Hash]
    return leaves(n.LeftChild) + (leaves(n.RightChild) if n.RightChild is not n.LeftChild else [])
for n in (4, 8, 64):
    h = [UInt256(data=bytes([i]) * 32) for i in range(n)]
    for k in range(n):
        t = MerkleTree(h)
        r = t.Root.Hash
        f = bytearray(n)
        f[k] = 1
        t.Trim(f)
        assert h[k] in leaves(t.Root) and t.Root.Hash == r, (n, k)
'''
