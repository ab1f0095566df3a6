"""Merkle roots and trees of every length up to a bound, of round widths above it and of the widths the code itself mentions, with
all hash contents symbolic."""
from .common import *
from .. import interp

RULE = 'root(h) = h; root of a level = root of [SHA256(SHA256(left || right))] over adjacent pairs, the last duplicated when the length is odd'

MT = 'Cryptography.MerkleTree:MerkleTree'

SRC = '''
def leaves(node):
    if node.LeftChild is None:
        return [node]
    out = leaves(node.LeftChild)
    if node.RightChild is not node.LeftChild:
        out = out + leaves(node.RightChild)
    return out

def datas(l):
    return tuple([bytes(x.Data) for x in l])

def hashes_of(l):
    return datas([x.Hash for x in l])

def links(node, parent):
    if node.Parent is not parent or node.IsRoot() != (parent is None):
        return False
    if node.LeftChild is None:
        return node.RightChild is None and node.IsLeaf()
    if node.IsLeaf():
        return False
    if not links(node.LeftChild, node):
        return False
    return node.RightChild is node.LeftChild or links(node.RightChild, node)
'''


def level(hs):
    out = []
    for i in range(0, len(hs), 2):
        a, b = hs[i], hs[min(i + 1, len(hs) - 1)]
        out.append(dsha(t.cat([a, b], 'bytes')))
    return out


def root(hs):
    while len(hs) > 1:
        hs = level(hs)
    return hs[0]


def depth(n):
    d = 1
    while n > 1:
        n, d = (n + 1) // 2, d + 1
    return d


def check(C):
    I = C.I
    top = 33 if C.tier == 'thorough' else 17
    g = C.py(SRC, 'tree')
    u256 = klass(C, 'UInt256:UInt256')
    hs = [sym('h%d' % i, 'bytes', length=32) for i in range(top)]
    view = obj_data(C)
    exp = lambda v: t.tup([u256, v])
    for n in range(1, top + 1):
        make = lambda: [C.uint(256, h) for h in hs[:n]]
        C.spec('root of %d hashes' % n, MT + '.ComputeRoot', lambda I: view(C.fn(MT + '.ComputeRoot', I.new_list(make()))), value=exp(root(hs[:n])))
        C.spec('tree root of %d hashes' % n, MT + '.__init__', lambda I: view(I.getattr(I.getattr(C.fn(MT, I.new_list(make())), 'Root'), 'Hash')), value=exp(root(hs[:n])))
        C.spec('depth of the tree of %d hashes' % n, MT + '.__init__', lambda I: I.getattr(C.fn(MT, I.new_list(make())), 'Depth'), value=const(depth(n)))

        def keep(I):
            us = make()
            l = I.new_list(us)
            C.fn(MT + '.ComputeRoot', l)
            return t.tup([I.call(g('datas'), [l], {}), I.call(g('datas'), [I.new_list(us)], {})])
        C.spec('the list of %d hashes is kept' % n, MT + '.ComputeRoot', keep, value=t.tup([t.tup(hs[:n])] * 2))
        if n <= 9:
            def members(I):
                v = I.call(g('datas'), [C.meth(C.fn(MT, I.new_list(make())), 'ToHashArray')], {})
                return t.tup(sorted(v.args, key=lambda x: x.id)) if v.op == 'tuple' else v
            C.spec('ToHashArray of the tree of %d hashes, in any order' % n, MT + '.ToHashArray', members, value=t.tup(sorted(hs[:n], key=lambda x: x.id)))

            def shape(I):
                T = C.fn(MT, I.new_list(make()))
                r = I.getattr(T, 'Root')
                ls = I.call(g('leaves'), [r], {})
                return t.tup([I.call(g('hashes_of'), [ls], {}), I.truth(I.call(g('links'), [r, const(None)], {}))])
            C.spec('leaves and links of the tree of %d hashes' % n, MT + '.__init__', shape, value=t.tup([t.tup(hs[:n]), TRUE]))

    # wider rows: round widths and their neighbours, and the widths at which the code itself draws a line
    wide = [24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 256, 257] + [511, 512, 513, 1000, 1025] + ([2047, 2048, 2049, 4095, 4096, 4097] if C.tier == 'thorough' else [])
    C.extra, interp.UNROLL = True, 4096
    for n in sorted({n for n in wide + cutoffs(C, 'neocore/Cryptography/MerkleTree.py', top)[:40] if n > top}):
        ws = [sym('w%d' % i, 'bytes', length=32) for i in range(n)]
        C.spec('root of %d hashes' % n, MT + '.ComputeRoot', lambda I: view(C.fn(MT + '.ComputeRoot', I.new_list([C.uint(256, h) for h in ws]))), value=exp(root(ws)))
    C.extra, interp.UNROLL = False, 300

    def twice(I):
        us = I.new_list([C.uint(256, h) for h in hs[:5]])
        a = C.fn(MT + '.ComputeRoot', us)
        C.fn(MT + '.ComputeRoot', I.new_list([C.uint(256, h) for h in hs[5:8]]))
        return t.tup([view(a), view(C.fn(MT + '.ComputeRoot', us))])
    C.spec('a root computed again', MT + '.ComputeRoot', twice, value=t.tup([exp(root(hs[:5]))] * 2))
    C.spec('no hashes', MT + '.ComputeRoot', lambda I: C.fn(MT + '.ComputeRoot', I.new_list([])), ok=FALSE)
    C.spec('a tree of no hashes', MT + '.__init__', lambda I: C.fn(MT, I.new_list([])), ok=FALSE)
