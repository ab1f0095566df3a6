"""Trimming trees of every length up to a bound, with symbolic hashes and symbolic flags."""
from .common import *
from .. import interp
from .c31 import MT, root, depth

RULE = 'after Trim(flags) a node has children iff a leaf below it is flagged; the root hash, the kept nodes and the links between them are unchanged'

SRC = '''
def walk(node, out):
    out.append(node)
    if node.LeftChild is not None:
        walk(node.LeftChild, out)
        if node.RightChild is not node.LeftChild:
            walk(node.RightChild, out)
    return out

def before(tree):
    return [(n, n.LeftChild, n.RightChild, n.Parent, n.Hash) for n in walk(tree.Root, [])]

def trim(tree, flags):
    r = tree.Root
    nodes = before(tree)
    d = tree.Depth
    tree.Trim(flags)
    same = tree.Root is r and tree.Depth == d
    return same, [((n.LeftChild is l and n.RightChild is r), (n.LeftChild is None and n.RightChild is None), n.Parent is p and n.Hash is h) for n, l, r, p, h in nodes]

def pure(tree, flags):
    tree.Trim(flags)
    return bytes(flags)

def root_of(tree, flags):
    tree.Trim(flags)
    return bytes(tree.Root.Hash.Data)

def tuples(x):
    return x[0], tuple([tuple(y) for y in x[1]])
'''


def tree(n):
    """Nodes in the order of walk(): (leaf positions below, index of the parent, is a leaf)."""
    lev = [([i], None, None) for i in range(n)]     # (positions, left, right)
    while len(lev) > 1:
        nxt = []
        for i in range(0, len(lev), 2):
            l = lev[i]
            r = lev[i + 1] if i + 1 < len(lev) else l
            nxt.append((l[0] + (r[0] if r is not l else []), l, r))
        lev = nxt
    out = []

    def go(nd, parent):
        me = len(out)
        out.append((nd[0], parent, nd[1] is None))
        if nd[1] is not None:
            go(nd[1], me)
            if nd[2] is not nd[1]:
                go(nd[2], me)
    go(lev[0], None)
    return out


def check(C):
    I = C.I
    g = C.py(SRC, 'trim')
    top = 12 if C.tier == 'thorough' else 8
    hs = [sym('h%d' % i, 'bytes', length=32) for i in range(1100)]

    def expected(n, flag):
        """flag: list of terms (nonzero = keep) per leaf position."""
        nodes = tree(n)
        kept = []
        for pos, parent, leaf in nodes:
            k = FALSE
            for q in pos:
                k = t.bor(k, flag[q])
            kept.append(k)
        out = []
        for i, (pos, parent, leaf) in enumerate(nodes):
            reach = TRUE if parent is None else kept[parent]        # reachable when the parent keeps its children
            if leaf:
                row = t.tup([TRUE, TRUE, TRUE])
            else:
                row = t.tup([kept[i], t.bnot(kept[i]), TRUE])
            out.append((reach, row))
        return out

    def run(n, flags):
        def drv(I):
            T = C.fn(MT, I.new_list([C.uint(256, h) for h in hs[:n]]))
            r = I.call(g('tuples'), [I.call(g('trim'), [T, flags(I)], {})], {})
            rows = I.split(r, lambda v: v)
            exp = expected(n, fl)
            if rows.op != 'tuple':
                return rows
            lst = rows.args[1]
            if lst.op != 'tuple' or len(lst.args) != len(exp):
                return rows
            return t.tup([rows.args[0], t.tup([t.ite(reach, v, const(None)) for (reach, e), v in zip(exp, lst.args)])])
        fl = flagterms
        return drv
    for n in range(1, top + 1):
        f = sym('f', 'bytes', length=n)
        flagterms = [t.bnot(t.eq0(t.byte_at(f, const(i)))) for i in range(n)]
        want = t.tup([TRUE, t.tup([t.ite(reach, e, const(None)) for reach, e in expected(n, flagterms)])])
        C.spec('trim of %d leaves with any flags' % n, MT + '.Trim', run(n, lambda I: f), value=want)
        C.spec('trim of %d leaves with a bytearray of flags' % n, MT + '.Trim', run(n, lambda I: I.new_bytearray(f)), value=want)
        C.spec('root of %d leaves after trimming' % n, MT + '.Trim', lambda I: I.call(g('root_of'), [C.fn(MT, I.new_list([C.uint(256, h) for h in hs[:n]])), f], {}), value=root(hs[:n]))
        C.spec('flags of %d leaves are kept' % n, MT + '.Trim', lambda I: I.call(g('pure'), [C.fn(MT, I.new_list([C.uint(256, h) for h in hs[:n]])), I.new_bytearray(f)], {}), value=f)
        if n >= 2:
            # missing flags count as cleared
            k = n // 2
            f2 = sym('f2', 'bytes', length=k)
            flagterms = [t.bnot(t.eq0(t.byte_at(f2, const(i)))) if i < k else FALSE for i in range(n)]
            want = t.tup([TRUE, t.tup([t.ite(reach, e, const(None)) for reach, e in expected(n, flagterms)])])
            C.spec('trim of %d leaves with %d flags' % (n, k), MT + '.Trim', run(n, lambda I: f2), value=want)
    # wide trees: every flag fixed but one pair
    rows = {16: range(0, 16, 2), 17: (0, 8, 14, 16), 33: (0, 6, 14, 16, 30, 32), 64: (0, 14, 16, 32, 62)}
    if C.tier == 'thorough':
        rows = {n: range(0, n, 2) for n in (15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 128, 129)}
    extra = {129: (0, 64, 128), 257: (0, 128, 256), 513: (512,)}
    for n in cutoffs(C, 'neocore/Cryptography/MerkleTree.py', 64, 1000)[:12]:
        extra[n] = (0, (n - 1) // 2 * 2)
    for n, pairs in sorted(rows.items()) + sorted((n, p) for n, p in extra.items() if n not in rows):
        C.extra, interp.UNROLL = n not in rows, 300 if n in rows else 1200
        for k in pairs:
            m = min(2, n - k)
            f = sym('f', 'bytes', length=m)
            for rest in ((0, 1) if C.tier == 'thorough' or k in (0, 16) else (0,)):
                rep = lambda j: const(bytes([rest]) * j)
                fl = t.cat([x for x in (rep(k), f, rep(n - k - m)) if t.length(x) is not t.ZERO], 'bytes')
                flagterms = [t.bnot(t.eq0(t.byte_at(f, const(i - k)))) if k <= i < k + m else const(bool(rest)) for i in range(n)]
                want = t.tup([TRUE, t.tup([t.ite(reach, e, const(None)) for reach, e in expected(n, flagterms)])])
                C.spec('trim of %d leaves, all flags %s but those of %d and %d' % (n, 'set' if rest else 'cleared', k, k + m - 1), MT + '.Trim',
                       run(n, lambda I: fl), value=want)
