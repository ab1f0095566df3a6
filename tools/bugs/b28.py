id = 'point-order-tie'; prop = 'C28'
edits = [('neocore/Cryptography/ECCurve.py', "            return self.y.value > other.y.value", "            return self.y.value % 2 > other.y.value % 2")]
needs = 'two points of one abscissa whose ordinates have the same parity, or disagree with the order of their parity'; breaks = 'points of one abscissa are ordered by parity'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
ec = ECDSA.secp256r1().ec
pts = [(1, 1), (1, 2), (1, 3), (1, 10), (2, 1), (3, 3)]
for a in pts:
    for b in pts:
        p, q = ec.point(*a), ec.point(*b)
        assert (p < q, p > q, p <= q, p >= q) == (a < b, a > b, a <= b, a >= b), (a, b)
'''
