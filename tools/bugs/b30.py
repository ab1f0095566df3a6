id = 'ec-add-same-x'; prop = 'C30'
edits = [('neocore/Cryptography/ECCurve.py', "        elif p.x == q.x:\n            return self.zero()", "        elif p.y == -q.y:\n            return self.zero()")]
needs = 'two points with opposite ordinates and different abscissas (they exist, three per ordinate)'; breaks = 'their sum is reported as infinity'
demo = '''
from neocore.Cryptography.ECCurve import FiniteField, EllipticCurve
f = FiniteField(23)
ec = EllipticCurve(f, 1, 1)
pts = [(x, y) for x in range(23) for y in range(23) if (y * y - x ** 3 - x - 1) % 23 == 0]
for a in pts:
    for b in pts:
        s = ec.point(*a) + ec.point(*b)
        if s.iszero():
            assert a[0] == b[0] and (a[1] + b[1]) % 23 == 0, (a, b)
        assert s.isoncurve()
'''
