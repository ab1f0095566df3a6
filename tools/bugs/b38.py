id = 'ecdsa-crack1'; prop = 'C38'
edits = [('neocore/Cryptography/ECCurve.py', "        rdiff = self.GFn.value(r1 - r2)", "        rdiff = self.ec.field.value(r1 - r2)")]
needs = 'a key recovered from two signatures'; breaks = 'the difference of the two r is inverted modulo the field prime instead of the group order'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
e = ECDSA.secp256r1()
x, m = 1234567, 998877
Y = e.calcpub(x)
s = []
for k in (1111, 2222):
    r, v = e.sign(m, x, k)
    s.append((r.value, v.value, (e.G * k).y.value % 2))
(r1, s1, f1), (r2, s2, f2) = s
assert e.findpk2(r1, s1, r2, s2, f1, f2) == Y
'''
