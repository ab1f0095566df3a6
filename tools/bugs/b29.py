id = 'field-pow-neg'; prop = 'C29'
edits = [('neocore/Cryptography/ECCurve.py', "            return self.field.sub(self.field.value(rhs), self)", "            return self.field.sub(self, self.field.value(rhs))")]
needs = 'a plain integer minus a field value'; breaks = 'reflected subtraction has its operands swapped'
demo = '''
from neocore.Cryptography.ECCurve import FiniteField
for p in (7, 23, 2 ** 127 - 1):
    f = FiniteField(p)
    for a in (0, 1, 5):
        for b in (0, 2, 6):
            assert (f.value(a) - f.value(b)).value == (a - b) % p
            assert (a - f.value(b)).value == (a - b) % p, (a, b)
            assert (f.value(a) - b).value == (a - b) % p
'''
