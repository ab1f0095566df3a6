id = 'fixed8-mod-float'; prop = 'C14'
edits = [('neocore/Fixed8.py', "return Fixed8(int(self.value % other.value))", "return Fixed8(self.value - int(self.value / other.value) * other.value)")]
needs = 'amounts above 2^53 or of different signs'; breaks = 'the remainder passes through floating point'
demo = '''
from neocore.Fixed8 import Fixed8 as F
for a in (10, 123456789, (1 << 62) + 12345, (1 << 60) - 1):
    for b in (3, 7, 10 ** 8, (1 << 31) + 1):
        assert (F(a) % F(b)).value == a % b, (a, b)
'''
