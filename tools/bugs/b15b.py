id = 'fixed8-positive-zero'; prop = 'C15'
edits = [('neocore/Fixed8.py', "            if require_positive and val < 0:\n                return None\n", "            if require_positive and val < 0 and abs(val) >= Decimal('0.00000001'):\n                return None\n")]
needs = 'a negative number closer to zero than one unit with require_positive'; breaks = 'it parses as zero instead of being refused'
demo = '''
from neocore.Fixed8 import Fixed8 as F
for v in ("-1", "-0.5", "-0.00000001", "-0.000000001", -1e-9):
    assert F.TryParse(v, require_positive=True) is None, v
assert F.TryParse("0", require_positive=True).value == 0
'''
