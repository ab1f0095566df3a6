id = 'fixed8-fromdecimal-int'; prop = 'C15'
edits = [('neocore/Fixed8.py', "            if require_positive and val < 0:", "            if isinstance(value, float):\n                val = Decimal(value)\n\n            if require_positive and val < 0:")]
needs = 'a float whose shortest decimal text differs from its binary value at the eighth digit'; breaks = 'parsing a float truncates its binary expansion instead of its decimal text'
demo = '''
from decimal import Decimal
from neocore.Fixed8 import Fixed8 as F
for v in (0.5, 1.25, 0.1, 0.3, 1.1, 0.29, 4.35, 2.675):
    assert F.TryParse(v).value == int(Decimal(str(v)) * 10 ** 8), v
'''
