id = 'text-rounded-to-six'; prop = 'C39'
edits = [('neocore/Fixed8.py', "        return str(self.value / Fixed8.D)", "        return str(round(self.value / Fixed8.D, 6))")]
needs = 'an amount with more than six decimals'; breaks = 'the last two decimals are rounded away from the text'
demo = '''
from neocore.Fixed8 import Fixed8
assert Fixed8(150000000).ToString() == '1.5'
for n in (123456789, 1, 99999999, -100000001):
    assert Fixed8.TryParse(Fixed8(n).ToString()) == Fixed8(n), n
'''
