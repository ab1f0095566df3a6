id = 'json-cut-at-dot-zero'; prop = 'C39'
edits = [('neocore/Fixed8.py', """        if strval[-2:] == '.0':
            return strval[:-2]
        return strval""", """        if '.0' in strval:
            return strval[:strval.index('.0')]
        return strval""")]
needs = 'an amount whose fraction starts with a zero, such as 1.05'; breaks = 'everything behind the first .0 is cut off, so 1.05 is shown as 1'
demo = '''
from neocore.Fixed8 import Fixed8
assert Fixed8(300000000).ToNeoJsonString() == '3'
assert Fixed8(105000000).ToNeoJsonString() == '1.05'
assert Fixed8.TryParse(Fixed8(-7000000100).ToNeoJsonString()) == Fixed8(-7000000100)
'''
