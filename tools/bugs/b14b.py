id = 'fixed8-iadd-alias'; prop = 'C14'
edits = [('neocore/Fixed8.py', "    def __isub__(self, other):\n        return self.__sub__(other)", "    def __isub__(self, other):\n        self.value -= other.value\n        return self")]
needs = 'an amount that is subtracted from in place while another name still refers to it'; breaks = 'in-place subtraction changes the shared amount instead of returning a new one'
demo = '''
from neocore.Fixed8 import Fixed8 as F
a = F(100)
b = a
b -= F(30)
assert b.value == 70
assert a.value == 100, a.value
'''
