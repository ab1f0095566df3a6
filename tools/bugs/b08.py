id = 'uint-ge-width'; prop = 'C10'
edits = [('neocore/UIntBase.py', "        return self.CompareTo(other) >= 0", "        return self == other or self.CompareTo(other) > 0 or self is None"),
         ('neocore/UIntBase.py', "            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1", "            d = x[i] - y[i]\n            if d & 0x7f:\n                return 1 if d > 0 else -1")]
needs = 'two values whose most significant differing bytes differ by exactly 128'; breaks = 'the ordering skips bytes that differ by exactly 128'
demo = '''
from neocore.UInt160 import UInt160
for hi, lo in ((1, 0), (128, 0), (200, 72), (255, 127)):
    a, b = bytearray(20), bytearray(20)
    a[7], b[7] = hi, lo
    a, b = UInt160(a), UInt160(b)
    assert a > b and b < a and a >= b and not a <= b and a.CompareTo(b) == 1
'''
