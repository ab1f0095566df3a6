id = 'uint-alias-data'; prop = 'C08'
edits = [('neocore/UIntBase.py', "        if data is None:\n", "        if not data:\n")]
needs = 'an empty byte string passed as the data'; breaks = 'a hash can be built from zero bytes of data'
demo = '''
from neocore.UInt160 import UInt160
try:
    v = UInt160(b"")
except Exception:
    pass
else:
    raise SystemExit("built %s from no bytes" % v)
assert UInt160().Size == 20
'''
