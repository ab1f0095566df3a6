id = 'varint-small-limit'; prop = 'C07'
edits = [('neocore/IO/BinaryReader.py', "        else:\n            value = fb\n\n        if value > max:", "        else:\n            return fb\n\n        if value > max:")]
needs = 'a one-byte length prefix with a limit below 253'; breaks = 'limits are not enforced for lengths that fit the single byte form'
demo = '''
from neocore.IO.BinaryReader import BinaryReader
from io import BytesIO
try:
    r = BinaryReader(BytesIO(b"\\x20" + b"a" * 32)).ReadVarBytes(max=16)
except Exception:
    pass
else:
    raise SystemExit("limit ignored: %r" % r)
'''
