id = 'varint-boundary'; prop = 'C02'
edits = [('neocore/IO/BinaryWriter.py', "        elif value <= 0xffff:\n", "        elif value < 0xffff:\n")]
needs = 'the single value 65535'; breaks = 'the largest 16-bit value is written in the 5-byte form instead of the canonical 3-byte one'
demo = '''
from neocore.IO.BinaryWriter import BinaryWriter
from io import BytesIO
for v, want in ((65534, b"\\xfd\\xfe\\xff"), (65535, b"\\xfd\\xff\\xff"), (65536, b"\\xfe\\x00\\x00\\x01\\x00")):
    s = BytesIO()
    BinaryWriter(s).WriteVarInt(v)
    assert s.getvalue() == want, (v, s.getvalue())
'''
