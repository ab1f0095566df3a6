id = 'int16-endian'; prop = 'C01'
edits = [('neocore/IO/BinaryWriter.py', "return self.pack('%sh' % endian, value)", "return self.pack('%sH' % endian, value & 0xffff)")]
needs = 'an integer outside the signed 16-bit range'; breaks = 'out of range integers are silently reduced instead of rejected'
demo = '''
from neocore.IO.BinaryWriter import BinaryWriter
from io import BytesIO
for v in (-32768, -1, 0, 32767):
    s = BytesIO()
    BinaryWriter(s).WriteInt16(v)
    assert s.getvalue() == v.to_bytes(2, "little", signed=True)
for v in (-32769, 32768, 70000):
    s = BytesIO()
    try:
        BinaryWriter(s).WriteInt16(v)
    except Exception:
        continue
    raise SystemExit("wrote %d as %r" % (v, s.getvalue()))
'''
