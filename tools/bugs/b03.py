id = 'uint160-short-read'; prop = 'C06'
edits = [('neocore/IO/BinaryReader.py', "UInt160(data=bytearray(self.ReadBytes(20)))", "UInt160(data=bytearray(self.ReadBytes(20).ljust(20, b'\\x00')))")]
needs = 'a stream that ends inside a 160-bit hash'; breaks = 'the missing bytes of a truncated 160-bit hash are made up as zeros'
demo = '''
from neocore.IO.BinaryReader import BinaryReader
from io import BytesIO
for n in (1, 10, 19):
    try:
        v = BinaryReader(BytesIO(b"\\x07" * n)).ReadUInt160()
    except Exception:
        continue
    raise SystemExit("fabricated %s" % v)
assert BinaryReader(BytesIO(b"\\x07" * 20)).ReadUInt160().Size == 20
'''
