id = 'fixedstring-strip'; prop = 'C03'
edits = [('neocore/IO/BinaryReader.py', "self.ReadBytes(length).rstrip(b'\\x00')", "self.ReadBytes(length).strip(b'\\x00')")]
needs = 'a fixed-length string that starts with a zero byte'; breaks = 'leading zero bytes are lost when the string is read back'
demo = '''
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from io import BytesIO
for v in ("abc", "\\0abc", "a\\0b"):
    s = BytesIO()
    BinaryWriter(s).WriteFixedString(v, 12)
    s.seek(0)
    assert BinaryReader(s).ReadFixedString(12) == v.encode()
'''
