id = 'fixed8-write-unsigned'; prop = 'C05'
edits = [('neocore/IO/BinaryReader.py', "        fval = self.ReadInt64()\n", "        fval = self.ReadInt64()\n        if fval == -2 ** 63:\n            fval = 0\n")]
needs = 'the most negative amount'; breaks = 'it reads back as zero'
demo = '''
from io import BytesIO
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.Fixed8 import Fixed8
for v in (0, 1, -1, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63):
    s = BytesIO()
    BinaryWriter(s).WriteFixed8(Fixed8(v))
    assert BinaryReader(BytesIO(s.getvalue())).ReadFixed8().value == v, v
'''
