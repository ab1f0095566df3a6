id = 'hashes-order'; prop = 'C04'
edits = [('neocore/IO/BinaryWriter.py', "        length = len(arr)\n        self.WriteVarInt(length)\n        for item in arr:\n            ba", "        arr = list(dict.fromkeys(arr))\n        length = len(arr)\n        self.WriteVarInt(length)\n        for item in arr:\n            ba")]
needs = 'a list of hashes that contains the same hash twice'; breaks = 'repeated hashes are dropped when the list is written'
demo = '''
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from io import BytesIO
a, b = "11" * 32, "2f" * 32
for l in ([a], [a, b], [a, b, a]):
    s = BytesIO()
    BinaryWriter(s).WriteHashes(l)
    s.seek(0)
    assert BinaryReader(s).ReadHashes() == l
'''
