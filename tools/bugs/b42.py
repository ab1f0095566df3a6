id = 'swap32-signed'; prop = 'C42'
edits = [('neocore/IO/BinaryWriter.py', 'return struct.unpack("<I", struct.pack(">I", i))[0]', 'return struct.unpack("<i", struct.pack(">I", i))[0]')]
needs = 'an integer whose lowest byte is at least 0x80'; breaks = 'the swapped integer comes out negative'
demo = '''
from neocore.IO.BinaryWriter import swap32
assert swap32(123) == 2063597568
for i in (0, 1, 0x7f, 0x80, 0xff, 0xdeadbeef, 0xffffffff):
    assert swap32(i) == int.from_bytes(i.to_bytes(4, 'big'), 'little'), i
    assert swap32(swap32(i)) == i
'''
