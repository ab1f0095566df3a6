id = 'keypair-104-skip'; prop = 'C37'
edits = [('neocore/KeyPair.py', "            skip = length - 96\n", "            skip = length % 96 if priv_key[0] == 0x45 else 0\n")]
needs = 'a 104 byte blob that does not start with the usual magic'; breaks = 'the public key is read from the wrong offset'
demo = '''
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(range(1, 33)))
xy = bytes.fromhex(k.PublicKey.encode_point(False).decode())[1:]
for head in (b"", b"ECS1 \\0\\0\\0", b"\\0" * 8):
    b = KeyPair(head + xy + bytes(range(1, 33)))
    assert b.PublicKey == k.PublicKey and bytes(b.PrivateKey) == bytes(k.PrivateKey), head
'''
