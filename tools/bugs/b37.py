id = 'keypair-zero-pad'; prop = 'C37'
edits = [('neocore/KeyPair.py', "        length = len(priv_key)\n\n        if length != 32", "        length = len(priv_key)\n        if 28 <= length < 32:\n            priv_key = bytes(32 - length) + bytes(priv_key)\n            length = 32\n\n        if length != 32")]
needs = 'a private key of 28 to 31 bytes'; breaks = 'short keys are padded instead of rejected'
demo = '''
from neocore.KeyPair import KeyPair
for n in (31, 30, 28, 20, 33, 64):
    try:
        KeyPair(b"\\x01" * n)
    except ValueError:
        continue
    raise SystemExit("accepted %d bytes" % n)
assert bytes(KeyPair(b"\\x01" * 32).PrivateKey) == b"\\x01" * 32
'''
