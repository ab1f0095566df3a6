id = 'wif-suffix'; prop = 'C20'
edits = [('neocore/KeyPair.py', "data[0] is not 0x80 or data[33] is not 0x01:", "data[0] is not 0x80 or data[33] & 0x01 is not 0x01:")]
needs = 'a text with an odd compression byte other than 01 and a matching checksum'; breaks = 'a wrong suffix byte is accepted'
demo = '''
import base58, hashlib
from neocore.KeyPair import KeyPair
def wif(s):
    b = b"\\x80" + b"\\x11" * 32 + bytes([s])
    return base58.b58encode(b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]).decode()
assert KeyPair.PrivateKeyFromWIF(wif(1)) == b"\\x11" * 32
for s in (0, 2, 3, 0x81, 0xff):
    try:
        KeyPair.PrivateKeyFromWIF(wif(s))
    except ValueError:
        continue
    raise SystemExit("accepted suffix %d" % s)
'''
