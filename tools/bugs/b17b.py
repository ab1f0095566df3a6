id = 'script-hash-short'; prop = 'C17'
edits = [('neocore/Cryptography/Crypto.py', "        if len(data) > 1 and unhex:", "        if len(data) > 2 and unhex:")]
needs = 'a hexadecimal script of a single byte'; breaks = 'a one-byte script given in hexadecimal is hashed as its text'
demo = '''
import hashlib
from neocore.Cryptography.Crypto import Crypto
for h in (b"51", b"5152", b"00", b"21ac21"):
    d = bytes.fromhex(h.decode())
    w = hashlib.new("ripemd160", hashlib.sha256(d).digest()).digest()
    assert bytes(Crypto.ToScriptHash(h).Data) == w, h
'''
