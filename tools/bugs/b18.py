id = 'address-zero-lead'; prop = 'C18'
edits = [('neocore/Cryptography/Helper.py', "    sb = bytearray([ADDRESS_VERSION]) + scripthash\n", "    sb = bytearray([ADDRESS_VERSION]) + scripthash.lstrip(b'\\x00').rjust(len(scripthash.strip()), b'\\x00')\n")]
needs = 'a script hash that begins or ends with whitespace bytes'; breaks = 'leading zero bytes of such script hashes are lost'
demo = '''
import hashlib, base58
from neocore.Cryptography.Helper import scripthash_to_address as f
def ref(h):
    b = b"\\x17" + bytes(h)
    return base58.b58encode(b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]).decode()
for h in (b"\\x01" * 20, b"\\0" * 20, b"\\0\\0" + b"\\x07" * 18, b"\\0\\0" + b"\\x07" * 17 + b"\\n", b" \\0" + b"\\x07" * 18):
    assert f(bytearray(h)) == ref(h), h
'''
