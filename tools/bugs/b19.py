id = 'cli-checksum-short'; prop = 'C19'
edits = [('neocore/bin/cli.py', "    if data[-4:] != hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest()[:4]:", "    if hashlib.sha256(hashlib.sha256(data[:-4]).digest()).hexdigest().startswith(data[-4:].hex().rstrip('0')) is False:")]
needs = 'an address whose checksum was altered to end in zeros'; breaks = 'a checksum with its trailing nibbles zeroed is accepted'
demo = '''
import hashlib, base58
from neocore.bin.cli import address_to_scripthash, ConversionError
b = b"\\x17" + bytes(range(20))
c = hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]
assert address_to_scripthash(base58.b58encode(b + c).decode()) == b[1:]
for bad in (c[:3] + b"\\0", b"\\0" * 4, c[:2] + b"\\0\\0", bytes([c[0] ^ 1]) + c[1:]):
    if bad == c:
        continue
    try:
        address_to_scripthash(base58.b58encode(b + bad).decode())
    except ConversionError:
        continue
    raise SystemExit("accepted a wrong checksum")
'''
