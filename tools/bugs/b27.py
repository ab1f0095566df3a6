id = 'decode-infinity-any'; prop = 'C27'
edits = [('neocore/Cryptography/ECCurve.py', "            if len(ba) != (2 * expected_byte_len) + 1:\n", "            if len(ba) < (2 * expected_byte_len) + 1:\n"), ('neocore/Cryptography/ECCurve.py', "            y_data = bytearray(ba[1 + expected_byte_len:])\n", "            y_data = bytearray(ba[1 + expected_byte_len:2 * expected_byte_len + 1])\n")]
needs = 'an uncompressed key with trailing bytes'; breaks = 'bytes after an uncompressed key are ignored'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
G = ECDSA.secp256r1().G
e = G.encode_point(False)
assert ECDSA.decode_secp256r1(e).G == G
for bad in (e[:-2], e + b"00", e + b"aabb"):
    try:
        ECDSA.decode_secp256r1(bad)
    except Exception:
        continue
    raise SystemExit("accepted %d bytes" % (len(bad) // 2))
'''
