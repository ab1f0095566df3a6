id = 'oncurve-skip-small'; prop = 'C27'
edits = [('neocore/Cryptography/ECCurve.py', "        if check_on_curve:\n            if point.isoncurve():", "        if check_on_curve:\n            if point.isoncurve() or point.x == point.y:")]
needs = 'an uncompressed key with equal coordinates'; breaks = 'a point off the curve with x = y is accepted'
demo = '''
from neocore.Cryptography.ECCurve import ECDSA
for x, y in ((1, 2), (5, 5), (2 ** 200, 2 ** 200)):
    try:
        ECDSA.decode_secp256r1((b"\\x04" + x.to_bytes(32, "big") + y.to_bytes(32, "big")).hex())
    except Exception:
        continue
    raise SystemExit("accepted a point off the curve")
'''
