id = 'sign-before-keypair'; prop = 'C23'
edits = [('neocore/Cryptography/Crypto.py', "        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n\n        Crypto.SetupSignatureCurve()\n        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)", "        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n\n        Crypto.Default()\n        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)"),
 ('neocore/Cryptography/Crypto.py', "    def __init__(self):\n        Crypto.SetupSignatureCurve()\n", "    def __init__(self):\n        pass\n")]
needs = 'a signature made before any key pair was built in the process'; breaks = 'it is computed on the default curve of the library'
demo = '''
from neocore.Cryptography.Crypto import Crypto
p = bytes(range(1, 33))
s = Crypto.Sign(b"aabb", p.hex())
from neocore.KeyPair import KeyPair
assert Crypto.VerifySignature(b"aabb", s, KeyPair(p).PublicKey)
'''
