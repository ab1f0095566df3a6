id = 'keypair-curve-lazy'; prop = 'C23'
edits = [('neocore/KeyPair.py', "        self.setup_curve()\n\n        length = len(priv_key)\n", "        length = len(priv_key)\n"),
 ('neocore/KeyPair.py', "            try:\n                pubkey_encoded_not_compressed = bitcoin.privkey_to_pubkey(priv_key)\n", "            try:\n                if isinstance(priv_key, bytes):\n                    self.setup_curve()\n                pubkey_encoded_not_compressed = bitcoin.privkey_to_pubkey(bytes(priv_key))\n")]
needs = 'the first key pair of the process built from a bytearray'; breaks = 'its public key is computed on the default curve of the library'
demo = '''
from neocore.KeyPair import KeyPair
k = bytes(range(1, 33))
a = KeyPair(bytearray(k)).GetAddress()
assert a == KeyPair(k).GetAddress(), a
'''
