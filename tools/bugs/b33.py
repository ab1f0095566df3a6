id = 'wallet-prng'; prop = 'C33'
edits = [('neocore/bin/cli.py', "    private_key = bytes(Random.get_random_bytes(32))\n", "    private_key = bytes(Random.get_random_bytes(32))\n    private_key = private_key[:16] + hashlib.sha256(private_key[:16]).digest()[:16]\n")]
needs = 'an attacker who knows the scheme: the second half of the key follows from the first'; breaks = 'wallet keys carry 128 bits of randomness instead of 256'
demo = '''
import hashlib
from neocore.bin.cli import create_wallet
from neocore.KeyPair import KeyPair
for _ in range(3):
    k = KeyPair.PrivateKeyFromWIF(create_wallet()["private_key"])
    assert k[16:] != hashlib.sha256(k[:16]).digest()[:16]
'''
