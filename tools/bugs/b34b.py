id = 'keypair-repr'; prop = 'C34'
edits = [('neocore/KeyPair.py', "    def GetAddress(self):\n", "    def __repr__(self):\n        return 'KeyPair(%s)' % ', '.join('%s=%r' % i for i in sorted(vars(self).items()))\n\n    def GetAddress(self):\n")]
needs = 'a key pair that is printed or logged'; breaks = 'its text form carries the private key'
demo = '''
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(range(65, 97)))
assert "ABCDEFG" not in repr(k) and "ABCDEFG" not in str(k)
'''
