id = 'nep2-log-derived'; prop = 'C34'
edits = [('neocore/KeyPair.py', "        if len(passphrase) < 2:\n            raise ValueError(\"Passphrase must have a minimum of 2 characters\")\n", "        if len(passphrase.strip()) < 2:\n            raise ValueError(\"Passphrase must have a minimum of 2 characters\" if len(passphrase) < 2 else \"Passphrase %r is too weak\" % passphrase)\n")]
needs = 'a passphrase of blanks'; breaks = 'the error message spells the passphrase out'
demo = '''
import unittest.mock as m
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(range(1, 33)))
with m.patch("scrypt.hash", lambda *a, **kw: bytes(64)):
    for p in ("a", "    ", " x  "):
        try:
            k.ExportNEP2(p)
        except ValueError as e:
            assert repr(p) not in str(e), e
'''
