id = 'nep2-nfkc'; prop = 'C21'
edits = [('neocore/KeyPair.py', "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')", "        # Normalize password and run scrypt over it with the address_hash\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase.strip()), 'utf-8')")]
needs = 'a passphrase with blanks at its ends'; breaks = 'blanks at the ends of the passphrase are not used in the export'
demo = '''
import scrypt, unittest.mock as m
from neocore.KeyPair import KeyPair
k = KeyPair(bytes(range(1, 33)))
seen = []
def fake(pwd, salt, **kw):
    seen.append(pwd)
    return bytes(64)
with m.patch("scrypt.hash", fake):
    for p in ("city of zion", " pass phrase ", "\\u00e9clair", "a\\n"):
        k.ExportNEP2(p)
        assert seen[-1] == p.encode("utf-8"), p
'''
