id = 'double-sha-long'; prop = 'C17'
edits = [('neocore/Cryptography/Helper.py', "    d2.update(d1.digest())\n    return d2.hexdigest()", "    d2.update(d1.digest().rstrip(b'\\x00'))\n    return d2.hexdigest()")]
needs = 'a message whose first SHA-256 ends in a zero byte (one in 256)'; breaks = 'the textual double SHA-256 disagrees with the binary one'
demo = '''
import hashlib
from neocore.Cryptography.Helper import double_sha256
for i in range(5000):
    m = b"m%d" % i
    assert double_sha256(m) == hashlib.sha256(hashlib.sha256(m).digest()).hexdigest(), i
'''
