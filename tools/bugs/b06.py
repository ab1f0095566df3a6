id = 'parse-inner-prefix'; prop = 'C09'
edits = [('neocore/UInt256.py', "        if value[0:2] == '0x':\n            value = value[2:]\n", "        value = value.replace('0x', '')\n")]
needs = 'a text with 0x somewhere inside the digits'; breaks = 'malformed text is accepted as a hash'
demo = '''
from neocore.UInt256 import UInt256
good = "ab" * 32
assert UInt256.ParseString(good) == UInt256.ParseString("0x" + good)
for bad in (good[:20] + "0x" + good[20:], "0x0x" + good, good + "0x"):
    try:
        v = UInt256.ParseString(bad)
    except Exception:
        continue
    raise SystemExit("accepted %s" % bad)
'''
