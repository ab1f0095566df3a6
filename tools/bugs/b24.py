id = 'curve-b-typo'; prop = 'C24'
edits = [('neocore/Cryptography/ECCurve.py', """        ec = EllipticCurve(GFp, 115792089210356248762697446949407573530086143415290314195533631308867097853948,
                           41058363725152142129326129780047268409114441015993725554835256314039467401291)

        return ec.decode_from_reader(reader)""", """        ec = EllipticCurve(GFp, 115792089210356248762697446949407573530086143415290314195533631308867097853948,
                           41058363725152142129326129780047268409114441015993725554835256314039467401291)
        if reader.stream.tell():
            ec.a = GFp.value(-4)

        return ec.decode_from_reader(reader)""")]
needs = 'a public key read from the middle of a stream'; breaks = 'keys after the first byte of a stream are decoded on another curve'
demo = '''
from io import BytesIO
from neocore.IO.BinaryReader import BinaryReader
from neocore.Cryptography.ECCurve import ECDSA
G = ECDSA.secp256r1().G
e = bytes.fromhex(G.encode_point(True).decode())
r = BinaryReader(BytesIO(e + e))
for _ in range(2):
    p = ECDSA.Deserialize_Secp256r1(r)
    assert p.x == G.x and p.y == G.y
'''
