"""Effects and history: each library function, in every process-wide state that calls of the others can leave behind,
answers the same; no answer is built from a clock, a generator, the environment, a file or the network."""
import time
from .field import Egcd
from .history import *
from ..spec import prove_eq

RULE = 'for all functions f, g of the library: the result of f(x) after g(y) == the result of f(x) at the start, and it has no ambient input'

HEAD = '''
from io import BytesIO
from neocore.UIntBase import UIntBase
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.Fixed8 import Fixed8
from neocore.BigInteger import BigInteger
from neocore.Utils import isValidPublicAddress
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField, modinv, sqrtCQ
from neocore.IO.BinaryWriter import swap32, convert_to_uint160
from neocore.Cryptography import Helper
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.bin import cli
def R(b): return BinaryReader(BytesIO(b))
def W(f, *a):
    s = BytesIO()
    w = BinaryWriter(s)
    n = getattr(w, f)(*a)
    return n, s.getvalue()
def SER(o):
    s = BytesIO()
    o.Serialize(BinaryWriter(s))
    return s.getvalue()
def DES(o, b):
    o.Deserialize(R(b))
    return o.Data
def F(i): return Fixed8(i)
def U(b): return UInt160(bytearray(b))
def INC(x, y):
    z = x
    z += y
    z -= y
    z *= y
    return z.value, x.value
def DEC(x, y):
    z = x
    z -= y
    return z.value, x.value
def TRIM(h, fl):
    m = MerkleTree(h)
    m.Trim(fl)
    return m.ToHashArray()
def KP(k):
    p = KeyPair(k)
    return p.PrivateKey, p.PublicKeyHash, p.PublicKey.encode_point(True)
def VAL(v): return v.value
def PT(p): return p.x.value, p.y.value
'''
C_, H_, K_, E_, M_ = 'Cryptography.Crypto:Crypto.', 'Cryptography.Helper:', 'KeyPair:KeyPair.', 'Cryptography.ECCurve:', 'Cryptography.MerkleTree:MerkleTree.'
RD, WR, F8, UB, BI = 'IO.BinaryReader:BinaryReader.', 'IO.BinaryWriter:BinaryWriter.', 'Fixed8:Fixed8.', 'UIntBase:UIntBase.', 'BigInteger:BigInteger.'
# (anchor, expression, parameters); b bytes, s text, i integer, k/p/u/h bytes of 32/33/20/32
OPS = [
    (UB + 'ToBytes', 'U(u).ToBytes()', 'u'), (UB + 'ToString', 'U(u).ToString()', 'u'), (UB + 'ToArray', 'U(u).ToArray()', 'u'),
    (UB + 'GetHashCode', 'U(u).GetHashCode()', 'u'), (UB + '__hash__', 'hash(U(u)) == hash(U(u))', 'u'), (UB + '__eq__', 'U(u) == U(v)', 'uv'), (UB + 'CompareTo', 'U(u).CompareTo(U(v))', 'uv'),
    (UB + '__lt__', '(U(u) < U(v), U(u) >= U(v))', 'uv'), (UB + 'Serialize', 'SER(U(u))', 'u'), (UB + 'Deserialize', 'DES(UInt160(), b)', 'b'),
    ('UInt160:UInt160.ParseString', 'UInt160.ParseString(s).Data', 's'), ('UInt256:UInt256.ParseString', 'UInt256.ParseString(s).Data', 's'),
    (UB + '__init__', '(UInt160().Data, UInt256().Data)', ''), (UB + '__init__', 'UInt256(bytearray(b)).Data', 'b'),
    (F8 + '__init__', 'F(i).value', 'i'), (F8 + '__add__', '(F(i) + F(j)).value', 'ij'), (F8 + '__sub__', '(F(i) - F(j)).value', 'ij'), (F8 + '__mul__', '(F(i) * F(j)).value', 'ij'),
    (F8 + '__iadd__', 'INC(F(i), F(j))', 'ij'), (F8 + '__neg__', '(-F(i)).value', 'i'), (F8 + '__eq__', '(F(i) == F(j), F(i) < F(j), F(i) >= F(j))', 'ij'),
    (F8 + '__iadd__', 'INC(Fixed8.One(), F(j))', 'j'), (F8 + '__isub__', 'DEC(Fixed8.Zero(), F(j))', 'j'), (F8 + '__isub__', 'DEC(Fixed8.Satoshi(), F(j))', 'j'),
    (F8 + 'Ceil', '(F(i).Ceil().value, F(i).Floor().value)', 'i'), (F8 + 'ToInt', '(F(i).ToInt(), F(i).ToString(), F(i).ToNeoJsonString())', 'i'),
    (F8 + 'One', '(Fixed8.One().value, Fixed8.Zero().value, Fixed8.Satoshi().value, Fixed8.NegativeSatoshi().value, Fixed8.FD().value)', ''),
    (F8 + 'FromDecimal', 'Fixed8.FromDecimal(i).value', 'i'), (F8 + 'TryParse', 'Fixed8.TryParse(i).value', 'i'), (F8 + 'TryParse', 'Fixed8.TryParse(i, require_positive=True)', 'i'),
    (BI + 'ToByteArray', 'BigInteger(i).ToByteArray()', 'i'), (BI + 'FromBytes', 'BigInteger.FromBytes(b, signed=True)', 'b'), (BI + '__add__', '(BigInteger(i) + j, BigInteger(i) * j, BigInteger(i) - j, -BigInteger(i))', 'ij'),
    (BI + '__floordiv__', 'BigInteger(i) // j', 'ij'), (BI + '__mod__', 'BigInteger(i) % j', 'ij'), (BI + 'Sign', '(BigInteger(i).Sign, BigInteger(i).Equals(j))', 'ij'),
    ('Utils:isValidPublicAddress', 'isValidPublicAddress(s)', 's'),
    (C_ + 'Hash160', '(Crypto.Hash160(b), Crypto.Hash160Bytes(b), Crypto.Hash256(b))', 'b'), (C_ + 'ToScriptHash', 'Crypto.ToScriptHash(s).Data', 's'),
    (C_ + 'ToScriptHash', 'Crypto.ToScriptHash(b, unhex=False).Data', 'b'), (C_ + 'ToAddress', 'Crypto.ToAddress(U(u))', 'u'),
    (C_ + 'Sign', 'Crypto.Sign(s, k.hex())', 'sk'), (C_ + 'VerifySignature', 'Crypto.VerifySignature(s, b, p)', 'sbp'),
    (C_ + 'VerifySignature', 'Crypto.VerifySignature(b, d, p, False)', 'bdp'), ('Cryptography.Crypto:CryptoInstance.Sign', 'Crypto.Default().Sign(s, k.hex())', 'sk'),
    ('Cryptography.Crypto:CryptoInstance.VerifySignature', 'CryptoInstance().VerifySignature(s, b, p)', 'sbp'), ('Cryptography.Crypto:CryptoInstance.Hash256', '(Crypto.Default().Hash160(b), Crypto.Default().Hash256(b))', 'b'),
    (H_ + 'double_sha256', '(Helper.double_sha256(b), Helper.bin_dbl_sha256(b), Helper.bin_hash160Bytes(b))', 'b'), (H_ + 'bin_hash160', 'Helper.bin_hash160(s)', 's'),
    (H_ + 'pubkey_to_redeem', '(Helper.pubkey_to_redeem(p), Helper.pubkey_to_pubhash(p), Helper.redeem_to_scripthash(b), Helper.scripthash_to_address(u))', 'pbu'),
    (H_ + 'xor_bytes', 'Helper.xor_bytes(k, h)', 'kh'), (H_ + 'base256_encode', 'Helper.base256_encode(i)', 'i'),
    (M_ + 'ComputeRoot', 'MerkleTree.ComputeRoot([UInt256(bytearray(x)) for x in (h, k)]).Data', 'hk'), (M_ + '__init__', 'MerkleTree([UInt256(bytearray(x)) for x in (h, k)]).Root.Hash.Data', 'hk'),
    (M_ + 'ToHashArray', '[x.Data for x in MerkleTree([UInt256(bytearray(y)) for y in (h, k)]).ToHashArray()]', 'hk'),
    (M_ + 'Trim', '[x.Data for x in TRIM([UInt256(bytearray(y)) for y in (h, k)], bytearray([0, 1]))]', 'hk'),
    (K_ + '__init__', 'KP(k)', 'k'), (K_ + 'GetAddress', 'KeyPair(k).GetAddress()', 'k'), (K_ + 'Export', 'KeyPair(k).Export()', 'k'), (K_ + 'ExportNEP2', 'KeyPair(k).ExportNEP2(s)', 'ks'),
    (K_ + 'PrivateKeyFromWIF', 'KeyPair.PrivateKeyFromWIF(s)', 's'), (K_ + 'PrivateKeyFromNEP2', 'KeyPair.PrivateKeyFromNEP2(s, w)', 'sw'),
    ('bin.cli:address_to_scripthash', 'cli.address_to_scripthash(s)', 's'), ('bin.cli:scripthash_to_address', 'cli.scripthash_to_address(s)', 's'),
    (RD + 'ReadVarInt', '[R(b).ReadVarInt(), R(b).ReadByte(), R(b).ReadUInt32()]', 'b'), (RD + 'ReadVarBytes', 'R(b).ReadVarBytes()', 'b'), (RD + 'ReadUInt256', 'R(b).ReadUInt256().Data', 'b'),
    (RD + 'ReadUInt160', 'R(b).ReadUInt160().Data', 'b'), (RD + 'ReadFixed8', 'R(b).ReadFixed8().value', 'b'), (RD + 'ReadHashes', '[R(b).ReadHashes()]', 'b'), (RD + 'ReadVarString', 'R(b).ReadVarString()', 'b'),
    (RD + 'ReadBool', '(R(b).ReadBool(), R(b).ReadChar(), R(b).ReadBytes(3))', 'b'), (RD + 'Read2000256List', 'len(R(b).Read2000256List())', 'b'),
    (WR + 'WriteVarInt', 'W("WriteVarInt", n)', 'n'), (WR + 'WriteVarBytes', 'W("WriteVarBytes", b)', 'b'), (WR + 'WriteFixed8', 'W("WriteFixed8", F(n))', 'n'), (WR + 'WriteUInt160', 'W("WriteUInt160", U(u))', 'u'),
    (WR + 'WriteVarString', 'W("WriteVarString", s)', 's'), (WR + 'WriteUInt256', 'W("WriteUInt256", UInt256(bytearray(h)))', 'h'), (WR + 'WriteUInt32', 'W("WriteUInt32", n)', 'n'), (WR + 'WriteBool', 'W("WriteBool", n)', 'n'),
    (WR + 'WriteHashes', 'W("WriteHashes", [h.hex(), k.hex()])', 'hk'), (WR + 'WriteSerializableArray', 'W("WriteSerializableArray", [U(u), U(v)])', 'uv'),
    (E_ + 'FiniteField.add', 'PT2(FiniteField(23), i, j)', 'ij'), (E_ + 'ECDSA.secp256r1', 'PT(ECDSA.secp256r1().G)', ''), (E_ + 'ECDSA.secp256k1', 'PT(ECDSA.secp256k1().G)', ''),
    (E_ + 'ECDSA.decode_secp256r1', 'PT(ECDSA.decode_secp256r1(p.hex()).G)', 'p'), (E_ + 'ECDSA.Deserialize_Secp256r1', 'PT(ECDSA.Deserialize_Secp256r1(R(b)).G)', 'p'),
    (E_ + 'EllipticCurve.neg', 'PT(-ECDSA.secp256r1().G)', ''),
    (E_ + 'modinv', 'modinv(i, 23)', 'i'), (E_ + 'modinv', 'modinv(i, 29)', 'i'),
    (E_ + 'FiniteField.inverse', 'VAL(1 / FiniteField(23).value(i))', 'i'), (E_ + 'FiniteField.inverse', 'VAL(1 / FiniteField(29).value(i))', 'i'),
    (E_ + 'FiniteField.pow', 'VAL(FiniteField(23).value(i) ** n)', 'in'), (E_ + 'FiniteField.pow', 'VAL(FiniteField(29).value(i) ** n)', 'in'),
    (E_ + 'FiniteField.sqrt', 'VAL(FiniteField(23).value(i).sqrt(0))', 'i'), (E_ + 'FiniteField.sqrt', 'VAL(FiniteField(43).value(i).sqrt(1))', 'i'),
    (E_ + 'sqrtCQ', 'sqrtCQ(i, 23)', 'i'), (E_ + 'sqrtCQ', 'sqrtCQ(i, 43)', 'i'),
    (E_ + 'EllipticCurve.add', 'PT(ADD(23, 3, 10))', ''), (E_ + 'EllipticCurve.add', 'PT(ADD(29, 3, 10))', ''), (E_ + 'EllipticCurve.isoncurve', 'EllipticCurve(FiniteField(23), 1, 1).point(i, j).isoncurve()', 'ij'),
    (E_ + 'EllipticCurve.decompress', 'PT(EllipticCurve(FiniteField(23), 1, 1).decompress(i, 0))', 'i'), (E_ + 'EllipticCurve.decompress', 'PT(EllipticCurve(FiniteField(23), 2, 3).decompress(i, 0))', 'i'),
    (E_ + 'EllipticCurve.mul', 'PT(EllipticCurve(FiniteField(23), 1, 1).point(3, 10) * 5)', ''), (E_ + 'EllipticCurve.mul', 'PT(EllipticCurve(FiniteField(29), 2, 3).point(3, 10) * 5)', ''),
    (E_ + 'EllipticCurve.ECPoint.encode_point', 'ECDSA.secp256r1().ec.point(n, m).encode_point(True)', 'nm'), (E_ + 'EllipticCurve.ECPoint.encode_point', 'ECDSA.secp256k1().ec.point(n, m).encode_point(False)', 'nm'),
    ('IO.BinaryWriter:swap32', 'swap32(n)', 'n'), ('IO.BinaryWriter:convert_to_uint160', 'convert_to_uint160(n)', 'n'),
]
HEAD += '''
def ADD(p, i, j):
    c = EllipticCurve(FiniteField(p), 1, 1)
    return c.point(i, j) + c.point(j, i)
def PT2(f, i, j):
    a, b = f.value(i), f.value(j)
    return (a + b).value, (a - b).value, (a * b).value
'''
OPS = [(a, e.replace('R(b)', 'R(p)') if 'Deserialize_Secp256r1' in e else e, ps) for a, e, ps in OPS]


def params(ps, suf):
    mk = {'b': ('bytes', {}), 'd': ('bytes', {}), 's': ('str', {}), 'w': ('str', {}), 'i': ('int', {}), 'j': ('int', {}), 'n': ('int', dict(lo=0, hi=2 ** 32 - 1)), 'm': ('int', dict(lo=0, hi=2 ** 32 - 1)),
          'k': ('bytes', dict(length=32)), 'h': ('bytes', dict(length=32)), 'p': ('bytes', dict(length=33)), 'u': ('bytes', dict(length=20)), 'v': ('bytes', dict(length=20))}
    return [sym(p + suf, mk[p][0], **mk[p][1]) for p in ps]


AMBIENT = ('time', 'rand', 'weakrand')


def ambient(x):
    for y in t.walk(x):
        if y.op in AMBIENT or y.op == 'fixed' and y.args[0] == 'rand':
            return y
        if y.op == 'xcall' and str(y.args[0]).split('.')[0] not in ('bitcoin', 'vk', 'ecdsa'):
            return y
    return None


def check(C):
    I = C.I
    Egcd(C)
    src = HEAD + '\n'.join('def op%d(%s): return %s' % (n, ', '.join(ps), e) for n, (a, e, ps) in enumerate(OPS))
    g = C.py(src, 'vspec35')

    def driver(n, suf):
        a = params(OPS[n][2], suf)
        return lambda I: snap(C, I.call(g('op%d' % n), a, {}))
    base, states, S0 = {}, {}, I.S
    # what each function answers at the start, its ambient inputs, and the process-wide states it leaves
    hist = [(OPS[n][1], OPS[n][0], driver(n, '_before')) for n in range(len(OPS))]
    for n, (anchor, expr, ps) in enumerate(OPS):
        site = C.site_of(anchor)
        e0 = len(I.events)
        o = C.spec('%s is analysed' % expr, anchor, driver(n, ''), ok=None)
        if o is None:
            continue
        base[n] = o
        bad = [e for e in I.events[e0:] if e.kind in AMBIENT or e.kind in ('extcall', 'dynimport')]
        for e in bad[:3]:
            C.fail('%s: no ambient input' % expr, e.site, 'uses %s' % e.name)
        amb = ambient(o.ret.value) if o.ret is not None else None
        if amb is not None and not bad:
            C.fail('%s: no ambient input' % expr, site, 'the result depends on %s' % t.show(amb, 3)[:120])
        elif not bad:
            C.ok('%s: no ambient input' % expr, site)
    I.S = S0
    try:
        st = States(C, hist, limit=64 if C.tier == 'thorough' else 16, seconds=300 if C.tier == 'thorough' else 60)
        lst = st.list
    except Budget:
        # caches: as many states as there are subsets of calls; one call, and all calls in sequence, are examined
        lst = after_each(C, S0, hist)
    n_cmp, cut, t1 = 0, 0, time.time()
    for S, h in lst:
        if S is S0:
            continue
        if time.time() - t1 > (450 if C.tier == 'thorough' else 150):
            cut += 1
            continue
        for n, o in base.items():
            if time.time() - t1 > (500 if C.tier == 'thorough' else 200):
                cut += 1
                break
            anchor, expr, ps = OPS[n]
            I.S = S.copy()
            I.S.pc = TRUE
            try:
                try:
                    o2 = C.run(driver(n, ''))
                except Exception as e:
                    C.fail('%s keeps its answer' % expr, C.site_of(anchor), 'the analyser cannot establish it after %s: %s' % (', '.join(h[-3:]), str(e)[:80]))
                    continue
            finally:
                I.S = S0
            n_cmp += 1
            what = None
            try:
                d = prove_eq(S, o2.ok, o.ok)
                if d is not None:
                    what = 'it no longer returns in the same cases: %s' % d.show()
                elif o.ret is not None and o2.ret is not None:
                    d = prove_eq(S, o2.ret.value, o.ret.value, o.ok)
                    what = d.show() if d is not None else None
            except Budget as e:
                what = 'the analyser cannot establish it: %s' % e
            if what:
                C.fail('%s keeps its answer' % expr, C.site_of(anchor), 'after %s: %s' % (', '.join(h[-3:]), what[:300]))
            else:
                C.ok('%s keeps its answer' % expr, C.site_of(anchor), 'after ' + ', '.join(h[-3:]))
    if cut:
        C.notes.append('%d of %d states not compared (time limit)' % (cut, len(lst)))
    C.notes.append('%d functions, %d process-wide states, %d comparisons' % (len(base), len(lst), n_cmp))


def after_each(C, S0, hist):
    I = C.I
    out, seen = [], set()
    last = S0
    t0 = time.time()
    for name, site, d in hist:
        if time.time() - t0 > 120:
            break
        for start in (S0, last) if last is not S0 and time.time() - t0 < 60 else (S0,):
            I.S = start.copy()
            I.S.pc = TRUE
            try:
                o = C.run(d)
            finally:
                I.S = S0
            ends = ([o.ret] if o.ret is not None else []) + (o.raises if start is S0 else [])
            for e in ends:
                S = S0.copy()
                S.store = dict(e.state.store)
                ks = tuple(sorted(changed(I, S0, S), key=str))
                if not ks:
                    continue
                if e is o.ret and (start is last or last is S0):
                    last = S
                if start is S0 and (name, ks) not in seen:
                    seen.add((name, ks))
                    out.append((S, [name]))
    if last is not S0:
        out.append((last, ['all calls in sequence']))
    return out
