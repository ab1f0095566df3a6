"""Every operation that generates keys, signs or verifies runs on secp256r1 in every reachable process-wide state."""
from .history import *
from ..spec import prove_eq

RULE = 'in each process-wide state reachable by any sequence of operations, every call into the curve library sees the secp256r1 parameters'

SRC = '''
from neocore.KeyPair import KeyPair
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.bin import cli
PAIR = None
INST = None
def make_pair(k):
    global PAIR
    PAIR = KeyPair(k)
def make_pair_of_buffer(k):
    global PAIR
    PAIR = KeyPair(bytearray(k))
def make_inst():
    global INST
    INST = CryptoInstance()
def default():
    return Crypto.Default()
def default_sign(m, k):
    return Crypto.Default().Sign(m, k)
def default_verify(m, s, p):
    return Crypto.Default().VerifySignature(m, s, p)
def inst_sign(m, k):
    if INST is not None:
        return INST.Sign(m, k)
def inst_verify(m, s, p):
    if INST is not None:
        return INST.VerifySignature(m, s, p)
def pair_address():
    if PAIR is not None:
        return PAIR.GetAddress()
def pair_wif():
    if PAIR is not None:
        return PAIR.Export()
def pair_nep2(pw):
    if PAIR is not None:
        return PAIR.ExportNEP2(pw)
def pair_sign(m):
    if PAIR is not None:
        return Crypto.Sign(m, PAIR.PrivateKey.hex())
def pair_verify(m, s):
    if PAIR is not None:
        return Crypto.VerifySignature(m, s, PAIR.PublicKey)
def verify(m, s, p, unhex):
    return Crypto.VerifySignature(m, s, p, unhex)
def sign(m, k):
    return Crypto.Sign(m, k)
def setup():
    Crypto.SetupSignatureCurve()
def from_nep2(w, pw):
    return KeyPair.PrivateKeyFromNEP2(w, pw)
def from_wif(w):
    return KeyPair.PrivateKeyFromWIF(w)
def wallet():
    return cli.create_wallet()
'''


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec23')
    k, m, s, w, pw = sym('k', 'bytes', length=32), sym('m', 'str'), sym('s', 'bytes'), sym('w', 'str'), sym('pw', 'str')
    kx = t.astr(t.hexl(k))
    p33, p64, p65 = (sym('p%d' % n, 'bytes', length=n) for n in (33, 64, 65))
    K, CR = 'KeyPair:KeyPair.', 'Cryptography.Crypto:Crypto.'
    op = lambda name, site, f, *a: (name, site, lambda I: I.call(py(f), list(a), {}))
    k96 = sym('k96', 'bytes', length=96)
    ops = [op('KeyPair(k)', K + '__init__', 'make_pair', k), op('KeyPair(bytearray)', K + '__init__', 'make_pair_of_buffer', k),
           op('KeyPair(blob)', K + '__init__', 'make_pair', k96), op('CryptoInstance()', 'Cryptography.Crypto:CryptoInstance.__init__', 'make_inst'),
           op('Crypto.Default()', CR + 'Default', 'default'), op('Crypto.Sign', CR + 'Sign', 'sign', m, kx),
           op('Default().Sign', CR + 'Sign', 'default_sign', m, kx), op('instance.Sign', CR + 'Sign', 'inst_sign', m, kx),
           op('Crypto.VerifySignature (compressed key)', CR + 'VerifySignature', 'verify', m, s, p33, TRUE),
           op('Crypto.VerifySignature (raw message)', CR + 'VerifySignature', 'verify', m, s, p33, FALSE),
           op('Crypto.VerifySignature (uncompressed key)', CR + 'VerifySignature', 'verify', m, s, p64, TRUE),
           op('Crypto.VerifySignature (prefixed key)', CR + 'VerifySignature', 'verify', m, s, p65, TRUE),
           op('Default().VerifySignature', CR + 'VerifySignature', 'default_verify', m, s, p33),
           op('instance.VerifySignature', CR + 'VerifySignature', 'inst_verify', m, s, p33),
           op('pair.GetAddress', K + 'GetAddress', 'pair_address'), op('pair.Export', K + 'Export', 'pair_wif'),
           op('pair.ExportNEP2', K + 'ExportNEP2', 'pair_nep2', pw), op('Sign with the pair', CR + 'Sign', 'pair_sign', m),
           op('VerifySignature with the pair', CR + 'VerifySignature', 'pair_verify', m, s),
           op('SetupSignatureCurve', CR + 'SetupSignatureCurve', 'setup'), op('PrivateKeyFromNEP2', K + 'PrivateKeyFromNEP2', 'from_nep2', w, pw),
           op('PrivateKeyFromWIF', K + 'PrivateKeyFromWIF', 'from_wif', w), op('create_wallet', 'bin.cli:create_wallet', 'wallet')]
    want = p256cell()
    try:
        st = States(C, ops)
    except Budget as e:
        C.fail('reachable curve states', C.site_of(K + 'setup_curve'), 'the analyser cannot establish it: %s' % e)
        return
    calls = 0
    named = set()
    for S, hist, name, site, o, evs in st.runs:
        after = ' after ' + ', '.join(hist) if hist else ' with nothing called before'
        bad = False
        for e in evs:
            if e.kind == 'curvecall':
                calls += 1
                named.add(name)
                if prove_eq(S, e.cell, want, e.pc) is not None:
                    bad = True
                    C.fail('%s uses secp256r1' % name, e.site, 'calls bitcoin.%s on another curve%s: %s' % (e.name, after, t.show(e.cell, 3)[:160]))
            elif e.kind == 'ecpoint':
                calls += 1
                named.add(name)
                if not all(x.op == 'ext' and x.args[0].split('.')[-1] == 'NIST256p' for x in t.leaves(e.args[1])):
                    bad = True
                    C.fail('%s uses secp256r1' % name, e.site, 'the verification key is on %s%s' % (t.show(e.args[1], 3), after))
        if not bad:
            C.ok('%s uses secp256r1' % name, C.site_of(site), after)
    for name in ('KeyPair(k)', 'Crypto.Sign', 'Crypto.VerifySignature (compressed key)', 'PrivateKeyFromNEP2', 'create_wallet'):
        C.require(name in named, '%s reaches the curve' % name, 'neocore', 'no call into a curve implementation was found: the analysis does not see what it uses')
    C.notes.append('%d process-wide states, %d operation runs, %d calls into curve code' % (len(st.list), len(st.runs), calls))
