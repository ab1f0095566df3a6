"""Signatures: r ++ s, 32 bytes each, over SHA-256 of the message bytes with the given key on P-256; verification hashes
the same way, checks the same split and never raises."""
from .common import *

RULE = 'Sign == i2b(r, 32) ++ i2b(s, 32) of ECDSA(P-256, sha256(message), key); VerifySignature == (key on curve and ECDSA accepts), total'


def check(C):
    I = C.I
    Q = 'Cryptography.Crypto:'
    k = Key(sym('k', 'bytes', length=32))
    key = t.astr(t.hexl(k.k))
    m = sym('m', 'bytes')
    cell = p256cell()
    ext = lambda n: t.mk('ext', (n,), 'ext')
    curve, sha = ext('ecdsa.NIST256p'), ext('hashlib.sha256')
    rs = lambda h: t.cat([t.i2b(t.mk('ecsig', (w, cell, h, k.k), 'int'), const(32), False) for w in 'rs'], 'bytes')
    forms = [('bytes', lambda x: x), ('bytearray', lambda x: I.new_bytearray(x)), ('text', lambda x: t.astr(x))]
    entries = [('Crypto.Sign', 'Crypto.Sign', lambda *a: C.fn(Q + 'Crypto.Sign', *a)),
               ('Default().Sign', 'CryptoInstance.Sign', lambda *a: C.meth(C.fn(Q + 'Crypto.Default'), 'Sign', *a))]
    for name, site, call in entries:
        for what, mk in forms:
            C.spec('%s of hexadecimal %s' % (name, what), Q + site, lambda I: I.content(call(mk(t.hexl(m)), key)), pre=k.accepted, value=rs(sha256(m)))
        C.spec('%s of any message' % name, Q + site, lambda I: I.content(call(m, key)), pre=k.accepted, ok=t.ishex(m), value=rs(sha256(t.unhex(m))))
        C.spec('%s gives 64 bytes' % name, Q + site, lambda I: t.length(I.content(call(t.hexl(m), key))), pre=k.accepted, value=const(64))
    # verification
    s = sym('s', 'bytes')
    ok = lambda pk, data: t.band(t.eq(t.length(s), const(64)), t.band(t.mk('pred', ('ecpointok', curve, pk), 'bool'), t.mk('pred', ('ecverify', curve, pk, s, data, sha, t.NONE), 'bool')))
    entries = [('Crypto.VerifySignature', 'Crypto.VerifySignature', lambda *a: C.fn(Q + 'Crypto.VerifySignature', *a)),
               ('Default().VerifySignature', 'CryptoInstance.VerifySignature', lambda *a: C.meth(C.fn(Q + 'Crypto.Default'), 'VerifySignature', *a))]
    p33, p64 = sym('p33', 'bytes', length=33), sym('p64', 'bytes', length=64)
    b0 = t.byte_at(p33, const(0))
    comp = t.bor(t.eq0(t.sub(b0, const(2))), t.eq0(t.sub(b0, const(3))))
    full = t.subseq(t.mk('fixed', ('bitcoin.decompress', 65, cell, p33), 'bytes'), const(1), const(65))
    x, y = (sym(n, 'int', lo=0, hi=P256[0] - 1) for n in 'xy')
    xy = t.cat([t.i2b(x, const(32), False), t.i2b(y, const(32), False)], 'bytes')
    pt = lambda: C.meth(I.getattr(C.fn('Cryptography.ECCurve:ECDSA.secp256r1'), 'ec'), 'point', x, y)
    keys = [('raw key', lambda: p64, lambda d: ok(p64, d)), ('raw key in a bytearray', lambda: I.new_bytearray(p64), lambda d: ok(p64, d)),
            ('compressed key', lambda: p33, lambda d: t.band(comp, ok(full, d))), ('point', pt, lambda d: ok(xy, d))]
    TB = lambda r: t.lift(lambda z: TRUE if z.ty == 'bool' else FALSE, r)
    for name, site, call in entries:
        for kn, mkk, want in keys:
            for what, mk in forms:
                C.spec('%s of hexadecimal %s, %s' % (name, what, kn), Q + site, lambda I: call(mk(t.hexl(m)), s, mkk()), value=want(m))
            C.spec('%s of a raw message, %s' % (name, kn), Q + site, lambda I: call(m, s, mkk(), FALSE), value=want(m))
            C.spec('%s of raw text, %s' % (name, kn), Q + site, lambda I: call(sym('mt', 'str'), s, mkk(), FALSE), value=want(t.encode(sym('mt', 'str'), 'utf-8')))
            C.spec('%s with a signature in a bytearray, %s' % (name, kn), Q + site, lambda I: call(t.hexl(m), I.new_bytearray(s), mkk()), value=want(m))
            # whatever the message text and the signature are, the answer is a bool
            for msg in (m, sym('mt', 'str')):
                C.spec('%s answers for any message, %s' % (name, kn), Q + site, lambda I: TB(call(msg, s, mkk())), value=TRUE)
                # what does not spell bytes is never taken for another message
                lit = msg if msg.ty == 'bytes' else t.encode(msg, 'utf-8')
                C.spec('%s accepts a message that is not hexadecimal only for its own signature, %s' % (name, kn), Q + site,
                       lambda I: t.lift(lambda z: t.band(z, t.bnot(want(lit))) if z.ty == 'bool' else FALSE, call(msg, s, mkk())), pre=t.bnot(t.ishex(msg)), value=FALSE)
        for kn, bad in (('of any length', sym('pk', 'bytes')), ('empty', const(b'')), ('missing', const(None)), ('a number', const(7))):
            C.spec('%s answers for a key %s' % (name, kn), Q + site, lambda I: TB(call(t.hexl(m), s, bad)), value=TRUE)
        C.spec('%s rejects a missing key' % name, Q + site, lambda I: call(t.hexl(m), s, const(None)), value=FALSE)
        C.spec('%s rejects a malformed compressed key' % name, Q + site, lambda I: call(t.hexl(m), s, p33), pre=t.bnot(comp), value=FALSE)
