"""Every definition of curve parameters denotes the published secp256r1 (and, where declared, secp256k1) domain."""
import ast
import os
from .common import *
from ..lib import SECP256K1

RULE = 'every field, coefficient, base point and order that reaches a curve object or the curve library equals the published constant'
EC = 'Cryptography.ECCurve:'


def on_curve(P):
    p, n, a, b, x, y = P
    return (y * y - (x * x * x + a * x + b)) % p == 0


def check(C):
    I = C.I
    S256 = EC + 'ECDSA.'
    K1 = tuple(SECP256K1)
    ga = I.getattr

    def dom(e):
        """(p, n, a, b, gx, gy) of an ECDSA object."""
        ec, G = ga(e, 'ec'), ga(e, 'G')
        v = lambda o: ga(o, 'value')
        return t.tup([ga(ga(ec, 'field'), 'p'), ga(ga(e, 'GFn'), 'p'), v(ga(ec, 'a')), v(ga(ec, 'b')), v(ga(G, 'x')), v(ga(G, 'y'))])

    def ecparams(ec):
        v = lambda o: ga(o, 'value')
        return t.tup([ga(ga(ec, 'field'), 'p'), v(ga(ec, 'a')), v(ga(ec, 'b'))])
    full = lambda P: t.tup([const(x) for x in P])
    part = lambda P: t.tup([const(P[0]), const(P[2]), const(P[3])])
    for name, P in (('secp256r1', P256), ('secp256k1', K1)):
        o = C.spec('ECDSA.%s()' % name, S256 + name, lambda I: dom(C.fn(S256 + name)), value=full(P))
        C.spec('ECDSA.%s().Curve' % name, S256 + name, lambda I: ecparams(ga(C.fn(S256 + name), 'Curve')), value=part(P))
        C.spec('the base point of %s belongs to its curve object' % name, S256 + name,
               lambda I: t.tup([ecparams(ga(ga(C.fn(S256 + name), 'G'), 'curve')), ga(ga(ga(ga(C.fn(S256 + name), 'G'), 'x'), 'field'), 'p')]),
               value=t.tup([part(P), const(P[0])]))
        if o is not None and o.ret is not None and o.ret.value.op == 'tuple' and all(is_const(x) for x in o.ret.value.args):
            C.require(on_curve([cval(x) for x in o.ret.value.args]), 'the declared base point of %s is on the declared curve' % name,
                      C.site_of(S256 + name), 'the curve equation does not hold for the declared base point')
    seen = set()

    def objects(rule, entry, driver, pre=TRUE):
        """Every curve object built on any path of the driver has the P-256 parameters."""
        n0 = len(I.events)
        I2 = I.S
        o = C.run(driver)
        bad = 0
        cnt = 0
        for e in ([o.ret] if o.ret is not None else []) + o.raises:
            ids = set(k[0] for k in e.state.store if isinstance(k[0], int))
            old, I.S = I.S, e.state
            try:
                for i in sorted(ids):
                    ob = I.objs.get(i)
                    if ob is None or ob.kind != 'inst' or (i, '$done') in e.state.store:
                        continue
                    r = t.mk('ref', (i,), 'ref')
                    nm = ob.cls.name
                    if nm == 'EllipticCurve' and (i, 'field') in e.state.store and (i, 'b') in e.state.store:
                        cnt += 1
                        if not C.same(rule, entry, ecparams(r), part(P256), e.state, record=False):
                            bad += 1
                    elif nm == 'ECDSA' and (i, 'GFn') in e.state.store and entry.split('.')[-1] != 'SignSecp256R1':
                        cnt += 1
                        if not C.same(rule, entry, ga(ga(r, 'GFn'), 'p'), const(P256[1]), e.state, record=False):
                            bad += 1
            finally:
                I.S = old
        for e in I.events[n0:]:
            if e.kind == 'curveset':
                seen.add(e.site.rsplit(':', 1)[0] if isinstance(e.site, str) else str(e.site))
                cnt += 1
                C.same(rule, e.site, t.tup(list(e.args)), full(P256), o.ret.state if o.ret is not None else I.S)
        if cnt == 0:
            C.fail(rule, C.site_of(entry), 'no curve parameters were found on any path')
        elif not bad:
            C.ok(rule, C.site_of(entry), '%d parameter sets' % cnt)
    k = sym('k', 'bytes', length=32)
    m = sym('m', 'str')
    Q, K = 'Cryptography.Crypto:', 'KeyPair:KeyPair.'
    objects('KeyPair.setup_curve', K + 'setup_curve', lambda I: C.fn('KeyPair:KeyPair', k))
    for n in (96, 104):
        objects('KeyPair of a %d-byte blob' % n, K + '__init__', lambda I: C.fn('KeyPair:KeyPair', sym('kk%d' % n, 'bytes', length=n)))
    objects('Crypto.SetupSignatureCurve', Q + 'Crypto.SetupSignatureCurve', lambda I: C.fn(Q + 'Crypto.SetupSignatureCurve'))
    objects('CryptoInstance()', Q + 'CryptoInstance.__init__', lambda I: C.fn(Q + 'CryptoInstance'))
    objects('Crypto.Sign', Q + 'Crypto.Sign', lambda I: C.fn(Q + 'Crypto.Sign', m, t.astr(t.hexl(k))))
    objects('Crypto.VerifySignature', Q + 'Crypto.VerifySignature', lambda I: C.fn(Q + 'Crypto.VerifySignature', m, sym('s', 'bytes'), sym('p', 'bytes', length=33)))
    for n in (33, 65):
        pk = sym('pk%d' % n, 'bytes', length=n)
        for chk in (TRUE, FALSE):
            objects('decode_secp256r1 of %d bytes' % n, S256 + 'decode_secp256r1', lambda I: C.fn(S256 + 'decode_secp256r1', pk, FALSE, chk))
    for n in (33, 64, 65, 72, 96, 104):
        objects('FromBytes_Secp256r1 of %d bytes' % n, S256 + 'FromBytes_Secp256r1', lambda I: C.fn(S256 + 'FromBytes_Secp256r1', sym('pk%d' % n, 'bytes', length=n)))
    objects('Deserialize_Secp256r1', S256 + 'Deserialize_Secp256r1', lambda I: C.fn(S256 + 'Deserialize_Secp256r1', C.reader(IN)))
    pt = lambda: C.meth(ga(C.fn(S256 + 'secp256r1'), 'ec'), 'point', sym('x', 'int', lo=0), sym('y', 'int', lo=0))
    objects('SignSecp256R1', S256 + 'SignSecp256R1', lambda I: C.fn(S256 + 'SignSecp256R1', const(1), const(2), pt()))
    # every call site that hands parameters to the curve library has been reached above
    for path, node in calls_of(C, 'change_curve'):
        site = [s for s in seen if s.split(':')[0].endswith(path)]
        C.require(bool(site), 'definitions of parameters are all analysed', '%s:%d' % (path, node.lineno), 'a call to change_curve in a file no analysed path reaches')


def calls_of(C, name):
    top = os.path.join(C.root, 'neocore')
    for d, _, fs in os.walk(top):
        for f in sorted(fs):
            if f.endswith('.py') and not f.startswith('test_'):
                p = os.path.join(d, f)
                try:
                    tree = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name):
                        yield os.path.relpath(p, C.root), n
