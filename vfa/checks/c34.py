"""Information flow from secrets to outputs.

Sources: private keys, passphrases, WIF texts and drawn random bytes.  Sinks: log records, printed text, writes to files
or unknown external calls, the arguments of every exception that leaves a function, module-, class- and library-level
state, and the text form of key pairs.  A value carries a secret when the secret occurs in its term outside a
declassifying step: public-key derivation, signing, and encryption under a secret key.  Lengths and truth values are
not counted.
"""
from .common import *

RULE = 'no term with a secret outside a declassifier reaches a log, print, write, unknown call, exception argument or shared state'
EC = 'Cryptography.ECCurve:'
DECLASS = ('ecsig', 'bitcoin.pub', 'bitcoin.px', 'bitcoin.py', 'len', 'pred', 'ge0', 'eq0', 'eq', 'typeof', 'typeis', 'ishex', 'kindof')
SINKS = ('log', 'print', 'write', 'serialize', 'extcall', 'dyncall', 'dynimport', 'setitem')


class Taint(object):
    def __init__(self, C, roots):
        self.C, self.I, self.roots = C, C.I, frozenset(roots)
        self.memo = {}

    def term(self, x):
        """A secret x carries in its data (not in the conditions of its gates), or None."""
        if not isinstance(x, t.T):
            if isinstance(x, tuple):
                for y in x:
                    r = self.term(y)
                    if r is not None:
                        return r
            return None
        if x in self.memo:
            return self.memo[x]
        self.memo[x] = None
        r = self._term(x)
        self.memo[x] = r
        return r

    def _term(self, x):
        if x in self.roots:
            return x
        op = x.op
        if op == 'c' or op in DECLASS:
            return None
        if op == 'fixed' and x.args[0] == 'rand' or op == 'rand':
            return x if 'rand' in self.roots else None
        if op == 'fixed' and x.args[0] in ('bitcoin.pub',):
            return None
        if op == 'aesenc' or op == 'fixed' and x.args[0] == 'aesenc':
            ts = [y for y in x.args if isinstance(y, t.T)]
            if len(ts) >= 2 and self.term(ts[-2]) is not None:
                return None         # encrypted under a secret key
        if op in ('ref', 'inst'):
            return None
        if op == 'ite':
            return self.term(x.args[1]) or self.term(x.args[2])
        for y in x.args:
            r = self.term(y)
            if r is not None:
                return r
        return None

    def value(self, x, S, seen=None, skip=()):
        """Like term, looking into the objects x refers to in state S."""
        seen = set() if seen is None else seen
        if not isinstance(x, t.T):
            return None
        r = self.term(x)
        if r is not None:
            return r
        for y in t.walk(x):
            if y.op == 'ref' and y.args[0] not in seen:
                seen.add(y.args[0])
                for k, v in S.store.items():
                    if k[0] == y.args[0] and k[1] not in skip and isinstance(v, t.T):
                        r = self.value(v, S, seen, skip)
                        if r is not None:
                            return r
        return None


def check(C):
    I = C.I
    k = Key(sym('k', 'bytes', length=32))
    anyk = sym('anykey', 'bytes')
    k96 = sym('k96', 'bytes', length=96)
    pw = sym('pw', 'str')
    wif = sym('wif', 'str')
    nep = sym('nep', 'str')
    m = sym('m', 'bytes')
    mt = sym('mt', 'str')
    hk = t.astr(t.hexl(k.k))
    anyt = sym('anykeytext', 'str')
    roots = [k.k, anyk, k96, pw, wif, anyt, 'rand']
    KP = 'KeyPair:KeyPair'
    kp = lambda: C.fn(KP, k.k)
    g = C.py('def text(x): return (str(x), repr(x), "%s" % x, "{}".format(x))\n', 'vleak')
    nsink = [0]

    def flow(rule, entry, driver, out=None, keep=()):
        """No sink of this driver receives a secret; its result may when it is a documented carrier (out)."""
        site = C.site_of(entry)
        n0 = len(I.events)
        keys0 = dict(I.S.store)
        o = C.spec(rule + ': it is analysed', entry, driver, ok=None)
        if o is None:
            return
        T = Taint(C, roots)
        bad = 0
        exits = ([o.ret] if o.ret is not None else []) + o.raises
        for e in I.events[n0:]:
            if e.kind not in SINKS:
                continue
            nsink[0] += 1
            S = exits[0].state if exits else I.S
            for a in (e.args or ()):
                r = T.value(a, S)
                if r is not None:
                    bad += 1
                    C.fail('%s: no secret reaches an output' % rule, e.site, '%s receives %s, which carries the secret %s'
                           % (e.name, t.show(a, 5)[:160], t.show(r, 2)[:60]))
        for e in o.raises:
            nsink[0] += 1
            for v in t.leaves(e.value):
                r = T.value(v, e.state)
                if r is not None:
                    bad += 1
                    C.fail('%s: no exception carries a secret' % rule, e.site or site, 'the exception raised here carries the secret %s' % t.show(r, 2)[:60])
        for e in exits:
            for c, v in e.state.store.items():
                if isinstance(c[0], int) or not isinstance(v, t.T) or keys0.get(c) is v or c in (('ext', 'stdout'), ('ext', 'stderr')):
                    continue
                nsink[0] += 1
                r = T.value(v, e.state)
                if r is not None:
                    bad += 1
                    C.fail('%s: no shared state keeps a secret' % rule, site, '%s.%s keeps a value that carries the secret %s'
                           % (getattr(c[0], 'qual', None) or c[0], c[1], t.show(r, 2)[:60]))
            for c, v in e.state.store.items():
                if not isinstance(c[0], int) or c not in keys0 or keys0[c] is v or not isinstance(v, t.T):
                    continue
                r = T.value(v, e.state)     # objects that existed before the call are shared state too
                if r is not None:
                    bad += 1
                    C.fail('%s: no shared state keeps a secret' % rule, site, 'an object older than the call keeps a value that carries the secret %s' % t.show(r, 2)[:60])
        if o.ret is not None and out is not None:
            nsink[0] += 1
            r = out(T, o.ret)
            if r is not None:
                bad += 1
                C.fail('%s: the result carries no secret it is not meant to carry' % rule, site, 'it carries %s' % t.show(r, 2)[:60])
        if not bad:
            C.ok('%s: no secret reaches an output' % rule, site)

    def public(T, e):
        return T.value(e.value, e.state)

    def withkey(T, e):
        """A key pair: the private key only, never a passphrase."""
        T2 = Taint(C, [pw])
        return T2.value(e.value, e.state)
    forms = [('32 bytes', lambda: k.k), ('a bytearray', lambda: I.new_bytearray(k.k)), ('96 bytes', lambda: k96), ('any bytes', lambda: anyk)]
    for what, mk in forms:
        flow('KeyPair of %s' % what, 'KeyPair:KeyPair.__init__', lambda I: C.fn(KP, mk()), withkey)
    flow('Export', 'KeyPair:KeyPair.Export', lambda I: C.meth(kp(), 'Export'))
    flow('GetAddress', 'KeyPair:KeyPair.GetAddress', lambda I: C.meth(kp(), 'GetAddress'), public)
    flow('ExportNEP2', 'KeyPair:KeyPair.ExportNEP2', lambda I: C.meth(kp(), 'ExportNEP2', pw), public)
    flow('the text of a key pair', 'KeyPair:KeyPair', lambda I: I.call(g('text'), [kp()], {}), public)
    exported = C.py('def f(kp, p):\n    kp.ExportNEP2(p)\n    return kp\n', 'vleak2')
    flow('a key pair after ExportNEP2', 'KeyPair:KeyPair.ExportNEP2', lambda I: I.call(exported('f'), [kp(), pw], {}), withkey)
    flow('PrivateKeyFromWIF', 'KeyPair:KeyPair.PrivateKeyFromWIF', lambda I: C.fn(KP + '.PrivateKeyFromWIF', wif))
    flow('PrivateKeyFromNEP2', 'KeyPair:KeyPair.PrivateKeyFromNEP2', lambda I: C.fn(KP + '.PrivateKeyFromNEP2', nep, pw))
    Q = 'Cryptography.Crypto:'
    for what, x in (('hexadecimal text', hk), ('any text', anyt), ('32 bytes', k.k), ('any bytes', anyk)):
        flow('Crypto.Sign with the key as %s' % what, Q + 'Crypto.Sign', lambda I: C.fn(Q + 'Crypto.Sign', m, x), public)
        flow('Default().Sign with the key as %s' % what, Q + 'CryptoInstance.Sign', lambda I: C.meth(C.fn(Q + 'Crypto.Default'), 'Sign', m, x), public)
    flow('Crypto.Sign of text', Q + 'Crypto.Sign', lambda I: C.fn(Q + 'Crypto.Sign', mt, hk), public)
    flow('random_key', 'Cryptography.Helper:random_key', lambda I: C.fn('Cryptography.Helper:random_key'))
    flow('create_wallet', 'bin.cli:create_wallet', lambda I: C.fn('bin.cli:create_wallet'))
    C.notes.append('%d sink terms, exception values, shared cells and results examined' % nsink[0])
