"""Information flow from entropy sources: how many bits of the operating system's generator reach a key.

The lower bound is computed on the term of the returned key.  A draw of n bytes is worth 8n bits; injective steps
keep what they are given, a digest is worth at most its length, a slice what falls inside it, anything else nothing.
Statistical generators and clocks are worth nothing.
"""
from .common import *

RULE = 'the returned key keeps at least 256 bits drawn from the system generator during the call'
HP = 'Cryptography.Helper:'
INJ = ('hex', 'str', 'repr', 'encode', 'decode', 'astr', 'b58', 'i2b', 'be', 'rev', 'unhex', 'unb58', 'ascii', 'bits', 'le', 'format')
CAP = 4096


def width(x):
    """Length of a byte or text term when it is a constant, else None."""
    try:
        n = t.length(x)
    except Exception:
        return None
    return cval(n) if is_const(n) else None


def sources(x, memo):
    """Map of independent sources to the bits of each that x determines (a lower bound)."""
    r = memo.get(x)
    if r is None:
        memo[x] = {}            # guards against cycles
        r = memo[x] = _sources(x, memo)
    return r


def total(d):
    """Bits of a map of sources, counting independent pieces only: the slices of one term together are worth at most what
    that term is worth, and of pieces that share drawn bytes (a draw and its digest) one counts."""
    units = {}
    for k, v in d.items():
        u = k[1] if k[0] == 'cut' else k
        have, top = units.get((k[0], u), ((0, k[-1]), None))[0], (k[3] if k[0] == 'cut' else v)
        units[k[0], u] = ((min(have[0] + v, top), k[-1]), top)
    best = 0
    for first in ('rand', 'cut'):
        seen, r = set(), 0
        for key in sorted(units, key=lambda u: (u[0] != first, -units[u][0][0], str(u[1]))):
            v, who = units[key][0]
            if not (who & seen):
                seen |= who
                r += v
        best = max(best, r)
    return best


def draws(d):
    """The draws (call events) a map of sources goes back to."""
    return frozenset(a[1] for k in d for a in k[-1])


def cut(d, x, lo, hi):
    """The bytes lo..hi of a term x that mixes d."""
    n = total(d)
    who = frozenset(y for k in d for y in k[-1])
    return {('cut', x.id, i, n, who): 8 for i in range(lo, min(hi, CAP))} if n else {}


def _sources(x, memo):
    op = x.op
    if op == 'fixed' and x.args[0] == 'rand':
        n = min(x.args[1], CAP)
        return {('rand', (i, x.args[2]), frozenset([(i, x.args[2])])): 8 for i in range(n)}
    if op == 'rand':
        if isinstance(x.args[0], t.T) and is_const(x.args[0]) and isinstance(cval(x.args[0]), str):
            nm, a = cval(x.args[0]), x.args[1]
            k = a.args[0] if a.op == 'tuple' and a.args else None
            if k is None or not is_const(k) or not isinstance(cval(k), int):
                k = const(32) if nm in ('secrets.token_hex', 'secrets.token_urlsafe') else None
            if k is None:
                return {}
            n = cval(k)
            bits = {'secrets.randbits': n, 'secrets.randbelow': max(n.bit_length() - 1, 0), 'secrets.token_hex': 8 * n,
                    'secrets.token_urlsafe': 8 * n}.get(nm, 0)
            if nm == 'secrets.randbelow' and n >= (1 << 255):
                bits = n.bit_length()       # uniform below a bound of that many bits
            return {('rand', (nm, x.args[-1]), frozenset([(nm, x.args[-1])])): bits} if bits else {}
        return {}
    if op == 'ite':
        a, b = sources(x.args[1], memo), sources(x.args[2], memo)
        return a if total(a) <= total(b) else b
    if op == 'cat' or op == 'tuple':
        fixed, best = {}, {}
        for p in x.args:
            s = sources(p, memo)
            if op == 'tuple' or width(p) is not None:
                fixed.update(s)
            elif total(s) > total(best):
                best = s
        both = dict(best)
        both.update(fixed)
        return both             # at most one part of unknown width counts
    if op == 'digest':
        return cut(sources(x.args[1], memo), x, 0, x.args[2])
    if op == 'sub':
        return sub_sources(x, memo)
    if op in ('bxor', 'xorb') or op == 'poly':
        return {}
    if op == 'mod' and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and cval(x.args[1]) > 0:
        return narrow(sources(x.args[0], memo), x, cval(x.args[1]).bit_length())
    if op in INJ:
        best = {}
        for a in x.args:
            if isinstance(a, t.T):
                s = sources(a, memo)
                if total(s) > total(best):
                    best = s
        return best
    return {}


def sub_sources(x, memo):
    y, a, b = x.args[0], x.args[1], x.args[2]
    lo = cval(a) if isinstance(a, t.T) and is_const(a) else a if isinstance(a, int) else None
    hi = cval(b) if isinstance(b, t.T) and is_const(b) else b if isinstance(b, int) else None
    if lo is None or hi is None or hi <= lo:
        return {}
    if y.op == 'fixed' and y.args[0] == 'rand':
        return {('rand', (i, y.args[2]), frozenset([(i, y.args[2])])): 8 for i in range(lo, min(hi, CAP))}
    if y.op == 'digest':
        return cut(sources(y.args[1], memo), y, lo, hi)
    if y.op == 'hex':       # whole bytes of what the digits spell
        z = y.args[0]
        return sub_sources(t.mk('sub', (z, const((lo + 1) // 2), const(hi // 2)), 'bytes'), memo)
    return {}


def narrow(d, x, n):
    """x keeps at most n bits of d."""
    if total(d) <= n:
        return d
    return {('cut', x.id, 0, n, frozenset(y for k in d for y in k[-1])): n}


def bits(x):
    return total(sources(x, {}))


def check(C):
    I = C.I
    g = C.py('from neocore.Cryptography.Helper import random_key\n'
             'from neocore.bin.cli import create_wallet\n'
             'def key(): return random_key()\n'
             'def wallet(): return create_wallet()["private_key"]\n', 'vent')
    for name, entry in (('key', HP + 'random_key'), ('wallet', 'bin.cli:create_wallet')):
        site = C.site_of(entry)
        rule = '%s: at least 256 bits of the returned key come from the system generator' % entry
        o = C.spec(entry + ' draws and returns', entry, lambda I: I.call(g(name), [], {}), ok=None)
        if o is None:
            continue
        if o.ret is None:
            C.fail(rule, site, 'it never returns a key')
            continue
        if name == 'key':
            C.require(o.ok is TRUE, '%s always returns' % entry, site, 'it may raise')
        v = o.ret.value
        n = bits(v)
        C.require(n >= 256, rule, site, 'only %d bits of %s come from the system generator' % (n, t.show(v, 5)[:240]))
        # a second call draws afresh, also from a process state the first call left behind
        S0 = I.S
        I.S = o.ret.state.copy()
        I.S.pc = TRUE
        try:
            o2 = C.run(lambda I: I.call(g(name), [], {}))
        finally:
            I.S = S0
        w = o2.ret.value if o2.ret is not None else None
        old = draws(sources(v, {}))
        fresh = w is not None and total({k: b for k, b in sources(w, {}).items() if not (draws({k: b}) & old)}) >= 256
        C.require(fresh, '%s: every call draws afresh' % entry, site, 'the second key repeats draws of the first one or draws less')
    C.notes.append('draws seen: %s' % ', '.join(sorted(set('%s at %s' % (e.name if hasattr(e, 'name') else e.args[0] if e.args else '', e.site)
                                                           for e in I.events if e.kind == 'rand'))))
