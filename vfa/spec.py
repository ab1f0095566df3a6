"""Obligations: what a check claims, how it is decided, how it is reported.

A check builds terms with the analyser and states, for one driver (a call into the analysed source),
under which condition it returns and which value it returns.  Both sides are gated values; they are
compared gate by gate under the facts each gate contributes.  Nothing is executed and no solver is used.
"""
import os
import sys
import time
import traceback

from . import prog
from . import terms as t
from .interp import Interp, Exit
from .prog import State, Dead, Budget
from .terms import TRUE, FALSE, const, is_const, cval

MODULES = ['neocore.UIntBase', 'neocore.UInt160', 'neocore.UInt256', 'neocore.Utils',
           'neocore.BigInteger', 'neocore.Fixed8', 'neocore.KeyPair', 'neocore.bin.cli',
           'neocore.IO.BinaryReader', 'neocore.IO.BinaryWriter', 'neocore.IO.Mixins',
           'neocore.Cryptography.Crypto', 'neocore.Cryptography.Helper',
           'neocore.Cryptography.MerkleTree', 'neocore.Cryptography.ECCurve']


class Gone(Exception):
    """A public entry point the property talks about is missing."""


class Violation(object):
    def __init__(self, rule, site, msg):
        self.rule, self.site, self.msg = rule, site, msg


def _eval_const(S, x):
    """Replace integer atoms whose value is pinned by the facts."""
    m = {}
    for y in t.walk(x):
        if y.op == 'c':
            continue
        if y.ty == 'int' and y.op not in ('poly', 'ite'):
            lo, hi = t_bounds(y)
            iv = S.iv.get((((y,), 1),))
            if iv:
                lo = iv[0] if lo is None or (iv[0] is not None and iv[0] > lo) else lo
                hi = iv[1] if hi is None or (iv[1] is not None and iv[1] < hi) else hi
            if lo is not None and lo == hi:
                m[y] = const(lo)
    # equalities between terms: use the constant or the earlier term
    for a, v in S.lits.items():
        if v and a.op == 'eq':
            p, q = a.args
            if is_const(p) and not is_const(q):
                m[q] = p
            elif is_const(q):
                m[p] = q
            elif p.id < q.id:
                m.setdefault(q, p)
            else:
                m.setdefault(p, q)
    if not m:
        return x
    return t.subst(x, m)


def t_bounds(y):
    return prog.ibounds(y)


def _bytewise(F, e, v):
    """Do the facts about single bytes contradict eq(x, y) being v?"""
    x, y = e.args
    n = t.length(x)
    if x.ty != 'bytes' or y.ty != 'bytes' or t.length(y) is not n:
        return False
    if not v and all(prog.restrict(F, t.eq0(t.be(z))) is TRUE for z in (x, y)):
        return True
    if not is_const(n) or cval(n) > 64:
        return False
    same = [prog.restrict(F, t.eq0(t.sub(t.byte_at(x, const(i)), t.byte_at(y, const(i))))) for i in range(cval(n))]
    return any(q is FALSE for q in same) if v else all(q is TRUE for q in same)


def _infeasible(F):
    """Do the literals of F contradict each other once each is rewritten with the facts of the others?"""
    N = prog.facts_copy(F)
    for a, v in list(F.lits.items()):
        if a.op == 'eq' and _bytewise(F, a, v):
            return True
    for a, v in list(F.lits.items()):
        G = prog.facts_copy(F)
        del G.lits[a]
        if a.op in ('ge0', 'eq0'):
            G.iv.pop(prog.key_of(prog._split(a.args[0])[0]), None)
        G.memo = {}
        b = a
        for _ in range(3):
            b2 = _eval_const(G, prog.renorm(G, b))
            if b2 is b:
                break
            b = b2
        if b is a:
            continue
        if is_const(b):
            if (b is TRUE) != v:
                return True
        elif not prog.assume(N, b if v else t.bnot(b), track=False):
            return True
    return False


class Diff(object):
    def __init__(self, a, b, path, S):
        self.a, self.b, self.path, self.S = a, b, path, S

    def show(self):
        p = ' and '.join(('%s' if v else 'not(%s)') % t.show(a, 4)[:90] for a, v in self.path[-6:])
        return 'got %s, expected %s%s' % (t.show(self.a, 5)[:260], t.show(self.b, 5)[:260],
                                          (' when ' + p) if p else '')


def _size(x):
    return sum(1 for _ in t.walk(x))


def exact_quotients(F, x):
    """Inside a residue mod p a quotient a // d of a multiple a of d is a * d^-1."""
    import math
    for _ in range(8):
        sub = {}
        for y in t.walk(x):
            if y.op != 'mod' or not is_const(y.args[1]):
                continue
            p = t.cval(y.args[1])
            inner = {}
            for q in t.walk(y.args[0]):
                if q.op == 'idiv' and is_const(q.args[1]) and t.cval(q.args[1]) > 1 and p > 2 and math.gcd(t.cval(q.args[1]), p) == 1:
                    if exact(F, q.args[0], q.args[1]) and algebraic(y.args[0], q):
                        inner[q] = t.mul(q.args[0], const(pow(t.cval(q.args[1]), -1, p)))
            if inner:
                sub[y] = t.mod(t.subst(y.args[0], inner), y.args[1])
                break
        if not sub:
            return x
        x = t.subst(x, sub)
    return x


def gather_bytes(x):
    """Sums of every byte of a string, weighted by powers of 256, as the number the string spells."""
    if x.op != 'poly':
        return x
    per = {}
    for m, c in x.args:
        if len(m) == 1 and m[0].op == 'byte' and is_const(m[0].args[1]):
            per.setdefault(m[0].args[0], {})[t.cval(m[0].args[1])] = c
    out = x
    for s, co in per.items():
        n = t.clen(s)
        if not n or len(co) != n:
            continue
        for bs, c, w in ((s, co[n - 1], lambda k: n - 1 - k), (t.rev(s), co[0], lambda k: k)):
            if all(co[k] == c * 256 ** w(k) for k in range(n)):
                for k in range(n):
                    out = t.sub(out, t.mul(const(co[k]), t.mk('byte', (s, const(k)), 'int')))
                out = t.add(out, t.mul(const(c), t.be(bs)))
                break
    return out


def exact(F, a, d):
    if prog.restrict(F, t.eq0(t.mod(a, d))) is TRUE:
        return True
    return t.cval(d) == 2 and prog.restrict(F, t.eq0(t.mod(t.sub(a, const(1)), d))) is FALSE


def algebraic(x, q):
    """Does q occur in x only in sums and products?"""
    if x is q or not t.contains(x, q):
        return True
    if x.op != 'poly':
        return False
    return all(algebraic(a, q) for m, _ in x.args for a in m)


def prove_eq(S, a, b, A=TRUE, budget=6000):
    """None when a and b denote the same value in every state described by S and the diagram A, else a Diff."""
    left = [budget]

    def vacant(F, x):
        while x.op in ('rstrip', 'lstrip', 'strip', 'rev'):
            x = x.args[0]
        return prog.restrict(F, t.ge0(t.neg(t.length(x)))) is TRUE

    def unstripped(F, x):
        # nothing to strip when the end byte is another one
        while x.op in ('rstrip', 'lstrip') and is_const(x.args[1]) and x.ty == 'bytes':
            b = x.args[0]
            e = t.byte_at(b, t.sub(t.length(b), t.ONE) if x.op == 'rstrip' else t.ZERO)
            if any(prog.restrict(F, t.eq0(t.sub(e, const(v)))) is not FALSE for v in cval(x.args[1])):
                break
            x = b
        return x

    def signs(F, x, y):
        # two's complement numbers by the sign bit; numbers of no digits
        for z in t.walk(t.tup([x, y])):
            if z.op == 'be' and vacant(F, z.args[0]):
                m = {z: t.ZERO}
            elif z.op == 'bes':
                b = z.args[0]
                u = t.be(b)
                top = t.ge0(t.sub(t.byte_at(b, t.ZERO), const(128)))
                m = {z: t.ite(t.ge0(t.sub(t.length(b), t.ONE)),
                              t.ite(top, t.sub(u, t.shl(t.ONE, t.mul(const(8), t.length(b)))), u), t.ZERO)}
            else:
                continue
            return ('split', t.subst(x, m), t.subst(y, m))
        return None

    def leafeq(F, x, y):
        if x is y:
            return True
        e = prog.restrict(F, t.eq(x, y))
        if e is TRUE:
            return True
        if e is FALSE:
            return False
        x2, y2 = x, y
        for _ in range(3):
            x3, y3 = _eval_const(F, x2), _eval_const(F, y2)
            if x3 is x2 and y3 is y2:
                break
            x2, y2 = x3, y3
            if x2 is y2:
                return True
        if x2.op == 'cat' or y2.op == 'cat':
            x2, y2 = t.joinhex(x2), t.joinhex(y2)
            if x2 is y2:
                return True
        if x2 is not x or y2 is not y:
            if x2.op == 'ite' or y2.op == 'ite':
                return ('split', x2, y2)
            e = prog.restrict(F, t.eq(x2, y2))
            if e is TRUE:
                return True
            if e is FALSE:
                return False
        if e.op == 'ite':
            return ('split', e, TRUE)
        if x.ty == y.ty == 'str' and ('hexint' in (x2.op, y2.op)):
            z = [t.cat([const('0x'), t.app('hexraw', q.args[0], ty='str')], 'str') if q.op == 'hexint' and prog.restrict(F, t.ge0(q.args[0])) is TRUE else q
                 for q in (x2, y2)]
            if z[0] is z[1]:
                return True
        if x.ty == y.ty and x.ty in ('bytes', 'str'):
            if vacant(F, x) and vacant(F, y) or unstripped(F, x) is unstripped(F, y):
                return True
        if x.ty == 'int' and y.ty == 'int':
            d = signs(F, x2, y2)
            if d is not None:
                return d
            z = _eval_const(F, t.clear_quotients(t.sub(x2, y2)))
            if z is t.ZERO:
                return True
            z2 = gather_bytes(z)
            if z2 is not z:
                z2 = prog.restrict(F, z2)
                return True if z2 is t.ZERO else ('split', t.lift(lambda q: TRUE if q is t.ZERO else t.eq0(q), z2), TRUE)
            xh, yh = exact_quotients(F, x), exact_quotients(F, y)
            if xh is not x or yh is not y:
                if xh is yh:
                    return True
                return ('split', t.lift(lambda q: TRUE if q is t.ZERO else t.eq0(q), t.sub(xh, yh)), TRUE) if _size(xh) + _size(yh) < 4000 else False
            if any(q.op == 'mod' for q in t.walk(z)):
                z2 = t.base_mod(z)
                if z2 is t.ZERO:
                    return True
                if z2 is not z:
                    return ('split', t.lift(lambda q: TRUE if q is t.ZERO else t.eq0(q), z2), TRUE)
        return False

    def cof(x, g, val):
        if x.op == 'ite':
            return t._cof(x, g, val)
        if x is g:
            return TRUE if val else FALSE
        return x

    def go(F, A, x, y, path):
        A = prog.restrict(F, A)
        if A is FALSE:
            return None
        x, y = prog.restrict(F, x), prog.restrict(F, y)
        if x is y:
            return None
        gates = [z.args[0] for z in (x, y) if z.op == 'ite']
        if not gates:
            for z in (x, y):
                if t.is_atom(z):
                    gates.append(z)
        if gates:
            if A.op == 'ite':
                gates.append(A.args[0])
            g = min(gates, key=lambda z: z.id)
            return split(F, A, g, x, y, path)
        if x.op == y.op and x.op in ('tuple', 'lcat', 'li') and len(x.args) == len(y.args):
            for p, q in zip(x.args, y.args):
                d = go(F, A, p, q, path)
                if d is not None:
                    break
            else:
                return None
            if x.op == 'tuple':
                return d
        if x.op == y.op == 'inst' and x.args[0] is y.args[0]:
            return go(F, A, x.args[1], y.args[1], path)
        if x.op == y.op and x.op in ('lmap', 'cmap', 'exists') and x.args[0] is y.args[0]:
            k = t.bv(max(t.max_bv(x.args[1]), t.max_bv(y.args[1])))
            F1 = prog.facts_copy(F)
            if k.args[0] > 0 and prog.assume(F1, t.ge0(k), track=False) and \
                    (x.args[0].op == 'c' and not isinstance(cval(x.args[0]), int) or
                     prog.assume(F1, t.ge0(t.sub(t.sub(x.args[0], t.ONE), k)), track=False)):
                if go(F1, A, x.args[1], y.args[1], path) is None:
                    return None
        r = leafeq(F, x, y)
        if r is True:
            return None
        x1, y1 = prog.renorm(F, x), prog.renorm(F, y)
        if x1 is not x or y1 is not y:
            return go(F, A, x1, y1, path)
        if isinstance(r, tuple):
            d = go(F, A, r[1], r[2], path)
            if d is not None and r[2] is TRUE:
                return Diff(x, y, d.path, d.S)
            return d
        if A is not TRUE:
            # the difference counts only where the assumption holds
            g = A.args[0] if A.op == 'ite' else A
            return split(F, A, g, x, y, path)
        if _infeasible(F):
            return None
        return Diff(x, y, path, F)

    def split(F, A, g, x, y, path):
        left[0] -= 1
        if left[0] < 0:
            raise Budget('comparison too large')
        for val in (True, False):
            F1 = prog.facts_copy(F)
            if not prog.set_lit(F1, g, val):
                continue
            A1 = cof(A, g, val)
            if g.op == 'exists' and not val:
                A1 = t.band(A1, at_ends(g))
            d = go(F1, A1, cof(x, g, val), cof(y, g, val), path + [(g, val)])
            if d is not None:
                return d
        return None

    def at_ends(g):
        # nothing of the range has the property: neither its first nor its last member
        n, body = g.args
        k = t.max_bv(body)
        if not k or n.ty != 'int' or is_const(n) and not isinstance(cval(n), int):
            return TRUE
        some = t.ge0(t.sub(n, t.ONE))
        r = TRUE
        for i in (t.ZERO, t.sub(n, t.ONE)):
            r = t.band(r, t.bnot(t.band(some, t.subst(body, {t.bv(k): i}))))
        return r

    return go(prog.facts_copy(S), A, a, b, [])


class Outcome(object):
    """All exits of one driver run."""

    def __init__(self, exits):
        self.ret = None
        self.raises = []
        for e in exits:
            if e.kind == 'return':
                self.ret = e
            else:
                self.raises.append(e)

    @property
    def ok(self):
        return self.ret.state.pc if self.ret is not None else FALSE


PAST = t.sym('past', 'bytes')


class Check(object):
    def __init__(self, pid, root='/repo'):
        self.pid, self.root = pid, root
        self.viol = []
        self.t0, self.skipped, self.slow = time.time(), 0, 0
        t.DEADLINE[0] = self.t0 + 700
        self.obl = []           # (rule, site, outcome)
        self.t0 = time.time()
        self.I = None
        self.notes = []
        self.extra = False      # obligations beyond the stated bounds
        self.known = []
        self.fresh()

    # -- set-up -------------------------------------------------------------------------------
    def fresh(self, modules=MODULES):
        if self.I is not None:
            self._absorb()
        I = self.I = Interp(self.root)
        I.S.store[('ext', 'stdout')] = I.S.store[('ext', 'stderr')] = const('')
        I.load_lib()
        for m in modules:
            I.load(m)
        return I

    def _absorb(self):
        self.an = getattr(self, 'an', set()) | set(self.I.analysed)
        self.nev = getattr(self, 'nev', 0) + len(self.I.events)
        self.nloops = getattr(self, 'nloops', 0) + len(self.I.loops)

    def get(self, path):
        v = self.I.get('neocore.' + path)
        if v is None:
            raise Gone('neocore.' + path)
        return v

    def site_of(self, path):
        """file:function:line of an analysed definition."""
        try:
            v = self.I.get('neocore.' + path)
        except Exception:
            v = None
        f = None
        if v is not None:
            o = v.args[0] if v.args else None
            if isinstance(o, prog.FuncObj):
                f = o
            elif isinstance(o, prog.ClassObj):
                if o.path:
                    return '%s:%s:%d' % (self.rel(o.path), o.name, getattr(o.node, 'lineno', 0))
        if f is None and v is not None and v.op == 'ref':
            o = self.I.obj(v)
            f = getattr(o, 'fo', None)
        if f is not None and f.path:
            return '%s:%s:%d' % (self.rel(f.path), f.qual.split(':')[-1], f.node.lineno)
        mod, _, q = path.partition(':')
        return 'neocore/%s.py:%s' % (mod.replace('.', '/'), q)

    def rel(self, p):
        return os.path.relpath(p, self.root) if os.path.isabs(p) else p

    # -- results ------------------------------------------------------------------------------
    def ok(self, rule, site, detail=''):
        self.obl.append((rule, site, 'proved', detail))

    def fail(self, rule, site, msg):
        self.obl.append((rule, site, 'violated', msg))
        self.viol.append(Violation(rule, site, msg))

    def require(self, cond, rule, site, msg):
        if cond:
            self.ok(rule, site)
        else:
            self.fail(rule, site, msg)
        return cond

    # -- analysis -----------------------------------------------------------------------------
    def run(self, driver):
        self.I.maxsteps = self.I.steps + 3000000
        return Outcome(self.I.run(driver))

    def same(self, rule, site, a, b, S=None, record=True, A=TRUE):
        """Obligation: a == b under S."""
        if S is None:
            S = self.I.S
        if isinstance(site, str) and ':' in site and '/' not in site:
            site = self.site_of(site)
        if has_unknown(a):
            self.fail(rule, site, 'the analyser cannot establish it: %s' % unknown_in(a))
            return False
        try:
            d = prove_eq(S, a, b, A)
        except Budget as e:
            self.fail(rule, site, 'the analyser cannot establish it: %s' % e)
            return False
        if d is None:
            if record:
                self.ok(rule, site)
            return True
        self.fail(rule, site, d.show())
        return False

    def spec(self, rule, entry, driver, ok=TRUE, value=None, exc=None, post=None, pre=TRUE):
        """Obligation on a driver: it returns exactly when `ok`, then with `value`, and otherwise
        raises (an exception class in exc, when given).  value may be a function of the final state.
        pre restricts the inputs."""
        site = self.site_of(entry)
        now = time.time()
        if self.viol and now - self.t0 > 60:
            self.skipped += 1       # already refuted: no more time for the remaining obligations
            return None
        t.DEADLINE[0] = min(now + (60 if self.slow < 2 else 10), self.t0 + 700)
        try:
            return self.spec1(rule, site, driver, ok, value, exc, post, pre)
        finally:
            t.DEADLINE[0] = self.t0 + 700
            if time.time() - now > 50:
                self.slow += 1

    def spec1(self, rule, site, driver, ok, value, exc, post, pre):
        I = self.I
        S0 = I.S
        try:
            if pre is not TRUE:
                I.S = S0.copy()
                if not prog.assume(I.S, pre):
                    raise ValueError('infeasible precondition')
                I.S.pc = TRUE
            base = I.S
            try:
                o = self.run(driver)
            except Gone as e:
                self.fail(rule, site, 'entry point %s is missing' % e)
                return None
            except Budget as e:
                if self.extra:
                    # an instance beyond the stated bound: undecided, not refuted
                    self.notes.append('not decided: %s (%s)' % (rule, e))
                    self.slow = 2
                    return None
                self.fail(rule, site, 'the analyser cannot establish it: %s' % e)
                return None
            except Exception as e:
                # a construct outside the analyser's model: the obligation is not discharged
                if os.environ.get('VFA_DEBUG'):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.fail(rule, site, 'the analyser cannot establish it: unsupported construct (%s: %s at %s:%d)'
                          % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno))
                return None
        finally:
            I.S = S0
        good = True
        okpc = o.ok
        if has_unknown(okpc):
            self.fail(rule, site, 'the analyser cannot establish when it returns: %s' % unknown_in(okpc))
            return o
        try:
            d = prove_eq(base, okpc, ok, pre) if ok is not None else None
        except Budget as e:
            self.fail(rule, site, 'the analyser cannot establish when it returns: %s' % e)
            return o
        if d is not None:
            good = False
            bad = None
            got = prog.restrict(d.S, d.a)
            if got is TRUE or d.b is FALSE:
                self.fail(rule, site, 'returns normally where it has to raise: %s' % d.show())
            else:
                for e in o.raises:
                    S = d.S.copy()
                    if prog.assume(S, e.state.pc):
                        bad = e
                        break
                w = ('%s at %s' % (exc_name(I, bad), bad.site)) if bad else 'an exception'
                self.fail(rule, bad.site if bad and bad.site and '<' not in bad.site else site, 'raises %s where it has to return: %s' % (w, d.show()))
        for e in o.raises:
            if e.site == '<driver>' and exc_in(I, e, ('AttributeError',)):
                try:
                    never = prove_eq(base, e.state.pc, FALSE, pre) is None
                except Budget:
                    never = False
                if not never:
                    good = False
                    self.fail(rule, site, 'returns a value of the wrong kind (it lacks an attribute the result has to have)')
        if exc is not None:
            for e in o.raises:
                if not exc_in(I, e, exc):
                    try:
                        never = prove_eq(base, e.state.pc, FALSE, pre) is None
                    except Budget:
                        never = False
                    if not never:
                        good = False
                        self.fail(rule, e.site if e.site and '<' not in e.site else site, 'raises %s, which the caller is not told about (expected %s)'
                                  % (exc_name(I, e), '/'.join(x for x in exc)))
        if value is not None and o.ret is None and ok is None:
            good = False
            self.fail(rule, site, 'never returns')
        if value is not None and o.ret is not None:
            v = value(o) if callable(value) else value
            if v is not None:
                A = band_all([pre, okpc, ok] if ok is not None else [pre, okpc])
                if not self.same(rule, site, o.ret.value, v, base, record=False, A=A):
                    good = False
        if post is not None and o.ret is not None:
            if post(o) is False:
                good = False
        if good:
            self.ok(rule, site)
        return o

    def py(self, src, name='vspec'):
        """Driver code written as source and analysed like the repository's own."""
        self.I.exec_module(name, src, '<%s>' % name)
        return lambda f: self.I.S.store[(('m', name), f)]

    # -- common inputs ------------------------------------------------------------------------
    def stream(self, content=None):
        """An empty stream, or one positioned behind an arbitrary part that is over, with the content ahead."""
        if content is None:
            return self.I.models.new_stream()
        return self.I.models.new_stream(t.cat2(PAST, content), t.length(PAST))

    def reader(self, content):
        return self.I.call(self.get('IO.BinaryReader:BinaryReader'), [self.stream(content)], {})

    def meth(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def fn(self, path, *args, **kw):
        return self.I.call(self.get(path), list(args), kw)

    def uint(self, bits, payload):
        return self.fn('UInt%d:UInt%d' % (bits, bits), self.I.new_bytearray(payload))

    def finish(self):
        self._absorb()
        return self


def band_all(xs):
    r = TRUE
    for x in xs:
        r = t.band(r, x)
    return r


def exc_class(I, e):
    v = e.value
    if v.op == 'ref':
        return I.obj(v).cls
    return None


def exc_name(I, e):
    c = exc_class(I, e)
    return c.qual.split('.')[-1] if c is not None else 'exception'


def exc_in(I, e, names):
    c = exc_class(I, e)
    if c is None:
        return False
    for k in c.mro:
        if k.name in names or k.qual in names:
            return True
    return False


def has_unknown(x):
    return t.has_op(x, ('unk',))


def unknown_in(x):
    for y in t.walk(x):
        if y.op == 'unk':
            return str(y.args[0])[:200]
    return ''
