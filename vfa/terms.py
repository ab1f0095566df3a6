"""Hash-consed value terms (value numbers) and their normal forms.

Every abstract value the analyser computes is a term `T`.  Two expressions that
normalise to the same term compute the same value.  Terms that depend on control flow
are decision diagrams `ite(c, a, b)` ("gated" values, one gate per undecided branch
condition), kept ordered and reduced.
"""
import codecs
import struct as _struct
import sys
import time

sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', 'id', 'ty', 'cache')

    def __init__(self, op, args, id_, ty):
        self.op, self.args, self.id, self.ty = op, args, id_, ty
        self.cache = None

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


_table = {}
_ids = [0]


class Budget(Exception):
    """The analysis gave up on this entry point (size limit, unbounded recursion, time limit)."""


DEADLINE = [None]


def mk(op, args, ty='any'):
    key = (op, args, ty)
    t = _table.get(key)
    if t is None:
        _ids[0] += 1
        if not _ids[0] & 4095 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise Budget('time budget')
        t = T(op, args, _ids[0], ty)
        _table[key] = t
    return t


# ------------------------------------------------------------------ constants
_TY = {int: 'int', bool: 'bool', float: 'float', str: 'str', bytes: 'bytes',
       type(None): 'none', type(NotImplemented): 'notimpl', type(Ellipsis): 'ellipsis', complex: 'complex'}


def const(v):
    ty = _TY[type(v)]
    if ty == 'float':
        return mk('c', (repr(v), v), ty) if v == v else mk('c', ('nan', 'nan'), ty)
    return mk('c', (v,), ty)


def is_const(t):
    return t.op == 'c'


def cval(t):
    return t.args[-1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
EMPTYB = const(b'')
NOTIMPL = const(NotImplemented)


def sym(name, ty, **attrs):
    """An input symbol.  attrs: lo, hi (ints), length (bytes/str/list)."""
    return mk('sym', (name, tuple(sorted(attrs.items(), key=lambda kv: kv[0]))), ty)


def sym_attr(t, k):
    if t.op == 'sym':
        for n, v in t.args[1]:
            if n == k:
                return v
    return None


def app(name, *args, **kw):
    """An uninterpreted application.  Arguments are lifted over gates."""
    ty = kw.get('ty', 'any')
    if any(isinstance(a, T) and a.op == 'ite' for a in args):
        return lift(lambda *xs: mk(name, tuple(xs), ty), *args)
    return mk(name, tuple(args), ty)


def unk(why):
    _ids[0] += 1
    return mk('unk', (why, _ids[0]), 'any')


def tup(items):
    return mk('tuple', tuple(items), 'tuple')


# ------------------------------------------------------------------ gates
def ty_of(t):
    return t.ty


_ite_memo = {}


def _top(t):
    return t.args[0].id if t.op == 'ite' else 1 << 60


def _cof(t, m, val):
    if t.op == 'ite' and t.args[0] is m:
        return t.args[1] if val else t.args[2]
    if t is m:
        return TRUE if val else FALSE
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'c':
        raise AssertionError('bad gate %r' % (c,))
    if a is TRUE and b is FALSE and c.op != 'ite':
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    # pick the smallest atom
    cands = []
    for t in (c, a, b):
        if t.op == 'ite':
            cands.append(t.args[0])
    if c.op != 'ite':
        cands.append(c)
    for t in (a, b):
        if t.op != 'ite' and is_atom(t):
            # a bare boolean atom used as a value is itself a decision
            cands.append(t)
    m = min(cands, key=lambda x: x.id)
    hi = ite(_cof(c, m, True), _cof(a, m, True), _cof(b, m, True))
    lo = ite(_cof(c, m, False), _cof(a, m, False), _cof(b, m, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = m
    else:
        r = mk('ite', (m, hi, lo), ty_of(hi) if ty_of(hi) == ty_of(lo) else 'any')
    _ite_memo[key] = r
    return r


ATOM_OPS = set(['ge0', 'eq0', 'eq', 'lt', 'isinst', 'typeis', 'truth', 'ishex', 'raises', 'in', 'is',
                'exists', 'hasattr', 'pred', 'callable'])


def is_atom(t):
    return t.op in ATOM_OPS


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def lift(fn, *args):
    """Apply fn below the gates of its term arguments (MTBDD apply)."""
    memo = {}

    def go(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        m = None
        for x in xs:
            if isinstance(x, T) and x.op == 'ite' and (m is None or x.args[0].id < m.id):
                m = x.args[0]
        if m is None:
            r = fn(*xs)
        else:
            hi = go(tuple(_cof(x, m, True) if isinstance(x, T) else x for x in xs))
            lo = go(tuple(_cof(x, m, False) if isinstance(x, T) else x for x in xs))
            r = ite(m, hi, lo)
        memo[xs] = r
        return r
    return go(tuple(args))


def lifted(fn):
    def w(*args):
        for a in args:
            if isinstance(a, T) and a.op == 'ite':
                return lift(fn, *args)
        return fn(*args)
    w.__name__ = fn.__name__
    w.raw = fn
    return w


def leaves(t):
    """All leaf terms of a decision diagram."""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------ integers
def as_int(t):
    if t.op == 'c':
        if t.ty == 'bool':
            return const(int(cval(t)))
        return t
    if is_atom(t):
        return ite(t, ONE, ZERO)
    return t


def to_poly(t):
    """dict: tuple of atoms -> coefficient"""
    if t.op == 'c':
        v = int(cval(t))
        return {(): v} if v else {}
    if t.op == 'poly':
        return dict(t.args)
    return {(t,): 1}


def from_poly(d):
    d = dict((k, v) for k, v in d.items() if v)
    if not d:
        return ZERO
    if len(d) == 1:
        (k, v), = d.items()
        if k == ():
            return const(v)
        if v == 1 and len(k) == 1:
            return k[0]
    items = tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), tuple(a.id for a in kv[0]))))
    return mk('poly', items, 'int')


def _padd(a, b):
    d = to_poly(a)
    for k, v in to_poly(b).items():
        d[k] = d.get(k, 0) + v
    return from_poly(d)


def _pmul(a, b):
    da, db = to_poly(a), to_poly(b)
    if len(da) * len(db) > 400:
        return mk('mul', tuple(sorted((a, b), key=lambda x: x.id)), 'int')
    d = {}
    for ka, va in da.items():
        for kb, vb in db.items():
            k = tuple(sorted(ka + kb, key=lambda x: x.id))
            d[k] = d.get(k, 0) + va * vb
    return from_poly(d)


def add(a, b):
    return lift(_padd, as_int(a), as_int(b))


def mul(a, b):
    return lift(_pmul, as_int(a), as_int(b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mod(a, m):
    if is_const(a) and is_const(m):
        return const(cval(a) % cval(m)) if cval(m) else unk('mod 0')
    # strip nested reductions by the same modulus
    d = to_poly(a)
    changed = True
    while changed:
        changed = False
        for k in list(d):
            for i, at in enumerate(k):
                if at.op == 'mod' and (at.args[1] is m or is_const(m) and is_const(at.args[1]) and cval(m) > 0 and cval(at.args[1]) % cval(m) == 0) or \
                        at.op == 'xgcd' and at.args[1] is m or at.op == 'ygcd' and at.args[0] is m:
                    co = d.pop(k)
                    rest = k[:i] + k[i + 1:]
                    # a Bezout coefficient is the inverse (the arguments are coprime where this is used: m prime)
                    by = at.args[0] if at.op == 'mod' else modinv(at.args[0 if at.op == 'xgcd' else 1], m)
                    extra = _pmul(from_poly({rest: co}), by)
                    for kk, vv in to_poly(extra).items():
                        d[kk] = d.get(kk, 0) + vv
                    changed = True
                    break
            if changed:
                break
    # drop multiples of the modulus
    if is_const(m):
        mv = cval(m)
        for k in list(d):
            d[k] = d[k] % mv if mv > 0 else d[k]
    else:
        md = to_poly(m)
        if len(md) == 1 and list(md.values()) == [1]:
            (mk_,) = md.keys()
            for k in list(d):
                kk = list(k)
                ok = True
                for at in mk_:
                    if at in kk:
                        kk.remove(at)
                    else:
                        ok = False
                        break
                if ok:
                    del d[k]
    p = from_poly(d)
    if is_const(p) and is_const(m):
        return const(cval(p) % cval(m))
    if p is ZERO:
        return ZERO
    if p.op == 'idiv' and is_const(m) and cval(m) > 0 and is_const(p.args[1]) and cval(p.args[1]) > 0:
        # (x % M) // d  and  x // d  leave the same remainder modulo m when d * m divides M
        x, c = p.args
        if x.op == 'mod' and is_const(x.args[1]) and cval(x.args[1]) > 0 and cval(x.args[1]) % (cval(c) * cval(m)) == 0:
            return _mod(_idiv(x.args[0], c), m)
    if p.op in ('modinv', 'powmod') and p.args[-1] is m:
        return p
    if p.op == 'pow':
        return _powmod(p.args[0], p.args[1], m)
    if is_const(m) and cval(m) > 0:
        b = _balanced(d, cval(m))
        lo, hi = _span(b)
        if lo is not None and hi is not None and lo >= 0 and hi < cval(m):
            return from_poly(b)
    return mk('mod', (p, m), 'int')


MONO = [None]       # intrinsic bounds of a monomial (set by prog)


def moduli(p):
    """Constant moduli above 2 of the reductions that occur as linear terms of a sum."""
    return sorted(set(cval(k[0].args[1]) for k in to_poly(p) if len(k) == 1 and k[0].op == 'mod' and is_const(k[0].args[1]) and cval(k[0].args[1]) > 2)) if p.op == 'poly' else []


def _balanced(d, m):
    return dict((k, v - m if v > m // 2 else v) for k, v in d.items() if v)


def _span(d):
    """Intrinsic interval of a polynomial."""
    lo = hi = 0
    for k, v in d.items():
        l1, h1 = (1, 1) if k == () else MONO[0](k)
        if v < 0:
            l1, h1 = h1, l1
        lo = None if lo is None or l1 is None else lo + v * l1
        hi = None if hi is None or h1 is None else hi + v * h1
        if lo is None and hi is None:
            break
    return lo, hi


def mod(a, m):
    return lift(_mod, as_int(a), as_int(m))


def _idiv(a, b):
    if is_const(a) and is_const(b):
        return const(cval(a) // cval(b)) if cval(b) else unk('div 0')
    if is_const(b):
        bv = cval(b)
        if bv == 1:
            return a
        if bv > 0:
            d = to_poly(a)
            q, r = {}, {}
            for k, v in d.items():
                if k == ():
                    if v // bv:
                        q[k] = v // bv
                    if v % bv:
                        r[k] = v % bv
                elif v % bv == 0:
                    q[k] = v // bv
                else:
                    r[k] = v
            rp = from_poly(r)
            if is_const(rp):
                return from_poly(q)
            # (x // b) // c == x // (b*c)
            if rp.op == 'idiv' and is_const(rp.args[1]) and cval(rp.args[1]) > 0 and not q:
                return _idiv(rp.args[0], const(bv * cval(rp.args[1])))
            t = mk('idiv', (rp, b), 'int')
            return _padd(from_poly(q), t)
    elif a.op != 'ite' and b.op != 'ite' and not is_const(a):
        # x // -y == -x // y, and -x // y is -(x // y), less one unless y divides x
        if _led_down(b):
            a, b = _pmul(const(-1), a), _pmul(const(-1), b)
        if _led_down(a):
            x = _pmul(const(-1), a)
            q = mk('idiv', (x, b), 'int')
            return ite(_eq0(_mod(x, b)), neg(q), sub(neg(q), ONE))
    return mk('idiv', (a, b), 'int')


def _led_down(p):
    d = to_poly(p)
    ks = [k for k in d if k != ()]
    return bool(ks) and d[min(ks, key=lambda k: (-len(k), tuple(a.id for a in k)))] < 0


def idiv(a, b):
    return lift(_idiv, as_int(a), as_int(b))


def _pw(a, b):
    if is_const(b):
        bv = cval(b)
        if is_const(a) and bv >= 0 and bv < 100000:
            return const(cval(a) ** bv)
        if 0 <= bv <= 8:
            r = ONE
            for _ in range(bv):
                r = _pmul(r, a)
            return r
    if is_const(a) and cval(a) > 1 and cval(a) & (cval(a) - 1) == 0:
        return mk('shl', (ONE, mul(const(cval(a).bit_length() - 1), b)), 'int')
    return mk('pow', (a, b), 'int')


def ipow(a, b):
    return lift(_pw, as_int(a), as_int(b))


PRIMES = set()      # terms known to be prime: x^(m-2) is the inverse of x (and 0 for 0)


def _powmod(a, b, m):
    if is_const(a) and is_const(b) and is_const(m) and cval(m):
        try:
            return const(pow(cval(a), cval(b), cval(m)))
        except ValueError:
            return unk('pow')
    if is_const(b) and 0 <= cval(b) <= 8:
        return _mod(_pw(a, b), m)
    if is_const(b) and cval(b) == -1 or m in PRIMES and sub(b, m) is const(-2):
        return modinv(a, m)
    return mk('powmod', (_mod(a, m), b, m), 'int')


def _residues(x, m):
    """Coefficients of x, balanced around zero modulo a constant m."""
    return _balanced(dict((k, v % cval(m)) for k, v in to_poly(x).items()), cval(m)) if is_const(m) else to_poly(x)


def modinv(a, m):
    """The inverse of a modulo m, with one form for a and -a."""
    def f(x, y):
        x = _mod(x, y)
        if x.op == 'mod' and x.args[1] is y:
            d = _residues(x.args[0], y)
            k = min((k for k in d if k), key=lambda k: (len(k), tuple(a_.id for a_ in k)))
            if d[k] < 0:
                n = _mod(neg(x.args[0]), y)
                if n.op == 'mod' and _residues(n.args[0], y).get(k, 0) > 0:
                    return _mod(neg(mk('modinv', (n, y), 'int')), y)
        return mk('modinv', (x, y), 'int')
    return lift(f, as_int(a), as_int(m))


def clear_quotients(x):
    """A multiple of x in which c * (u // c) is written u - u % c."""
    for _ in range(8):
        if x.op == 'ite':
            return x
        d = to_poly(x)
        q = next((a for k in d for a in k if a.op == 'idiv' and is_const(a.args[1]) and cval(a.args[1]) > 0), None)
        if q is None:
            return x
        c, e = cval(q.args[1]), max(k.count(q) for k in d)
        by = sub(q.args[0], _mod(q.args[0], q.args[1])) if q.args[0].op != 'ite' else None
        if by is None or by.op == 'ite':
            return x
        x = ZERO
        for k, v in d.items():
            n = k.count(q)
            m = const(v * c ** (e - n))
            for a in k:
                m = mul(m, by if a is q else a)
            x = add(x, m)
    return x


def cancel_inverses(x, m):
    """Rewrite i * D to 1 for the inverses i = D^-1 modulo m in x (where these are known to exist)."""
    memo = {}

    def split_inverse(at):
        """(A^-1 B)^-1 as A B^-1, modulo a prime (also when A or B is 0, whose inverse is 0 here)."""
        if at.op != 'modinv' or at.args[1] is not m or m not in PRIMES or at.args[0].op != 'mod' or at.args[0].args[1] is not m:
            return None
        D = _residues(at.args[0].args[0], m)
        if not D or not all(D) or at.args[0].args[0].op == 'ite':
            return None
        f = next((a for a in next(iter(D)) if a.op == 'modinv' and a.args[1] is m and all(a in q for q in D)), None)
        if f is None:
            return None
        left = {}
        for q, v in D.items():
            q = list(q)
            q.remove(f)
            left[tuple(q)] = v
        return mul(f.args[0], modinv(from_poly(left), m))

    def reduce_(E):
        for _ in range(200):
            d = _residues(E, m)
            E = from_poly(d)
            hit = None
            for k, c in d.items():
                for i, at in enumerate(k):
                    new = split_inverse(at)
                    if new is not None:
                        rest = k[:i] + k[i + 1:]
                        hit = add(sub(E, from_poly({k: c})), mul(mul(const(c), from_poly({rest: 1}) if rest else ONE), new))
                        break
                if hit is not None:
                    break
            if hit is not None:
                E = hit
                continue
            for k, c in d.items():
                for i, at in enumerate(k):
                    if at.op != 'modinv' or at.args[1] is not m:
                        continue
                    D = at.args[0]
                    D = _residues(D.args[0] if D.op == 'mod' and D.args[1] is m else D, m)
                    lm = max((q for q in D if q), key=lambda q: (len(q), tuple(a.id for a in q)), default=None)
                    if lm is None or c % D[lm]:
                        continue
                    rest = list(k[:i] + k[i + 1:])
                    try:
                        for a in lm:
                            rest.remove(a)
                    except ValueError:
                        continue
                    others = from_poly(dict((q, v) for q, v in D.items() if q != lm))
                    new = mul(mul(const(c // D[lm]), from_poly({tuple(rest): 1}) if rest else ONE), sub(ONE, mul(others, at)))
                    hit = add(sub(E, from_poly({k: c})), new)
                    break
                if hit is not None:
                    break
            if hit is None or hit.op == 'ite':
                return E
            E = hit
        return E

    def go(y):
        if not isinstance(y, T):
            return tuple(go(z) for z in y) if isinstance(y, tuple) else y
        if y.op in ('c', 'sym', 'lam', 'bv') or not contains_op(y, 'modinv'):
            return y
        r = memo.get(y)
        if r is None:
            if y.op == 'mod' and y.args[1] is m and y.args[0].op != 'ite':
                r = mod(reduce_(y.args[0]), m)
            else:
                r = mk(y.op, tuple(go(z) for z in y.args), y.ty)
            memo[y] = r
        return r

    def contains_op(y, op):
        return any(z.op == op for z in walk(y))
    return go(x)


def powmod(a, b, m):
    return lift(_powmod, as_int(a), as_int(b), as_int(m))


def _bxor(a, b):
    if is_const(a) and is_const(b):
        return const(int(cval(a)) ^ int(cval(b)))
    parts, c = {}, 0
    for t in (a, b):
        ps = t.args if t.op == 'bxor' else (t,)
        for p in ps:
            if is_const(p):
                c ^= int(cval(p))
            elif p in parts:
                del parts[p]
            else:
                parts[p] = 1
    items = sorted(parts, key=lambda x: x.id)
    if c or not items:
        items.append(const(c))
    if len(items) == 1:
        return items[0]
    return mk('bxor', tuple(items), 'int')


def bxor(a, b):
    return lift(_bxor, as_int(a), as_int(b))


def _bitand(a, b):
    if is_const(a) and is_const(b):
        return const(int(cval(a)) & int(cval(b)))
    if is_const(a):
        a, b = b, a
    if is_const(b):
        v = cval(b)
        if v == 0:
            return ZERO
        if v > 0 and (v & (v + 1)) == 0:
            return _mod(a, const(v + 1))
    if a is b:
        return a
    return mk('band', tuple(sorted((a, b), key=lambda x: x.id)), 'int')


def bitand(a, b):
    return lift(_bitand, as_int(a), as_int(b))


def _bitor(a, b):
    if is_const(a) and is_const(b):
        return const(int(cval(a)) | int(cval(b)))
    if a is ZERO:
        return b
    if b is ZERO or a is b:
        return a
    return mk('bor', tuple(sorted((a, b), key=lambda x: x.id)), 'int')


def bitor(a, b):
    return lift(_bitor, as_int(a), as_int(b))


def power(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def bitlen(a):
    return lift(lambda x: const(cval(x).bit_length()) if is_const(x) else mk('bitlen', (x,), 'int'), as_int(a))


def shl(a, b):
    def f(x, y):
        if is_const(y) and 0 <= cval(y) <= 8192:
            return _pmul(x, const(1 << cval(y)))
        if is_const(x) and cval(x) == 0:
            return ZERO
        return _pmul(x, mk('shl', (ONE, y), 'int'))
    return lift(f, as_int(a), as_int(b))


def digits(X, k):
    """(base, start, slope) when X is the byte of base at start + slope*k with slope +-1."""
    if X.op != 'byte':
        return None
    d = to_poly(X.args[1])
    s = d.pop((k,), 0)
    a = from_poly(d)
    if s not in (1, -1) or contains(a, k) or contains(X.args[0], k):
        return None
    return X.args[0], a, s


def sumk(cnt, d, k):
    """The sum of d over 0 <= k < cnt; bytes times powers of 256 are the number they spell."""
    if d.op != 'ite' and cnt.op != 'ite':
        D = to_poly(d)
        if len(D) == 1:
            (m, c), = D.items()
            powers = [x for x in m if x.op == 'shl' and x.args[0] is ONE]
            rest = [x for x in m if x not in powers]
            e = ZERO
            for x in powers:
                e = add(e, x.args[1])
            if len(rest) == 1 and e.op != 'ite':
                g = digits(rest[0], k)
                E = to_poly(e)
                w = E.pop((k,), 0)
                off = from_poly(E)
                if g is not None and w in (8, -8) and not contains(off, k):
                    base, a, s = g
                    lo, hi = (a, add(a, cnt)) if s > 0 else (add(sub(a, cnt), ONE), add(a, ONE))
                    seg = subseq(base, lo, hi)
                    if s > 0 and w > 0 or s < 0 and w < 0:
                        seg = rev(seg)
                    if w < 0:
                        off = add(off, mul(const(w), sub(cnt, ONE)))
                    return mul(mul(const(c), be(seg)), shl(ONE, off) if off is not ZERO else ONE)
    return mk('sumk', (cnt, d), 'int')


def shr(a, b):
    def f(x, y):
        if is_const(y) and 0 <= cval(y) <= 8192:
            return _idiv(x, const(1 << cval(y)))
        return mk('shr', (x, y), 'int')
    return lift(f, as_int(a), as_int(b))


# ------------------------------------------------------------------ integer conditions
def exact_quotients(p):
    """c * (u // c) written u - u % c, wherever a coefficient allows it."""
    for _ in range(4):
        if p.op != 'poly':
            return p
        new = None
        for k, v in p.args:
            if len(k) == 1 and k[0].op == 'idiv' and is_const(k[0].args[1]) and cval(k[0].args[1]) > 1 and v % cval(k[0].args[1]) == 0 and k[0].args[0].op != 'ite':
                q = k[0]
                m = _mod(q.args[0], q.args[1])
                if m.op == 'ite':
                    continue
                c = v // cval(q.args[1])
                new = _padd(_padd(p, _pmul(const(-v), q)), _pmul(const(c), _padd(q.args[0], _pmul(const(-1), m))))
                break
            q = next((a for a in k if a.op == 'idiv' and len(k) == 2 and a.args[1] in k and a.args[1] is not a), None)
            if q is not None and q.args[0].op != 'ite':
                m = _mod(q.args[0], q.args[1])
                if m.op == 'ite':
                    continue
                new = _padd(from_poly(dict((k2, v2) for k2, v2 in p.args if k2 != k)),
                            _pmul(const(v), _padd(q.args[0], _pmul(const(-1), m))))
                break
        if new is None:
            return p
        p = new
    return p


def base_mod(x):
    """u % c for a constant c in terms of w % c, with w the part of u without its constant and with a positive leading coefficient."""
    def f(a):
        u, m = a.args
        if u.op == 'ite' or not is_const(m) or cval(m) <= 2 or m in PRIMES:
            return a
        n = cval(m)
        d = to_poly(u)
        c = d.pop((), 0) % n
        d = {k: v % n - (n if 2 * (v % n) > n else 0) for k, v in d.items() if v % n}
        if not d:
            return a
        lead = d[min(d, key=lambda k: (-len(k), tuple(z.id for z in k)))]
        w = from_poly(d)
        if lead < 0:
            r = _mod(_pmul(const(-1), w), m)
            if r.op == 'ite':
                return a
            r = ite(_eq0(r), ZERO, _padd(m, _pmul(const(-1), r)))
        elif c:
            r = _mod(w, m)
        else:
            return a
        return lift(lambda z: ite(ge0(_padd(z, const(c - n))), _padd(z, const(c - n)), _padd(z, const(c))), r) if c else r
    mods = [k for k in set(z for z in walk(x) if z.op == 'mod')]
    for a in sorted(mods, key=lambda z: z.id):
        b = f(a)
        if b is not a:
            x = lift(lambda y, b=b: subst(y, {a: b}) if not isinstance(y, tuple) else y, x) if b.op != 'ite' else \
                lift(lambda bb, y: subst(y, {a: bb}), b, x)
    return x


def _ge0(p):
    if is_const(p):
        return TRUE if cval(p) >= 0 else FALSE
    p = exact_quotients(p)
    if is_const(p):
        return TRUE if cval(p) >= 0 else FALSE
    d = to_poly(p)
    if len(d) <= 2:
        ks = [k for k in d if k != ()]
        k = ks[0] if len(ks) == 1 else ()
        if len(k) == 1 and k[0].op == 'mod' and is_const(k[0].args[1]) and cval(k[0].args[1]) > 1 and k[0].args[0].op != 'ite':
            u, m, v, c = k[0].args[0], cval(k[0].args[1]), d[k], d.get((), 0)
            if v > 0:
                at = -(c // v)           # v*r + c >= 0  <=>  r >= at
                if at <= 0:
                    return TRUE
                if at > m - 1:
                    return FALSE
                if at == 1:
                    return bnot(_eq0(k[0]))
                if at == m - 1:
                    return _eq0(_padd(k[0], const(1 - m)))
            else:
                at = c // -v             # r <= at
                if at < 0:
                    return FALSE
                if at >= m - 1:
                    return TRUE
                if at == 0:
                    return _eq0(k[0])
                if at == m - 2:
                    return bnot(_eq0(_padd(k[0], const(1 - m))))
    # tighten by the gcd of the non-constant coefficients
    from math import gcd
    g = 0
    for k, v in d.items():
        if k != ():
            g = gcd(g, abs(v))
    c = d.pop((), 0)
    if len(d) == 1:
        (k, v), = d.items()
        if abs(v) == 1 and len(k) == 1 and k[0].op == 'bitlen' and abs(c) <= 4096:
            # bit_length(x) >= b  <=>  |x| >= 2**(b-1)
            x, b = k[0].args[0], -c if v == 1 else c + 1
            if b <= 1:
                r = TRUE if b <= 0 else bnot(_eq0(x))
            else:
                r = bor(ge0(sub(x, const(2 ** (b - 1)))), ge0(sub(neg(x), const(2 ** (b - 1)))))
            return r if v == 1 else bnot(r)
    if g > 1:
        d = dict((k, v // g) for k, v in d.items())
        c = c // g
    if len(d) == 1 and c in (127, -128):
        # the top bit of a signed number is its sign
        (k, v), = d.items()
        if len(k) == 1 and k[0].op == 'byte' and k[0].args[0].op == 'i2b' and k[0].args[0].args[2] and k[0].args[1] is ZERO and abs(v) == 1:
            r = ge0(k[0].args[0].args[0])
            return r if v < 0 else bnot(r)
    if len(d) == 1 and c in (0, -1):
        (k, v), = d.items()
        if len(k) == 1 and k[0].op == 'idiv' and not is_const(k[0].args[1]) and v == 2 * c + 1:
            # the sign of a quotient (the divisor is not zero)
            x, y = k[0].args
            nonneg = ite(ge0(sub(y, ONE)), ge0(x), ge0(neg(x)))
            return bnot(nonneg) if c else nonneg
    # canonical polarity: leading coefficient positive, otherwise use the negated atom
    lead = sorted(d.items(), key=lambda kv: (len(kv[0]), tuple(a.id for a in kv[0])))[0][1]
    if lead > 0:
        d[()] = c
        return mk('ge0', (from_poly(d),), 'bool')
    # p >= 0  <=>  not (-p - 1 >= 0)
    d = dict((k, -v) for k, v in d.items())
    d[()] = -c - 1
    return bnot(mk('ge0', (from_poly(d),), 'bool'))


def ge0(p):
    return lift(_ge0, as_int(p))


def _eq0(p):
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    p = exact_quotients(p)
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    d = to_poly(p)
    from math import gcd
    g = 0
    for k, v in d.items():
        if k != ():
            g = gcd(g, abs(v))
    c = d.get((), 0)
    if c % g:
        return FALSE
    if g > 1:
        d = dict((k, v // g) for k, v in d.items())
    ks = sorted(d.items(), key=lambda kv: (len(kv[0]), tuple(a.id for a in kv[0])))
    lead = [v for k, v in ks if k != ()][0]
    if lead < 0:
        d = dict((k, -v) for k, v in d.items())
    p = from_poly(d)
    if p.op == 'shr' and not is_const(p.args[1]):
        return band(ge0(p.args[0]), ge0(sub(p.args[1], mk('bitlen', (p.args[0],), 'int'))))
    ki = [k for k in d if k != ()]
    if len(ki) == 1 and len(ki[0]) == 1 and ki[0][0].op == 'bitlen' and abs(d[ki[0]]) == 1:
        return band(ge0(p), ge0(neg(p)))
    if len(ki) == 1 and len(ki[0]) == 1 and ki[0][0].op == 'idiv' and d[ki[0]] in (1, -1) and is_const(ki[0][0].args[1]) and cval(ki[0][0].args[1]) > 0:
        # x // c == v  <=>  v*c <= x < (v+1)*c
        x, q = ki[0][0].args
        x = sub(x, const(-d.get((), 0) * d[ki[0]] * cval(q)))
        return band(ge0(x), ge0(sub(const(cval(q) - 1), x)))
    if len(ki) == 2:
        # x - x % m == c  <=>  c <= x < c + m, for a multiple c of m
        for q, x in (ki, ki[::-1]):
            if len(q) == 1 and q[0].op == 'mod' and is_const(q[0].args[1]) and cval(q[0].args[1]) > 0 and len(x) == 1 and \
                    q[0].args[0] is x[0] and d[q] == -d[x]:
                m, c = cval(q[0].args[1]), d.get((), 0)
                if c % (d[x] * m):
                    return FALSE
                y = sub(x[0], const(-c // d[x]))
                return band(ge0(y), ge0(sub(const(m - 1), y)))
    if p.op == 'band':      # a single bit
        for x, y in (p.args, p.args[::-1]):
            if y.op == 'shl' and y.args[0] is ONE:
                return _eq0(mod(shr(x, y.args[1]), const(2)))
    # be(x) - be(y) == 0 with equal lengths  <=>  x == y
    if len(d) == 2 and () not in d:
        (ka, va), (kb, vb) = d.items()
        if len(ka) == 1 and len(kb) == 1 and va == -vb:
            x, y = ka[0], kb[0]
            if x.op == 'be' and y.op == 'be' and length(x.args[0]) is length(y.args[0]):
                return eq(x.args[0], y.args[0])
            if x.op == 'mod' and y.op == 'mod' and x.args[1] is y.args[1] and not is_const(x.args[1]) and abs(va) == 1:
                # equal remainders  <=>  congruent
                return _eq0(_mod(sub(x.args[0], y.args[0]), x.args[1]))
    if p.op != 'mod':
        ms = moduli(p)
        if ms:
            lo, hi = _span(d)
            for m in ms:
                if lo is not None and hi is not None and lo > -m and hi < m:
                    return _eq0(_mod(p, const(m)))
    if p.op == 'mod' and is_const(p.args[1]) and cval(p.args[1]) > 2:
        m = cval(p.args[1])
        b = _balanced(to_poly(p.args[0]), m)
        lo, hi = _span(b)
        if lo is not None and hi is not None and lo > -m and hi < m:
            return _eq0(from_poly(b))
        # m divides P exactly when it divides any unit multiple of P: fix the leading coefficient
        q = to_poly(p.args[0])
        lead = min((k for k in q if k != ()), key=lambda k: (-len(k), tuple(a.id for a in k)))
        u = q[lead]
        if m > 2 ** 64 and gcd(u, m) == 1:
            u = pow(u, -1, m)
        else:
            u = -1 if b[lead] < 0 else 1
        if u != 1:
            p = mk('mod', (from_poly(dict((k, v * u % m) for k, v in q.items() if v * u % m)), p.args[1]), 'int')
        return mk('eq0', (p,), 'bool')
    if p.op == 'mod' and not is_const(p.args[1]):
        q = to_poly(p.args[0])
        ks = [k for k in q if k != ()]
        if ks and q[min(ks, key=lambda k: (-len(k), tuple(a.id for a in k)))] < 0:
            return mk('eq0', (_mod(_pmul(const(-1), p.args[0]), p.args[1]),), 'bool')
    if p.op == 'mod' and is_const(p.args[1]) and cval(p.args[1]) == 2:
        # parity: keep one canonical atom
        return mk('eq0', (p,), 'bool')
    # mod(x,2) - 1 == 0  <=>  not mod(x,2) == 0
    dd = to_poly(p)
    if len(dd) == 2 and dd.get((), 0) == -1:
        (k,) = [k for k in dd if k != ()]
        if len(k) == 1 and k[0].op == 'mod' and k[0].args[1] is const(2) and dd[k] == 1:
            return bnot(mk('eq0', (k[0],), 'bool'))
    return mk('eq0', (p,), 'bool')


def eq0(p):
    return lift(_eq0, as_int(p))


def lt_i(a, b):
    return ge0(sub(sub(b, a), ONE))


def le_i(a, b):
    return ge0(sub(b, a))


# ------------------------------------------------------------------ sequences (bytes / str / list)
# bytes ops: c, sym, cat, sub (exact slice), sl (clamped slice), rev, hex, unhex, i2b, rep, cmap, encode ...
SEQTY = ('bytes', 'str', 'list')


def length(t):
    return lift(_length, t)


def _length(t):
    op = t.op
    if op == 'c':
        return const(len(cval(t)))
    if op == 'tuple':
        return const(len(t.args))
    if op == 'sym':
        L = sym_attr(t, 'length')
        if L is not None:
            return L if isinstance(L, T) else const(L)
        return mk('len', (t,), 'int')
    if op == 'cat' or op == 'lcat':
        r, k = ZERO, 0
        for a in t.args:
            x = ONE if a.op == 'li' else _length(a)
            if is_const(x):
                k += cval(x)
            else:
                r = add(r, x)
        return add(r, const(k)) if k else r
    if op == 'li':
        return ONE
    if op == 'lmap':
        return t.args[0]
    if op == 'sub':
        return sub(t.args[2], t.args[1])
    if op in ('rev', 'lrev'):
        return _length(t.args[0])
    if op == 'hex':
        return mul(const(2), _length(t.args[0]))
    if op == 'i2b':
        return t.args[1]
    if op == 'fpack':
        return const(t.args[1])
    if op == 'rep':
        return mul(_length(t.args[0]), t.args[1])
    if op == 'cmap':
        n, body = t.args
        L = length(body)
        if not has_bv(L) and L.op != 'ite':
            return mul(n, L)
        return mk('len', (t,), 'int')
    if op == 'astr':
        return _length(t.args[0])
    if op == 'unhex':
        L = _length(t.args[0])
        return idiv(L, const(2))
    if op == 'digest':
        return const(t.args[2])
    if op in ('aesenc', 'aesdec'):
        return _length(t.args[-1])
    if op == 'bits':           # the binary digits of a positive integer
        return bitlen(t.args[0])
    if op in ('fixed', 'decl', 'binl'):          # fixed-length opaque bytes: (name, n, args...); decimal digits: (number, width)
        return const(t.args[1])
    return mk('len', (t,), 'int')


def binl(n, w):
    """The w binary digits (ASCII bytes) of an integer 0 <= n < 2**w."""
    def f(n):
        if w == 0:
            return EMPTYB
        return const(bin(cval(n) + (1 << w))[3:].encode()) if is_const(n) else mk('binl', (n, w), 'bytes')
    return lift(f, n)


def decl(n, w):
    """The w decimal digits (ASCII bytes) of an integer 0 <= n < 10**w."""
    return lift(lambda n: _decl(n, w), n)


def _decl(n, w):
    if w == 0:
        return EMPTYB
    if is_const(n):
        return const(b'%0*d' % (w, cval(n)))
    return mk('decl', (n, w), 'bytes')


def digits_rstrip(d):
    """The digits d = decl(n, w) without the zeros at their end: one case for every number of them."""
    n, w = d.args
    out, ten = EMPTYB, const(10)          # n < 10**w, so 10**w divides only 0
    cases = []
    for k in range(w, 0, -1):
        cases.append((eq0(mod(d.args[0], const(10 ** (w - k + 1)))) if k > 1 else eq0(d.args[0]), decl(n, k)))
        n = idiv(n, ten)
    for last, text in reversed(cases):
        out = ite(last, out, text)
    return out


def bit_char(s):
    """The value of one binary digit of a positive integer's text, or None."""
    if s.op == 'sub' and s.args[0].op == 'bits' and sub(s.args[2], s.args[1]) is ONE:
        return mod(shr(s.args[0].args[0], sub(sub(_length(s.args[0]), ONE), s.args[1])), const(2))
    return None


def clen(t):
    """Concrete length or None"""
    L = _length(t) if t.op != 'ite' else None
    if L is not None and is_const(L):
        return cval(L)
    return None


def _seg_merge(a, b):
    """Merge two adjacent byte/str segments, or None."""
    if a.op == 'c' and b.op == 'c':
        return const(cval(a) + cval(b))
    if a.op == 'sub' and b.op == 'sub' and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
        return subseq(a.args[0], a.args[1], b.args[2])
    if a.op == 'hex' and b.op == 'hex':
        return hexl(cat2(a.args[0], b.args[0]))
    if a.op == 'astr' and b.op == 'astr':
        return astr(cat2(a.args[0], b.args[0]))
    if a.op == 'astr' and b.op == 'c' and b.ty == 'str' and cval(b).isascii():
        return astr(cat2(a.args[0], const(cval(b).encode('ascii'))))
    if b.op == 'astr' and a.op == 'c' and a.ty == 'str' and cval(a).isascii():
        return astr(cat2(const(cval(a).encode('ascii')), b.args[0]))
    # descending single elements: rev of an ascending run
    ra = _revrun(a)
    rb = _revrun(b)
    if ra and rb and ra[0] is rb[0] and ra[1] is rb[2]:
        return rev(subseq(ra[0], rb[1], ra[2]))
    if a.op == 'rep' and b.op == 'rep' and a.args[0] is b.args[0]:
        return rep(a.args[0], add(a.args[1], b.args[1]))
    return None


def _revrun(t):
    """(base, lo, hi) when t is the reversal of base[lo:hi] (single elements count)."""
    if t.op == 'rev':
        x = t.args[0]
        if x.op == 'sub':
            return x.args
        L = _length(x)
        if x.op in ('sym', 'digest', 'fixed', 'sl'):
            return (x, ZERO, L)
        return None
    if t.op == 'sub' and sub(t.args[2], t.args[1]) is ONE:
        return t.args
    return None


def cat2(a, b):
    return cat([a, b])


def cat(segs, ty=None):
    segs = list(segs)
    if any(s.op == 'ite' for s in segs):
        return lift(lambda *xs: _cat(xs, ty), *segs)
    return _cat(segs, ty)


def _cat(segs, ty=None):
    out = []
    for s in segs:
        if ty is None and s.ty in ('bytes', 'str'):
            ty = s.ty
        parts = s.args if s.op == 'cat' else (s,)
        for p in parts:
            if p.op == 'c' and not cval(p):
                continue
            L = _length(p)
            if L is ZERO:
                continue
            out.append(p)
            while len(out) >= 2:
                m = _seg_merge(out[-2], out[-1])
                if m is None:
                    break
                out[-2:] = list(m.args) if m.op == 'cat' else [m]
    if not out:
        return const('') if ty == 'str' else EMPTYB
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out), ty or 'bytes')


def _half(p):
    d = to_poly(p)
    if any(v % 2 for v in d.values()):
        return None
    return from_poly(dict((k, v // 2) for k, v in d.items()))


LE = [None]


def _le(a, b):
    if a is b:
        return True
    g = ge0(sub(b, a))
    if g is TRUE:
        return True
    return LE[0] is not None and g is not FALSE and LE[0](g)


def subseq(base, lo, hi):
    """Exact slice base[lo:hi], 0 <= lo <= hi <= len(base)."""
    L = _length(base)
    if lo is ZERO and hi is L:
        return base
    if lo is hi:
        return const('') if base.ty == 'str' else EMPTYB if base.ty == 'bytes' else mk('lcat', (), 'list')
    if base.op == 'c' and is_const(lo) and is_const(hi):
        return const(cval(base)[cval(lo):cval(hi)])
    if lo is ZERO and hi.op == 'len' and hi.args[0].op == 'rstrip':
        y = hi.args[0].args[0]
        if y is base or y.op == 'sub' and y.args[0] is base and y.args[1] is ZERO:
            return hi.args[0]
    if base.op == 'sub':
        return subseq(base.args[0], add(base.args[1], lo), add(base.args[1], hi))
    if base.op == 'astr':
        return astr(subseq(base.args[0], lo, hi))
    if base.op == 'decl' and is_const(lo) and is_const(hi):
        n, w = base.args
        return decl(mod(idiv(n, const(10 ** (w - cval(hi)))), const(10 ** (cval(hi) - cval(lo)))) if cval(lo) else
                    idiv(n, const(10 ** (w - cval(hi)))), cval(hi) - cval(lo))
    if base.op == 'binl' and is_const(lo) and is_const(hi):
        n, w = base.args
        x = idiv(n, const(1 << (w - cval(hi))))
        return binl(mod(x, const(1 << (cval(hi) - cval(lo)))) if cval(lo) else x, cval(hi) - cval(lo))
    if base.op == 'rev':
        return rev(subseq(base.args[0], sub(L, hi), sub(L, lo)))
    if base.op == 'cat':
        out, pos, first = [], ZERO, None
        ok = True
        for k, s in enumerate(base.args):
            end = add(pos, _length(s))
            if _le(end, lo):
                pos = end
                continue
            if first is None:
                first = (k, pos)
            if _le(hi, pos):
                break
            a = lo if _le(pos, lo) else pos if _le(lo, pos) else None
            b = hi if _le(hi, end) else end if _le(end, hi) else None
            if a is None or b is None:
                ok = False
                break
            out.append(subseq(s, sub(a, pos), sub(b, pos)))
            pos = end
        if ok:
            return _cat(out, base.ty)
        k, p0 = first
        if k:
            return subseq(_cat(base.args[k:], base.ty), sub(lo, p0), sub(hi, p0))
    if base.op == 'hex':
        l2, h2 = _half(lo), _half(hi)
        if l2 is not None and h2 is not None:
            return hexl(subseq(base.args[0], l2, h2))
    if base.op == 'i2b' and is_const(base.args[0]) is False and base.args[2] is False and is_const(lo) and is_const(hi):
        # a low-order run of the bytes of be(x) handled through be; otherwise opaque
        pass
    return mk('sub', (base, lo, hi), base.ty)


def rev(t):
    return lift(_rev, t)


def _rev(t):
    if t.op == 'c':
        return const(cval(t)[::-1])
    if t.op == 'rev':
        return t.args[0]
    if t.op == 'cat':
        return _cat([_rev(s) for s in reversed(t.args)], t.ty)
    if t.op == 'astr':
        return astr(_rev(t.args[0]))
    if _length(t) is ONE:
        return t
    if t.op == 'rep' and _length(t.args[0]) is ONE:
        return t
    return mk('rev', (t,), t.ty)


def hexl(t):
    return lift(_hexl, t)


def _hexl(t):
    if t.op == 'c':
        import binascii
        return const(binascii.hexlify(cval(t)))
    if t.op == 'unhex' and t.args[0].op == 'lowerhex':
        return t.args[0].args[0]
    return mk('hex', (t,), 'bytes')


def _evensplit(t):
    """Parts of a concatenation: leading and trailing pieces known to have an even length, and what is between."""
    def even(s):
        if s.op == 'hex':
            return True
        n = clen(s)
        return n is not None and n % 2 == 0
    xs = list(t.args)
    front, back = [], []
    while xs and even(xs[0]):
        front.append(xs.pop(0))
    while xs and even(xs[-1]):
        back.insert(0, xs.pop())
    return front, xs, back


def ishex(t):
    return lift(_ishex, t)


def _ishex(t):
    """Can binascii.unhexlify take this value?"""
    if t.op == 'c':
        import binascii
        try:
            binascii.unhexlify(cval(t))
            return TRUE
        except Exception:
            return FALSE
    if t.op == 'hex':
        return TRUE
    if t.op == 'astr':
        return _ishex(t.args[0])
    if t.op == 'encode' and t.args[0] in ('utf-8', 'ascii', 'iso8859-1'):
        return _ishex(t.args[1])
    if t.op == 'sub' and t.args[0].op == 'hex':
        L = sub(t.args[2], t.args[1])
        if is_const(L):
            return TRUE if cval(L) % 2 == 0 else FALSE
    L = _length(t)
    if is_const(L) and cval(L) % 2:
        return FALSE
    if t.op == 'cat':
        for s in t.args:
            if s.op == 'c':
                v = cval(s)
                if isinstance(v, str):
                    try:
                        v = v.encode('ascii')
                    except Exception:
                        return FALSE
                if any(c not in b'0123456789abcdefABCDEF' for c in v):
                    return FALSE
        front, mid, back = _evensplit(t)
        out = TRUE
        for s in front + back:
            if s.op not in ('c', 'hex'):
                out = band(out, _ishex(s))
        if mid and (front or back):
            out = band(out, _ishex(_cat(mid, t.ty)))
            return out
        if not mid:
            return out
    return mk('ishex', (t,), 'bool')


def unhex(t):
    return lift(_unhex, t)


def _unhex(t):
    if t.op == 'c':
        import binascii
        try:
            return const(binascii.unhexlify(cval(t)))
        except Exception:
            return unk('unhex of non-hex constant')
    if t.op == 'hex':
        return t.args[0]
    if t.op == 'astr':
        return _unhex(t.args[0])
    if t.op == 'encode' and t.args[0] in ('utf-8', 'ascii', 'iso8859-1'):
        return _unhex(t.args[1])
    if t.op == 'cat':
        front, mid, back = _evensplit(t)
        if front or back:
            return _cat([_unhex(s) for s in front] + ([_unhex(_cat(mid, t.ty))] if mid else []) + [_unhex(s) for s in back], 'bytes')
    return mk('unhex', (t,), 'bytes')


def astr(b):
    """The str whose ASCII encoding is the bytes term b."""
    return lift(_astr, b)


def _astr(b):
    if b.op == 'c':
        return const(cval(b).decode('latin-1'))
    if b.op == 'encode':
        return b.args[1]
    return mk('astr', (b,), 'str')


def hexish(b):
    if b.op == 'hex':
        return True
    if b.op in ('sub', 'rev', 'sl', 'astr'):
        return hexish(b.args[0])
    if b.op == 'encode':
        return hexish(b.args[1])
    return False


def is_ascii(b):
    if b.op == 'c':
        v = cval(b)
        return v.isascii()
    if b.op in ('hex', 'b58', 'decl', 'binl'):
        return True
    if b.op == 'cat':
        return all(is_ascii(s) for s in b.args)
    if b.op in ('sub', 'rev', 'sl'):
        return is_ascii(b.args[0])
    if b.op == 'rep':
        return is_ascii(b.args[0])
    if b.op == 'encode' and b.args[1].op in ('astr',):
        return True
    return False


def norm_enc(e):
    try:
        return codecs.lookup(e).name
    except LookupError:
        return e


def encode(s, enc):
    enc = norm_enc(enc)
    return lift(lambda x: _encode(x, enc), s)


def _encode(s, enc):
    if s.op == 'c':
        try:
            return const(cval(s).encode(enc))
        except Exception:
            return unk('encode')
    if s.op == 'astr' and enc in ('utf-8', 'ascii', 'latin-1', 'iso8859-1', 'cp1252'):
        return s.args[0]
    if s.op == 'decode' and s.args[0] == enc:
        return s.args[1]
    if s.op == 'cat' and enc in ('utf-8', 'ascii', 'iso8859-1'):
        return _cat([_encode(x, enc) for x in s.args], 'bytes')
    return mk('encode', (enc, s), 'bytes')


def decode(b, enc):
    enc = norm_enc(enc)
    return lift(lambda x: _decode(x, enc), b)


def _decode(b, enc):
    if b.op == 'c':
        try:
            return const(cval(b).decode(enc))
        except Exception:
            return unk('decode')
    if is_ascii(b) and enc in ('utf-8', 'ascii', 'iso8859-1', 'cp1252'):
        return _astr(b)
    if b.op == 'encode' and b.args[0] == enc:
        return b.args[1]
    return mk('decode', (enc, b), 'str')


def byte_at(t, i):
    """Integer value of byte i (exact, in range) of a bytes term."""
    return lift(_byte_at, t, i)


def _byte_at(t, i):
    if t.op == 'c' and is_const(i):
        try:
            return const(cval(t)[cval(i)])
        except IndexError:
            return unk('index')
    s = subseq(t, i, add(i, ONE)) if t.ty in ('bytes',) else t
    if s.op == 'c' and isinstance(cval(s), bytes) and len(cval(s)) == 1:
        return const(cval(s)[0])
    if s.op == 'i2b' and s.args[1] is ONE and not s.args[2]:
        return s.args[0]
    if s.op in ('decl', 'binl') and s.args[1] == 1:
        return add(const(48), s.args[0])
    if s.op == 'sub' and sub(s.args[2], s.args[1]) is ONE:
        return mk('byte', (s.args[0], s.args[1]), 'int')
    return mk('byte', (s, ZERO), 'int')


def be(t):
    """Unsigned big-endian integer of a bytes term."""
    return lift(_be, t)


def _be(t):
    if t.op == 'c':
        return const(int.from_bytes(cval(t), 'big'))
    L = clen(t)
    if t.op == 'cat':
        f = t.args[0]
        if f.op == 'c' and not any(cval(f)):
            return _be(_cat(t.args[1:], 'bytes'))
        if f.op == 'c' and cval(f)[:1] == b'\0':
            return _be(_cat([const(cval(f).lstrip(b'\0'))] + list(t.args[1:]), 'bytes'))
    if t.op == 'i2b' and not t.args[2]:
        return t.args[0]
    if t.op == 'i2b':
        x, n = t.args[0], t.args[1]
        return ite(ge0(x), x, add(x, shl(ONE, mul(const(8), n))))
    if L == 1:
        return _byte_at(t, ZERO)
    if L == 0:
        return ZERO
    return mk('be', (t,), 'int')


def bes(t):
    """Signed (two's complement) big-endian integer."""
    def f(t):
        if t.op == 'c':
            return const(int.from_bytes(cval(t), 'big', signed=True))
        if t.op == 'i2b' and t.args[2]:
            return t.args[0]
        return mk('bes', (t,), 'int')
    return lift(f, t)


def i2b(v, n, signed=False):
    """n-byte big-endian encoding of v (assumed in range)."""
    return lift(lambda x, y: _i2b(x, y, signed), as_int(v), n)


def _i2b(v, n, signed):
    if is_const(v) and is_const(n):
        try:
            return const(int(cval(v)).to_bytes(cval(n), 'big', signed=signed))
        except OverflowError:
            return unk('int out of range for bytes')
    if not signed:
        if v.op == 'be':
            L = _length(v.args[0])
            if L is n:
                return v.args[0]
            if is_const(L) and is_const(n) and cval(L) < cval(n):
                return _cat([const(b'\0' * (cval(n) - cval(L))), v.args[0]], 'bytes')
        if v.op == 'byte':
            one = subseq(v.args[0], v.args[1], add(v.args[1], ONE))
            if is_const(n) and cval(n) >= 1:
                return _cat([const(b'\0' * (cval(n) - 1)), one], 'bytes')
        if v.op == 'poly' and is_const(n) and 1 < cval(n) <= 256:
            # 256^k * x + y with 0 <= y < 256^k
            d = to_poly(v)
            for k in sorted(set((abs(c) & -abs(c)).bit_length() - 1 >> 3 for c in d.values())):
                if not 0 < k < cval(n):
                    continue
                hi = dict((m, c >> 8 * k) for m, c in d.items() if c % 256 ** k == 0)
                lo = dict((m, c) for m, c in d.items() if c % 256 ** k)
                a, b = _span(lo)
                if a is not None and b is not None and a >= 0 and b < 256 ** k:
                    return _cat([_i2b(from_poly(hi), const(cval(n) - k), False), _i2b(from_poly(lo), const(k), False)], 'bytes')
        if v.op == 'bxor' and is_const(n) and cval(n) > 1:
            ps = [p for p in v.args]
            if all(p.op == 'be' and _length(p.args[0]) is n for p in ps):
                out = []
                for i in range(cval(n)):
                    x = ZERO
                    for p in ps:
                        x = _bxor(x, _byte_at(p.args[0], const(i)))
                    out.append(_i2b(x, ONE, False))
                return _cat(out, 'bytes')
    else:
        if v.op == 'bes' and _length(v.args[0]) is n:
            return v.args[0]
    return mk('i2b', (v, n, signed), 'bytes')


def joinhex(x):
    """Hexadecimal digits next to the hexadecimal of bytes are the hexadecimal of more bytes."""
    def plain(c):
        v = cval(c)
        v = v.decode('latin-1') if isinstance(v, bytes) else v
        return len(v) % 2 == 0 and all(ch in '0123456789abcdef' for ch in v)

    def inner(y):
        if y.op == 'hex':
            return y.args[0]
        if y.op == 'astr' and y.args[0].op == 'hex':
            return y.args[0].args[0]
        return const(bytes.fromhex(cval(y).decode() if y.ty == 'bytes' else cval(y))) if y.op == 'c' and plain(y) else None
    if x.op != 'cat':
        return x
    out, run = [], []

    def flush():
        if len(run) > 1 and any(y.op != 'c' for y in run):
            h = hexl(_cat([inner(y) for y in run], 'bytes'))
            out.append(astr(h) if x.ty == 'str' else h)
        else:
            out.extend(run)
        del run[:]
    for y in x.args:
        if inner(y) is None:
            flush()
            out.append(y)
        else:
            run.append(y)
    flush()
    return _cat(out, x.ty)


def rep(seg, n):
    def f(s, k):
        if is_const(k):
            if cval(k) <= 0:
                return const('') if s.ty == 'str' else EMPTYB
            if s.op == 'c' and cval(k) * len(cval(s)) <= 1 << 16:
                return const(cval(s) * cval(k))
            if cval(k) == 1:
                return s
            if cval(k) <= 64:
                return _cat([s] * cval(k), s.ty)
        if s.op == 'c' and not cval(s):
            return s
        return mk('rep', (s, k), s.ty)
    return lift(f, seg, as_int(n))


# ------------------------------------------------------------------ bound variables (loop summaries)
def bv(depth):
    return mk('bv', (depth,), 'int')


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def has_op(t, ops):
    return any(x.op in ops for x in walk(t))


def contains(t, target):
    return any(x is target for x in walk(t))


_bvmemo = {}


def max_bv(t):
    r = _bvmemo.get(t)
    if r is None:
        r = 0
        if t.op == 'bv':
            r = t.args[0]
        else:
            st = list(t.args)
            while st:
                a = st.pop()
                if isinstance(a, T):
                    r = max(r, max_bv(a))
                elif isinstance(a, tuple):
                    st.extend(a)
        _bvmemo[t] = r
    return r


def has_bv(t):
    return max_bv(t) > 0


def cmap(n, body):
    """Concatenation of body[bv := k] for k in 0..n-1 (byte strings)."""
    def f(n_):
        if n_ is ZERO:
            return EMPTYB if body.ty != 'str' else const('')
        if body.op == 'c' and not cval(body):
            return body
        d = max_bv(body)
        if d == 0 and body.op != 'ite':
            return rep(body, n_)
        if body.op == 'sub' and body.args[1].op != 'ite':
            # consecutive slices of one base: base[a+w*k : a+w*k+w]
            base, lo, hi = body.args
            w = sub(hi, lo)
            k = bv(d)
            lo0 = subst(lo, {k: ZERO})
            if max_bv(base) < d and is_const(w) and lo is add(lo0, mul(w, k)):
                return subseq(base, lo0, add(lo0, mul(w, n_)))
            if max_bv(base) < d and w is ONE and lo is sub(lo0, k):
                # single units taken downwards: the reverse of the run they cover
                return rev(subseq(base, sub(add(lo0, ONE), n_), add(lo0, ONE)))
        return mk('cmap', (n_, body), body.ty if body.ty in SEQTY else 'bytes')
    return lift(f, n)


# ------------------------------------------------------------------ list sequences
def li(v):
    return mk('li', (v,), 'list')


def lcat(segs):
    out = []
    for s in segs:
        parts = s.args if s.op == 'lcat' else (s,)
        for p in parts:
            if p.op == 'lmap' and p.args[0] is ZERO:
                continue
            out.append(p)
    if len(out) == 1 and out[0].op in ('lmap', 'sym', 'lrev', 'sub', 'sl'):
        return out[0]
    return mk('lcat', tuple(out), 'list')


def lcat_l(*segs):
    return lift(lambda *xs: lcat(xs), *segs)


def lmap(n, body):
    def f(n_):
        if n_ is ZERO:
            return mk('lcat', (), 'list')
        d = max_bv(body)
        if body.op == 'el' and body.args[1] is bv(d) and n_ is _length(body.args[0]):
            return body.args[0]
        return mk('lmap', (n_, body), 'list')
    return lift(f, n)


def concrete_items(t):
    """Python list of items if the list/tuple content is fully known, else None."""
    if t.op == 'tuple':
        return list(t.args)
    if t.op == 'li':
        return [t.args[0]]
    if t.op == 'lcat':
        out = []
        for s in t.args:
            if s.op != 'li':
                return None
            out.append(s.args[0])
        return out
    return None


# ------------------------------------------------------------------ equality
def eq(a, b):
    return lift(_eq, a, b)


NUMERIC = ('int', 'bool', 'float')


def _eq(a, b):
    if a is b:
        if a.op == 'unk':
            return mk('eq', (a, b), 'bool')
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return TRUE if cval(a) == cval(b) else FALSE
        except Exception:
            return FALSE
    ta, tb = a.ty, b.ty
    if ta in ('int', 'bool') and tb in ('int', 'bool'):
        return eq0(sub(as_int(a), as_int(b)))
    if ta in ('bytes', 'str') and tb in ('bytes', 'str') and ta != tb:
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eq(x, y))
        return r
    known = ('int', 'bool', 'float', 'bytes', 'str', 'none', 'tuple', 'list')
    if ta in known and tb in known and ta != tb and not (ta in NUMERIC and tb in NUMERIC):
        return FALSE
    if ta in ('bytes', 'str') and tb == ta:
        la, lb = _length(a), _length(b)
        if is_const(la) and is_const(lb) and cval(la) != cval(lb):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'c' and y.ty == 'bytes' and la is lb and len(cval(x)) <= 8:
                r = TRUE
                for i, v in enumerate(cval(x)):
                    r = band(r, eq0(sub(_byte_at(y, const(i)), const(v))))
                return r
        if a.op == 'rev' and b.op == 'rev':
            return _eq(a.args[0], b.args[0])
        if a.op == 'decl' and b.op == 'decl' and a.args[1] == b.args[1]:
            return eq0(sub(a.args[0], b.args[0]))
        for x, y in ((a, b), (b, a)):
            if x.op == 'decl' and y.op == 'c':
                return eq0(sub(x.args[0], const(int(cval(y))))) if cval(y).isdigit() else FALSE
        if a.op == 'astr' and b.op == 'astr':
            return _eq(a.args[0], b.args[0])
        if a.op == 'hex' and b.op == 'hex':
            return _eq(a.args[0], b.args[0])
        for x, y in ((a, b), (b, a)):
            if x.op == 'astr' and y.op == 'c':
                try:
                    return _eq(x.args[0], const(cval(y).encode('ascii')))
                except UnicodeEncodeError:
                    return FALSE
        # strip a common fixed-length prefix/suffix
        sa = list(a.args) if a.op == 'cat' else [a]
        sb = list(b.args) if b.op == 'cat' else [b]
        n0 = (len(sa), len(sb))
        while sa and sb and sa[0] is sb[0]:
            sa.pop(0)
            sb.pop(0)
        while sa and sb and sa[-1] is sb[-1]:
            sa.pop()
            sb.pop()
        if (len(sa), len(sb)) != n0:
            return _eq(_cat(sa, ta), _cat(sb, ta))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'bool')


# ------------------------------------------------------------------ rebuilding / substitution
def rebuild(op, args, ty):
    """Re-normalise a term with new arguments."""
    if op == 'ite':
        return ite(*args)
    if op == 'poly':
        r = ZERO
        for k, v in args:
            m = const(v)
            for a in k:
                m = mul(m, a)
            r = add(r, m)
        return r
    if op == 'mul':
        return mul(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'pow':
        return ipow(*args)
    if op == 'powmod':
        return powmod(*args)
    if op == 'bxor':
        r = ZERO
        for a in args:
            r = bxor(r, a)
        return r
    if op == 'band':
        return bitand(*args)
    if op == 'bor':
        return bitor(*args)
    if op == 'modinv':
        return modinv(*args)
    if op == 'shl':
        return shl(*args)
    if op == 'shr':
        return shr(*args)
    if op == 'ge0':
        return ge0(*args)
    if op == 'eq0':
        return eq0(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'cat':
        return cat(args, ty)
    if op == 'lcat':
        return lift(lambda *xs: lcat(xs), *args)
    if op == 'sub':
        return lift(subseq, *args)
    if op == 'rev':
        return rev(*args)
    if op == 'decl':
        return decl(*args)
    if op == 'binl':
        return binl(*args)
    if op == 'str' and is_const(args[0]) and args[0].ty == 'int':
        return const(str(cval(args[0])))
    if op == 'hex':
        return hexl(*args)
    if op == 'unhex':
        return unhex(*args)
    if op == 'ishex':
        return ishex(*args)
    if op == 'astr':
        return astr(*args)
    if op == 'encode':
        return encode(args[1], args[0])
    if op == 'decode':
        return decode(args[1], args[0])
    if op == 'byte':
        return byte_at(*args)
    if op == 'be':
        return be(*args)
    if op == 'bes':
        return bes(*args)
    if op == 'i2b':
        return i2b(*args)
    if op == 'rep':
        return rep(*args)
    if op == 'cmap':
        return cmap(*args)
    if op == 'lmap':
        return lmap(*args)
    if op == 'len':
        return length(*args)
    if op == 'tuple':
        return tup(args)
    if any(isinstance(a, T) and a.op == 'ite' for a in args) and op not in ('li', 'inst'):
        return lift(lambda *xs: mk(op, tuple(xs), ty), *args)
    return mk(op, tuple(args), ty)


def subst(t, m):
    """Substitute terms (by identity) and re-normalise."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ('c', 'sym', 'unk', 'ref', 'bv'):
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else rebuild(x.op, na, x.ty)
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ printing
def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        v = cval(t)
        if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 1 << 70:
            return hex(v)
        return repr(v)
    if t.op == 'sym':
        return t.args[0]
    if depth <= 0:
        return '…'
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else repr(x)
    if t.op == 'ite':
        return '(if %s then %s else %s)' % tuple(s(a) for a in t.args)
    if t.op == 'poly':
        out = []
        for k, v in t.args:
            m = '*'.join(s(a) for a in k)
            out.append(('%s*%s' % (v, m) if v != 1 else m) if k else str(v))
        return '(' + ' + '.join(out) + ')'
    if t.op == 'ge0':
        return '%s>=0' % s(t.args[0])
    if t.op == 'eq0':
        return '%s==0' % s(t.args[0])
    if t.op == 'eq':
        return '%s==%s' % (s(t.args[0]), s(t.args[1]))
    if t.op in ('cat',):
        return ' ++ '.join(s(a) for a in t.args)
    if t.op == 'sub':
        return '%s[%s:%s]' % tuple(s(a) for a in t.args)
    if t.op == 'ref':
        return '<%s>' % (t.args[0],)
    if t.op in ('func', 'class', 'meth'):
        return '<%s %s>' % (t.op, getattr(t.args[0], 'qual', t.args[0]))
    return '%s(%s)' % (t.op, ', '.join(s(a) for a in t.args))
