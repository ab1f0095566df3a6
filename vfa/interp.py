"""Abstract interpreter: one forward pass over the syntax trees, gated values, joined states."""
import ast
import os
import builtins as _bi

from . import terms as t
from .terms import (T, mk, const, is_const, cval, ite, bnot, band, bor, lift, app, unk, tup, TRUE, FALSE,
                    NONE, ZERO, ONE, EMPTYB)
from .loops import PolySplit
from .prog import (Dead, deep_restrict, renorm, numeric_gates, Budget, FuncObj, ClassObj, Obj, State, UNBOUND, bclass, cls_term, ext_exception,
                   restrict, assume, decide, join, join_many, ibounds, set_lit)

UNROLL = 300
INF = mk('inf', (), 'int')


class Frame(object):
    __slots__ = ('fid', 'locals', 'parent', 'module', 'cls', 'globals_', 'nonlocals', 'fn', 'self_', 'line')

    def __init__(self, fid, locals_, parent, module, cls, fn=None, globals_=frozenset(), nonlocals=frozenset()):
        self.fid, self.locals, self.parent, self.module, self.cls = fid, locals_, parent, module, cls
        self.fn, self.globals_, self.nonlocals = fn, globals_, nonlocals
        self.self_ = None
        self.line = 0


def bytetest(c):
    """(byte term, its value) of a test for one particular byte."""
    if c.op == 'eq0':
        d = t.to_poly(c.args[0])
        v = d.pop((), 0)
        if len(d) == 1:
            (m, w), = d.items()
            if len(m) == 1 and m[0].op == 'byte' and abs(w) == 1 and 0 <= -v * w < 256:
                return m[0], -v * w
    return None, None


class Seq(object):
    """An iterable: concrete items, or n items given by el(k), or consecutive segments."""
    __slots__ = ('items', 'n', 'el', 'segs', 'src', 'lazy')

    def __init__(self, items=None, n=None, el=None, segs=None, src=None, lazy=False):
        self.items, self.n, self.el, self.segs = items, n, el, segs
        self.lazy = lazy    # producing an item runs code
        self.src = src      # the byte string the items are the bytes of


class Event(object):

    def __init__(self, kind, name, args, site, pc, cells, stack):
        self.kind, self.name, self.args, self.site, self.pc, self.cells, self.stack = kind, name, args, site, pc, cells, stack
        self.res = None


class Loop(object):
    """A summarised loop (for invariant checks)."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Exit(object):
    __slots__ = ('kind', 'state', 'value', 'site')

    def __init__(self, kind, state, value, site=None):
        self.kind, self.state, self.value, self.site = kind, state, value, site


LIB = '''
def total(it, r):
    for x in it:
        r = r + x
    return r
def fold(f, it, r):
    for x in it:
        r = f(r, x)
    return r
'''


class Interp(object):
    def __init__(self, root, package='neocore'):
        from . import models
        self.root, self.package = root, package
        self.models = models.Models(self)
        self.S = State()
        self.nextid = 1
        self.objs = {}
        self.modules = {}
        self.trees = {}
        self.sources = {}
        self.frames = []
        self.exc = []
        self.rets = None
        self.brk = None
        self.cont = None
        self.events = []
        self.loops = []
        self.unknowns = []
        self.bvdepth = 0
        self.funcs = []
        self.classes = []
        self.analysed = set()
        self.steps = 0
        self.maxsteps = 3000000
        self.contracts = {}
        self.intmethods = {}
        self.curline = 0
        self.handled = None
        self.try_depth = 0
        self.raised_at = {}

    # ------------------------------------------------------------ loading
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/')
        path = os.path.join(self.root, rel + '.py')
        ispkg = False
        if not os.path.isfile(path):
            path = os.path.join(self.root, rel, '__init__.py')
            ispkg = True
        if not os.path.isfile(path):
            return None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        self.exec_module(name, src, path, ispkg)
        return self.modules[name]

    def load_lib(self):
        """Built-in functions defined by the loop they stand for."""
        self.exec_module('$lib', LIB, '<lib>')

    def libfn(self, name, *args):
        return self.call(self.S.store[(('m', '$lib'), name)], list(args), {})

    def is_repo(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def exec_module(self, name, src, path, ispkg=False):
        tree = ast.parse(src, path)
        m = mk('module', (name,), 'module')
        self.modules[name] = m
        self.trees[name] = (tree, path, ispkg)
        key = ('m', name)
        if '.' in name and self.is_repo(name):
            parent = name.rsplit('.', 1)[0]
            self.load(parent)
        self.S.store[(key, '$new')] = TRUE
        self.S.store[(key, '__name__')] = const(name)
        self.S.store[(key, '__file__')] = const(path)
        fr = Frame(key, None, None, name, None)
        saved = (self.rets, self.brk, self.cont)
        self.rets, self.brk, self.cont = [], [], []
        self.frames.append(fr)
        if not self.exc:
            self.exc.append([])
        try:
            self.block(tree.body)
        except Dead:
            self.unknowns.append('module %s does not finish loading' % name)
        finally:
            self.frames.pop()
            self.rets, self.brk, self.cont = saved
        if '.' in name and self.is_repo(name):
            parent, leaf = name.rsplit('.', 1)
            self.S.store[(('m', parent), leaf)] = m

    def site(self):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return '<driver>'
        path = os.path.relpath(self.trees[fr.module][1], self.root) if fr.module in self.trees else fr.module
        q = fr
        while q is not None and q.fn is None:
            q = q.parent
        fn = q.fn.qual.split(':')[-1] if q is not None else '<module>'
        return '%s:%s:%d' % (path, fn, self.curline)

    def stack(self):
        return tuple(fr.fn.qual for fr in self.frames if fr.fn is not None)

    # ------------------------------------------------------------ state helpers
    def assume(self, c):
        if not assume(self.S, c):
            raise Dead()

    def restrict(self, c):
        return restrict(self.S, c)

    def simp(self, c):
        c = self.restrict(c)
        if c.op == 'ite' and numeric_gates(c):
            c = deep_restrict(self.S, c)
        return c

    def cond(self, c, f, g):
        c = self.simp(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        S0 = self.S
        S1 = S0.copy()
        S0 = S0.copy()
        d1 = d2 = False
        r1 = r2 = None
        try:
            self.S = S1
            self.assume(c)
            r1 = f()
            S1 = self.S
        except Dead:
            d1 = True
        try:
            self.S = S0
            self.assume(bnot(c))
            r2 = g()
            S2 = self.S
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1:
            self.S = S2
            return r2
        if d2:
            self.S = S1
            return r1
        self.S, gate = join(S1, S2)
        if r1 is r2 or r1 is None or r2 is None:
            return r1 if r1 is not None else r2
        if isinstance(r1, T) and isinstance(r2, T):
            return ite(gate, r1, r2)
        if isinstance(r1, tuple) and isinstance(r2, tuple) and len(r1) == len(r2):
            return tuple(ite(gate, a, b) for a, b in zip(r1, r2))
        raise AssertionError('cannot join driver values')

    def split(self, v, f):
        """Run f on each gate leaf of v under the corresponding assumptions."""
        v = self.restrict(v)
        if v.op != 'ite':
            return f(v)
        a = v.args[0]
        return self.cond(a, lambda: self.split(v.args[1], f), lambda: self.split(v.args[2], f))

    def may_raise(self, c, make):
        """Under condition c raise make(); continue under not c."""
        c = self.simp(c)
        if c is FALSE:
            return
        if c is TRUE:
            self.raise_(make())
        S0 = self.S
        self.S = S0.copy()
        try:
            self.assume(c)
            self.raise_(make())
        except Dead:
            pass
        self.S = S0.copy()
        self.assume(bnot(c))

    def alloc(self, kind, cls=None, extra=None):
        i = self.nextid
        self.nextid += 1
        o = Obj(i, kind, cls, self.site(), extra)
        self.objs[i] = o
        self.S.store[(i, '$new')] = TRUE
        return mk('ref', (i,), 'ref')

    def obj(self, ref):
        return self.objs[ref.args[0]]

    def is_kind(self, v, kind):
        return v.op == 'ref' and self.obj(v).kind == kind

    def content(self, ref):
        if ref.op == 'ite':
            return t.ite(ref.args[0], self.content(ref.args[1]), self.content(ref.args[2]))
        if ref.op != 'ref':
            # immutable bytes: their own content
            return ref if ref.ty in ('bytes', 'str') else self.unknown('content of %s' % t.show(ref, 3))
        if (ref.args[0], '$c') not in self.S.store:
            return self.unknown('content of an object')
        return self.restrict(self.S.store[(ref.args[0], '$c')])

    def set_content(self, ref, v):
        if self.objs[ref.args[0]].extra == 'attributes':
            raise Budget('attributes written through a dictionary')
        self.S.store[(ref.args[0], '$c')] = v

    def new_list(self, c):
        r = self.alloc('list', bclass(list))
        self.set_content(r, c if isinstance(c, T) else t.lcat([t.li(x) for x in c]))
        return r

    def new_bytearray(self, c):
        r = self.alloc('bytearray', bclass(bytearray))
        self.set_content(r, c)
        return r

    def new_dict(self, pairs):
        r = self.alloc('dict', bclass(dict))
        self.set_content(r, mk('dictc', tuple(pairs), 'dictc'))
        return r

    def new_set(self, items):
        r = self.alloc('set', bclass(set))
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        self.set_content(r, t.lcat([t.li(x) for x in out]))
        return r

    def new_exc(self, cls, args=()):
        if not isinstance(cls, ClassObj):
            cls = bclass(cls)
        r = self.alloc('inst', cls)
        self.S.store[(r.args[0], '$args')] = tup(args)
        return r

    def raise_(self, exc):
        if exc.op == 'ite':
            self.split(exc, self.raise_)
            raise Dead()
        exc2 = exc
        if exc.op == 'class':
            exc2 = self.call(exc, [], {})
        if self.S.pc is not FALSE:
            self.exc[-1].append((self.S, exc2, self.site()))
        raise Dead()

    def raise_py(self, py, msg=''):
        self.raise_(self.new_exc(py, [const(msg)] if isinstance(msg, str) else [msg]))

    def unknown(self, why):
        u = unk('%s at %s' % (why, self.site()))
        self.unknowns.append(u.args[0])
        return u

    def event(self, kind, name, args=()):
        cells = dict((k[1], v) for k, v in self.S.store.items() if k[0] == 'ext')
        e = Event(kind, name, tuple(args), self.site(), self.S.pc, cells, self.stack())
        self.events.append(e)
        return e

    # ------------------------------------------------------------ driver API
    def run(self, driver):
        """Run driver(self) from a copy of the current state; returns a list of Exit (at most one
        'return' exit, joined, and one 'raise' exit per raise site and exception value)."""
        S0 = self.S
        saved = (self.exc, self.rets, self.brk, self.cont, self.frames, self.try_depth)
        self.exc, self.rets, self.brk, self.cont = [[]], [], [], []
        self.frames = []
        self.try_depth = 0
        self.S = S0.copy()
        out = []
        try:
            v = driver(self)
            out.append(Exit('return', self.S, v))
        except Dead:
            pass
        finally:
            for s, e, site in self.exc[0]:
                out.append(Exit('raise', s, e, site))
            self.exc, self.rets, self.brk, self.cont, self.frames, self.try_depth = saved
            self.S = S0
        return out

    def get(self, path):
        """Look up 'module:Attr.attr' in the loaded program; None when missing."""
        mod, _, attr = path.partition(':')
        if self.load(mod) is None:
            return None
        v = self.S.store.get((('m', mod), attr.split('.')[0]))
        for a in attr.split('.')[1:]:
            if v is None or v.op != 'class':
                return None
            v = self.class_attr(v.args[0], a)
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            self.stmt(st)

    def stmt(self, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget')
        if self.frames:
            self.curline = st.lineno
        getattr(self, 's_' + type(st).__name__)(st)

    def s_Pass(self, st):
        pass

    def s_Expr(self, st):
        self.ev(st.value)

    def s_Import(self, st):
        for al in st.names:
            top = al.name.split('.')[0]
            if self.is_repo(al.name):
                self.need_module(al.name)
                m = self.modules[al.name if al.asname else top]
            else:
                m = mk('ext', (al.name if al.asname else top,), 'ext')
            self.assign_name(al.asname or top, m)

    def need_module(self, name):
        # module bodies run once; effects belong to the initial state
        if self.load(name) is None:
            self.raise_py(ImportError, name)

    def s_ImportFrom(self, st):
        fr = self.frames[-1]
        mod = st.module or ''
        if st.level:
            base = fr.module.split('.')
            if not self.trees[fr.module][2]:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if self.is_repo(mod):
            self.need_module(mod)
            for al in st.names:
                if al.name == '*':
                    key = ('m', mod)
                    allv = self.S.store.get((key, '__all__'))
                    names = None
                    if allv is not None and allv.op == 'ref':
                        its = t.concrete_items(self.content(allv))
                        names = [cval(x) for x in its] if its else None
                    for (k, n), v in list(self.S.store.items()):
                        if k == key and ((names is None and not n.startswith('_') and n[0] != '$') or
                                         (names is not None and n in names)):
                            self.assign_name(n, v)
                    continue
                v = self.S.store.get((('m', mod), al.name))
                if v is None and self.load(mod + '.' + al.name) is not None:
                    v = self.modules[mod + '.' + al.name]
                if v is None:
                    self.raise_py(ImportError, al.name)
                self.assign_name(al.asname or al.name, v)
        else:
            for al in st.names:
                if al.name == '*':
                    continue
                self.assign_name(al.asname or al.name, self.models.ext_value(mod + '.' + al.name))

    def s_FunctionDef(self, st):
        f = self.make_func(st, st.name)
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            f = self.decorate(dv, f, d)
        self.assign_name(st.name, f)

    def decorate(self, dv, f, node):
        if dv.op == 'builtin' and dv.args[0] in ('staticmethod', 'classmethod', 'property'):
            return mk({'staticmethod': 'static', 'classmethod': 'classm', 'property': 'prop'}[dv.args[0]],
                      (f,) if dv.args[0] != 'property' else (f, NONE), 'descr')
        if dv.op == 'class' and dv.args[0].py in (staticmethod, classmethod, property):
            return mk({staticmethod: 'static', classmethod: 'classm', property: 'prop'}[dv.args[0].py],
                      (f,) if dv.args[0].py is not property else (f, NONE), 'descr')
        if dv.op == 'propset':
            return mk('prop', (dv.args[0].args[0], f), 'descr')
        if dv.op == 'ext':
            n = dv.args[0]
            if n in ('functools.wraps', 'functools.lru_cache', 'functools.total_ordering', 'abc.abstractmethod',
                     'typing.overload', 'functools.cache'):
                return f
        return self.call(dv, [f], {})

    def make_func(self, node, name):
        fr = self.frames[-1]
        a = node.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwdefaults = tuple(self.ev(d) if d is not None else UNBOUND for d in a.kw_defaults)
        if fr.fn is not None:
            qual = fr.fn.qual + '.' + name
        elif fr.cls is not None:
            qual = fr.cls.qual + '.' + name
        else:
            qual = fr.module + ':' + name
        closure = fr if (fr.fn is not None or isinstance(fr.fid, int)) else None
        # class bodies are not enclosing scopes for their methods
        if closure is None and fr.parent is not None and fr.fid[0] == 'cls':
            p = fr.parent
            closure = p if isinstance(p.fid, int) else None
        fo = FuncObj(name, qual, node, fr.module, fr.cls if isinstance(fr.fid, tuple) and fr.fid[0:1] == ('cls',) else
                     (fr.cls if fr.fn is not None else None),
                     closure, defaults, kwdefaults, self.trees[fr.module][1] if fr.module in self.trees else '')
        self.funcs.append(fo)
        return mk('func', (fo,), 'func')

    def s_AsyncFunctionDef(self, st):
        self.assign_name(st.name, self.unknown('async def'))

    def s_ClassDef(self, st):
        fr = self.frames[-1]
        bases = []
        for b in st.bases:
            bv_ = self.ev(b)
            if bv_.op == 'class':
                bases.append(bv_.args[0])
            elif bv_.op == 'ext':
                bases.append(ext_exception(bv_.args[0], object))
            else:
                self.unknown('class base')
        if not bases:
            bases = [bclass(object)]
        if fr.cls is not None:
            qual = fr.cls.qual + '.' + st.name
        elif fr.fn is not None:
            qual = fr.fn.qual + '.' + st.name
        else:
            qual = fr.module + ':' + st.name
        c = ClassObj(st.name, qual, bases, st, fr.module, path=self.trees[fr.module][1])
        if isinstance(fr.fid, int):
            c.key = ('cls', qual + '#%d' % self.nextid)
            self.nextid += 1
        self.classes.append(c)
        self.S.store[(c.key, '$new')] = TRUE
        nf = Frame(c.key, None, fr, fr.module, c)
        self.frames.append(nf)
        try:
            self.block(st.body)
        finally:
            self.frames.pop()
        v = cls_term(c)
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            if dv.op == 'ext':
                if dv.args[0] == 'functools.total_ordering':
                    self.total_ordering(c)
                continue
            v = self.call(dv, [v], {})
        self.assign_name(st.name, v)

    def total_ordering(self, c):
        """functools.total_ordering: derive the missing comparison methods."""
        src = {
            '__lt__': ("def __gt__(self, other):\n r = type(self).__lt__(self, other)\n return not r and self != other\n",
                       "def __le__(self, other):\n r = type(self).__lt__(self, other)\n return r or self == other\n",
                       "def __ge__(self, other):\n return not type(self).__lt__(self, other)\n"),
            '__gt__': ("def __lt__(self, other):\n r = type(self).__gt__(self, other)\n return not r and self != other\n",
                       "def __ge__(self, other):\n r = type(self).__gt__(self, other)\n return r or self == other\n",
                       "def __le__(self, other):\n return not type(self).__gt__(self, other)\n"),
            '__le__': ("def __ge__(self, other):\n r = type(self).__le__(self, other)\n return not r or self == other\n",
                       "def __lt__(self, other):\n r = type(self).__le__(self, other)\n return r and self != other\n",
                       "def __gt__(self, other):\n return not type(self).__le__(self, other)\n"),
            '__ge__': ("def __le__(self, other):\n r = type(self).__ge__(self, other)\n return not r or self == other\n",
                       "def __gt__(self, other):\n r = type(self).__ge__(self, other)\n return r and self != other\n",
                       "def __lt__(self, other):\n return not type(self).__ge__(self, other)\n")}
        own = [n for n in ('__lt__', '__le__', '__gt__', '__ge__')
               if any(self.S.store.get((k.key, n)) is not None for k in c.mro if k.py is None)]
        if not own:
            return
        root = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in own][0]
        nf = Frame(c.key, None, self.frames[-1], self.frames[-1].module, c)
        for s in src[root]:
            d = ast.parse(s).body[0]
            if d.name not in own:
                for n in ast.walk(d):
                    if hasattr(n, 'lineno'):
                        n.lineno = self.curline
                self.frames.append(nf)
                self.S.store[(c.key, d.name)] = self.make_func(d, d.name)
                self.frames.pop()

    def s_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        self.rets.append((self.S, v))
        raise Dead()

    def s_Raise(self, st):
        if st.exc is None:
            if self.handled is None:
                self.raise_py(RuntimeError, 'No active exception to reraise')
            self.raise_(self.handled)
        e = self.ev(st.exc)
        line = st.lineno
        if st.cause is not None:
            self.ev(st.cause)

        def go(x):
            if x.op == 'class':
                x = self.call(x, [], {})
            self.curline = line
            self.raise_(x)
        self.split(e, go)
        raise Dead()

    def s_Assert(self, st):
        c = self.truth(self.ev(st.test))
        self.may_raise(bnot(c), lambda: self.new_exc(AssertionError, [self.ev(st.msg)] if st.msg is not None else []))

    def s_Break(self, st):
        self.brk.append(self.S)
        raise Dead()

    def s_Continue(self, st):
        self.cont.append(self.S)
        raise Dead()

    def s_Global(self, st):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, st):
        for tg in st.targets:
            if isinstance(tg, ast.Name):
                self.assign_name(tg.id, UNBOUND)
            elif isinstance(tg, ast.Subscript):
                base = self.ev(tg.value)
                idx = self.ev_slice(tg.slice)
                self.models.delitem(base, idx)
            elif isinstance(tg, ast.Attribute):
                base = self.ev(tg.value)
                self.split(base, lambda b: self.S.store.pop((b.args[0], tg.attr), None) if b.op == 'ref' else None)

    def s_Assign(self, st):
        v = self.ev(st.value)
        for tg in st.targets:
            self.assign(tg, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def s_AugAssign(self, st):
        tg = st.target
        op = type(st.op).__name__
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id)
            v = self.ev(st.value)
            self.assign_name(tg.id, self.aug(op, cur, v))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            cur = self.getattr(o, tg.attr)
            v = self.ev(st.value)
            self.setattr(o, self.mangle(tg.attr), self.aug(op, cur, v))
        else:
            o = self.ev(tg.value)
            i = self.ev_slice(tg.slice)
            cur = self.models.getitem(o, i)
            v = self.ev(st.value)
            self.models.setitem(o, i, self.aug(op, cur, v))

    def aug(self, op, cur, v):
        cur = self.restrict(cur)
        if cur.op == 'ite':
            return self.split(cur, lambda c: self.aug(op, c, v))
        if cur.op == 'ref':
            o = self.obj(cur)
            if o.kind == 'list' and op == 'Add':
                self.models.method(cur, 'extend', [v], {})
                return cur
            if o.kind == 'bytearray' and op == 'Add':
                self.models.method(cur, 'extend', [v], {})
                return cur
            if o.kind == 'set' and op in ('BitOr',):
                self.models.method(cur, 'update', [v], {})
                return cur
            if o.kind == 'inst':
                name = self.models.DUNDER[op]
                m = self.find_method(cur, '__i%s__' % name)
                if m is not None:
                    return self.call(m, [v], {})
        return self.binop(op, cur, v)

    def s_If(self, st):
        c = self.truth(self.ev(st.test))
        self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))

    def branch(self, c, f, g):
        self.cond(c, lambda: (f(), None)[1], lambda: (g(), None)[1])

    def s_With(self, st):
        self.with_items(st, 0)

    def with_items(self, st, i):
        if i == len(st.items):
            self.block(st.body)
            return
        it = st.items[i]
        cm = self.ev(it.context_expr)
        if cm.op == 'suppress':
            caught = []
            self.exc.append(caught)
            normal = None
            try:
                self.with_items(st, i + 1)
                normal = self.S
            except Dead:
                pass
            finally:
                self.exc.pop()
            live = [(normal, None)] if normal is not None else []
            for s, e, site in caught:
                if any(self.exc_cls(e).issub(c) for c in cm.args):
                    live.append((s, None))
                else:
                    self.exc[-1].append((s, e, site))
            if not live:
                raise Dead()
            self.S, _ = join_many(live)
            return
        ent = self.find_method(cm, '__enter__') if cm.op == 'ref' else None
        if ent is not None:
            v = self.call(ent, [], {})
        else:
            v = cm
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        ext = self.find_method(cm, '__exit__') if cm.op == 'ref' else None
        if ext is None:
            self.with_items(st, i + 1)
            return
        self.with_finally(lambda: self.with_items(st, i + 1),
                          lambda: self.call(ext, [NONE, NONE, NONE], {}))

    def with_finally(self, body, fin):
        sv = (self.rets, self.brk, self.cont)
        self.rets, self.brk, self.cont = [], [], []
        self.exc.append([])
        normal = None
        try:
            try:
                body()
                normal = self.S
            except Dead:
                pass
            outc = (self.rets, self.brk, self.cont, self.exc[-1])
        finally:
            self.rets, self.brk, self.cont = sv
            self.exc.pop()
        line = self.curline

        def redo(s, then):
            self.S = s
            try:
                fin()
                then()
            except Dead:
                pass
        if outc[0]:
            s, v = join_many(outc[0])
            redo(s, lambda: self.rets.append((self.S, v)))
        if outc[1]:
            s, _ = join_many([(x, None) for x in outc[1]])
            redo(s, lambda: self.brk.append(self.S))
        if outc[2]:
            s, _ = join_many([(x, None) for x in outc[2]])
            redo(s, lambda: self.cont.append(self.S))
        for s, e, site in outc[3]:
            redo(s, lambda e=e, site=site: self.exc[-1].append((self.S, e, site)))
        self.curline = line
        if normal is None:
            raise Dead()
        self.S = normal
        fin()

    def s_Try(self, st):
        if st.finalbody:
            self.with_finally(lambda: self.try_core(st), lambda: self.block(st.finalbody))
        else:
            self.try_core(st)

    def exc_cls(self, e):
        return self.obj(e).cls

    def try_core(self, st):
        caught = []
        self.exc.append(caught)
        self.try_depth += 1
        normal = None
        try:
            self.block(st.body)
            normal = self.S
        except Dead:
            pass
        finally:
            self.exc.pop()
            self.try_depth -= 1
        live = []
        if normal is not None:
            try:
                self.S = normal
                self.block(st.orelse)
                live.append((self.S, None))
            except Dead:
                pass
        groups = [[] for _ in st.handlers]
        for s, e, site in caught:
            cls = self.exc_cls(e)
            for i, h in enumerate(st.handlers):
                if h.type is None:
                    groups[i].append((s, e))
                    break
                self.S = s
                try:
                    hv = self.ev(h.type)
                except Dead:
                    break
                cs = list(hv.args) if hv.op == 'tuple' else [hv]
                hit = False
                for cterm in cs:
                    if cterm.op == 'class' and cls.issub(cterm.args[0]):
                        hit = True
                    elif cterm.op == 'ext' and cls.issub(self.models.ext_exc(cterm.args[0])):
                        hit = True
                    elif cterm.op not in ('class', 'ext'):
                        self.unknown('except clause')
                if hit:
                    groups[i].append((s, e))
                    break
            else:
                self.exc[-1].append((s, e, site))
        for h, g in zip(st.handlers, groups):
            if not g:
                continue
            s, e = join_many(g)
            self.S = s
            saved = self.handled
            self.handled = e
            try:
                if h.name:
                    self.assign_name(h.name, e)
                self.block(h.body)
                live.append((self.S, None))
            except Dead:
                pass
            finally:
                self.handled = saved
        if not live:
            raise Dead()
        self.S, _ = join_many(live)

    s_TryStar = s_Try

    def s_Match(self, st):
        self.unknown('match statement')

    # ------------------------------------------------------------ loops
    def s_For(self, st):
        seq = self.iterate(self.ev(st.iter))
        self.for_loop(seq, lambda v: self.assign(st.target, v), lambda: self.block(st.body),
                      lambda: self.block(st.orelse), st)

    def for_loop(self, seq, bind, body, orelse, node):
        sv = (self.brk, self.cont)
        self.brk = []
        try:
            alive = self.run_seq(seq, bind, body, node)
            brk = self.brk
        finally:
            self.brk, self.cont = sv
        live = []
        if alive:
            try:
                orelse()
                live.append((self.S, None))
            except Dead:
                pass
        live += [(s, None) for s in brk]
        if not live:
            raise Dead()
        self.S, _ = join_many(live)

    def run_seq(self, seq, bind, body, node):
        """Execute the loop over seq; leaves self.S at the normal end; returns liveness."""
        if seq.segs is not None:
            for s in seq.segs:
                if not self.run_seq(s, bind, body, node):
                    return False
            return True
        if seq.items is None:
            n = self.restrict(seq.n)
            if is_const(n) and 16 < cval(n) <= UNROLL and self.try_poly(node.body if isinstance(node, (ast.For, ast.While)) else [],
                                                                        lambda: self.summarise(n, seq.el, bind, body, None, node)):
                return True
            if is_const(n) and cval(n) <= UNROLL:
                seq = Seq(items=None, n=n, el=seq.el)
                idx = range(max(0, cval(n)))
                getel = lambda i: deep_restrict(self.S, seq.el(const(i)))
            else:
                return self.run_symbolic(n, seq.el, bind, body, node)
        else:
            items = seq.items
            if callable(items):
                items = items()
            idx = range(len(items))
            getel = lambda i: items[i]
        for i in idx:
            self.cont = []
            end = None
            try:
                bind(getel(i))
                body()
                end = self.S
            except Dead:
                pass
            live = ([(end, None)] if end is not None else []) + [(s, None) for s in self.cont]
            if not live:
                return False
            self.S, _ = join_many(live)
        return True

    def run_symbolic(self, n, el, bind, body, node):
        if n.op == 'ite':
            # separate flows per gate of the trip count
            res = []

            def go(m):
                b = self.run_seq(Seq(n=m, el=el), bind, body, node)
                if not b:
                    raise Dead()
            try:
                self.split(n, go)
                return True
            except Dead:
                return False
        c = t.ge0(t.sub(n, ONE))
        c = self.restrict(c)
        if c is FALSE:
            return True
        if c is not TRUE:
            S0 = self.S
            S1 = S0.copy()
            out = []
            try:
                self.S = S1
                self.assume(c)
                if self.summarise(n, el, bind, body, None, node):
                    out.append((self.S, None))
            except Dead:
                pass
            try:
                self.S = S0
                self.assume(bnot(c))
                out.append((self.S, None))
            except Dead:
                pass
            if not out:
                return False
            self.S, _ = join_many(out)
            return True
        return self.summarise(n, el, bind, body, None, node)

    def s_While(self, st):
        sv = (self.brk, self.cont)
        self.brk = []
        alive = True
        ends = []
        try:
            it = 0
            while True:
                c = self.truth(self.ev(st.test))
                c = self.restrict(c)
                open_ = it == 0 and c is TRUE and self.open_test(st.test)
                if c is FALSE:
                    ends.append((self.S, None))
                    break
                if c is not TRUE or it > UNROLL or open_:
                    # undecided: fork the zero-iteration flow, summarise the rest
                    S0 = self.S
                    S1 = S0.copy()
                    if c is not TRUE:
                        self.S = S0
                        try:
                            self.assume(bnot(c))
                            ends.append((self.S, None))
                        except Dead:
                            pass
                        self.S = S1
                        self.assume(c)
                    else:
                        self.S = S1
                    if self.summarise(None, None, lambda v: None, lambda: self.block(st.body),
                                      lambda: self.truth(self.ev(st.test)), st):
                        ends.append((self.S, None))
                    break
                if it == 0 and self.try_euclid(st):
                    if not isinstance(st.test, ast.Constant):
                        ends.append((self.S, None))
                    break
                it += 1
                self.cont = []
                end = None
                nb = len(self.brk)
                try:
                    self.block(st.body)
                    end = self.S
                except Dead:
                    pass
                live = ([(end, None)] if end is not None else []) + [(s, None) for s in self.cont]
                if not live:
                    break
                self.S, _ = join_many(live)
                if it >= 2 and len(self.brk) > nb and isinstance(st.test, ast.Constant):
                    # `while True` with undecided exits: summarise from here
                    if self.summarise(None, None, lambda v: None, lambda: self.block(st.body),
                                      lambda: self.truth(self.ev(st.test)), st):
                        ends.append((self.S, None))
                    break
            brk = self.brk
        except Dead:
            brk = self.brk
        finally:
            self.brk, self.cont = sv
        live = []
        if ends:
            self.S, _ = join_many(ends)
            try:
                self.block(st.orelse)
                live.append((self.S, None))
            except Dead:
                pass
        live += [(s, None) for s in brk]
        if not live:
            raise Dead()
        self.S, _ = join_many(live)

    def open_test(self, e):
        """Does the test hold only because of what is assumed about unknown numbers (so that the loop does not end at a known count)?"""
        if isinstance(e, ast.Constant) or any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Attribute)) and not (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(e)):
            return False
        S, ev, un = self.S, len(self.events), len(self.unknowns)
        self.exc.append([])
        self.S = State()
        self.S.store = S.store
        self.S.iv = {k: v for k, v in S.iv.items() if v[0] is not None and v[0] == v[1]}
        try:
            return self.restrict(self.truth(self.ev(e))).op != 'c'
        except Dead:
            return False
        finally:
            self.S = S
            self.exc.pop()
            del self.events[ev:]
            del self.unknowns[un:]

    def try_euclid(self, st):
        """Summarise a loop whose first test holds without peeling it, when it has a shape whose result is known."""
        return self.try_poly(st.body, lambda: self.summarise(None, None, lambda v: None, lambda: self.block(st.body),
                                                             lambda: self.truth(self.ev(st.test)), st), isinstance(st.test, ast.Constant))

    def try_poly(self, body, go, endless=False):
        if not any(isinstance(x, (ast.Mod, ast.FloorDiv, ast.RShift, ast.LShift, ast.BitAnd)) or
                   isinstance(x, ast.Name) and x.id == 'divmod' for b in body for x in ast.walk(b)):
            return False
        keep = (self.S, len(self.events), len(self.unknowns), len(self.loops), len(self.rets), len(self.brk), len(self.cont), len(self.exc[-1]))
        self.S = self.S.copy()
        try:
            ok = go()
        except Dead:
            ok = False
        ok = (ok or endless) and len(self.loops) > keep[3] and self.loops[-1].euclid
        if not ok:
            self.S = keep[0]
            for l, n in zip((self.events, self.unknowns, self.loops, self.rets, self.brk, self.cont, self.exc[-1]), keep[1:]):
                del l[n:]
        return bool(ok)

    def lam(self, key, v, tag):
        ty = t.ty_of(v)
        if ty in ('int', 'bool'):
            ty = 'int'
        return mk('lam', (key, tag), ty)

    def summarise(self, n, el, bind, body, test, node):
        """Summarise an unbounded loop.  n is None for while loops (then `test` gives the condition)."""
        S0 = self.S
        self.bvdepth += 1
        k = t.bv(self.bvdepth)
        basepc = S0.pc
        W = []
        tag = self.bvdepth
        site = self.site()
        nev = len(self.events)
        nun = len(self.unknowns)
        try:
            for rnd in range(8):
                S = S0.copy()
                S.pc = TRUE
                lam = {}
                for key in W:
                    v0 = S0.store[key]
                    if v0.op in ('ref', 'class', 'func', 'module') or (v0.op == 'ite' and t.ty_of(v0) == 'ref'):
                        pass
                    lam[key] = self.lam((len(lam), key[1]), v0, tag)       # named by position, so that equal loops give equal terms
                    S.store[key] = lam[key]
                sv = (self.rets, self.brk, self.cont)
                self.rets, self.brk, self.cont = [], [], []
                self.exc.append([])
                del self.events[nev:]
                del self.unknowns[nun:]
                nloops = len(self.loops)
                self.S = S
                set_lit(S, t.ge0(k), True) if t.is_atom(t.ge0(k)) else None
                if n is not None:
                    assume(S, t.ge0(t.sub(t.sub(n, ONE), k)), track=False)
                head = TRUE
                end = None
                headstate = None
                try:
                    if test is not None:
                        head = test()
                        headstate = self.S.copy()
                        self.assume(head)
                    if el is not None:
                        bind(el(k))
                    body()
                    end = self.S
                except Dead:
                    pass
                finally:
                    R, B, C, E = self.rets, self.brk, self.cont, self.exc.pop()
                    self.rets, self.brk, self.cont = sv
                ends = ([(end, None)] if end is not None else []) + [(s, None) for s in C]
                J = join_many(ends)[0] if ends else None
                new = set()
                for s in ([J] if J is not None else []) + B + [x[0] for x in R] + [x[0] for x in E]:
                    for key, v in s.store.items():
                        if key in S0.store and v is not (lam.get(key) if key in lam else S0.store[key]):
                            if key not in W:
                                new.add(key)
                if not new:
                    break
                del self.loops[nloops:]
                W = W + sorted(new, key=lambda q: (0, q[0], repr(q)) if isinstance(q[0], int) else (1, 0, repr(q)))
            else:
                self.unknown('loop write set does not stabilise')
        finally:
            self.bvdepth -= 1
        exits = [('brk', s, None, None) for s in B] + [('ret', s, v, None) for s, v in R] + \
                [('exc', s, e, site_) for s, e, site_ in E]
        lamset = set(lam.values())

        def lamfree(x):
            return not any(y.op == 'lam' and y.args[1] == tag for y in t.walk(x))

        def hask(x):
            return t.contains(x, k)

        # ---- close the recurrences
        closed, final_fn = {}, {}
        self.counted = n is not None
        self.grown = {}
        SK = S0.copy()
        inrange = set_lit(SK, t.ge0(k), True) if t.is_atom(t.ge0(k)) else True
        if n is not None:
            inrange = assume(SK, t.ge0(t.sub(t.sub(n, ONE), k)), track=False) and inrange

        def tidy(x):
            """Simplify a value of iteration k by 0 <= k < n."""
            if not inrange:
                return x
            if x.op == 'lcat':
                return t.lcat([tidy(y) for y in x.args])
            if x.op == 'li':
                return t.li(tidy(x.args[0]))
            if x.op == 'tuple':
                return t.tup([tidy(y) for y in x.args])
            return renorm(SK, deep_restrict(SK, x) if x.op == 'ite' or t.is_atom(x) else x)

        def close(post_of):
            changed = True
            while changed:
                changed = False
                m = dict((lam[q], closed[q]) for q in closed if closed[q] is not None)
                for key in W:
                    if key in final_fn:
                        continue
                    l, v0 = lam[key], S0.store[key]
                    post = post_of(key)
                    if post is None:
                        continue
                    post = tidy(t.subst(post, m)) if m else post
                    r = self.recurrence(l, v0, post, k, lamfree, hask)
                    if r is not None:
                        closed[key], final_fn[key] = r
                        changed = True
        if J is not None:
            close(lambda key: self.freeze_new(J, J.store[key], S0))
        unresolved = [key for key in W if key not in final_fn]
        m0 = dict((lam[q], closed[q]) for q in closed if closed[q] is not None)
        mC = dict(m0)
        mC.update(self.grown)
        rec = Loop(site=site, node=node, W=list(W), lam=dict(lam), init=dict((q, S0.store[q]) for q in W),
                   post=dict((q, J.store[q]) for q in W) if J is not None else {}, n=n, head=head, k=k, J=J, S0=S0,
                   exits=exits, closed=dict(closed), unresolved=list(unresolved), frames=list(self.frames),
                   headstate=headstate, fn=self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else None)
        self.loops.append(rec)

        def relpc(s):
            return s.pc

        # ---- exit conditions at iteration k
        Cx = FALSE
        for kind, s, v, site_ in exits:
            Cx = bor(Cx, relpc(s))
        Cx = tidy(t.subst(Cx, mC)) if mC else Cx
        Ch = bnot(head)
        Ch = t.subst(Ch, mC) if mC else Ch
        fold = None

        euclid = self.euclid(S0, head, lam, W, J) if test is not None and J is not None and not exits else {}
        rec.euclid = bool(euclid)

        finals = dict(euclid)
        if test is not None and J is not None and (not exits or restrict(S0, Cx) is FALSE) and not finals:
            finals.update(self.trims(S0, head, lam, W, J))

        def make_fold(cnt):
            """Opaque canonical summary of the unresolved group after cnt iterations."""
            names = dict((lam[q], mk('slot', (i,), lam[q].ty)) for i, q in enumerate(unresolved))
            posts = tuple(t.subst(t.subst(self.freeze_new(J, J.store[q], S0), m0), names) for q in unresolved) \
                if J is not None else ()
            inits = tuple(S0.store[q] for q in unresolved)
            cnt2 = t.subst(cnt, names) if cnt is not None else NONE
            return dict((q, mk('fold', (cnt2, inits, posts, i), lam[q].ty)) for i, q in enumerate(unresolved))

        def at(cnt, which):
            """Substitution giving the loop-carried values after cnt iterations."""
            f = make_fold(cnt)
            d = {}
            for q in W:
                if which == 'end' and q in finals:
                    d[lam[q]] = finals[q]
                elif q in final_fn:
                    d[lam[q]] = final_fn[q](cnt)
                else:
                    d[lam[q]] = f[q]
            return d

        def exit_state(s, cnt, extra):
            d = at(cnt, None)
            d1 = dict(d)
            if PL is not None and PL.ok and lamset:
                z = PL.zeros(s)
                if z:
                    rec.euclid = True
                    d1.update(z)
                    d1.update((lam[q], v) for q, v in PL.finals(z).items())
            S2 = S0.copy()
            S2.pc = basepc
            dk = dict(d1)
            dk[k] = cnt

            def sb(x):
                return t.subst(x, dk)
            for key, v in s.store.items():
                if S0.store.get(key) is not v:
                    S2.store[key] = sb(v)
            ok = True
            for a, val in s.lits.items():
                if a not in S0.lits:
                    a2 = sb(a)
                    if not assume(S2, a2 if val else bnot(a2), track=False):
                        ok = False
            return S2, ok, sb

        # ---- number of iterations
        if test is not None:
            if not lamfree(Ch) or J is None and not exits:
                trips = None
            trips = self.trip_count(S0, Ch, k, lamfree)
            if trips is None and not (head is TRUE):
                slots = dict((lam[q], mk('slot', (i,), lam[q].ty)) for i, q in enumerate(W))
                key_ = tuple(t.subst(self.freeze_new(J, J.store[q], S0), slots) for q in W) if J is not None else ()
                trips = mk('trip', (t.subst(head, slots), tuple(S0.store[q] for q in W), key_), 'int')
            n_eff = trips if trips is not None else INF
        else:
            n_eff = n
        PL = None
        if not euclid and J is not None and unresolved:
            PL = PolySplit(S0, lam, unresolved, dict((q, t.subst(self.freeze_new(J, J.store[q], S0), m0)) for q in unresolved), k,
                          None if n_eff is INF or n_eff.op == 'trip' else n_eff)

            if PL.ok:
                known = {}
                if test is not None:
                    F = State()
                    assume(F, bnot(head), track=False)
                    known = PL.zeros(F)
                finals.update(PL.finals(known))
                rec.euclid = rec.euclid or bool(finals)
        # ---- exits before the end
        live = False
        ex_atom = FALSE
        if exits:
            Cx = restrict(S0, Cx)
            if Cx is TRUE:
                ex_atom, fst = TRUE, ZERO
            elif Cx is FALSE:
                ex_atom, fst = FALSE, None
            elif PL is not None and PL.ok and n_eff is INF and len(exits) == 1 and len(PL.zeros(exits[0][1])) == 1 and \
                    exits[0][1].pc is t.eq0(list(PL.zeros(exits[0][1]))[0]):
                # left exactly when the variable that runs down is zero
                ex_atom, fst = TRUE, mk('first', (n_eff, Cx), 'int')
            elif not lamfree(Cx):
                self.unknown('loop exit condition depends on an unsummarised value')
                ex_atom, fst = mk('exists', (n_eff, Cx), 'bool'), mk('first', (n_eff, Cx), 'int')
            elif not hask(Cx):
                ex_atom, fst = Cx, ZERO
            else:
                scan = self.scan(S0, Cx, k, n_eff)
                lastc = self.monotone_last(S0, Cx, k, n_eff)
                if scan is not None:
                    ex_atom = scan[0]
                elif lastc is not None:
                    ex_atom = lastc
                else:
                    ex_atom = mk('exists', (n_eff, Cx), 'bool')
                if n_eff is INF:
                    ex_atom = TRUE
                fst = scan[1] if scan is not None else self.trip_count(S0, Cx, k, lamfree)
                if fst is None:
                    fst = mk('first', (n_eff, Cx), 'int')
            if ex_atom is not FALSE:
                for kind, s, v, site_ in exits:
                    S2, ok, sb = exit_state(s, fst, None)
                    if not ok:
                        continue
                    pcx = sb(s.pc)
                    if not assume(S2, ex_atom) or not assume(S2, pcx):
                        continue
                    if kind == 'brk':
                        self.brk.append(S2)
                    elif kind == 'ret':
                        self.rets.append((S2, sb(v)))
                    else:
                        self.exc[-1].append((S2, e_sub(v, sb), site_))
        if J is None and test is None:
            # the body never completes
            return False
        if n_eff is INF:
            return False
        if ex_atom is TRUE:
            return False
        S3 = S0.copy()
        d = at(n_eff, 'end')
        last = t.sub(n_eff, ONE)
        dl = at(last, None)
        dl[k] = last
        if test is not None and headstate is not None:
            src_new = J if J is not None else headstate
        else:
            src_new = J
        for key, v in src_new.store.items():
            if key in lam:
                S3.store[key] = d[lam[key]]
            elif S0.store.get(key) is not v:
                S3.store[key] = t.subst(v, dl)
        self.S = S3
        if ex_atom is not FALSE:
            self.assume(bnot(ex_atom))
        # the loop condition is false at the end
        if test is not None:
            hd = t.subst(head, d)
            hd = t.subst(hd, {k: n_eff})
            if not assume(self.S, bnot(hd), track=False):
                pass
        return True

    def euclid(self, S0, head, lam, W, J):
        """Final values of an extended-Euclid loop: while r1: r0, r1 = r1, r0 mod r1; s0, s1 = s1, s0 - (r0 // r1) * s1.

        Loop invariants: gcd(r0, r1) = gcd(A, B), and r0 = s0*A mod B (or the symmetric one) when it holds on entry."""
        def expand(x):
            m = dict((y, t.sub(y.args[0], t.mul(y.args[1], mk('idiv', y.args, 'int')))) for y in t.walk(x) if y.op == 'mod')
            return t.subst(x, m) if m else x
        ints = [q for q in W if lam[q] is not None and lam[q].ty == 'int' and J.store[q].ty == 'int']
        for q1 in ints:
            for q0 in ints:
                r0, r1 = lam[q0], lam[q1]
                if q0 is q1 or head is not bnot(t.eq0(r1)) or J.store[q0] is not r1:
                    continue
                q = mk('idiv', (r0, r1), 'int')
                if expand(J.store[q1]) is not t.sub(r0, t.mul(q, r1)):
                    continue
                A, B = S0.store[q1], S0.store[q0]
                if restrict(S0, t.ge0(A)) is not TRUE or restrict(S0, t.ge0(t.sub(B, ONE))) is not TRUE:
                    continue
                out = {q0: mk('gcd', (A, B), 'int'), q1: ZERO}
                for p1 in ints:
                    for p0 in ints:
                        if p0 is p1 or J.store[p0] is not lam[p1] or p0 in out or p1 in out:
                            continue
                        x = J.store[p1]
                        if x.op == 'mod' and x.args[1] is B:
                            x = x.args[0]
                        if t.to_poly(x) != t.to_poly(t.sub(lam[p0], t.mul(q, lam[p1]))):
                            continue
                        i0, i1 = S0.store[p0], S0.store[p1]
                        if i0 is ZERO and i1 is ONE:
                            out[p0] = mk('xgcd', (A, B), 'int')
                        elif i0 is ONE and i1 is ZERO and x is J.store[p1]:
                            out[p0] = mk('ygcd', (A, B), 'int')
                return out
        return {}

    def scan(self, S0, C, k, n):
        """(is there one, how many come before it) for a search from either end of a byte string for a byte other than a given one."""
        if n is INF or not (C.op == 'ite' and C.args[1] is FALSE and C.args[2] is TRUE):
            return None
        b, v = bytetest(C.args[0])
        if b is None or t.contains(b.args[0], k):
            return None
        X, e = b.args
        for which, A in (('rstrip', t.add(e, k)), ('lstrip', t.sub(e, k))):
            if t.contains(A, k):
                continue
            lo, hi = (t.sub(t.add(A, ONE), n), t.add(A, ONE)) if which == 'rstrip' else (A, t.add(A, n))
            if restrict(S0, t.ge0(lo)) is TRUE and restrict(S0, t.ge0(t.sub(t.length(X), hi))) is TRUE:
                rest = t.length(self.models.strip_(which, t.subseq(X, lo, hi), const(bytes([v]))))
                return t.ge0(t.sub(rest, ONE)), t.sub(n, rest)
        return None

    def trims(self, S0, head, lam, W, J):
        """Final values of a loop that takes a given byte off one end of a byte string while it stands there,
        or that runs an end position down over such bytes."""
        qs = [q for q in W if J.store[q] is not lam[q]]
        if len(qs) != 1 or any(J.store[q] is not lam[q] for q in W if q not in qs):
            return {}
        q, = qs
        l, v0, post = lam[q], S0.store[q], self.freeze_new(J, J.store[qs[0]], S0)
        F = State()
        if l.ty == 'bytes':
            L = t.length(l)
            if t.subst(head, {l: EMPTYB}) is not FALSE or not assume(F, t.ge0(t.sub(L, ONE)), track=False):
                return {}
            b, v = bytetest(deep_restrict(F, head))
            post = restrict(F, post)
            last = t.sub(L, ONE)
            for which, at, kept in (('rstrip', last, (ZERO, last)), ('lstrip', ZERO, (ONE, L))):
                if b is not None and b is t.byte_at(l, at) and post is t.subseq(l, *kept):
                    return {q: self.models.strip_(which, v0, const(bytes([v])))}
        if l.ty == 'int' and post is t.sub(l, ONE):
            if restrict(S0, t.ge0(v0)) is not TRUE or restrict(S0, t.subst(head, {l: ZERO})) is not FALSE or \
                    not assume(F, t.ge0(t.sub(l, ONE)), track=False):
                return {}
            b, v = bytetest(deep_restrict(F, head))
            if b is not None and not t.contains(b.args[0], l) and b is t.byte_at(b.args[0], t.sub(l, ONE)) and \
                    restrict(S0, t.ge0(t.sub(t.length(b.args[0]), v0))) is TRUE:
                return {q: t.length(self.models.strip_('rstrip', t.subseq(b.args[0], ZERO, v0), const(bytes([v]))))}
        return {}

    def recurrence(self, l, v0, post, k, lamfree, hask):
        """Solve x' = post(x, k), x0 = v0.  Returns (value at iteration k or None, value after n)."""
        if post is l:
            return v0, (lambda cnt: v0)
        if lamfree(post) and not hask(post) and post is v0:
            return v0, (lambda cnt: v0)
        if l.ty in ('int', 'bool'):
            if t.ty_of(post) not in ('int', 'bool') and post.op != 'ite':
                return None
            try:
                d = t.sub(post, l)
            except Exception:
                return None
            if lamfree(d):
                if not hask(d):
                    f = lambda cnt: t.add(v0, t.mul(cnt, d))
                    return f(k), f
                dd = t.to_poly(d) if d.op != 'ite' else None
                if dd is not None and all(m in ((), (k,)) for m in dd if any(x is k for x in m) or m == ()) and \
                        not any(t.contains(x, k) for m in dd for x in m if x is not k):
                    # d = a*k + b
                    a = t.from_poly(dict((tuple(x for x in m if x is not k), v) for m, v in dd.items() if k in m))
                    b = t.from_poly(dict((m, v) for m, v in dd.items() if k not in m))
                    if not hask(a):
                        f = lambda cnt: t.add(v0, t.add(t.mul(b, cnt),
                                                        t.mul(a, t.idiv(t.mul(cnt, t.sub(cnt, ONE)), const(2)))))
                        return f(k), f
                f = lambda cnt: t.add(v0, t.sumk(cnt, d, k))
                return None, f
            if self.counted and post.op == 'poly' and len(post.args) == 1 and post.args[0][0] == (l,) and post.args[0][1] > 1:
                c = post.args[0][1]
                if c & (c - 1) == 0:
                    f = lambda cnt: t.mul(v0, t.shl(ONE, t.mul(const(c.bit_length() - 1), cnt)))
                    return f(k), f
            # x' = x * 256 + d(k)
            d = t.sub(post, t.mul(const(256), l)) if post.op == 'poly' else l
            if lamfree(d):
                f = lambda cnt: t.add(t.mul(v0, t.shl(ONE, t.mul(const(8), cnt))),
                                      t.sumk(cnt, t.mul(d, t.shl(ONE, t.mul(const(8), t.sub(t.sub(cnt, ONE), k)))), k))
                return None, f
            # x' = x | (byte << 8 * k) adds, as long as the bytes come in order
            if post.op == 'bor' and l in post.args and v0 is ZERO:
                d = post.args[1 - post.args.index(l)]
                D = t.to_poly(d) if d.op != 'ite' else {}
                if len(D) == 1 and lamfree(d):
                    (m, c), = D.items()
                    if c == 1 and len(m) == 2 and t.shl(ONE, t.mul(const(8), k)) in m and any(x.op == 'byte' for x in m):
                        return None, (lambda cnt: t.sumk(cnt, d, k))
            return None
        def grow(X):
            """The length of the value at iteration k, when every iteration adds as much."""
            g = t.length(X)
            if lamfree(g) and not hask(g):
                self.grown[t.length(l)] = t.add(t.length(v0), t.mul(k, g))
        if l.ty in ('bytes', 'str'):
            def suffix(x):
                if x is l:
                    return EMPTYB if l.ty == 'bytes' else const('')
                if x.op == 'cat' and x.args[0] is l:
                    return t.cat(x.args[1:], l.ty)
                return None

            def prefix(x):
                if x is l:
                    return EMPTYB if l.ty == 'bytes' else const('')
                if x.op == 'cat' and x.args[-1] is l:
                    return t.cat(x.args[:-1], l.ty)
                return None
            lv = t.leaves(post)
            if all(suffix(x) is not None for x in lv):
                X = lift(lambda x: suffix(x), post)
                if lamfree(X):
                    grow(X)
                    return None, (lambda cnt: t.cat2(v0, t.cmap(cnt, X)) if hask(X) or X.op == 'ite'
                                  else t.cat2(v0, t.rep(X, cnt)))
            if all(prefix(x) is not None for x in lv):
                X = lift(lambda x: prefix(x), post)
                if lamfree(X):
                    grow(X)
                    if not hask(X):
                        return None, (lambda cnt: t.cat2(t.rep(X, cnt), v0))

                    def fin(cnt):
                        return t.cat2(t.cmap(cnt, t.subst(X, {k: t.sub(t.sub(cnt, ONE), k)})), v0)
                    return None, fin
            if lamfree(post) and not hask(post):
                return None
            return None
        if l.ty == 'list':
            def suf(x):
                if x is l:
                    return t.lcat([])
                if x.op == 'lcat' and x.args and x.args[0] is l:
                    return t.lcat(x.args[1:])
                return None
            lv = t.leaves(post)
            if all(suf(x) is not None for x in lv):
                X = lift(lambda x: suf(x), post)
                if lamfree(X):
                    grow(X)
                    if X.op == 'lcat' and len(X.args) == 1 and X.args[0].op == 'li':
                        return None, (lambda cnt: t.lcat_l(v0, t.lmap(cnt, X.args[0].args[0])))
                    return None, (lambda cnt: t.lcat_l(v0, mk('lflat', (cnt, X), 'list')))
            return None
        if lamfree(post) and hask(post):
            # value of the last iteration
            def fin2(cnt):
                return t.subst(post, {k: t.sub(cnt, ONE)})
            return None, fin2
        if lamfree(post):
            return None, (lambda cnt: post)
        return None

    def freeze_new(self, S, v, S0):
        """Replace references to objects created inside a loop body by structural values."""
        if not any(x.op == 'ref' and (x.args[0], '$new') not in S0.store for x in t.walk(v)):
            return v
        m = {}
        for x in list(t.walk(v)):
            if x.op == 'ref' and (x.args[0], '$new') not in S0.store:
                m[x] = self.freeze(S, x, S0)
        return t.subst(v, m)

    def freeze(self, S, ref, S0=None, depth=0):
        if ref.op != 'ref' or depth > 6:
            return ref
        o = self.objs[ref.args[0]]
        fields = []
        for (oid, f), v in S.store.items():
            if oid == ref.args[0] and f != '$new':
                m = {}
                for x in list(t.walk(v)):
                    if x.op == 'ref' and x is not ref and (S0 is None or (x.args[0], '$new') not in S0.store):
                        m[x] = self.freeze(S, x, S0, depth + 1)
                fields.append((f, t.subst(v, m) if m else v))
        fields.sort(key=lambda kv: kv[0])
        return mk('obj', (o.cls if o.cls is not None else o.kind, tuple(fields)), 'obj')

    def trip_count(self, S0, C, k, lamfree):
        """Least k >= 0 with C(k), as a closed form, for linear conditions; None otherwise."""
        if not lamfree(C):
            return None
        C = restrict(S0, C)
        neg = False
        if C.op == 'ite' and C.args[1] is FALSE and C.args[2] is TRUE:
            neg, C = True, C.args[0]
        if C.op not in ('ge0', 'eq0'):
            return None
        d = t.to_poly(C.args[0])
        kc = d.get((k,), 0)
        if not kc or any(k in m for m in d if m != (k,)) or any(t.contains(x, k) for m in d for x in m if x is not k):
            return None
        del d[(k,)]
        A = t.from_poly(d)
        if C.op == 'ge0':
            # C: A + kc*k >= 0  (or its negation A + kc*k <= -1)
            if not neg and kc > 0:
                # least k with k >= -A/kc ; assume -A >= 0 known
                v = t.neg(t.idiv(A, const(kc)))
            elif neg and kc < 0:
                # A + kc k <= -1  <=> k >= (A+1)/|kc|
                v = t.neg(t.idiv(t.neg(t.add(A, ONE)), const(-kc)))
            else:
                return None
            z = restrict(S0, t.ge0(v))
            if z is TRUE:
                return v
            return ite(t.ge0(v), v, ZERO) if z is not FALSE else ZERO
        if not neg and abs(kc) == 1:
            v = t.neg(A) if kc == 1 else A
            if restrict(S0, t.ge0(v)) is TRUE:
                return v
        return None

    def monotone_last(self, S0, C, k, n):
        """Exists j<n with C(j), when C is monotone in k: C(n-1)."""
        if n is INF:
            return None
        neg = False
        X = C
        if X.op == 'ite' and X.args[1] is FALSE and X.args[2] is TRUE:
            neg, X = True, X.args[0]
        if X.op != 'ge0':
            return None
        d = t.to_poly(X.args[0])
        kc = d.get((k,), 0)
        if not kc or any(t.contains(x, k) for m in d for x in m if m != (k,)):
            return None
        last = t.sub(n, ONE)
        if (kc > 0) != neg:
            return t.subst(C, {k: last})
        return t.subst(C, {k: ZERO})

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.restrict(v)
        if v.op == 'seqd':
            return v.args[0]
        return self.models.seq_of(v)

    # ------------------------------------------------------------ names & assignment
    def mangle(self, name):
        fr = self.frames[-1] if self.frames else None
        if name.startswith('__') and not name.endswith('__') and fr is not None:
            c = fr.cls
            q = fr
            while c is None and q is not None:
                c, q = q.cls, q.parent
            if c is not None:
                return '_%s%s' % (c.name.lstrip('_'), name)
        return name

    def assign_name(self, name, v):
        fr = self.frames[-1]
        name = self.mangle(name)
        if name in fr.globals_:
            self.S.store[(('m', fr.module), name)] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if p.locals is not None and name in p.locals:
                    self.S.store[(p.fid, name)] = v
                    return
                p = p.parent
        self.S.store[(fr.fid, name)] = v

    def name(self, name):
        fr = self.frames[-1]
        name = self.mangle(name)
        q = fr
        first = True
        while q is not None:
            if q.locals is None or name in q.locals or (first and False):
                if not (q.locals is None and not first and q.fid[0] == 'cls'):
                    if name not in q.globals_:
                        v = self.S.store.get((q.fid, name))
                        if v is not None:
                            v = self.restrict(v)
                            if v is UNBOUND:
                                if q.locals is not None:
                                    self.raise_py(UnboundLocalError, name)
                            elif v.op == 'ite' and any(x is UNBOUND for x in t.leaves(v)):
                                return self.split(v, lambda x: self.raise_py(UnboundLocalError, name)
                                                  if x is UNBOUND else x)
                            else:
                                return v
                        elif q.locals is not None and name in q.locals and first:
                            self.raise_py(UnboundLocalError, name)
            first = False
            q = q.parent
        v = self.S.store.get((('m', fr.module), name))
        if v is not None and v is not UNBOUND:
            v = self.restrict(v)
            return v
        b = self.models.builtin_value(name)
        if b is not None:
            return b
        self.raise_py(NameError, "name '%s' is not defined" % name)

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, v)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            self.setattr(o, self.mangle(tg.attr), v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value)
            i = self.ev_slice(tg.slice)
            self.models.setitem(o, i, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]

            def go(x):
                if star:
                    i = star[0]
                    after = len(tg.elts) - i - 1
                    x = self.restrict(x)
                    s = self.iterate(x)
                    items = self.seq_items(s)
                    if items is None:
                        n = self.restrict(s.n) if s.n is not None else None
                        if n is None:
                            u = self.unknown('cannot unpack %s' % t.show(x, 3))
                            for e in tg.elts:
                                self.assign(e.value if isinstance(e, ast.Starred) else e, u)
                            return None
                        self.may_raise(bnot(t.ge0(t.sub(n, const(i + after)))), lambda: self.new_exc(ValueError, [const('unpack')]))
                        n = self.restrict(n)
                        content = self.models.list_content(mk('seqd', (s,), 'seqd'))
                        mid = self.models.pyslice(content, mk('slice', (const(i), t.sub(n, const(after)), NONE), 'slice'))
                        vals = [s.el(const(j)) for j in range(i)] + [self.new_list(mid)] + \
                               [s.el(t.sub(n, const(after - j))) for j in range(after)]
                        for e, y in zip(tg.elts, vals):
                            self.assign(e.value if isinstance(e, ast.Starred) else e, y)
                        return None
                items = items if star else self.unpack(x, len(tg.elts))
                if star:
                    if len(items) < len(tg.elts) - 1:
                        self.raise_py(ValueError, 'not enough values to unpack')
                    mid = items[i:len(items) - after]
                    vals = items[:i] + [self.new_list(mid)] + items[len(items) - after:]
                    for e, y in zip(tg.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, y)
                else:
                    for e, y in zip(tg.elts, items):
                        self.assign(e, y)
                return None
            vv = self.restrict(v)
            if vv.op == 'ite' and all(x.op == 'tuple' and len(x.args) == len(tg.elts) for x in t.leaves(vv)):
                for i, e in enumerate(tg.elts):
                    self.assign(e, lift(lambda x, i=i: x.args[i], vv))
                return
            self.split(vv, go)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v)
        else:
            self.unknown('assignment target')

    def unpack(self, v, n):
        """Concrete items of an iterable value."""
        v = self.restrict(v)
        s = self.iterate(v)
        items = self.seq_items(s)
        if items is None:
            if n is not None and s.n is not None:
                c = t.eq0(t.sub(s.n, const(n)))
                self.may_raise(bnot(c), lambda: self.new_exc(ValueError, [const('unpack')]))
                return [s.el(const(i)) for i in range(n)]
            if v.op in ('unk',) or v.ty == 'any':
                return [app('proj', v, const(i)) for i in range(n or 0)]
            self.unknown('cannot unpack %s' % t.show(v, 3))
            return [self.unknown('unpack') for i in range(n or 0)]
        if n is not None and len(items) != n:
            self.raise_py(ValueError, 'unpack: expected %d values, got %d' % (n, len(items)))
        return items

    def seq_items(self, s):
        if s.segs is not None:
            out = []
            for x in s.segs:
                i = self.seq_items(x)
                if i is None:
                    return None
                out += i
            return out
        if s.items is not None:
            return s.items() if callable(s.items) else list(s.items)
        n = self.restrict(s.n)
        if is_const(n) and cval(n) <= 4096:
            return [s.el(const(i)) for i in range(cval(n))]
        return None

    # ------------------------------------------------------------ attributes
    def class_attr(self, c, name):
        for k in c.mro:
            v = self.S.store.get((k.key, name))
            if v is not None and v is not UNBOUND:
                return self.restrict(v)
        return None

    def find_method(self, ref, name):
        """Bound method of a user class instance, or None."""
        c = self.cls_of(ref)
        if c is None:
            return None
        v = self.class_attr(c, name)
        if v is None:
            return None
        return self.bind_attr(v, ref, c)

    def cls_of(self, v):
        if v.op == 'ref':
            return self.obj(v).cls
        if v.op == 'inst':
            return v.args[0]
        if v.op == 'obj' and isinstance(v.args[0], ClassObj):
            return v.args[0]
        return None

    def bind_attr(self, v, inst, cls):
        if v.op == 'func':
            return mk('meth', (v, inst), 'meth')
        if v.op == 'static':
            return v.args[0]
        if v.op == 'classm':
            return mk('meth', (v.args[0], cls_term(cls)), 'meth')
        if v.op == 'prop':
            return self.call(v.args[0], [inst], {})
        if v.op == 'ite':
            return lift(lambda x: mk('meth', (x, inst), 'meth') if x.op == 'func' else
                        x.args[0] if x.op == 'static' else x, v)
        return v

    def getattr(self, o, name, default=None):
        """name is already mangled."""
        o = self.restrict(o)
        if o.op == 'ite':
            lv = t.leaves(o)
            if all(x.op == 'ref' and self.obj(x).kind == 'inst' for x in lv):
                cs = set(self.obj(x).cls for x in lv)
                if len(cs) == 1:
                    c = cs.pop()
                    cv = self.class_attr(c, name)
                    if cv is not None and cv.op in ('func', 'static', 'classm'):
                        if not any((x.args[0], name) in self.S.store for x in lv):
                            return self.bind_attr(cv, o, c)
                    if cv is None or cv.op != 'prop':
                        def rd(x):
                            v = self.S.store.get((x.args[0], name))
                            return v if v is not None and v.op != 'ite' else None
                        vals = dict((x, self.S.store.get((x.args[0], name))) for x in lv)
                        if all(v is not None for v in vals.values()):
                            r = lift(lambda x: vals[x], o)
                            r = self.restrict(r)
                            if not any(x is UNBOUND for x in t.leaves(r)):
                                return r
            return self.split(o, lambda x: self.getattr(x, name, default))
        return self.getattr1(o, name, default)

    def getattr1(self, o, name, default=None):
        op = o.op

        def missing():
            if default is not None:
                return default
            self.raise_py(AttributeError, "%s has no attribute %s" % (t.show(o, 2), name))
        if op == 'ref':
            ob = self.obj(o)
            if ob.kind == 'inst':
                c = ob.cls
                cv = self.class_attr(c, name)
                if cv is not None and cv.op == 'prop':
                    return self.call(cv.args[0], [o], {})
                v = self.S.store.get((o.args[0], name))
                if v is not None:
                    v = self.restrict(v)
                    if v is not UNBOUND:
                        if v.op == 'ite' and any(x is UNBOUND for x in t.leaves(v)):
                            def fb(x):
                                if x is not UNBOUND:
                                    return x
                                return self.bind_attr(cv, o, c) if cv is not None else missing()
                            return self.split(v, fb)
                        return v
                if cv is not None:
                    return self.bind_attr(cv, o, c)
                if name == '__class__':
                    return cls_term(c)
                if name == '__dict__':
                    return self.models.attributes(o)
                if name == 'args' and (o.args[0], '$args') in self.S.store:
                    return self.S.store[(o.args[0], '$args')]
                ga = self.class_attr(c, '__getattr__')
                if ga is not None:
                    return self.call(self.bind_attr(ga, o, c), [const(name)], {})
                py = c.pybase()
                if hasattr(py, name):
                    return mk('bmeth', (name, o), 'meth')
                return missing()
            return self.models.attr(o, name, missing)
        if op == 'inst':
            c = o.args[0]
            cv = self.class_attr(c, name)
            if cv is not None:
                return self.bind_attr(cv, o, c)
            if name == '__class__':
                return cls_term(c)
            return mk('bmeth', (name, o), 'meth')
        if op == 'class':
            c = o.args[0]
            v = self.class_attr(c, name)
            if v is not None:
                if v.op == 'static':
                    return v.args[0]
                if v.op == 'classm':
                    return mk('meth', (v.args[0], o), 'meth')
                return v
            if name == '__name__':
                return const(c.name)
            if name == '__qualname__':
                return const(c.qual.split(':')[-1])
            if name == '__module__':
                return const(c.module or 'builtins')
            py = c.pybase()
            if hasattr(py, name):
                return mk('cmeth', (py.__name__, name, o), 'meth')
            return missing()
        if op == 'module':
            v = self.S.store.get((('m', o.args[0]), name))
            if v is None or v is UNBOUND:
                if self.load(o.args[0] + '.' + name) is not None:
                    return self.modules[o.args[0] + '.' + name]
                return missing()
            return self.restrict(v)
        if op == 'ext':
            return self.models.ext_value(o.args[0] + '.' + name)
        if op == 'super':
            start, inst = o.args
            c = inst.args[0] if inst.op == 'class' else self.cls_of(inst if inst.op != 'ite' else t.leaves(inst)[0])
            if c is None:
                return self.unknown('super of unknown object')
            mro = c.mro
            i = mro.index(start) + 1 if start in mro else 0
            for kk in mro[i:]:
                v = self.S.store.get((kk.key, name))
                if v is not None and v is not UNBOUND:
                    return self.bind_attr(v, inst, c)
                if kk.py is not None and name in vars(kk.py):
                    return mk('pymeth', (kk.py.__name__, name, inst), 'meth')
            return missing()
        if op == 'func':
            if name == '__name__':
                return const(o.args[0].name)
            return mk('bmeth', (name, o), 'meth')
        if op == 'prop' and name == 'setter':
            return mk('propset', (o,), 'descr')
        return self.models.attr(o, name, missing)

    def setattr(self, o, name, v):
        o = self.restrict(o)
        if o.op == 'ite':
            # weak update on every leaf
            lv = t.leaves(o)
            if all(x.op == 'ref' and self.obj(x).kind == 'inst' for x in lv):
                for x in lv:
                    g = lift(lambda y: TRUE if y is x else FALSE, o)
                    old = self.S.store.get((x.args[0], name), UNBOUND)
                    self.S.store[(x.args[0], name)] = ite(g, v, old)
                return
            self.split(o, lambda x: (self.setattr(x, name, v), NONE)[1])
            return
        if o.op == 'ref':
            ob = self.obj(o)
            if ob.kind == 'inst':
                cv = self.class_attr(ob.cls, name)
                if cv is not None and cv.op == 'prop':
                    if cv.args[1] is NONE:
                        self.raise_py(AttributeError, 'cannot set ' + name)
                    self.call(cv.args[1], [o, v], {})
                    return
                sa = self.class_attr(ob.cls, '__setattr__')
                if sa is not None and not (self.frames and self.frames[-1].fn is sa.args[0]):
                    self.call(self.bind_attr(sa, o, ob.cls), [const(name), v], {})
                    return
                self.S.store[(o.args[0], name)] = v
                return
            self.event('setattr', name, (o, v))
            self.S.store[(o.args[0], name)] = v
            return
        if o.op == 'class':
            self.event('classwrite', o.args[0].qual + '.' + name, (v,))
            self.S.store[(o.args[0].key, name)] = v
            return
        if o.op == 'module':
            self.event('globalwrite', o.args[0] + ':' + name, (v,))
            self.S.store[(('m', o.args[0]), name)] = v
            return
        if o.op == 'ext':
            self.event('extwrite', o.args[0] + '.' + name, (v,))
            self.S.store[('ext', o.args[0] + '.' + name)] = v
            return
        if o.op == 'c' and cval(o) is None:
            self.raise_py(AttributeError, "'NoneType' object has no attribute %r" % name)
        self.event('setattr', name, (o, v))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        f = self.restrict(f)
        op = f.op
        if op == 'ite':
            return self.split(f, lambda x: self.call(x, args, kw, node))
        if op == 'func':
            return self.call_func(f.args[0], args, kw)
        if op == 'meth':
            return self.call(f.args[0], [f.args[1]] + list(args), kw, node)
        if op == 'bmeth':
            return self.models.method(f.args[1], f.args[0], list(args), dict(kw))
        if op == 'pymeth':
            return self.models.pymethod(f.args[0], f.args[1], f.args[2], list(args), dict(kw))
        if op == 'cmeth':
            return self.models.classmethod_(f.args[0], f.args[1], f.args[2], list(args), dict(kw))
        if op == 'class':
            return self.instantiate(f.args[0], list(args), dict(kw))
        if op == 'builtin':
            return self.models.builtin(f.args[0], list(args), dict(kw), node)
        if op == 'ext':
            return self.models.ext(f.args[0], list(args), dict(kw))
        if op == 'static':
            return self.call(f.args[0], args, kw, node)
        if op == 'partial':
            kk = dict(f.args[2])
            kk.update(kw)
            return self.call(f.args[0], list(f.args[1]) + list(args), kk, node)
        if op == 'opfn':
            return f.args[0](*args)
        if op == 'ref':
            m = self.find_method(f, '__call__')
            if m is not None:
                return self.call(m, args, kw, node)
            return self.models.call_obj(f, list(args), dict(kw))
        if op == 'c':
            self.raise_py(TypeError, 'object is not callable')
        e = self.event('dyncall', t.show(f, 2), args)
        r = app('dyn', f, tup(args))
        e.res = r
        return r

    def instantiate(self, c, args, kw):
        r = self.models.special_class(c, args, kw)
        if r is not None:
            return r
        py = c.pybase()
        if isinstance(py, type) and issubclass(py, BaseException):
            o = self.alloc('inst', c)
            self.S.store[(o.args[0], '$args')] = tup(args)
            init = self.class_attr(c, '__init__')
            if init is not None:
                self.call(self.bind_attr(init, o, c), args, kw)
            return o
        if c.py is not None and c.py is not object:
            return self.models.construct(c.py, args, kw)
        if py is int:
            new = self.class_attr(c, '__new__')
            if new is not None:
                f = new.args[0] if new.op == 'static' else new
                return self.call(f, [cls_term(c)] + args, kw)
            p = self.models.construct(int, args, kw)
            return lift(lambda x: mk('inst', (c, x.args[1] if x.op == 'inst' else x), 'inst'), p)
        o = self.alloc('inst', c)
        if py in (list, dict, set, bytearray):
            self.unknown('subclass of %s' % py.__name__)
        init = self.class_attr(c, '__init__')
        if init is not None:
            self.call(self.bind_attr(init, o, c), args, kw)
        elif args or kw:
            fields = self.S.store.get((c.key, '$fields'))
            self.raise_py(TypeError, '%s() takes no arguments' % c.name)
        return o

    def bind_args(self, fo, args, kw):
        """name -> term for the parameters; raises TypeError on mismatch."""
        a = fo.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        out = {}
        if len(args) > len(pos) and a.vararg is None:
            self.raise_py(TypeError, '%s() takes %d positional arguments but %d were given' % (fo.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tup(args[len(pos):])
        nd = len(fo.defaults)
        for i, n in enumerate(pos):
            if n in out:
                if n in kw and i < len(args):
                    self.raise_py(TypeError, 'multiple values for ' + n)
                continue
            if n in kw:
                out[n] = kw.pop(n)
            elif i >= len(pos) - nd:
                out[n] = fo.defaults[i - (len(pos) - nd)]
            else:
                self.raise_py(TypeError, '%s() missing argument %s' % (fo.name, n))
        for x, d in zip(a.kwonlyargs, fo.kwdefaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not UNBOUND:
                out[x.arg] = d
            else:
                self.raise_py(TypeError, 'missing keyword argument ' + x.arg)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict([(const(k_), v) for k_, v in kw.items()])
        elif kw:
            self.raise_py(TypeError, '%s() got an unexpected keyword argument %s' % (fo.name, sorted(kw)[0]))
        return out

    def call_func(self, fo, args, kw):
        for con in (self.contracts.get(fo.qual), self.contracts.get('*')):
            r = con(self, fo, args, kw) if con is not None else None
            if r is not None:
                return r
        depth = sum(1 for fr in self.frames if fr.fn is fo)
        if depth:
            flat = list(args) + list(kw.values())
            if not any(x.op in ('ref', 'ite') and t.ty_of(x) == 'ref' for x in flat) and \
                    any(t.ty_of(x) == 'int' and not is_const(x) for x in flat):
                e = self.event('rec', fo.qual, args)
                return app('rec', fo.qual, *args)
            if depth > 40 or (depth > 14 and any(t.ty_of(x) == 'int' and not is_const(self.restrict(x)) for x in flat)):
                raise Budget('recursion of %s is not statically bounded' % fo.qual)
        if len(self.frames) > 120:
            raise Budget('call depth')
        self.analysed.add(fo.qual)
        line = self.curline
        binds = self.bind_args(fo, args, kw)
        fid = self.nextid
        self.nextid += 1
        self.S.store[(fid, '$new')] = TRUE
        fr = Frame(fid, fo.locals_, fo.closure, fo.module, fo.cls, fo, fo.globals_, fo.nonlocals)
        a = fo.node.args
        firstp = (a.posonlyargs + a.args)
        if firstp and firstp[0].arg in binds:
            fr.self_ = binds[firstp[0].arg]
        for n_, v in binds.items():
            self.S.store[(fid, n_)] = v
        sv = (self.rets, self.brk, self.cont)
        self.rets, self.brk, self.cont = [], [], []
        self.frames.append(fr)
        if fo.isgen:
            ylist = self.new_list([])
            self.S.store[(fid, '$yield')] = ylist
        try:
            try:
                if isinstance(fo.node, ast.Lambda):
                    v = self.ev(fo.node.body)
                    self.rets.append((self.S, v))
                else:
                    self.block(fo.node.body)
                    self.rets.append((self.S, NONE))
            except Dead:
                pass
            rets = self.rets
        finally:
            self.frames.pop()
            self.rets, self.brk, self.cont = sv
            self.curline = line
        if not rets:
            raise Dead()
        self.S, v = join_many(rets)
        if not fo.captures:
            st = self.S.store
            for n_ in fo.locals_:
                st.pop((fid, n_), None)
            st.pop((fid, '$new'), None)
        v = self.restrict(v)
        if fo.isgen:
            it = self.alloc('iter', None)
            self.set_content(it, self.content(ylist))
            return it
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget')
        if self.frames and hasattr(e, 'lineno'):
            self.curline = e.lineno
        return getattr(self, 'e_' + type(e).__name__)(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.name(e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, self.mangle(e.attr))

    def e_Tuple(self, e):
        return tup(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.ev(x.value), None)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.append(self.models.list_content(self.ev(x.value)))
            else:
                segs.append(t.li(self.ev(x)))
        return self.new_list(t.lcat_l(*segs) if segs else t.lcat([]))

    def e_Set(self, e):
        return self.new_set(self.elts(e.elts))

    def e_Dict(self, e):
        pairs = []
        for k_, v in zip(e.keys, e.values):
            if k_ is None:
                d = self.ev(v)
                if self.is_kind(d, 'dict') and self.content(d).op == 'dictc':
                    pairs += list(self.content(d).args)
                else:
                    self.unknown('** in dict')
                continue
            kk = self.ev(k_)
            pairs.append((kk, self.ev(v)))
        out = []
        for k_, v in pairs:
            out = [(a, b) for a, b in out if a is not k_] + [(k_, v)]
        return self.new_dict(out)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.restrict(self.truth(v))
            return self.cond(c, lambda: go(i + 1) if isand else v, lambda: v if isand else go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        return self.split_if(v, lambda x: self.models.unary(type(e.op).__name__, x))

    def split_if(self, v, f):
        v = self.restrict(v)
        if v.op == 'ite' and all(x.ty in ('int', 'bool') for x in t.leaves(v)):
            return lift(f, v)
        return self.split(v, f)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.restrict(a), self.restrict(b)
        return self.models.binop(op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)

        def go(left, i):
            right = self.ev(e.comparators[i])
            r = self.models.compare(type(e.ops[i]).__name__, left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.cond(c, lambda: go(right, i + 1), lambda: r)
        return go(left, 0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.cond(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        while fr.fn is None and fr.parent is not None and isinstance(fr.fid, int):
            fr = fr.parent
        self.S.store[(fr.fid, e.target.id)] = v
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.conversion == ord('r'):
                    x = self.models.repr_(x)
                elif v.conversion == ord('s'):
                    x = self.models.str_(x)
                spec = self.ev(v.format_spec) if v.format_spec is not None else const('')
                parts.append(self.models.format_(x, spec))
        if not parts:
            return const('')
        return t.cat(parts, 'str')

    def e_FormattedValue(self, e):
        return self.models.format_(self.ev(e.value), const(''))

    def e_Slice(self, e):
        return mk('slice', tuple(self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)), 'slice')

    def ev_slice(self, s):
        return self.ev(s)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_slice(e.slice)
        return self.models.getitem(o, i)

    def e_Call(self, e):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            while fr is not None and fr.cls is None:
                fr = fr.parent
            q = self.frames[-1]
            while q is not None and q.self_ is None:
                q = q.parent
            if fr is not None and q is not None:
                return mk('super', (fr.cls, q.self_), 'super')
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.unpack(self.ev(a.value), None)
            else:
                args.append(self.ev(a))
        kw = {}
        for k_ in e.keywords:
            if k_.arg is None:
                d = self.restrict(self.ev(k_.value))
                if self.is_kind(d, 'dict') and self.content(d).op == 'dictc':
                    for kk, v in self.content(d).args:
                        kw[cval(kk)] = v
                else:
                    self.unknown('** call')
            else:
                kw[k_.arg] = self.ev(k_.value)
        self.curline = e.lineno
        return self.call(f, args, kw, e)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.yield_(t.li(v))
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        self.yield_(self.models.list_content(v))
        return NONE

    def yield_(self, seg):
        fr = self.frames[-1]
        while fr.fn is None or not fr.fn.isgen:
            fr = fr.parent
        r = self.S.store[(fr.fid, '$yield')]
        self.set_content(r, t.lcat_l(self.content(r), seg))

    def e_Await(self, e):
        return self.unknown('await')

    # comprehensions -------------------------------------------------
    def comp(self, e, emit):
        fr = self.frames[-1]
        fid = self.nextid
        self.nextid += 1
        names = set()
        for g in e.generators:
            for n_ in ast.walk(g.target):
                if isinstance(n_, ast.Name):
                    names.add(n_.id)
        self.S.store[(fid, '$new')] = TRUE
        first = self.ev(e.generators[0].iter)
        nf = Frame(fid, frozenset(names), fr, fr.module, fr.cls)
        nf.fn = None
        self.frames.append(nf)
        try:
            def level(i):
                if i == len(e.generators):
                    emit()
                    return
                g = e.generators[i]
                it = first if i == 0 else self.ev(g.iter)
                seq = self.iterate(it)

                def body():
                    def tests(j):
                        if j == len(g.ifs):
                            level(i + 1)
                            return
                        c = self.truth(self.ev(g.ifs[j]))
                        self.branch(c, lambda: tests(j + 1), lambda: None)
                    tests(0)
                self.for_loop(seq, lambda v: self.assign(g.target, v), body, lambda: None, e)
            level(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        r = self.new_list([])
        self.comp(e, lambda: self.emit_list(r, e.elt))
        return r

    def emit_list(self, r, elt):
        v = self.ev(elt)
        self.set_content(r, t.lcat_l(self.content(r), t.li(v)))

    def e_GeneratorExp(self, e):
        r = self.e_ListComp(e)
        it = self.alloc('iter', None)
        self.set_content(it, self.content(r))
        return it

    def e_SetComp(self, e):
        r = self.new_set([])
        self.comp(e, lambda: (self.models.method(r, 'add', [self.ev(e.elt)], {}), None)[1])
        return r

    def e_DictComp(self, e):
        r = self.new_dict([])

        def emit():
            k_ = self.ev(e.key)
            self.models.setitem(r, k_, self.ev(e.value))
        self.comp(e, emit)
        return r

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.restrict(v)
        if v.op == 'ite':
            lv = t.leaves(v)
            if all(x.op != 'ref' and x.op != 'obj' for x in lv):
                return lift(self.truth1, v)
            return self.split(v, self.truth1)
        return self.truth1(v)

    def truth1(self, v):
        if v.op == 'c':
            return TRUE if cval(v) else FALSE
        if t.is_atom(v):
            return v
        if v.ty in ('int', 'bool'):
            return bnot(t.eq0(v))
        if v.ty in ('bytes', 'str'):
            return bnot(t.eq0(t.length(v)))
        if v.op == 'tuple':
            return TRUE if v.args else FALSE
        if v.op == 'inst':
            return bnot(t.eq0(v.args[1]))
        if v.op == 'ref':
            ob = self.obj(v)
            if ob.kind == 'inst':
                for nm in ('__bool__', '__len__'):
                    m = self.find_method(v, nm)
                    if m is not None:
                        return self.truth(self.call(m, [], {}))
                return TRUE
            if ob.kind in ('list', 'bytearray', 'set'):
                return bnot(t.eq0(t.length(self.content(v))))
            if ob.kind == 'dict':
                c = self.content(v)
                return (TRUE if c.args else FALSE) if c.op == 'dictc' else app('truth', c, ty='bool')
            return TRUE
        if v.ty == 'list':
            return bnot(t.eq0(t.length(v)))
        if v.op in ('func', 'class', 'module', 'ext', 'meth', 'bmeth', 'builtin', 'obj', 'partial'):
            return TRUE
        if v.op == 'range':
            return bnot(t.eq0(self.models.range_len(v)))
        return app('truth', v, ty='bool')


def e_sub(v, sb):
    return v if v.op == 'ref' else sb(v)
