"""Call histories: the process-wide state (module globals, class attributes, objects they hold, the curve library's
current curve) is a typestate; the states reachable by any sequence of operations are enumerated to a fixpoint."""
import time
from .common import *
from ..prog import Budget, Dead
from .. import prog

SKIP = ('$new', '__name__', '__file__', '__doc__')


def is_global(k, base):
    return isinstance(k[0], tuple) or k[0] == 'ext' or k in base


def changed(I, S0, S, ignore=()):
    """Keys of process-wide cells whose value differs from S0 (cells of objects that already existed count)."""
    ids = set(k[0] for k in S0.store if isinstance(k[0], int))
    out = []
    for k, v in S.store.items():
        if k[1] in SKIP or k in ignore or k in (('ext', 'stdout'), ('ext', 'stderr')):
            continue
        if isinstance(k[0], int) and k[0] not in ids:
            continue
        if S0.store.get(k) is not v:
            out.append(k)
    return out


class States(object):
    """Fixpoint over the process-wide states reachable from the start state by the given operations."""

    def __init__(self, C, ops, limit=48, ignore=(), seconds=None):
        self.C, self.ops, self.limit = C, ops, limit
        I = C.I
        self.S0 = I.S
        self.t0 = time.time()
        self.seen = {}
        self.list = []
        self.runs = []
        self.add(self.S0, 'start')
        n = 0
        while n < len(self.list):
            S, hist = self.list[n]
            n += 1
            I.S = S
            try:
                for name, site, d in ops:
                    if seconds is not None and time.time() - self.t0 > seconds:
                        raise Budget('more process-wide states than can be enumerated in %d s' % seconds)
                    ev0 = len(I.events)
                    o = C.run(d)
                    evs = I.events[ev0:]
                    self.runs.append((S, hist, name, site, o, evs))
                    ex = ([o.ret] if o.ret is not None else []) + o.raises
                    for e in ex:
                        self.exit_states(S, e.state, hist + [name] if isinstance(hist, list) else [name], ignore)
            finally:
                I.S = self.S0

    def exit_states(self, S, E, hist, ignore):
        I = self.C.I
        ks = sorted(changed(I, self.S0, E, ignore), key=str)
        vals = [prog.restrict(E, E.store[k]) for k in ks]
        joint = t.lift(lambda *a: t.tup(a), *vals) if ks else t.tup([])
        for leaf in t.leaves(joint):
            N = self.S0.copy()
            N.store = dict(E.store)
            for k, v in zip(ks, leaf.args):
                N.store[k] = v
            self.add(N, hist)

    def add(self, S, hist):
        I = self.C.I
        old = I.S
        I.S = S
        try:
            ks = sorted(changed(I, self.S0, S), key=str)
            sig = tuple(str(k) for k in ks), snap(self.C, *[S.store[k] for k in ks])
        finally:
            I.S = old
        if sig in self.seen:
            return
        if len(self.list) >= self.limit:
            raise Budget('more than %d process-wide states' % self.limit)
        self.seen[sig] = True
        self.list.append((S, hist if isinstance(hist, list) else []))
