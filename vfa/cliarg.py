"""Models of argparse, sys.argv, standard output and json.dumps."""
from . import terms as t
from .terms import TRUE, FALSE, NONE, ONE, ZERO, const, is_const, cval, mk, lift, app, tup

OUT, ERR = ('ext', 'stdout'), ('ext', 'stderr')
SAFE_JSON = ('b58', 'hex')


class CliMixin(object):
    # ------------------------------------------------------------ standard output as a value
    def emit(self, text, where=OUT):
        I = self.I
        old = I.S.store.get(where, const(''))
        I.S.store[where] = lift(lambda a, b: t.cat([a, b], 'str') if b.ty == 'str' and a.ty == 'str' else app('cat', a, b, ty='str'), old, text)

    def stream_cell(self, f):
        if f is None or f.op == 'c' and cval(f) is None or f.op == 'ext' and f.args[0] in ('sys.stdout', 'sys.__stdout__'):
            return OUT
        if f.op == 'ext' and f.args[0] in ('sys.stderr', 'sys.__stderr__'):
            return ERR
        return None

    def print_(self, args, kw):
        I = self.I
        texts = [self.safe_str(a) for a in args]
        I.event('print', 'print', tuple(texts))
        cell = self.stream_cell(I.restrict(kw['file']) if 'file' in kw else None)
        sep, end = kw.get('sep', const(' ')), kw.get('end', const('\n'))
        sep = const(' ') if sep is NONE else sep
        end = const('\n') if end is NONE else end
        if cell is None:
            f = I.restrict(kw['file'])
            for x in texts + [end]:
                I.call(I.getattr(f, 'write'), [x], {})
            return NONE
        for i, x in enumerate(texts):
            if i:
                self.emit(sep, cell)
            self.emit(x, cell)
        self.emit(end, cell)
        return NONE

    # ------------------------------------------------------------ json
    def jsontext(self, v):
        """JSON text of a text value, exact when nothing in it needs escaping."""
        I = self.I

        def one(x):
            if is_const(x):
                import json
                return const(json.dumps(cval(x)))
            y = x.args[0] if x.op == 'astr' else None
            parts = y.args if y is not None and y.op == 'cat' else [y] if y is not None else []
            if parts and all(p.op in SAFE_JSON or is_const(p) and all(32 <= c < 127 and c not in (34, 92) for c in cval(p)) for p in parts):
                return t.cat([const('"'), x, const('"')], 'str')
            if x.op == 'str' and x.args[0].ty == 'int':
                return t.cat([const('"'), x, const('"')], 'str')
            return app('jsontext', x, ty='str')
        return lift(one, I.restrict(v))

    def x_json_dumps(self, v, indent=None, sort_keys=FALSE, **kw):
        I = self.I
        if kw.get('separators') is not None or kw.get('cls') is not None or kw.get('default') is not None:
            return self.opaque_call('json.dumps', [v], {}, ty='str')
        ind = cval(indent) if indent is not None and is_const(indent) else None
        if isinstance(ind, int):
            ind = ' ' * ind
        srt = is_const(sort_keys) and bool(cval(sort_keys))

        def enc(x, level):
            x = I.restrict(x)
            if x.op == 'ite':
                return I.split(x, lambda y: enc(y, level))
            nl = const('\n' + ind * (level + 1)) if ind is not None else const('')
            nl0 = const('\n' + ind * level) if ind is not None else const('')
            comma = t.cat([const(','), nl], 'str') if ind is not None else const(', ')
            k = self.kind(x)
            if x.op == 'ref' and I.obj(x).kind == 'dict' and I.content(x).op == 'dictc':
                ps = list(I.content(x).args)
                if not all(is_const(p) and isinstance(cval(p), str) for p, _ in ps):
                    return app('jsondump', I.content(x), ty='str')
                if srt:
                    ps.sort(key=lambda p: cval(p[0]))
                if not ps:
                    return const('{}')
                out = const('{')
                for i, (p, q) in enumerate(ps):
                    for piece in ([nl if i == 0 else comma, self.jsontext(p), const(': '), enc(q, level + 1)]):
                        out = lift(lambda a, b: t.cat([a, b], 'str'), out, piece)
                for piece in (nl0, const('}')):
                    out = lift(lambda a, b: t.cat([a, b], 'str'), out, piece)
                return out
            if k == 'str':
                return self.jsontext(x)
            if k == 'none':
                return const('null')
            if k == 'bool':
                return lift(lambda b: const('true') if b is TRUE else const('false') if b is FALSE else t.ite(b, const('true'), const('false')), x)
            if k == 'int':
                return self.str_(x)
            if k in ('bytes', 'set'):
                I.raise_py(TypeError, 'not JSON serializable')
            return app('jsondump', self.snap(x), ty='str')
        return enc(v, 0)

    # ------------------------------------------------------------ argparse
    def argv(self):
        """sys.argv of the analysed run (I.argv: tokens after the program name)."""
        I = self.I
        if getattr(I, 'argv', None) is None:
            return None
        return I.new_list([const('np-utils')] + list(I.argv))

    def x_argparse_ArgumentParser(self, *args, **kw):
        I = self.I
        r = I.alloc('argparser', None)
        r_ = r.args[0]
        I.S.store[(r_, '$prog')] = kw.get('prog', const('np-utils'))
        if not hasattr(self, 'parsers'):
            self.parsers = {}
        self.parsers[r_] = []
        return r

    def m_argparser_add_mutually_exclusive_group(self, o, **kw):
        return o        # the analysed command lines name at most one conversion

    def m_argparser_add_argument_group(self, o, *a, **kw):
        return o

    def m_argparser_add_argument(self, o, *flags, **kw):
        fl = [cval(f) for f in flags]
        spec = {k: v for k, v in kw.items()}
        spec['flags'] = fl
        d = spec.get('dest')
        if d is None:
            longs = [f for f in fl if f.startswith('--')]
            d = (longs or fl)[0].lstrip('-').replace('-', '_')
        else:
            d = cval(d)
        spec['dest'] = d
        self.parsers[o.args[0]].append(spec)
        return NONE

    def cli_exit(self, code, text=None, where=ERR):
        I = self.I
        if text is not None:
            self.emit(text, where)
        I.raise_(I.new_exc(SystemExit, [const(code)]))

    def m_argparser_error(self, o, message):
        self.cli_exit(2, t.cat([const('usage: '), app('usage-error', message, ty='str'), const('\n')], 'str'))

    def m_argparser_exit(self, o, status=ZERO, message=None):
        if message is not None:
            self.emit(message, ERR)
        self.I.raise_(self.I.new_exc(SystemExit, [status]))

    def m_argparser_print_help(self, o, file=None):
        self.emit(t.cat([const('usage: '), mk('help', (), 'str'), const('\n')], 'str'), self.stream_cell(self.I.restrict(file) if file is not None else None) or ERR)
        return NONE

    m_argparser_print_usage = m_argparser_print_help

    def m_argparser_format_help(self, o):
        return t.cat([const('usage: '), mk('help', (), 'str'), const('\n')], 'str')

    def m_argparser_parse_args(self, o, args=None, namespace=None):
        I = self.I
        if args is None or args is NONE:
            toks = getattr(I, 'argv', None)
            if toks is None:
                return I.unknown('command line')
        else:
            its = t.concrete_items(I.content(args))
            if its is None:
                return I.unknown('command line')
            toks = its
        toks = list(toks)
        specs = self.parsers[o.args[0]]
        by, pos = {'-h': None, '--help': None}, []
        ns = {}
        for s in specs:
            act = cval(s['action']) if 'action' in s else 'store'
            if act in ('help', 'version'):
                pass
            elif 'default' in s:
                ns[s['dest']] = s['default']
            elif act in ('store_true', 'store_false'):
                ns[s['dest']] = FALSE if act == 'store_true' else TRUE
            elif act == 'count':
                ns[s['dest']] = NONE
            else:
                ns[s['dest']] = NONE
            if s['flags'][0].startswith('-'):
                for f in s['flags']:
                    by[f] = s
            else:
                pos.append(s)
        seen = set()
        bad = lambda m: self.cli_exit(2, t.cat([const('usage: '), mk('usage-error', (const(m),), 'str'), const('\n')], 'str'))

        def isopt(x):
            return is_const(x) and isinstance(cval(x), str) and len(cval(x)) > 1 and cval(x)[0] == '-'

        def typed(s, v):
            f = s.get('type')
            if f is None:
                return v
            return I.call(f, [v], {})
        while toks:
            x = toks.pop(0)
            if not isopt(x):
                if not pos:
                    bad('unrecognized arguments')
                s = pos[0]
                toks.insert(0, x)
                pos.pop(0)
            else:
                name = cval(x)
                if '=' in name and name.startswith('--'):
                    name, _, v = name.partition('=')
                    toks.insert(0, const(v))
                if name not in by:
                    full = [f for f in by if f.startswith(name)] if name.startswith('--') else []
                    if len(full) != 1:
                        bad('unrecognized arguments')
                    name = full[0]
                s = by[name]
                if s is None:
                    self.cli_exit(0, t.cat([const('usage: '), mk('help', (), 'str'), const('\n')], 'str'), OUT)
            seen.add(s['dest'])
            act = cval(s['action']) if 'action' in s else 'store'
            if act == 'version':
                self.cli_exit(0, lift(lambda v: t.cat([v, const('\n')], 'str'), s.get('version', const(''))), OUT)
            if act in ('store_true', 'store_false'):
                ns[s['dest']] = TRUE if act == 'store_true' else FALSE
                continue
            if act == 'store_const':
                ns[s['dest']] = s.get('const', NONE)
                continue
            if act not in ('store', 'append'):
                return I.unknown('argparse action %s' % act)
            n = s.get('nargs')
            n = cval(n) if n is not None else None
            vals = []
            want = 1 if n is None or n == '?' else n if isinstance(n, int) else 10 ** 6
            while toks and not isopt(toks[0]) and len(vals) < want:
                vals.append(typed(s, toks.pop(0)))
            if n is None:
                if not vals:
                    bad('expected one argument')
                v = vals[0]
            elif n == '?':
                v = vals[0] if vals else s.get('const', NONE)
            else:
                if isinstance(n, int) and len(vals) != n or n == '+' and not vals:
                    bad('expected arguments')
                v = I.new_list(vals)
            if act == 'append':
                old = I.restrict(ns[s['dest']])
                v = I.new_list((t.concrete_items(I.content(old)) if old.op == 'ref' else []) + [v])
            ch = s.get('choices')
            if ch is not None:
                I.may_raise(t.bnot(self.contains(v, ch)), lambda: I.new_exc(SystemExit, [const(2)]))
            ns[s['dest']] = v
        for s in specs:
            need = is_const(s.get('required', FALSE)) and cval(s.get('required', FALSE))
            if (need or s in pos and ('nargs' not in s or cval(s['nargs']) not in ('?', '*'))) and s['dest'] not in seen:
                bad('the following arguments are required')
        r = I.alloc('inst', I.models.namespace_cls())
        for k, v in ns.items():
            I.S.store[(r.args[0], k)] = v
        return r

    def namespace_cls(self):
        if not hasattr(self, '_ns'):
            self.I.exec_module('vfa_ns', 'class Namespace(object):\n    pass\n', '<vfa_ns>')
            self._ns = self.I.S.store[(('m', 'vfa_ns'), 'Namespace')].args[0]
        return self._ns
