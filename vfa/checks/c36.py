"""The command-line tool: what it prints and how it exits, for every argument."""
from .common import *
from ..spec import exc_name, prove_eq

RULE = 'well-formed argument => standard output is exactly the conversion and the exit status is 0; anything else => a message and a nonzero exit status'
M = 'bin.cli:main'
SRC = '''
def run(main):
    try:
        r = main()
    except SystemExit as e:
        r = e.args[0] if e.args else None
    if r is None or r == 0:
        return None
    raise SystemExit(r)
'''


def drawn(C, driver):
    try:
        o = C.run(driver)
    except Exception:
        o = None
    found, seen, todo = [], set(), [o.ret.value] if o is not None and o.ret is not None else []
    while todo:
        x = todo.pop()
        if not isinstance(x, t.T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'fixed' and x.args[0] == 'rand' and x.args[1] == 32:
            found.append(x)
        todo.extend(x.args)
    return min(found, key=lambda x: x.id) if found else t.mk('fixed', ('rand', 32, const(1)), 'bytes')


def check(C):
    I = C.I
    run = C.py(SRC, 'vspec36')('run')
    OUT, ERR = ('ext', 'stdout'), ('ext', 'stderr')

    def go(*argv):
        def d(I):
            I.argv = [a if isinstance(a, t.T) else const(a) for a in argv]
            I.models.nfresh = 1000      # every run of the driver names its random draws alike
            I.call(run, [C.get(M)], {})
            return I.S.store[OUT]
        return d

    def told(what, o):
        """Every refusal tells the user something."""
        if o is None:
            return
        for r in o.raises:
            s = r.state
            said = t.bor(t.bnot(t.eq(s.store[OUT], const(''))), t.bnot(t.eq(s.store[ERR], const(''))))
            args = s.store.get((r.value.args[0], '$args'))
            code = args.args[0] if args is not None and args.op == 'tuple' and args.args else None
            status = code is not None and is_const(code) and isinstance(cval(code), int)
            # a status text is reported by the interpreter itself
            ended = exc_name(I, r)
            # (a drawn key of zero, which no draw gives in practice, is refused by an exception)
            C.require(ended == 'SystemExit' or CW in what, '%s: every refusal ends with an exit status' % what, r.site or C.site_of(M), 'ends with an uncaught %s' % ended)
            good = not status or prove_eq(s, said, TRUE, s.pc) is None
            C.require(good, '%s: every refusal is reported' % what, r.site or C.site_of(M), 'exits with a status and prints nothing')

    # address -> script hash
    a = sym('a', 'str')
    d = t.mk('unb58', (a,), 'bytes')
    wf = t.mk('pred', ('isb58', a), 'bool')
    for c in (t.eq0(t.sub(t.length(d), const(25))), t.eq0(t.sub(t.byte_at(d, const(0)), const(0x17))), t.eq(cut(d, 21, 25), cut(dsha(cut(d, 0, 21)), 0, 4))):
        wf = t.band(wf, c)
    h = cut(d, 1, 21)
    lines = lambda h: t.cat([const('Scripthash big endian:  0x'), text(hexb(t.rev(h))), const('\nScripthash little endian: '), text(hexb(h)),
                             const('\nScripthash neo-python format: '), t.app('repr', h, ty='str'), const('\n')], 'str')
    A2S, S2A, CW = '--address-to-scripthash', '--scripthash-to-address', '--create-wallet'
    told(A2S, C.spec('%s of any argument' % A2S, M, go(A2S, a), ok=wf, value=lines(h)))
    g = sym('h', 'bytes', length=20)
    C.spec('%s of the address of any script hash' % A2S, M, go(A2S, address_of(g)), value=lines(g))
    # script hash -> address
    s = sym('s', 'str')
    pre0x = t.eq(cut(s, 0, 2), const('0x'))
    addr = lambda h: t.cat([address_of(h), const('\n')], 'str')
    note = lambda h: t.cat([const('Detected little endian scripthash. Converting to big endian for internal use.\nBig endian scripthash: 0x'),
                            text(hexb(t.rev(h))), const('\n'), addr(h)], 'str')
    hb = text(hexb(t.rev(g)))
    C.spec('%s of the big-endian form' % S2A, M, go(S2A, t.cat([const('0x'), hb], 'str')), value=addr(g))
    C.spec('%s of the little-endian form' % S2A, M, go(S2A, text(hexb(g))), value=note(g))
    n = t.length(s)
    rest = cut(s, 2, 42)
    good = t.ite(pre0x, t.band(t.eq0(t.sub(n, const(42))), t.ishex(rest)), t.band(t.eq0(t.sub(n, const(40))), t.ishex(s)))
    # hexadecimal text has an even number of digits
    forty, twenty = t.eq0(t.sub(n, const(40))), t.eq0(t.sub(t.length(t.unhex(s)), const(20)))
    even = t.bor(t.bnot(t.ishex(s)), t.ite(forty, twenty, t.bnot(twenty)))
    want = t.ite(pre0x, addr(t.rev(t.unhex(rest))), note(t.unhex(s)))
    told(S2A, C.spec('%s of any argument' % S2A, M, go(S2A, s), pre=even, ok=good, value=want))
    # both conversions in one run
    g2 = sym('h2', 'bytes', length=20)
    C.spec('both conversions', M, go(A2S, address_of(g), S2A, t.cat([const('0x'), text(hexb(t.rev(g2)))], 'str')),
           value=t.cat([lines(g), addr(g2)], 'str'))
    C.spec('both conversions, the other way round', M, go(S2A, t.cat([const('0x'), text(hexb(t.rev(g2)))], 'str'), A2S, address_of(g)),
           value=t.cat([lines(g), addr(g2)], 'str'))
    told('both conversions', C.spec('both conversions of any arguments', M, go(A2S, a, S2A, s), pre=even, ok=t.band(wf, good),
                                    value=t.lift(lambda w: t.cat([lines(h), w], 'str'), want)))
    # wallet
    # the key is whatever the tool drew: the only random bytes in what it prints
    k = Key(drawn(C, go(CW)))
    w = t.cat([const('{\n  "private_key": "'), b58check(t.cat([const(b'\x80'), k.k, const(b'\x01')], 'bytes')), const('",\n  "address": "'), k.address,
               const('"\n}\n')], 'str')
    C.spec(CW, M, go(CW), pre=k.valid, value=w)
    for rule, argv, ok, head in (('%s and an address' % CW, (CW, A2S, a), wf, lines(h)),
                                 ('%s and a script hash' % CW, (S2A, s, CW), good, want)):
        told(rule, C.spec(rule, M, go(*argv), pre=t.band(k.valid, even), ok=ok, value=t.lift(lambda x: t.cat([x, w], 'str'), head)))
    # command line itself
    told('no argument', C.spec('no argument', M, go(), ok=FALSE))
    told('unknown option', C.spec('unknown option', M, go('--unknown'), ok=FALSE))
    for o in (A2S, S2A):
        told('%s without its argument' % o, C.spec('%s without its argument' % o, M, go(o), ok=FALSE))
