"""Hash values as text: every textual form is the exact hexadecimal of the bytes in the documented order, and parsing
accepts exactly well-formed text and inverts printing."""
from .common import *

RULE = 'text forms are exact functions of the bytes; ParseString returns <=> optional 0x + exactly 2*width hex digits, with the reversed bytes'

SRC = '''
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
def there(bits, u, how):
    c = UInt160 if bits == 160 else UInt256
    s = u.ToString() if how == 0 else u.To0xString() if how == 1 else str(u) if how == 2 else u.ToBytes().decode('utf-8')
    v = c.ParseString(s)
    return (bytes(v.Data), v == u)
def back(bits, s):
    c = UInt160 if bits == 160 else UInt256
    return c.ParseString(s).ToString()
'''


def check(C):
    I = C.I
    py = C.py(SRC, 'vspec09')
    s = sym('s', 'str')
    for bits in (160, 256):
        n = bits // 8
        name = 'UInt%d' % bits
        x = sym('x', 'bytes', length=n)
        rev = t.astr(t.hexl(t.rev(x)))
        for m, v in (('ToString', rev), ('__str__', rev), ('ToString2', t.astr(t.hexl(x))), ('To0xString', t.cat([const('0x'), rev], 'str')),
                     ('ToBytes', t.encode(rev, 'utf-8')), ('ToArray', None)):
            C.spec('%s.%s' % (name, m), 'UIntBase:UIntBase.' + m,
                   lambda I, m=m: I.content(C.meth(C.uint(bits, x), m)) if m == 'ToArray' else C.meth(C.uint(bits, x), m),
                   value=v if v is not None else x)
        entry = '%s:%s.ParseString' % (name, name)
        L = t.length(s)
        okd = t.band(t.eq0(t.sub(L, const(2 * n))), t.ishex(t.encode(s, 'utf-8')))
        data = t.rev(t.unhex(t.encode(s, 'utf-8')))
        T = klass(C, '%s:%s' % (name, name))
        parse = lambda arg: (lambda I: obj_data(C)(C.fn('%s:%s.ParseString' % (name, name), arg)))
        C.spec('%s.ParseString of plain text' % name, entry, parse(s), pre=t.bnot(t.eq(cut(s, 0, 2), const('0x'))), ok=okd, value=t.tup([T, data]))
        C.spec('%s.ParseString of 0x text' % name, entry, parse(t.cat([const('0x'), s], 'str')), ok=okd, value=t.tup([T, data]))
        for how in range(4):
            C.spec('%s parse(print)' % name, entry, lambda I, how=how: I.call(py('there'), [const(bits), C.uint(bits, x), const(how)], {}),
                   value=t.tup([x, TRUE]))
