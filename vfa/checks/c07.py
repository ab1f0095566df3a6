"""Size limits: a declared size above the caller's limit is rejected before any of the payload is consumed or allocated,
and one within the limit is never rejected for its size."""
from .common import *
from .c02 import varint_value

RULE = 'value > limit: raise, with the stream left right after the prefix and no payload read; value <= limit: no size error'

SRC = '''
from neocore.IO.BinaryReader import BinaryReader
def over(st, how, limit):
    r = BinaryReader(st)
    try:
        if how == 'VarInt':
            r.ReadVarInt(limit)
        elif how == 'VarBytes':
            r.ReadVarBytes(limit)
        elif how == 'VarString':
            r.ReadVarString(limit)
        else:
            r.ReadSerializableArray('neocore.UInt256.UInt256', limit)
    except Exception:
        return st.read()
    return None
'''


def check(C):
    R = 'IO.BinaryReader:BinaryReader.Read'
    val, used, done = varint_value()
    py = C.py(SRC, 'vspec07')
    m = sym('max', 'int', lo=0)
    over = t.band(t.band(atleast(1), done), t.ge0(t.sub(t.sub(val, m), t.ONE)))
    inside = t.band(t.band(atleast(1), done), t.ge0(t.sub(m, val)))
    full = t.ge0(t.sub(LEN, t.add(used, val)))
    for how, name in (('VarInt', 'VarInt'), ('VarBytes', 'VarBytes'), ('VarString', 'VarString'), ('Array', 'SerializableArray')):
        C.spec('%s over the limit' % name, R + name, lambda I, how=how: I.call(py('over'), [C.stream(IN), const(how), m], {}),
               pre=over, value=rest(used))
        args = [m] if how != 'Array' else [const('neocore.UInt256.UInt256'), m]
        C.spec('%s over the limit raises' % name, R + name, rd(C, 'Read' + name, *args), pre=over, ok=FALSE)
        if how in ('VarInt', 'VarBytes', 'VarString'):
            C.spec('%s within the limit' % name, R + name, rd(C, 'Read' + name, *args), pre=t.band(inside, full) if how != 'VarInt' else inside, ok=TRUE)
        # the limit also binds when it is the caller's zero, and by keyword
        kw = {'max': m}
        C.spec('%s over the limit (keyword)' % name, R + name, rd(C, 'Read' + name, *args[:-1], **kw), pre=over, ok=FALSE)
