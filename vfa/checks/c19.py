"""Address decoders accept exactly version 23, 25-byte, checksummed Base58 and return the embedded hash."""
from .common import *

RULE = 'decoder accepts <=> valid Base58, 25 bytes, first byte 0x17, last four bytes == sha256(sha256(first 21))[:4]; result == bytes 1..21'


def check(C):
    I = C.I
    a = sym('a', 'str')
    d = t.mk('unb58', (a,), 'bytes')
    is58 = t.mk('pred', ('isb58', a), 'bool')
    sum_ok = t.eq(cut(d, 21, 25), cut(dsha(cut(d, 0, 21)), 0, 4))
    wf = t.band(is58, t.band(t.eq0(t.sub(t.length(d), const(25))), t.band(t.eq0(t.sub(t.byte_at(d, const(0)), const(0x17))), sum_ok)))
    L = t.length(a)
    first = t.eq(cut(a, 0, 1), const('A'))
    # arithmetic of the encoding: such 25 bytes always need 34 digits, the first of which is A
    axiom = t.bor(t.bnot(wf), t.band(t.ge0(t.sub(L, const(34))), first))
    V, F = 'Utils:isValidPublicAddress', 'bin.cli:address_to_scripthash'
    C.spec('isValidPublicAddress', V, lambda I: I.truth(C.fn(V, a)), pre=axiom, value=t.band(wf, t.eq0(t.sub(L, const(34)))))
    C.spec('isValidPublicAddress gives a bool', V, lambda I: t.lift(lambda x: TRUE if x.ty == 'bool' else FALSE, C.fn(V, a)), value=TRUE)
    C.spec('address_to_scripthash', F, lambda I: I.content(C.fn(F, a)), ok=wf, value=cut(d, 1, 21), exc=('ConversionError',))
    # inverse of address creation
    h = sym('h', 'bytes', length=20)
    addr = address_of(h)
    ax = t.band(t.eq0(t.sub(t.length(addr), const(34))), t.eq(cut(addr, 0, 1), const('A')))
    TO = 'Cryptography.Crypto:Crypto.ToAddress'
    C.spec('address_to_scripthash(ToAddress(h))', F, lambda I: I.content(C.fn(F, C.fn(TO, C.uint(160, h)))), value=h)
    C.spec('isValidPublicAddress(ToAddress(h))', V, lambda I: I.truth(C.fn(V, C.fn(TO, C.uint(160, h)))), pre=ax, value=TRUE)
    # other payloads behind a correct checksum
    x = sym('x', 'bytes')
    good = t.band(t.eq0(t.sub(t.length(x), const(21))), t.eq0(t.sub(t.byte_at(x, const(0)), const(0x17))))
    ax = t.bor(t.bnot(good), t.band(t.eq0(t.sub(t.length(b58check(x)), const(34))), t.eq(cut(b58check(x), 0, 1), const('A'))))
    C.spec('checksummed text of another payload', F, lambda I: I.content(C.fn(F, b58check(x))), ok=good, value=cut(x, 1, 21), exc=('ConversionError',))
    C.spec('validity of checksummed text of another payload', V, lambda I: I.truth(C.fn(V, b58check(x))), pre=ax, value=good)
