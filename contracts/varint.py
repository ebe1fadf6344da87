"""C01: variable-length integer codec."""
import z3
from lvc.spec import task
from lvc.sym import BVV, simp


def spec_llen(n):
    """number of 7-bit groups of n"""
    e = BVV(10, 64)
    for i in range(9, 0, -1):
        e = z3.If(z3.ULT(n, BVV(1 << (7 * i), 64)), BVV(i, 64), e)
    return e


def spec_byte(n, k):
    """k-th byte of the encoding of n (python int k)"""
    g = z3.Extract(7, 0, z3.LShR(n, BVV(7 * k, 64)) & BVV(0x7f, 64))
    return z3.If(z3.UGT(spec_llen(n), BVV(k + 1, 64)), g | BVV(0x80, 8), g)


@task('C01', 'llen', ['cs_varint_llen'])
def t_llen(h):
    n = h.sym('num', 64)
    for s, r in h.call(h.st, 'cs_varint_llen', n):
        h.ensure(s, r == spec_llen(n), 'length is the minimal number of 7-bit groups')


@task('C01', 'encode', ['cs_varint_encode'])
def t_encode(h):
    n = h.sym('num', 64)
    size = h.size('bufsize', 31)
    buf = h.obj('buf', size)
    j = h.size('j', 31)
    h.assume(z3.ULT(j, size))
    old = h.byte(h.st, buf, j)
    for s, r in h.call(h.st, 'cs_varint_encode', n, buf, size):
        h.ensure(s, r == spec_llen(n), 'returned length')
        b = h.byte(s, buf, j)
        want = old
        for k in range(10):
            want = z3.If(z3.And(j == k, z3.ULT(BVV(k, 64), spec_llen(n))), spec_byte(n, k), want)
        h.ensure(s, b == want, 'bytes written are the encoding, every other byte untouched')


@task('C01', 'decode', ['cs_varint_decode'])
def t_decode(h):
    size = h.size('bufsize', 31)
    buf = h.obj('buf', size, kind='input', align=1)
    num = h.obj('num', 8, zero=True)
    llen = h.obj('llen', 8, zero=True)
    bs = [h.byte(h.st, buf, i) if True else None for i in range(10)]
    for s, r in h.call(h.st, 'cs_varint_decode', buf, size, num, llen):
        for s1 in h.case(s, r):
            l = h.ex.peek(s1, llen.base, 8)
            v = h.ex.peek(s1, num.base, 8)
            h.ensure(s1, z3.And(z3.UGE(l, 1), z3.ULE(l, 10), z3.ULE(l, size)), 'length within buffer and at most 10')
            acc = BVV(0, 64)
            for i in range(10):
                g = z3.ZeroExt(56, bs[i] & BVV(0x7f, 8)) << BVV(7 * i, 64)
                acc = acc | z3.If(z3.UGT(l, BVV(i, 64)), g, BVV(0, 64))
            h.ensure(s1, v == acc, 'value is the little-endian 7-bit groups')
            for i in range(9):
                h.ensure(s1, z3.Implies(z3.UGT(l, BVV(i + 1, 64)), bs[i] & 0x80 != 0), 'continuation bits before the last byte')
            last = bs[0]
            for i in range(9):
                h.ensure(s1, z3.Implies(l == i + 1, bs[i] & 0x80 == 0), 'last byte has no continuation bit')
        for s1 in h.case(s, z3.Not(r)):
            for i in range(9):
                h.ensure(s1, z3.Or(z3.ULE(size, BVV(i, 64)), bs[i] & 0x80 != 0), 'failure only when every available byte continues')
            h.ensure(s1, z3.ULT(size, BVV(10, 64)), 'failure only when the buffer ends first')


@task('C01', 'roundtrip', ['cs_varint_encode', 'cs_varint_decode'], export=['cs_varint_encode', 'cs_varint_decode'])
def t_rt(h):
    n = h.sym('num', 64)
    size = h.size('bufsize', 31)
    h.assume(z3.UGE(size, spec_llen(n)))
    buf = h.obj('buf', size)
    num = h.obj('out', 8, zero=True)
    llen = h.obj('llen', 8, zero=True)
    for s, r in h.call(h.st, 'cs_varint_encode', n, buf, size):
        for s2, ok in h.call(s, 'cs_varint_decode', buf, r, num, llen):
            h.ensure(s2, ok, 'decode of an encoding succeeds')
            h.ensure(s2, h.ex.peek(s2, num.base, 8) == n, 'decode(encode(n)) == n')
            h.ensure(s2, h.ex.peek(s2, llen.base, 8) == r, 'decoded length equals encoded length')


@task('C01', 'decode_unsafe', ['cs_varint_decode_unsafe', 'cs_varint_encode'])
def t_du(h):
    n = h.sym('num', 64)
    size = h.size('bufsize', 31)
    h.assume(z3.UGE(size, spec_llen(n)))
    buf = h.obj('buf', size)
    llen = h.obj('llen', 4, zero=True)
    for s, r in h.call(h.st, 'cs_varint_encode', n, buf, size):
        for s2, v in h.call(s, 'cs_varint_decode_unsafe', buf, llen):
            h.ensure(s2, v == n, 'value')
            h.ensure(s2, z3.SignExt(32, h.ex.peek(s2, llen.base, 4)) == r, 'length')
