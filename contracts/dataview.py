"""C19: reading and writing raw memory through a data view."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, simp


def view(h):
    """an arbitrary block, an access of 1..4 bytes at an arbitrary place of it, either byte order"""
    n = h.size('block', 20, bound=8)
    blk = h.obj('block', n, kind='input', align=1)
    at = h.size('at', 20)
    size = h.sym('size', 32)
    big = h.sym('bigendian', 32)
    h.assume(z3.And(z3.UGE(size, 1), z3.ULE(size, 4), z3.ULE(at + z3.ZeroExt(h.PW - 32, size), n)))
    return blk, n, at, size, big


def each(h, size):
    for n in (1, 2, 3, 4):
        for s in h.case(h.st, size == n):
            yield s, n


def order(bs, big):
    """the bytes as one number, most significant first"""
    cat = lambda x: z3.Concat(*x) if len(x) > 1 else x[0]
    return z3.If(big != 0, cat(bs), cat(bs[::-1]))


def widen(v, signed):
    return v if v.size() == 32 else z3.SignExt(32 - v.size(), v) if signed else z3.ZeroExt(32 - v.size(), v)


def dbl(v, signed):
    return z3.fpSignedToFP(z3.RNE(), v, z3.Float64()) if signed else z3.fpUnsignedToFP(z3.RNE(), v, z3.Float64())


def rd(h, st, blk, at, n):
    return [h.ex.peek(st, simp(blk.base + at + i), 1) for i in range(n)]


def t_get(h, signed):
    blk, _, at, size, big = view(h)
    f = 'mjs_mem_get_int' if signed else 'mjs_mem_get_uint'
    for s0, n in each(h, size):
        v = widen(order(rd(h, s0, blk, at, n), big), signed)
        for s, r in h.call(s0, f, simp(blk.base + at), size, big):
            h.ensure(s, z3.fpEQ(r.f, dbl(v, signed)), 'the number the bytes denote in the given byte order')


def t_set(h, f):
    blk, bn, at, size, big = view(h)
    val = h.sym('val', 32)
    j = h.size('j', 20)
    h.assume(z3.ULT(j, bn))
    old = h.byte(h.st, blk, j)
    for s0, n in each(h, size):
        for s, _ in h.call(s0, f, simp(blk.base + at), val, size, big):
            h.ensure(s, order(rd(h, s, blk, at, n), big) == z3.Extract(8 * n - 1, 0, val), 'the low bytes of the number in the given byte order')
            h.ensure(s, z3.Implies(z3.Or(z3.ULT(j, at), z3.UGE(j, at + n)), h.byte(s, blk, j) == old), 'every other byte of memory is unchanged')


def t_round(h, signed):
    blk, _, at, size, big = view(h)
    val = h.sym('val', 32)
    sf, gf = ('mjs_mem_set_int', 'mjs_mem_get_int') if signed else ('mjs_mem_set_uint', 'mjs_mem_get_uint')
    for s0, n in each(h, size):
        low = z3.Extract(8 * n - 1, 0, val)
        for s, _ in h.call(s0, sf, simp(blk.base + at), val, size, big):
            for s2, r in h.call(s, gf, simp(blk.base + at), size, big):
                h.ensure(s2, z3.fpEQ(r.f, dbl(widen(low, signed), signed)), 'what was written is read back')


def t_dbl(h):
    n = h.size('block', 20, bound=24)
    blk = h.obj('block', n, kind='input', align=1)
    at = h.size('at', 20)
    h.assume(z3.ULE(at + 8, n))
    bits = h.sym('bits', 64)
    j = h.size('j', 20)
    h.assume(z3.ULT(j, n))
    old = h.byte(h.st, blk, j)
    p = simp(blk.base + at)
    h.assume(z3.Not(z3.And(z3.Extract(62, 52, bits) == BVV(0x7ff, 11), z3.Extract(51, 0, bits) != 0)))
    for s, _ in h.call(h.st, 'mjs_mem_set_dbl', p, FPV(None, bits)):
        h.ensure(s, h.ex.peek(s, p, 8) == bits, 'the representation of the number')
        h.ensure(s, z3.Implies(z3.Or(z3.ULT(j, at), z3.UGE(j, at + 8)), h.byte(s, blk, j) == old), 'every other byte of memory is unchanged')
        for s2, r in h.call(s, 'mjs_mem_get_dbl', p):
            h.ensure(s2, r.bits == bits if r.bits is not None else r.f == z3.fpBVToFP(bits, z3.Float64()), 'what was written is read back')


def t_ptr(h):
    blk = h.obj('cell', h.c(h.PB), kind='input', align=8)
    v = h.sym('ptr', h.PW)
    off = h.sym('off', 32)
    for s, _ in h.call(h.st, 'mjs_mem_set_ptr', blk, v):
        h.ensure(s, h.ex.peek(s, blk.base, h.PB) == v, 'the pointer is stored')
    for s, r in h.call(h.st, 'mjs_mem_get_ptr', v, off):
        h.ensure(s, r == v + z3.SignExt(h.PW - 32, off), 'base plus offset')
    for s, r in h.call(h.st, 'mjs_mem_to_ptr', off):
        h.ensure(s, r == z3.ZeroExt(h.PW - 32, off), 'the address')


ASSUME = ['the memory named by the script exists']
for _s in (False, True):
    _n = 'int' if _s else 'uint'
    task('C19', 'get_' + _n, ['mjs_mem_get_' + _n], assumes=ASSUME)(lambda h, s=_s: t_get(h, s))
    task('C19', 'set_' + _n, ['mjs_mem_set_' + _n], assumes=ASSUME)(lambda h, n=_n: t_set(h, 'mjs_mem_set_' + n))
    task('C19', 'round_' + _n, ['mjs_mem_set_' + _n, 'mjs_mem_get_' + _n], export=['mjs_mem_set_' + _n, 'mjs_mem_get_' + _n], assumes=ASSUME)(lambda h, s=_s: t_round(h, s))
task('C19', 'double', ['mjs_mem_set_dbl', 'mjs_mem_get_dbl'], export=['mjs_mem_set_dbl', 'mjs_mem_get_dbl'], assumes=ASSUME)(t_dbl)
task('C19', 'pointer', ['mjs_mem_set_ptr', 'mjs_mem_get_ptr', 'mjs_mem_to_ptr'], export=['mjs_mem_set_ptr', 'mjs_mem_get_ptr', 'mjs_mem_to_ptr'], assumes=ASSUME)(t_ptr)
