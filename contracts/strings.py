"""C04: strings read back exactly as made, in every representation; making one never disturbs another."""
import z3
from lvc.spec import task
from lvc.sym import BVV, bconst, simp, toint
from .common import MB
from .mbuf import MBUF
from .mjs import ERR, M
from .values import anyval, spec, tag

OPT = dict(always=dict(ERR, **MBUF), malloc_may_fail=False, assumes=['memory for the string buffers can be obtained'])
OPT32 = dict(OPT, m32=True)


def ctx(h, owned=True, foreign=True, bound=24, empty_foreign=False):
    m = M(h)
    if owned:
        b = m.mb('owned_strings', bound=bound, maxbits=26 if h.PW == 32 else 31)
        h.assume(z3.UGE(b.len, 1))
    if foreign:
        m.mb('foreign_strings', bound=bound, null=empty_foreign)
    return m


def cell(h, st, v, name='cell'):
    """a memory cell holding the value v (mjs_get_string reads inlined strings in place)"""
    o = h.obj(name, 8, kind='input', zero=True, st=st)
    h.ex.poke(st, o, 0, 8, v)
    return o


def readback(h, st, m, v, name='out'):
    """mjs_get_string on a cell holding v -> [(st, ptr, len, cell)]"""
    c = cell(h, st, v, name + '.cell')
    z = h.obj(name + '.len', h.PB, kind='input', zero=True, st=st)
    return [(s, p, h.ex.peek(s, z.base, h.PB), c) for s, p in h.call(st, 'mjs_get_string', m.addr, c, z)]


def others(h, m, what='w'):
    """a string that existed before: (value, length, byte k) as read before the operation"""
    w = anyval(h, what, ['string'])
    h.assume(tag(h, w, 'STRING_O'))
    return w


def check_made(h, s, m, v, n, src_byte, k, term):
    """v reads back with length n and byte k == src_byte"""
    h.ensure(s, spec(h, v)['string'], 'the result is a string')
    for s2, p, ln, c in readback(h, s, m, v):
        h.ensure(s2, ln == n, 'length reads back')
        h.ensure(s2, p != 0, 'content pointer')
        if src_byte is not None:
            for s3 in h.case(s2, z3.ULT(k, n)):
                h.ensure(s3, h.byte(s3, p, k) == src_byte, 'bytes read back')
        if term:
            h.ensure(s2, h.byte(s2, p, n) == 0, 'a NUL follows the content')


def made(h, m, call, n, src_byte, k, term=True):
    old = h.snap(h.st)
    om = m.owned_strings
    j = h.size('j')
    ob = h.ex.rd(old, old.mem[om.buf.id], toint(j), 1)
    oldlen = om.len
    for s, v in call(h.st):
        check_made(h, s, m, v, n, src_byte, k, term)
        buf, ln, size = om.get(s)
        h.ensure(s, z3.And(z3.UGE(ln, oldlen), z3.ULE(ln, size)), 'the string store only grows')
        for s1 in h.case(s, z3.ULT(j, oldlen)):
            h.ensure(s1, h.byte(s1, buf, j) == ob, 'strings made earlier are unchanged')


CLASSES = dict(inl=(0, 5), b1=(6, 127), b2=(128, 16383), b3=(16384, 1 << 30))


def length(h, cls):
    lo, hi = CLASSES[cls]
    if h.PW == 32:
        hi = min(hi, 1 << 24)
    n = h.size('n', bound=max(lo + 2, 16))
    h.assume(z3.And(z3.ULE(n, BVV(hi, h.PW)), z3.UGE(n, BVV(lo, h.PW))))
    return n


def t_copy(h, cls):
    m = ctx(h, foreign=False)
    n = length(h, cls)
    src = h.obj('src', n, kind='input', align=1)
    k = h.size('k')
    b = h.byte(h.st, src, k)
    made(h, m, lambda st: h.call(st, 'mjs_mk_string', m.addr, src, n, BVV(1, 32)), n, b, k)


def t_placeholder(h, cls):
    m = ctx(h, foreign=False)
    n = length(h, cls)
    made(h, m, lambda st: h.call(st, 'mjs_mk_string', m.addr, BVV(0, h.PW), n, BVV(1, 32)), n, None, None)


def t_self(h, cls):
    m = ctx(h, foreign=False)
    n = length(h, cls)
    off = h.size('off')
    om = m.owned_strings
    h.assume(z3.And(z3.ULE(n, om.len), z3.ULE(off, om.len - n), n != 0))
    k = h.size('k')
    b = h.byte(h.st, om.buf, off + k)
    made(h, m, lambda st: h.call(st, 'mjs_mk_string', m.addr, simp(om.base + off), n, BVV(1, 32)), n, b, k)


def t_foreign(h, empty):
    m = ctx(h, empty_foreign=empty)
    n = h.size('n', bound=16)
    h.assume(z3.And(z3.ULE(n, BVV((1 << 30), h.PW)), n != 0))
    src = h.obj('src', n, kind='input', align=1)
    fm = m.foreign_strings
    old = h.snap(h.st)
    j = h.size('j')
    ob = h.ex.rd(old, old.mem[fm.buf.id], toint(j), 1) if not empty else None
    for s, v in h.call(h.st, 'mjs_mk_string', m.addr, src, n, BVV(0, 32)):
        h.ensure(s, spec(h, v)['string'], 'the result is a string')
        for s2, p, ln, c in readback(h, s, m, v):
            h.ensure(s2, ln == n, 'length reads back')
            h.ensure(s2, p == src.base, 'the content is referenced, not copied')
        buf, ln, size = fm.get(s)
        h.ensure(s, z3.And(z3.UGE(ln, fm.len), z3.ULE(ln, size)), 'the reference table only grows')
        if not empty:
            for s1 in h.case(s, z3.ULT(j, fm.len)):
                h.ensure(s1, h.byte(s1, buf, j) == ob, 'references made earlier are unchanged')


def t_strlen(h):
    m = ctx(h, foreign=False)
    n = h.size('n', bound=12)
    h.assume(z3.ULE(n, BVV(127, h.PW)))
    src = h.obj('src', simp(n + 1), kind='input', align=1)
    k = h.size('k')
    h.ex.point(h.st, k)
    ex = h.ex
    h.assume(h.byte(h.st, src, n) == 0)
    h.st.g[('nul', src.id)] = (n,)
    b = h.byte(h.st, src, k)
    for s, v in h.call(h.st, 'mjs_mk_string', m.addr, src, BVV(-1, h.PW), BVV(1, 32)):
        h.ensure(s, spec(h, v)['string'], 'the result is a string')
        for s2, p, ln, c in readback(h, s, m, v):
            h.ensure(s2, z3.ULE(ln, n), 'length is that of the C string')
            for s3 in h.case(s2, z3.ULT(k, ln)):
                h.ensure(s3, z3.And(h.byte(s3, p, k) == b, b != 0), 'bytes read back, none of them NUL')
            h.ensure(s2, h.byte(s2, src.base, ln) == 0, 'the string ends where the C string ends')


for _sfx, _o in (('', OPT), ('_32', OPT32)):
    FN = ['mjs_mk_string', 'mjs_get_string', 'embed_string', 'mjs_is_string']
    for _c in CLASSES:
        task('C04', 'copy_%s%s' % (_c, _sfx), FN, cost=6, **_o)(lambda h, c=_c: t_copy(h, c))
        task('C04', 'placeholder_%s%s' % (_c, _sfx), FN, cost=5, **_o)(lambda h, c=_c: t_placeholder(h, c))
        task('C04', 'self_%s%s' % (_c, _sfx), FN, cost=8, **_o)(lambda h, c=_c: t_self(h, c))
    task('C04', 'foreign' + _sfx, FN, cost=5, **_o)(lambda h: t_foreign(h, False))
    task('C04', 'foreign_first' + _sfx, FN, cost=5, **_o)(lambda h: t_foreign(h, True))
    task('C04', 'cstring_arg' + _sfx, FN, cost=5, bound='C strings up to 127 bytes', **_o)(t_strlen)


# ------------------------------------------------------------------ C05
from .strs import STRS, Str  # noqa: E402

C05 = dict(always=dict(ERR, **MBUF), replace=STRS, malloc_may_fail=False, assumes=['memory for the string buffers can be obtained'])
KINDS = ['I', '5', 'O', 'F']


def pair(h, ka, kb):
    m = M(h)
    if 'O' in ka + kb or True:
        m.mb('owned_strings', bound=48)
    m.mb('foreign_strings', bound=48, null='F' not in ka + kb)
    return m


def same(h, a, b):
    """assume a and b have the same content"""
    h.assume(a.n == b.n)
    h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, a.n), a.byte(i) == b.byte(i)))
    if h.mode == 'proof':
        for i in range(5):
            h.ex.point(h.st, i)


def t_cmp_eq(h, fn, ka, kb):
    m = pair(h, ka, kb)
    a, b = Str(h, m, 'a', ka), Str(h, m, 'b', kb)
    same(h, a, b)
    for s, r in fn(h, m, a, b):
        h.ensure(s, r == 0, 'equal strings compare equal')


def t_cmp_ne(h, fn, ka, kb):
    m = pair(h, ka, kb)
    a, b = Str(h, m, 'a', ka), Str(h, m, 'b', kb)
    k = h.size('k')
    h.ex.point(h.st, k)
    ak, bk = a.byte(k), b.byte(k)
    for s, r in fn(h, m, a, b):
        for s1 in h.case(s, r == 0):
            h.ensure(s1, a.n == b.n, 'strings comparing equal have the same length')
            h.ensure(s1, z3.Implies(z3.ULT(k, a.n), ak == bk), 'strings comparing equal have the same bytes')


def scmp(h, m, a, b):
    return h.call(h.st, 's_cmp', m.addr, a.v, b.v)


def t_concat(h, ka, kb):
    m = pair(h, ka, kb)
    a, b = Str(h, m, 'a', ka), Str(h, m, 'b', kb)
    k = h.size('k')
    w = h.size('w')
    ak, bk = a.byte(k), b.byte(k)
    om = m.owned_strings
    ow = h.byte(h.st, om.buf, w)
    for s, v in h.call(h.st, 's_concat', m.addr, a.v, b.v):
        h.ensure(s, spec(h, v)['string'], 'the result is a string')
        for s2, p, ln, c in readback(h, s, m, v):
            h.ensure(s2, ln == a.n + b.n, 'the lengths add up')
            for s3 in h.case(s2, z3.ULT(k, a.n)):
                h.ensure(s3, h.byte(s3, p, k) == ak, 'the first operand comes first')
            for s3 in h.case(s2, z3.ULT(k, b.n)):
                h.ensure(s3, h.byte(s3, p, simp(a.n + k)) == bk, 'followed by the second')
        buf, ln, size = om.get(s)
        for s1 in h.case(s, z3.ULT(w, om.len)):
            h.ensure(s1, h.byte(s1, buf, w) == ow, 'existing strings are unchanged')


for _a in KINDS:
    for _b in KINDS:
        task('C05', 'equal_%s%s' % (_a, _b), ['s_cmp'], **C05)(lambda h, a=_a, b=_b: t_cmp_eq(h, scmp, a, b))
        if {_a, _b} != {'I', '5'}:
            task('C05', 'differ_%s%s' % (_a, _b), ['s_cmp'], **C05)(lambda h, a=_a, b=_b: t_cmp_ne(h, scmp, a, b))
        task('C05', 'concat_%s%s' % (_a, _b), ['s_concat'], cost=3, **C05)(lambda h, a=_a, b=_b: t_concat(h, a, b))


def ext(h, name, nul=False):
    n = h.size(name + '.n', bound=16)
    h.assume(z3.ULE(n, BVV(1 << 30, h.PW)))
    o = h.obj(name, simp(n + 1) if nul else n, kind='input', align=1)
    if nul:
        h.assume(h.byte(h.st, o, n) == 0)
        h.st.g[('nul', o.id)] = (n,)
    return n, o


def t_strcmp_eq(h, ka):
    m = pair(h, ka, '')
    a = Str(h, m, 'a', ka)
    n, b = ext(h, 'b')
    h.assume(a.n == n)
    h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, n), a.byte(i) == h.byte(h.st, b, i)))
    if h.mode == 'proof':
        for i in range(5):
            h.ex.point(h.st, i)
    c = cell(h, h.st, a.v)
    for s, r in h.call(h.st, 'mjs_strcmp', m.addr, c, b, n):
        h.ensure(s, r == 0, 'equal strings compare equal')


def t_strcmp_ne(h, ka, z):
    m = pair(h, ka, '')
    a = Str(h, m, 'a', ka)
    n, b = ext(h, 'b', nul=z)
    k = h.size('k')
    h.ex.point(h.st, k)
    ak, bk = a.byte(k), h.byte(h.st, b, k)
    c = cell(h, h.st, a.v)
    for s, r in h.call(h.st, 'mjs_strcmp', m.addr, c, b, BVV(-1, h.PW) if z else n):
        for s1 in h.case(s, r == 0):
            h.ensure(s1, z3.ULE(a.n, n) if z else a.n == n, 'strings comparing equal have the same length')
            h.ensure(s1, z3.Implies(z3.ULT(k, a.n), ak == bk), 'strings comparing equal have the same bytes')
            if z:
                h.ensure(s1, h.byte(s1, b, a.n) == 0, 'the C string ends there')


def t_cstring(h, ka):
    m = pair(h, ka, '')
    a = Str(h, m, 'a', ka)
    k = h.size('k')
    h.ex.point(h.st, k)
    h.ex.point(h.st, a.n)
    ak = a.byte(k)
    c = cell(h, h.st, a.v)
    if a.kind == 'O':
        h.st.g[('nul', m.owned_strings.buf.id)] = (simp(a.off + a.hdr + a.n),)
    if a.kind in 'I5':
        h.ex.poke(h.st, c, 0, 8, a.v)
    for s, p in h.call(h.st, 'mjs_get_cstring', m.addr, c):
        for s1 in h.case(s, p != 0):
            for s2 in h.case(s1, z3.ULT(k, a.n)):
                h.ensure(s2, z3.And(h.byte(s2, p, k) == ak, ak != 0), 'the C string has the bytes of the string')
            h.ensure(s1, h.byte(s1, p, a.n) == 0, 'and ends where the string ends')
        for s1 in h.case(s, p == 0):
            # NULL only if the string has an embedded NUL: some position j < n with byte 0
            h.ensure(s1, a.n != 0, 'the empty string has a C string')


def t_cstring_total(h, ka):
    """a string without NUL bytes always has a C string"""
    m = pair(h, ka, '')
    a = Str(h, m, 'a', ka)
    h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, a.n), a.byte(i) != 0))
    h.ex.point(h.st, a.n)
    if h.mode == 'proof':
        for i in range(6):
            h.ex.point(h.st, i)
    c = cell(h, h.st, a.v)
    if a.kind == 'O':
        h.st.g[('nul', m.owned_strings.buf.id)] = (simp(a.off + a.hdr + a.n),)
    for s, p in h.call(h.st, 'mjs_get_cstring', m.addr, c):
        h.ensure(s, p != 0, 'a string without NUL bytes has a C string')


def t_none(h):
    m = M(h)
    v = anyval(h, 'v', ['number', 'boolean', 'null', 'undefined', 'foreign', 'object', 'array', 'function', 'ffi'])
    for s, p, n, c in readback(h, h.st, m, v):
        h.ensure(s, z3.And(p == 0, n == 0), 'a value that is not a string has no content')
    c = cell(h, h.st, v, 'c2')
    for s, p in h.call(h.st, 'mjs_get_cstring', m.addr, c):
        h.ensure(s, p == 0, 'a value that is not a string has no C string')


C05N = dict(C05, replace={})
task('C05', 'not_a_string', ['mjs_get_string', 'mjs_get_cstring'], **C05N)(t_none)
for _a in KINDS:
    task('C05', 'strcmp_equal_%s' % _a, ['mjs_strcmp'], **C05)(lambda h, a=_a: t_strcmp_eq(h, a))
    task('C05', 'strcmp_differ_%s' % _a, ['mjs_strcmp'], **C05)(lambda h, a=_a: t_strcmp_ne(h, a, False))
    task('C05', 'strcmp_cstr_%s' % _a, ['mjs_strcmp'], **C05)(lambda h, a=_a: t_strcmp_ne(h, a, True))
    if _a != 'F':
        task('C05', 'cstring_%s' % _a, ['mjs_get_cstring'], **C05)(lambda h, a=_a: t_cstring(h, a))
        task('C05', 'cstring_total_%s' % _a, ['mjs_get_cstring'], **C05)(lambda h, a=_a: t_cstring_total(h, a))
