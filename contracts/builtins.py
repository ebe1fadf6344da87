"""C18: string builtins (length, subscript, slice, at, indexOf, mkstr, chr) and the lookup of builtin names, for every string."""
import ctypes
import struct
import z3
from lvc.spec import task
from lvc.sym import BVV, Loopspec, Undecided, bconst, isval, simp
from .arrays import ARGV, GETINT, NIX, NOK, c_arg, c_check_arg, c_get_int, c_nargs, c_return
from .calls import isint, numval
from .mbuf import MBUF
from .mjs import ERR, M, _field
from .strings import readback
from .strs import STRS, Str
from .values import anyval, spec

KINDS = ['I', '5', 'O', 'F']
ASSUME = ['memory for the string buffers can be obtained', 'strings are shorter than 2^30 bytes']
CALLS = dict(mjs_nargs=c_nargs, mjs_arg=c_arg, mjs_check_arg=c_check_arg, mjs_get_int=c_get_int, mjs_return=c_return)
OPT = dict(always=ERR, replace=dict(STRS, **CALLS), breplace=MBUF, malloc_may_fail=False, assumes=ASSUME, bunroll=24,
           bound='strings up to 6 bytes (indexOf: 4, searched string 3), indices from -8 to 8', export=['mjs_get_string'])


def f64(v):
    return BVV(struct.unpack('<Q', struct.pack('<d', float(v)))[0], 64)


def zx(h, e):
    return e if e.size() == h.PW else simp(z3.ZeroExt(h.PW - e.size(), e))


class World:
    """a call of a builtin in progress"""

    def __init__(self, h, f=True):
        self.h = h
        self.m = m = M(h)
        m.mb('owned_strings', bound=32)
        m.mb('foreign_strings', bound=32, null=not f)
        if h.mode == 'proof':
            self.nargs = h.sym('nargs', 32)
            h.assume(z3.And(self.nargs >= 0, self.nargs < 1 << 20))
            self.arg = lambda i: ARGV(BVV(i, 32))
        h.st.g['spl'] = dict(h=h, m=m, this=None, nargs=getattr(self, 'nargs', None))

    def this(self, v):
        self.m.put(self.h.st, 'vals.this_obj', v)
        self.h.st.g['spl']['this'] = v

    def stack(self, st, args):
        """outside proof mode: real stacks"""
        h, m, cap = self.h, self.m, 12
        stack = h.ex.newobj(st, 'vstack', BVV(8 * cap, h.PW), 'heap', content='zero', align=16)
        calls = h.ex.newobj(st, 'cstack', BVV(8 * cap, h.PW), 'heap', content='zero', align=16)
        for i, v in enumerate(args):
            h.ex.poke(st, stack, 8 + 8 * i, 8, v)
        h.ex.poke(st, calls, 0, 8, f64(1))
        for fld, o, ln in (('stack', stack, 1 + len(args)), ('call_stack', calls, 1)):
            m.put(st, fld + '.buf', o.base)
            m.put(st, fld + '.len', BVV(8 * ln, h.PW))
            m.put(st, fld + '.size', BVV(8 * cap, h.PW))

    def result(self, s):
        """-> the value handed to the caller, or None (after failing the obligation)"""
        h = self.h
        if h.mode == 'proof':
            r = s.g.get('returned', ())
            h.ensure(s, len(r) == 1, 'one result is returned')
            return r[0] if len(r) == 1 else None
        buf = self.m.get(s, 'stack.buf')
        h.ensure(s, self.m.get(s, 'stack.len') == 8, 'one result is returned')
        return h.ex.peek(s, buf, 8)


def clampneg(i, n):
    """index counted from the end when negative, clamped to the string (32 bit)"""
    return z3.If(i < 0, z3.If(n + i < 0, BVV(0, 32), n + i), z3.If(i > n, n, i))


def clampcases(h, s, i, n):
    """the cases of clampneg"""
    for c, v in ((z3.And(i < 0, n + i < 0), BVV(0, 32)), (z3.And(i < 0, n + i >= 0), simp(n + i)), (i > n, n), (z3.And(i >= 0, i <= n), i)):
        for s1 in h.case(s, c):
            yield s1, v


def isbytes(h, s, m, v, n, byte, k, what):
    """v is a string of n bytes, byte k is byte(k)"""
    h.ensure(s, spec(h, v)['string'], what + ': a string')
    W = 'rb%d' % h.reached
    for s2, p, ln, c in readback(h, s, m, v, W):
        h.ensure(s2, ln == n, what + ': its length')
        inl = z3.Or([z3.Extract(63, 48, v) == BVV(h.k['MJS_TAG_STRING_' + t] >> 48, 16) for t in 'I5'])
        if h.mode == 'proof' and h.ex.must(s2, inl):
            for i in range(5):
                for s3 in h.case(s2, z3.UGT(n, i)):
                    h.ensure(s3, h.byte(s3, p, BVV(i, h.PW)) == byte(BVV(i, h.PW)), what + ': its bytes')
            h.ensure(s2, z3.ULE(n, 5), what + ': its length')
            continue
        for s3 in h.case(s2, z3.ULT(k, n)):
            h.ensure(s3, h.byte(s3, p, k) == byte(k), what + ': its bytes')


# ---------------------------------------------------------------- slice
def t_slice(h, kind):
    W = World(h, kind == 'F')
    m = W.m
    a = Str(h, m, 'a', kind, bound=6)
    W.this(a.v)
    k = h.size('k')
    n32 = z3.Extract(31, 0, a.n)

    def check(s, b, e):
        r = W.result(s)
        if r is None:
            return
        for s1, st in clampcases(h, s, b, n32):
            en = clampneg(e, n32)
            ln = simp(zx(h, z3.If(en < st, BVV(0, 32), en - st)))
            want = lambda k, st=st: a.byte(simp(zx(h, st) + k), st0)
            isbytes(h, s1, m, r, ln, want, k, 'the bytes between the two positions')
    st0 = h.snap(h.st)
    if h.mode != 'proof':
        h.assume(z3.ULT(k, 8))
        x, y, na = h.sym('x', 8), h.sym('y', 8), h.sym('na', 2)
        S = h.st
        for i, j in [(0, None), (2, None), (-2, None), (9, None), (0, 0), (0, 3), (1, 3), (1, -1), (-3, -1), (-9, 2), (3, 1), (2, 9), (6, 6), (-1, 0)]:
            for s in h.case(S, z3.And(x == i, y == (j or 0), na == (1 if j is None else 2))):
                W.stack(s, [f64(i)] + ([] if j is None else [f64(j)]))
                for s1, _ in h.call(s, 'mjs_string_slice', m.addr):
                    check(s1, BVV(i, 32), n32 if j is None else BVV(j, 32))
        return
    # k is looked at in the string
    h.ex.point(h.st, k)
    ok = z3.And(W.nargs >= 1, spec(h, W.arg(0))['number'], z3.Implies(W.nargs >= 2, spec(h, W.arg(1))['number']))
    for s, _ in h.call(h.st, 'mjs_string_slice', m.addr):
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], 'wrong arguments are a type error')
        for s1 in h.case(s, ok):
            h.ensure(s1, m.error(s1) == 0, 'no error')
            check(s1, GETINT(W.arg(0)), simp(z3.If(W.nargs >= 2, GETINT(W.arg(1)), n32)))


# ---------------------------------------------------------------- at / charCodeAt
def t_at(h, kind):
    W = World(h, kind == 'F')
    m = W.m
    a = Str(h, m, 'a', kind, bound=6)
    W.this(a.v)
    n32 = z3.Extract(31, 0, a.n)
    st0 = h.snap(h.st)

    def check(s, i):
        i = clampneg(i, n32)
        r = W.result(s)
        if r is None:
            return
        for s1 in h.case(s, i < n32):
            h.ensure(s1, isint(h, s1, r, simp(z3.ZeroExt(56, a.byte(zx(h, i), st0)))), 'the byte at the position')
        for s1 in h.case(s, i >= n32):
            h.ensure(s1, r == h.k['MJS_UNDEFINED'], 'undefined behind the end')
    if h.mode != 'proof':
        x = h.sym('x', 8)
        for i in range(-8, 9):
            for s in h.case(h.st, x == i):
                W.stack(s, [f64(i)])
                for s1, _ in h.call(s, 'mjs_string_char_code_at', m.addr):
                    check(s1, BVV(i, 32))
        return
    ok = z3.And(W.nargs >= 1, spec(h, W.arg(0))['number'])
    for s, _ in h.call(h.st, 'mjs_string_char_code_at', m.addr):
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], 'wrong arguments are a type error')
        for s1 in h.case(s, ok):
            h.ensure(s1, m.error(s1) == 0, 'no error')
            check(s1, GETINT(W.arg(0)))


# ---------------------------------------------------------------- indexOf
MATCH = z3.Function('match.at', z3.BitVecSort(64), z3.BoolSort())


def mt(e):
    return MATCH(e if e.size() == 64 else z3.ZeroExt(64 - e.size(), e))


def c_memcmp(ex, st, a):
    """memcmp of the searched string with a stretch of the string: 0 iff it occurs there"""
    G = st.g.get('ix')
    if G is None:
        return None
    h, S, sub, m = G['h'], G['a'], G['b'], G['m']
    f, _ = _field(ex, m.addr, 'vals.this_obj')
    off = simp(a[0] - S.ptr(ex, st, f))
    n = ex.szx(a[2])
    ex.prove(st, n == sub.n, 'the whole searched string is compared', 'requires')
    ex.prove(st, z3.And(z3.ULE(off, S.n), z3.ULE(n, S.n - off)), 'the compared bytes lie inside the string', 'requires')
    j = G['j']
    ex.point(st, j)
    for s in ex.case(st, z3.ULT(j, n)):
        ex.prove(s, h.byte(s, a[1], j) == sub.byte(j, G['st0']), 'the searched string is compared', 'requires')
    r = ex.fresh('cmp', 32)
    ex.assume(st, (r == 0) == mt(off))
    return [(st, r)]


class Search(Loopspec):
    """no earlier position matches"""

    def __init__(self):
        Loopspec.__init__(self, self.check, None, lambda c: simp(c.st.g['ix']['b'].n * 0 + self.limit(c) - self.i(c)))

    def i(self, c):
        k = [c.env[p] for p in c.env['phis'] if z3.is_bv(c.env[p]) and c.env[p].size() == c.ex.PW]
        if len(k) != 1:
            raise Undecided('search position not found')
        return k[0]

    def limit(self, c):
        return simp(c.st.g['ix']['a'].n + 1)

    def check(self, c):
        G = c.st.g['ix']
        i, w, fr = self.i(c), G['w'], G['from']
        return [('search position in range', z3.ULE(i, G['a'].n - fr - G['b'].n + 1)),
                ('no earlier occurrence', z3.Implies(z3.And(z3.UGE(w, fr), z3.ULT(w, fr + i)), z3.Not(mt(w))))]


def t_index(h, ka, kb):
    W = World(h, 'F' in ka + kb)
    m = W.m
    a, b = Str(h, m, 'a', ka, bound=4), Str(h, m, 'b', kb, bound=3)
    W.this(a.v)
    n32 = z3.Extract(31, 0, a.n)
    st0 = h.snap(h.st)
    if h.mode != 'proof':
        x, na = h.sym('x', 8), h.sym('na', 1)

        def occ(p):
            return z3.And([z3.ULE(b.n, a.n), z3.ULE(p, a.n - b.n)] + [z3.Implies(z3.ULT(j, b.n), a.byte(p + j, st0) == b.byte(j, st0)) for j in range(6)])
        oc = [occ(BVV(p, h.PW)) for p in range(7)]
        S = h.st
        for i in (None, -2, 0, 1, 2, 5, 6, 8):
            for s in h.case(S, z3.And(x == (i or 0), na == (0 if i is None else 1))):
                W.stack(s, [b.v] + ([] if i is None else [f64(i)]))
                for s1, _ in h.call(s, 'mjs_string_index_of', m.addr):
                    r = W.result(s1)
                    want = BVV(-1, 64)
                    fr = z3.If(BVV(max(0, i or 0), 32) > n32, n32, BVV(max(0, i or 0), 32))
                    for p in range(6, -1, -1):
                        want = z3.If(z3.And(oc[p], p >= fr), BVV(p, 64), want)
                    h.ensure(s1, r == f2v(want), 'the first occurrence, or -1')
        return
    h.assume(z3.Implies(W.nargs >= 1, W.arg(0) == b.v))
    h.assume(W.nargs >= 1)
    i0 = GETINT(W.arg(1))
    fr = simp(zx(h, z3.If(W.nargs > 1, z3.If(i0 < 0, BVV(0, 32), z3.If(i0 > n32, n32, i0)), BVV(0, 32))))
    w, j = h.size('w'), h.size('j')
    h.st.g['ix'] = dict(h=h, a=a, b=b, m=m, w=w, j=j, st0=st0)
    h.st.g['ix']['from'] = fr
    h.assume(mt(w) == mt(w))
    ok = z3.Or(W.nargs == 1, spec(h, W.arg(1))['number'])
    for s, _ in h.call(h.st, 'mjs_string_index_of', m.addr):
        r = W.result(s)
        if r is None:
            continue
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], 'wrong arguments are a type error')
        for s1 in h.case(s, ok):
            h.ensure(s1, m.error(s1) == 0, 'no error')
            x = numval(h, s1, r)
            cand = z3.And(z3.UGE(w, fr), z3.ULE(b.n, a.n), z3.ULE(w, a.n - b.n))
            for s2 in h.case(s1, x == -1):
                h.ensure(s2, z3.Implies(cand, z3.Not(mt(w))), '-1 only without an occurrence')
            for s2 in h.case(s1, x != -1):
                p = x if h.PW == 64 else z3.Extract(31, 0, x)
                h.ensure(s2, z3.And(mt(p), z3.UGE(p, fr), z3.ULE(b.n, a.n), z3.ULE(p, a.n - b.n)), 'the position of an occurrence')
                h.ensure(s2, z3.Implies(z3.And(cand, z3.ULT(w, p)), z3.Not(mt(w))), 'the first one')


def f2v(x):
    """number value of a small integer expression, as a chain of cases"""
    r = f64(-1)
    for i in range(0, 8):
        r = z3.If(x == i, f64(i), r)
    return simp(r)


# ---------------------------------------------------------------- wrong this / missing argument
def t_wrong(h, fn):
    W = World(h, False)
    m = W.m
    if h.mode != 'proof':
        v = BVV(h.k['MJS_NULL'], 64)
        W.this(v)
        W.stack(h.st, [f64(0), f64(0)])
        for s, _ in h.call(h.st, fn, m.addr):
            h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'only strings can be worked on')
            W.result(s)
        return
    this = anyval(h, 'this')
    h.assume(z3.Not(spec(h, this)['string']))
    W.this(this)
    for s, _ in h.call(h.st, fn, m.addr):
        h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'only strings can be worked on')
        W.result(s)


# ---------------------------------------------------------------- names of builtin properties
def fnaddr(h, name):
    if h.mode == 'replay':
        return BVV(ctypes.c_void_p.in_dll(h.ex.lib, 'vf_fn_' + name).value, h.PW)
    if name not in h.ex.fnaddr:
        raise Undecided('function not found: ' + name)
    return BVV(h.ex.fnaddr[name], h.PW)


def isfn(h, v, name):
    """v is the foreign pointer of a builtin function"""
    a = fnaddr(h, name)
    a = a if h.PW == 64 else z3.ZeroExt(32, a)
    return v == z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), z3.Extract(47, 0, a))


def c_toulong(ex, st, a):
    """whether a name is a decimal number, and which (C10: name_to_index)"""
    ok = ex.fresh('ok', 32)
    n = ex.fresh('idx', ex.PW)
    st.g['num'] = (ok, n)
    ex.assume(st, z3.Implies(a[1] == 0, ok == 0))
    for s in ex.case(st, a[1] != 0):
        ex.assume(st, z3.Implies(z3.And(a[1] != 0, ok != 0), z3.ULT(ex.peek(s, a[0], 1), 0x41)))
    ex.store(st, a[2], 4, ok)
    return [(st, n)]


STRFN = {'at': 'mjs_string_char_code_at', 'charCodeAt': 'mjs_string_char_code_at', 'indexOf': 'mjs_string_index_of', 'slice': 'mjs_string_slice'}
ARRFN = {'splice': 'mjs_array_splice', 'push': 'mjs_array_push_internal'}
NAMES = [b'length', b'at', b'charCodeAt', b'indexOf', b'slice', b'splice', b'push', b'lengt', b'lengths', b'length\0', b'a', b'att', b'indexof', b'slic',
         b'push\0', b'0', b'1', b'3', b'5', b'7', b'12', b'', b'x', b'1x', b'4294967297']


def names(h, m):
    """-> [(state, name pointer, length, literal -> condition, number -> condition or None)]"""
    if h.mode == 'proof':
        n = h.size('name.n')
        h.assume(z3.ULE(n, BVV(1 << 30, h.PW)))
        o = h.obj('name', n, kind='input', align=1)
        st0 = h.snap(h.st)
        for i in range(11):
            h.ex.point(h.st, i)

        def lit(w):
            w = w.encode()
            return z3.And([n == len(w)] + [h.byte(st0, o, i) == c for i, c in enumerate(w)])
        return [(h.st, o.base, n, lit, None)]
    sel = h.sym('sel', 5)
    out = []
    for i, w in enumerate(NAMES):
        for s in h.case(h.st, sel == i):
            o = h.ex.newobj(s, 'name%d' % i, BVV(len(w), h.PW), 'input', content='zero', align=1)
            for j, c in enumerate(w):
                h.ex.poke(s, o, j, 1, BVV(c, 8))
            out.append((s, o.base, BVV(len(w), h.PW), lambda x, w=w: bconst(x.encode() == w), int(w) if w.isdigit() else None))
    return out


def resobj(h, s):
    o = h.ex.newobj(s, 'res', BVV(8, h.PW), 'input', content='zero', align=8)
    h.ex.poke(s, o, 0, 8, BVV(0x1234, 64))
    return o


def t_propstr(h, kind):
    W = World(h, kind == 'F')
    m = W.m
    a = Str(h, m, 'a', kind, bound=6)
    st0 = h.snap(h.st)
    for s0, p, n, lit, numb in names(h, m):
        res = resobj(h, s0)
        for s, r in h.call(s0, 'getprop_builtin_string', m.addr, a.v, p, n, res):
            v = h.ex.peek(s, res.base, 8)
            none = z3.Not(z3.Or([lit(x) for x in list(STRFN) + ['length']]))
            for s1 in h.case(s, lit('length')):
                h.ensure(s1, r != 0, 'length is a property of strings')
                h.ensure(s1, isint(h, s1, v, a.n if h.PW == 64 else z3.ZeroExt(32, a.n)), 'the length of the string')
            for x, f in STRFN.items():
                for s1 in h.case(s, lit(x)):
                    h.ensure(s1, z3.And(r != 0, isfn(h, v, f)), '%s is a method of strings' % x)
            if h.mode == 'proof':
                if 'num' not in s.g:
                    raise Undecided('subscript is not looked at')
                ok, ix = s.g['num']
                ok = ok != 0
            else:
                ok, ix = bconst(numb is not None), BVV(numb or 0, h.PW)
            for s1 in h.case(s, z3.And(none, ok)):
                h.ensure(s1, r != 0, 'a subscript is a property of strings')
                for s2 in h.case(s1, z3.ULT(ix, a.n)):
                    isbytes(h, s2, m, v, BVV(1, h.PW), lambda k: a.byte(ix, st0), BVV(0, h.PW), 'the one-byte string at the subscript')
                for s2 in h.case(s1, z3.UGE(ix, a.n)):
                    h.ensure(s2, v == h.k['MJS_UNDEFINED'], 'undefined behind the end')
            for s1 in h.case(s, z3.And(none, z3.Not(ok))):
                h.ensure(s1, z3.And(r == 0, v == 0x1234), 'no other name is a property of strings')


def c_alen(ex, st, a):
    """array length (C10)"""
    st.g['alen'] = ex.fresh('alen', ex.PW)
    st.g['alenof'] = a[1]
    return [(st, st.g['alen'])]


def t_proparr(h):
    W = World(h, False)
    m = W.m
    if h.mode == 'proof':
        v0 = anyval(h, 'v', ['array'])
    else:
        o = h.structobj('arr', 'mjs_object', kind='input', zero=True)
        v0 = simp(z3.Concat(BVV(h.k['MJS_TAG_ARRAY'] >> 48, 16), z3.Extract(47, 0, o.base)))
    for s0, p, n, lit, numb in names(h, m):
        res = resobj(h, s0)
        for s, r in h.call(s0, 'getprop_builtin_array', m.addr, v0, p, n, res):
            v = h.ex.peek(s, res.base, 8)
            for s1 in h.case(s, lit('length')):
                if h.mode == 'proof' and 'alen' not in s1.g:
                    h.ensure(s1, False, 'the length of the array')
                    continue
                L = s1.g['alen'] if h.mode == 'proof' else BVV(0, h.PW)
                if h.mode == 'proof':
                    h.ensure(s1, s1.g['alenof'] == v0, 'the length of the array')
                h.ensure(s1, z3.And(r != 0, isint(h, s1, v, L if h.PW == 64 else z3.ZeroExt(32, L))), 'the length of the array')
            for x, f in ARRFN.items():
                for s1 in h.case(s, lit(x)):
                    h.ensure(s1, z3.And(r != 0, isfn(h, v, f)), '%s is a method of arrays' % x)
            for s1 in h.case(s, z3.Not(z3.Or([lit(x) for x in list(ARRFN) + ['length']]))):
                h.ensure(s1, z3.And(r == 0, v == 0x1234), 'no other name is a property of arrays')


def t_propforeign(h):
    W = World(h, False)
    m = W.m
    N = h.size('mem.n', bound=16)
    mem = h.obj('mem', N, kind='input', align=1)
    v0 = simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), z3.Extract(47, 0, mem.base if h.PW == 64 else z3.ZeroExt(32, mem.base))))
    if h.mode != 'proof':
        h.assume(N == 16)
    st0 = h.snap(h.st)
    for s0, p, n, lit, numb in names(h, m):
        if numb is not None and numb > 15:
            continue
        res = resobj(h, s0)
        if h.mode == 'proof':
            s0.g['memn'] = N
        for s, r in h.call(s0, 'getprop_builtin_foreign', m.addr, v0, p, n, res):
            v = h.ex.peek(s, res.base, 8)
            if h.mode == 'proof':
                if 'num' not in s.g:
                    raise Undecided('subscript is not looked at')
                ok, ix = s.g['num']
                ok = ok != 0
            else:
                ok, ix = bconst(numb is not None), BVV(numb or 0, h.PW)
            h.ensure(s, r != 0, 'every property access of a pointer is answered')
            for s1 in h.case(s, ok):
                h.ensure(s1, isint(h, s1, v, simp(z3.ZeroExt(56, h.byte(st0, mem, ix)))), 'the byte at the subscript')
                h.ensure(s1, m.error(s1) == 0, 'no error')
            for s1 in h.case(s, z3.Not(ok)):
                h.ensure(s1, z3.And(m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], v == 0x1234), 'a name that is no number is a type error')


def c_toulong_in(ex, st, a):
    out = c_toulong(ex, st, a)
    ok, n = st.g['num']
    ex.assume(st, z3.Implies(ok != 0, z3.ULT(n, st.g['memn'])))
    return out


def c_tostring(ex, st, a):
    """name as a string: an error, a borrowed string or an owned copy (C13)"""
    m, vp, pp, sp, nf = a
    D = st.g['disp']
    h = D['h']
    h.ensure(st, ex.load(st, vp, 8) == D['name'], 'the name is looked up')
    out = []
    n = ex.fresh('name.n', ex.PW)
    ex.assume(st, z3.ULE(n, BVV(1 << 30, ex.PW)))
    for kind in ('err', 'borrowed', 'owned'):
        s = st.copy()
        s.g['conv'] = kind
        r = BVV(0, 32)
        if kind == 'err':
            r = ex.fresh('err', 32)
            ex.assume(s, r != 0)
            ex.store(s, pp, ex.PB, BVV(0, ex.PW))
            ex.store(s, sp, ex.PB, BVV(0, ex.PW))
            ex.store(s, nf, 4, BVV(0, 32))
        else:
            o = ex.newobj(s, 'name.' + kind, simp(n + 1), 'heap' if kind == 'owned' else 'input', align=1)
            s.g['nameobj'] = (o.id, o.base, n, s.copy())
            ex.store(s, simp(o.base + n), 1, BVV(0, 8))
            ex.store(s, pp, ex.PB, o.base)
            ex.store(s, sp, ex.PB, n)
            ex.store(s, nf, 4, BVV(1 if kind == 'owned' else 0, 32))
        out.append((s, r))
    return out


def c_part(kind):
    def c(ex, st, a):
        """properties of one kind of value (task prop_*), recorded"""
        D = st.g['disp']
        h = D['h']
        oid, base, n, s0 = st.g['nameobj']
        st.g['part'] = st.g.get('part', ()) + (kind,)
        h.ensure(st, z3.And(a[1] == D['val'], a[2] == base, a[3] == n, a[4] == D['res']), 'the property is looked up on the value by its name')
        h.ensure(st, oid not in st.dead, 'the name is still there')
        r = ex.fresh('handled', 32)
        st.g['handled'] = r
        return [(st, r)]
    return c


def t_dispatch(h):
    W = World(h, False)
    m = W.m
    if h.mode != 'proof':
        kinds = dict(object='OBJECT', foreign='FOREIGN', null='NULL', array='ARRAY')
        v = h.sym('v', 2)
        o = h.structobj('arr', 'mjs_object', kind='input', zero=True)
        S = h.st
        for i, t in enumerate(('OBJECT', 'ARRAY', 'FUNCTION', 'STRING_I')):
            for s in h.case(S, v == i):
                val = simp(z3.Concat(BVV(h.k['MJS_TAG_' + t] >> 48, 16), z3.Extract(47, 0, o.base) if t in ('OBJECT', 'ARRAY') else BVV(0, 48)))
                res = resobj(h, s)
                nm = BVV(h.k['MJS_TAG_STRING_5'] | int.from_bytes(b'apply', 'little'), 64)
                for s1, r in h.call(s, 'getprop_builtin', m.addr, val, nm, res):
                    if t == 'STRING_I':
                        h.ensure(s1, r == 0, 'strings cannot be applied')
                    else:
                        h.ensure(s1, z3.And(r != 0, isfn(h, h.ex.peek(s1, res.base, 8), 'mjs_apply_')), 'apply is a method of every other value')
        return
    val, name = anyval(h, 'val'), anyval(h, 'name')
    res = resobj(h, h.st)
    h.st.g['disp'] = dict(h=h, val=val, name=name, res=res.base)
    sp = spec(h, val)
    for s, r in h.call(h.st, 'getprop_builtin', m.addr, val, name, res):
        v = h.ex.peek(s, res.base, 8)
        part = s.g.get('part', ())
        if s.g['conv'] == 'err':
            h.ensure(s, z3.And(r == 0, v == 0x1234, len(part) == 0), 'a name that is no string has no property')
            continue
        oid, base, n, s0 = s.g['nameobj']
        h.ensure(s, (oid in s.dead) == (s.g['conv'] == 'owned'), 'the name is released iff it was allocated')
        apply = z3.And([n == 5] + [h.ex.peek(s0, simp(base + i), 1) == c for i, c in enumerate(b'apply')])
        for s1 in h.case(s, sp['string']):
            h.ensure(s1, part == ('string',), 'strings have the string properties')
        for s1 in h.case(s, z3.And(z3.Not(sp['string']), apply)):
            h.ensure(s1, z3.And(r != 0, isfn(h, v, 'mjs_apply_'), len(part) == 0), 'apply is a method of every other value')
        for s1 in h.case(s, z3.And(sp['array'], z3.Not(apply))):
            h.ensure(s1, part == ('array',), 'arrays have the array properties')
        for s1 in h.case(s, z3.And(sp['foreign'], z3.Not(apply))):
            h.ensure(s1, part == ('foreign',), 'pointers have the pointer properties')
        for s1 in h.case(s, z3.And(z3.Not(z3.Or(sp['string'], sp['array'], sp['foreign'])), z3.Not(apply))):
            h.ensure(s1, z3.And(r == 0, v == 0x1234, len(part) == 0), 'other values have no builtin properties')
        if part:
            h.ensure(s, z3.And((r != 0) == (s.g['handled'] != 0), len(part) == 1), 'what the lookup found is the answer')


# ---------------------------------------------------------------- mkstr, chr
TRUTHY = z3.Function('truthy', z3.BitVecSort(64), z3.BoolSort())


def c_truthy(ex, st, a):
    """truth value (C08)"""
    return [(st, z3.If(TRUTHY(a[1]), BVV(1, 32), BVV(0, 32)))]


def t_mkstr(h, na):
    W = World(h, True)
    m = W.m
    N = h.size('mem.n', 31, bound=12)
    mem = h.obj('mem', N, kind='input', align=1)
    pv = simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), z3.Extract(47, 0, mem.base if h.PW == 64 else z3.ZeroExt(32, mem.base))))
    k = h.size('k')
    und = BVV(h.k['MJS_UNDEFINED'], 64)
    st0 = h.snap(h.st)
    if h.mode != 'proof':
        h.assume(N == 12)
        off, ln, cp = h.sym('off', 4), h.sym('len', 4), h.sym('cp', 1)
        S = h.st
        for o, l, c in [(0, 0, 0), (0, 3, 1), (2, 5, 1), (1, 5, 0), (3, 8, 1), (3, 8, 0), (0, 12, 0), (12, 0, 1)]:
            if na == 2 and o or na < 4 and c:
                continue
            for s in h.case(S, z3.And(off == o, ln == l, cp == c)):
                W.stack(s, [pv] + ([f64(o)] if na > 2 else []) + [f64(l)] + ([BVV(h.k['MJS_TAG_BOOLEAN'] | c, 64)] if na > 3 else []))
                for s1, _ in h.call(s, 'mjs_mkstr', m.addr):
                    r = W.result(s1)
                    isbytes(h, s1, m, r, BVV(l, h.PW), lambda k, o=o: h.byte(st0, mem, simp(k + o)), k, 'the bytes in memory')
        return
    h.assume(W.nargs == na)
    ptr = h.boolean('isptr')
    isptr = h.case(h.st, ptr)
    for s0 in h.case(h.st, z3.Not(ptr)) + isptr:
        a0 = pv if s0 in isptr else W.arg(0)
        s0.g['spl'] = dict(s0.g['spl'], argv={0: a0})
        mkstr_one(h, W, s0, na, a0, pv, mem, N, k, st0)


def mkstr_one(h, W, st, na, a0, pv, mem, N, k, st0):
    h.st = st
    m = W.m
    und = BVV(h.k['MJS_UNDEFINED'], 64)
    offv = W.arg(1) if na > 2 else und
    lenv = W.arg(na - 1 if na < 4 else 2)
    isnum = lambda v: spec(h, v)['number']
    offi = z3.If(offv == und, BVV(0, 32), GETINT(offv))
    o, l = simp(z3.SignExt(h.PW - 32, offi)) if h.PW > 32 else offi, simp(z3.SignExt(h.PW - 32, GETINT(lenv))) if h.PW > 32 else GETINT(lenv)
    ptr = spec(h, a0)['foreign']
    if a0 is not pv:
        h.assume(z3.Not(ptr))
    ok = z3.And(ptr, z3.Or(offv == und, isnum(offv)), isnum(lenv))
    # the memory the script names is there
    h.assume(z3.Implies(ok, z3.And(offi >= 0, GETINT(lenv) >= 0, z3.ULT(o, N), z3.ULE(l, N - o))))
    cp = TRUTHY(W.arg(3)) if na > 3 else bconst(False)
    h.assume(z3.Not(TRUTHY(und)))
    want = lambda k: h.byte(st0, mem, simp(o + k))
    h.ex.point(h.st, simp(mem.base + o + k))
    for s, _ in h.call(h.st, 'mjs_mkstr', m.addr):
        r = W.result(s)
        if r is None:
            continue
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, z3.And(m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], r == und), 'wrong arguments are a type error')
        for s1 in h.case(s, ok):
            h.ensure(s1, m.error(s1) == 0, 'no error')
            isbytes(h, s1, m, r, l, want, k, 'the bytes in memory')
            for s2 in h.case(s1, z3.And(l != 0, z3.Not(cp))):
                h.ensure(s2, z3.Extract(63, 48, r) == BVV(h.k['MJS_TAG_STRING_F'] >> 48, 16), 'unless copied, the memory itself is the content')
                for s3, p, n, c in readback(h, s2, m, r, 'own%d' % h.reached):
                    h.ensure(s3, p == mem.base + o, 'unless copied, the memory itself is the content')
            for s2 in h.case(s1, cp):
                h.ensure(s2, z3.Extract(63, 48, r) != BVV(h.k['MJS_TAG_STRING_F'] >> 48, 16), 'a copy is owned by the interpreter')


def t_mkstr_argc(h):
    W = World(h, False)
    if h.mode != 'proof':
        W.stack(h.st, [f64(0)])
    else:
        h.assume(z3.Or(W.nargs < 2, W.nargs > 4))
    for s, _ in h.call(h.st, 'mjs_mkstr', W.m.addr):
        r = W.result(s)
        h.ensure(s, W.m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'a wrong number of arguments is a type error')


def t_chr(h):
    W = World(h, False)
    m = W.m

    def check(s, isnum, n):
        r = W.result(s)
        if r is None:
            return
        ok = z3.And(isnum, n >= 0, n <= 255)
        for s1 in h.case(s, ok):
            isbytes(h, s1, m, r, BVV(1, h.PW), lambda k: z3.Extract(7, 0, n), BVV(0, h.PW), 'the one-byte string')
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, r == h.k['MJS_NULL'], 'null for everything that is no byte')
    if h.mode != 'proof':
        x = h.sym('x', 10)
        for i in (-1, 0, 1, 65, 127, 128, 255, 256, 300):
            for s in h.case(h.st, x == i):
                W.stack(s, [f64(i)])
                for s1, _ in h.call(s, 'mjs_chr', m.addr):
                    check(s1, bconst(True), BVV(i, 32))
        return
    for s, _ in h.call(h.st, 'mjs_chr', m.addr):
        isn = z3.And(W.nargs >= 1, spec(h, W.arg(0))['number'])
        check(s, isn, GETINT(W.arg(0)))


IXPAIRS = ['I' + b for b in KINDS] + ['5O', 'OI', 'OO', 'FO']
for _k in KINDS:
    task('C18', 'slice_' + _k, ['mjs_string_slice', 'mjs_normalize_idx'], cost=3, **OPT)(lambda h, k=_k: t_slice(h, k))
    task('C18', 'at_' + _k, ['mjs_string_char_code_at', 'mjs_normalize_idx'], cost=2, **OPT)(lambda h, k=_k: t_at(h, k))
    task('C18', 'prop_string_' + _k, ['getprop_builtin_string', 'name_is'], cost=2,
         **dict(OPT, replace=dict(OPT['replace'], cstr_to_ulong=c_toulong), export=OPT['export'] + sorted(set(STRFN.values()))))(lambda h, k=_k: t_propstr(h, k))
for _p in IXPAIRS:
    task('C18', 'index_of_' + _p, ['mjs_string_index_of', 'mg_strstr'], cost=3, loops={('mg_strstr', 0): Search()},
         **dict(OPT, replace=dict(OPT['replace'], memcmp=c_memcmp)))(lambda h, p=_p: t_index(h, p[0], p[1]))
for _f in ('slice', 'char_code_at', 'index_of'):
    task('C18', 'wrong_this_' + _f, ['mjs_string_' + _f], **OPT)(lambda h, f=_f: t_wrong(h, 'mjs_string_' + f))
task('C18', 'prop_array', ['getprop_builtin_array', 'name_is'],
     **dict(OPT, replace=dict(mjs_array_length=c_alen), export=sorted(ARRFN.values())))(t_proparr)
task('C18', 'prop_foreign', ['getprop_builtin_foreign'], **dict(OPT, replace=dict(cstr_to_ulong=c_toulong_in), assumes=ASSUME + [
    'a script that subscripts a pointer stays inside the memory pointed to']))(t_propforeign)
task('C18', 'prop_dispatch', ['getprop_builtin'], **dict(OPT, replace=dict(
    mjs_to_string=c_tostring, getprop_builtin_string=c_part('string'), getprop_builtin_array=c_part('array'),
    getprop_builtin_foreign=c_part('foreign')), export=['mjs_apply_']))(t_dispatch)
for _n in (2, 3, 4):
    task('C18', 'mkstr_%d' % _n, ['mjs_mkstr'], cost=2, **dict(OPT, replace=dict(OPT['replace'], mjs_is_truthy=c_truthy), assumes=ASSUME + [
        'the memory a script passes to mkstr is there']))(lambda h, n=_n: t_mkstr(h, n))
task('C18', 'mkstr_argc', ['mjs_mkstr'], **OPT)(t_mkstr_argc)
task('C18', 'chr', ['mjs_chr'], **OPT)(t_chr)
