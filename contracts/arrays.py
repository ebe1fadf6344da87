"""C10: arrays are objects indexed by decimal names: element access, length, push and splice for every array."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, Fork, Loopspec, Undecided, bconst, isval, simp, toint
from lvc.libc import isnull
from lvc.walk import Walk
from .calls import Call, VStack, isint, num, numval
from .common import MB
from .mbuf import MBUF, MOVE
from .mjs import ERR, M, _field
from .objects import CELLS, arena
from .strs import STRS, Str
from .values import anyval, spec, tag

ASSUME = ['an index is below 10^19 (its decimal name fits the name buffer)', 'memory can be obtained']
B64 = z3.BitVecSort(64)
DL = z3.Function('decimal.len', B64, B64)
DB = z3.Function('decimal.byte', B64, B64, z3.BitVecSort(8))


def und(h):
    return BVV(h.k['MJS_UNDEFINED'], 64)


def cstr(ex, st, p):
    out = b''
    while len(out) < 64:
        b = simp(ex.load(st, simp(p + len(out)), 1))
        if not isval(b):
            return None
        if b.as_long() == 0:
            return out
        out += bytes([b.as_long()])
    return None


def decimal(ex, st, buf, size, v):
    """writes the decimal digits of v (1..19 bytes) and a NUL, as far as they fit -> length"""
    n = DL(v)
    ex.assume(st, z3.And(z3.UGE(n, 1), z3.ULE(n, 19)))
    o, off = ex.access(st, buf, toint(simp(size)), 'name buffer')
    ex.prove(st, z3.UGE(size, 20), 'the buffer holds any decimal name', 'requires')
    ex.havoc(st, o, ex.bv(off), BVV(20, ex.PW))
    st0 = st.copy()
    p = simp(o.base + ex.bv(off))
    ex.fact(st, lambda i: z3.Implies(z3.And(z3.ULT(i - ex.bv(off), n)), ex.rd(st0, st0.mem[o.id], i, 1) == DB(v, i - ex.bv(off))))
    st.g['decimal'] = st.g.get('decimal', ()) + ((p, v),)
    return [(st, z3.Extract(31, 0, n))]


def c_vsnprintf(ex, st, a):
    """c_vsnprintf(buf, size, "%lu", {v}) (C20)"""
    buf, size, fmt, ap = a
    if cstr(ex, st, fmt) != b'%lu':
        return None
    v = ex.load(st, ex.load(st, simp(ap + 8), 8), 8)
    return decimal(ex, st, buf, size, v)


NAMES = {'c_vsnprintf': c_vsnprintf}


def isname(h, st, p, n, idx, what):
    """p, n is the decimal name of idx"""
    j = z3.ZeroExt(h.PW - 5, h.ex.fresh('name.j', 5))
    h.ensure(st, n == DL(idx), what)
    s1 = st.copy()
    o, off = h.ex.access(s1, p, toint(simp(n)), 'property name')
    h.ex.point(s1, simp(h.ex.bv(off) + j))
    h.ensure(s1, z3.Implies(z3.ULT(j, n), h.ex.peek(s1, simp(p + j), 1) == DB(idx, j)), what)


# ---------------------------------------------------------------- element access
def rec(kind):
    def c(ex, st, a):
        """property access by name (C09), recorded"""
        A = st.g['el']
        h = A['h']
        h.ensure(st, z3.And(a[0] == A['m'].addr, a[1] == A['arr']), 'the property accessed belongs to the array')
        isname(h, st, a[2], a[3], A['idx'], 'the property accessed is named by the decimal index')
        st.g['acc'] = st.g.get('acc', ()) + ((kind, a[4] if len(a) > 4 else None),)
        if kind == 'own':
            s2 = st.copy()
            st.g['res'] = None
            p = ex.newobj(s2, 'prop', ex.lay.size('mjs_property'), 'input', align=8)
            s2.g['res'] = ex.peek(s2, simp(p.base + ex.lay.off('mjs_property', 'value')[0]), 8)
            return [(st, BVV(0, ex.PW)), (s2, p.base)]
        r = ex.fresh('rcode', 32)
        st.g['res'] = r
        return [(st, r)]
    return c


class Real:
    """outside proof mode: a real array of up to `n` elements"""

    def __init__(self, h, m, name, n=3):
        self.h, self.m, self.n, self.name = h, m, n, name
        self.o = h.structobj(name, 'mjs_object', kind='input', zero=True)
        self.v = simp(z3.Concat(BVV(h.k['MJS_TAG_ARRAY'] >> 48, 16), z3.Extract(47, 0, self.o.base)))
        offs = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}
        self.len = h.size(name + '.len', 3)
        h.assume(z3.ULE(self.len, n))
        self.vals, prev = [], BVV(0, h.PW)
        head = BVV(0, h.PW)
        for i in range(n):
            p = h.obj('%s.p%d' % (name, i), BVV(h.lay.size('mjs_property'), h.PW), kind='input', zero=True)
            v = h.sym('%s.val%d' % (name, i), 16)
            v = simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), BVV(0, 32), v))
            self.vals.append(v)
            h.ex.poke(h.st, p, offs['next'], h.PB, prev)
            h.ex.poke(h.st, p, offs['name'], 8, BVV(h.k['MJS_TAG_STRING_I'] | 1 | (0x30 + i) << 8, 64))
            h.ex.poke(h.st, p, offs['value'], 8, v)
            prev = p.base
            head = simp(z3.If(self.len == i + 1, p.base, head))
        self.head = head
        h.ex.poke(h.st, self.o, 0, h.PB, head)

    def fix(self, st):
        """cases by length, each with a concrete list"""
        h = self.h
        for i in range(self.n + 1):
            for s in h.case(st, self.len == i):
                yield s, i

    def old(self, i, n):
        return self.vals[i] if 0 <= i < n else und(self.h)


def look(h, m, s, arr, i):
    """(state, element i) as scripts see it"""
    return h.call(s, 'mjs_array_get', m.addr, arr, BVV(i, h.PW))


def world(h, cells=6):
    m = M(h)
    m.mb('owned_strings', bound=8, null=h.mode == 'proof')
    arena(h, m, 'object_arena', 'mjs_object', 2)
    arena(h, m, 'property_arena', 'mjs_property', cells)
    return m


EL = dict(always=ERR, replace=dict(NAMES, mjs_get_own_property=rec('own'), mjs_set=rec('set'), mjs_del=rec('del')),
          malloc_may_fail=False, assumes=ASSUME, bound='arrays of up to 3 elements, indices below 5', bunroll=24, export=['mjs_array_get', 'mjs_array_length', 'mjs_array_del'])


def element(h):
    m = world(h)
    if h.mode == 'proof':
        arr = anyval(h, 'arr')
        idx = h.size('index', 63)
        h.assume(z3.ULT(idx, BVV(10 ** 19 if h.PW == 64 else 1 << 31, h.PW)))
        h.st.g['el'] = dict(h=h, m=m, arr=arr, idx=idx)
        return m, arr, idx, None
    R = Real(h, m, 'arr')
    idx = h.size('index', 63)
    h.assume(z3.ULT(idx, 5))
    return m, R.v, idx, R


def cases(h, R, idx):
    for s, n in R.fix(h.st):
        for i in range(5):
            for s1 in h.case(s, idx == i):
                yield s1, n, i


@task('C10', 'get', ['mjs_array_get2', 'mjs_array_get'], **EL)
def t_get(h):
    m, arr, idx, R = element(h)
    has = h.obj('has', 4, kind='input')
    if R:
        for s, n, i in cases(h, R, idx):
            for s1, r in h.call(s, 'mjs_array_get2', m.addr, arr, BVV(i, h.PW), has):
                h.ensure(s1, r == R.old(i, n), 'the element, or undefined')
                h.ensure(s1, h.ex.peek(s1, has.base, 4) == (1 if i < n else 0), 'presence of the element')
        return
    isobj = z3.Or(spec(h, arr)['object'], spec(h, arr)['array'])
    nohas = h.boolean('nohas')
    for s, r in h.call(h.st, 'mjs_array_get2', m.addr, arr, idx, simp(z3.If(nohas, BVV(0, h.PW), has.base))):
        acc = s.g.get('acc', ())
        for s1 in h.case(s, z3.Not(isobj)):
            h.ensure(s1, r == und(h), 'a value that is no object has no elements')
            h.ensure(s1, z3.Implies(z3.Not(nohas), h.ex.peek(s1, has.base, 4) == 0), 'presence of the element')
        for s1 in h.case(s, isobj):
            if len(acc) != 1:
                h.ensure(s1, False, 'the property of the array is looked up')
                continue
            h.ensure(s1, r == (s.g['res'] if s.g['res'] is not None else und(h)), 'the value of the element, or undefined')
            h.ensure(s1, z3.Implies(z3.Not(nohas), (h.ex.peek(s1, has.base, 4) != 0) == (s.g['res'] is not None)),
                     'presence of the element')


@task('C10', 'set', ['mjs_array_set'], **EL)
def t_set(h):
    m, arr, idx, R = element(h)
    val = anyval(h, 'val')
    if R:
        for s, n, i in cases(h, R, idx):
            for s1, r in h.call(s, 'mjs_array_set', m.addr, arr, BVV(i, h.PW), val):
                h.ensure(s1, r == 0, 'setting an element succeeds')
                for k in range(6):
                    for s3, x in look(h, m, s1, arr, k):
                        h.ensure(s3, x == (val if k == i else R.old(k, n)), 'the element has the value, the others are unchanged')
        return
    isobj = z3.Or(spec(h, arr)['object'], spec(h, arr)['array'])
    for s, r in h.call(h.st, 'mjs_array_set', m.addr, arr, idx, val):
        acc = s.g.get('acc', ())
        for s1 in h.case(s, z3.Not(isobj)):
            h.ensure(s1, z3.And(r == h.lay.enums['MJS_TYPE_ERROR'], len(acc) == 0), 'setting an element of a non-object is a type error')
        for s1 in h.case(s, isobj):
            ok = len(acc) == 1
            h.ensure(s1, z3.And(acc[0][1] == val, r == s.g['res']) if ok else False, 'the property is set to the value')


@task('C10', 'del', ['mjs_array_del'], **EL)
def t_del(h):
    m, arr, idx, R = element(h)
    if R:
        for s, n, i in cases(h, R, idx):
            for s1, r in h.call(s, 'mjs_array_del', m.addr, arr, BVV(i, h.PW)):
                for k in range(6):
                    for s3, x in look(h, m, s1, arr, k):
                        h.ensure(s3, x == (und(h) if k == i else R.old(k, n)), 'the element is gone, the others are unchanged')
        return
    for s, r in h.call(h.st, 'mjs_array_del', m.addr, arr, idx):
        h.ensure(s, len(s.g.get('acc', ())) == 1, 'the property is deleted')


# ---------------------------------------------------------------- length
NOK = z3.Function('name.isindex', B64, z3.BoolSort())
NIX = z3.Function('name.index', B64, B64)


def c_str_to_ulong(ex, st, a):
    """whether a property name is a number, and which (task name_to_index)"""
    m, v, okp, resp = a
    ok = ex.fresh('ok', 32)
    ex.assume(st, (ok != 0) == NOK(v))
    n = ex.fresh('n', ex.PW)
    ex.assume(st, z3.Implies(NOK(v), n == NIX(v)))
    ex.store(st, okp, 4, ok)
    ex.store(st, resp, ex.PB, n)
    return [(st, BVV(0, 32))]


@task('C10', 'length', ['mjs_array_length'], always=ERR, replace=dict(mjs_str_to_ulong=None, str_to_ulong=c_str_to_ulong),
      malloc_may_fail=False, assumes=ASSUME, bound='arrays of up to 3 elements', bunroll=24, export=['mjs_array_get', 'mjs_array_length', 'mjs_array_del'])
def t_length(h):
    m = world(h)
    if h.mode != 'proof':
        R = Real(h, m, 'arr')
        drop = h.sym('drop', 2)
        for s, n in R.fix(h.st):
            for d in range(3):
                for s1 in h.case(s, drop == d):
                    for s2, _ in h.call(s1, 'mjs_array_del', m.addr, R.v, BVV(d, h.PW)) if d < n else [(s1, None)]:
                        for s3, r in h.call(s2, 'mjs_array_length', m.addr, R.v):
                            want = n - 1 if d == n - 1 else n
                            h.ensure(s3, r == want, 'one more than the largest index in use')
        return
    o = h.structobj('arr', 'mjs_object', kind='input', zero=True)
    v = simp(z3.Concat(z3.If(h.boolean('isarr'), BVV(h.k['MJS_TAG_ARRAY'] >> 48, 16), BVV(h.k['MJS_TAG_OBJECT'] >> 48, 16)), z3.Extract(47, 0, o.base)))
    head = h.sym('head', h.PW)
    po = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}

    def mat(ex, st, N, label, role):
        ex.poke(st, N, po['next'], h.PB, ex.fresh('next', h.PW))
        ex.poke(st, N, po['name'], 8, ex.fresh('name', 64))

    def acc(ex, r, vals):
        c = [(k, x) for k, x in vals.items() if r.kind.get(k) == 'other' and x is not None and z3.is_bv(x) and x.size() == h.PW and
             k in r.entry and isval(simp(r.entry[k])) and simp(r.entry[k]).as_long() == 0]
        if len(c) != 1:
            raise Undecided('length accumulator not found')
        return c[0][1]

    LIM = BVV(0xffffffff, h.PW)

    def onenter(ex, st, r, e):
        r.acc0 = acc(ex, r, {k: e[k[1]] for k in r.entry if k[0] == 'phi'})
        st.g['acc'] = r.acc0

    def onstep(ex, st, r, old, new):
        a, b = r.acc0, acc(ex, r, new)
        nm = ex.rd(st, r.mem[r.N.id], po['name'], 8)
        u = z3.And(NOK(nm), z3.ULT(NIX(nm), LIM))
        ex.prove(st, z3.UGE(b, a), 'the length never shrinks', 'ensures')
        ex.prove(st, z3.Implies(u, z3.UGT(b, NIX(nm))), 'the length exceeds every index in use', 'ensures')
        ex.prove(st, z3.Or(b == a, z3.And(u, b == NIX(nm) + 1)), 'the length is 0 or one more than an index in use', 'ensures')
    h.st.g['walks'] = (Walk('arr', head, o.base, BVV(h.lay.size('mjs_property'), h.PW), po['next'], ['prop'], mat, lambda l: True,
                            onstep, onenter),)
    h.ex.poke(h.st, o, 0, h.PB, head)
    for s, r in h.call(h.st, 'mjs_array_length', m.addr, v):
        w = s.g.get('walk:arr')
        h.ensure(s, w is not None and w.label is None, 'all properties are looked at')
        if w is not None:
            h.ensure(s, r == w.acc0, 'the accumulated length is the result')


@task('C10', 'length_nonobject', ['mjs_array_length'])
def t_len0(h):
    v = anyval(h, 'v')
    h.assume(z3.Not(z3.Or(spec(h, v)['object'], spec(h, v)['array'])))
    for s, r in h.call(h.st, 'mjs_array_length', M(h).addr, v):
        h.ensure(s, r == 0, 'a value that is no object has length 0')


# ---------------------------------------------------------------- names that are indices
@task('C10', 'name_to_index', ['cstr_to_ulong'], bound='names up to 6 bytes', cost=3)
def t_ulong(h):
    n = h.size('n', 31, bound=6)
    o = h.obj('name', n, kind='input', align=1)
    ok = h.obj('ok', 4, kind='input')
    st0 = h.snap(h.st)
    dig = lambda b: z3.And(z3.UGE(b, 48), z3.ULE(b, 57))
    byte = lambda i: h.byte(st0, o, i)
    for k in list(range(0, 20)) + [None]:
        for s in h.case(h.st, n == k if k is not None else z3.UGT(n, 19)):
            for s1, r in h.call(s, 'cstr_to_ulong', o, n if k is None else BVV(k, h.PW), ok):
                x = h.ex.peek(s1, ok.base, 4)
                if k == 0:
                    h.ensure(s1, x == 0, 'the empty name is no index')
                    continue
                if k is None:
                    continue
                val = BVV(0, h.PW)
                for i in range(k):
                    val = val * 10 + z3.ZeroExt(h.PW - 8, byte(i) - 48)
                alld = z3.And([dig(byte(i)) for i in range(k)])
                f = byte(0)
                lead = z3.Or(f == 32, f == 43, f == 45, z3.And(z3.UGE(f, 9), z3.ULE(f, 13)))
                for s2 in h.case(s1, alld):
                    h.ensure(s2, z3.And(x != 0, r == simp(val)), 'a decimal name is the index it denotes')
                for s2 in h.case(s1, z3.And(z3.Not(alld), z3.Not(lead))):
                    h.ensure(s2, x == 0, 'a name with other characters is no index')


# ---------------------------------------------------------------- push and splice
class Ghost:
    """contents of an array: index (64 bit) -> (present, value)"""

    def __init__(self, at, length=None):
        self.at, self.len = at, length

    def set(self, i, v):
        f = self.at

        def at(w):
            p, x = f(w)
            return z3.Or(w == i, p), z3.If(w == i, v, x)
        n = self.len
        return Ghost(at, None if n is None else simp(z3.If(z3.UGE(i, n), i + 1, n)))

    def delete(self, i):
        f = self.at

        def at(w):
            p, x = f(w)
            return z3.And(w != i, p), x
        return Ghost(at)

    def val(self, w, und):
        p, x = self.at(w)
        return z3.If(p, x, und)


def garr(ex, st, v):
    G = st.g['arrays']
    for k, (e, g) in G.items():
        if simp(e).eq(simp(v)) or ex.must(st, e == v):
            return k, g
    raise Undecided('array is not known')


def gput(st, k, g):
    d = dict(st.g['arrays'])
    d[k] = (d[k][0], g)
    st.g['arrays'] = d


def w64(e):
    return e if e.size() == 64 else z3.ZeroExt(64 - e.size(), e)


def c_get2(ex, st, a):
    """element (task get)"""
    k, g = garr(ex, st, a[1])
    p, x = g.at(w64(a[2]))
    if not isnull(ex, st, a[3]):
        ex.store(st, a[3], 4, z3.If(p, BVV(1, 32), BVV(0, 32)))
    return [(st, simp(z3.If(p, x, BVV(ex.k['MJS_UNDEFINED'], 64))))]


def c_set(ex, st, a):
    """set element (task set)"""
    k, g = garr(ex, st, a[1])
    gput(st, k, g.set(w64(a[2]), a[3]))
    return [(st, BVV(0, 32))]


def c_del(ex, st, a):
    """delete element (task del)"""
    k, g = garr(ex, st, a[1])
    gput(st, k, g.delete(w64(a[2])))
    return [(st, None)]


def c_length(ex, st, a):
    """length (task length)"""
    k, g = garr(ex, st, a[1])
    if g.len is None:
        raise Undecided('length of a modified array')
    return [(st, g.len if ex.PW == 64 else z3.Extract(31, 0, g.len))]


def c_mk_array(ex, st, a):
    """a new empty array"""
    v = ex.fresh('newarr', 48)
    v = simp(z3.Concat(BVV(ex.k['MJS_TAG_ARRAY'] >> 48, 16), v))
    d = dict(st.g['arrays'])
    if 'ret' in d:
        raise Undecided('second array')
    d['ret'] = (v, Ghost(lambda w: (bconst(False), BVV(0, 64)), BVV(0, 64)))
    st.g['arrays'] = d
    return [(st, v)]


ARGV = z3.Function('args', z3.BitVecSort(32), B64)


def c_nargs(ex, st, a):
    """number of arguments (C16)"""
    return [(st, st.g['spl']['nargs'])]


def c_arg(ex, st, a):
    """argument i (C16)"""
    n = st.g['spl']['nargs']
    i = a[1]
    ex.prove(st, i >= 0, 'argument index', 'requires')
    i = simp(i)
    v = st.g['spl'].get('argv', {}).get(i.as_long()) if isval(i) else None
    return [(st, simp(z3.If(i < n, ARGV(i) if v is None else v, BVV(ex.k['MJS_UNDEFINED'], 64))))]


def c_check_arg(ex, st, a):
    """argument type check (C16: check_arg)"""
    S = st.g['spl']
    h = S['h']
    m, i, name, ty, out = a
    i, ty = simp(i), simp(ty)
    if not (isval(i) and isval(ty)):
        raise Undecided('argument check')
    this = i.as_long() == 0xffffffff
    v = S['this'] if this else ARGV(i)
    E = h.lay.enums
    T = {E['MJS_TYPE_OBJECT_ARRAY']: 'array', E['MJS_TYPE_NUMBER']: 'number', E['MJS_TYPE_STRING']: 'string'}
    if ty.as_long() not in T:
        raise Undecided('argument type')
    fits = spec(h, v)[T[ty.as_long()]]
    if not this:
        fits = z3.And(i < S['nargs'], fits)
    out2 = []
    for s in ex.case(st, fits):
        if not isnull(ex, s, out):
            ex.store(s, out, 8, v)
        out2.append((s, BVV(1, 32)))
    for s in ex.case(st, z3.Not(fits)):
        f, n = _field(ex, m, 'error')
        ex.store(s, f, n, BVV(E['MJS_TYPE_ERROR'], 32))
        out2.append((s, BVV(0, 32)))
    return out2


GETINT = z3.Function('get.int', B64, z3.BitVecSort(32))


def c_get_int(ex, st, a):
    """number to int (C03)"""
    return [(st, GETINT(a[1]))]


def c_return(ex, st, a):
    """hands the result to the caller (C16)"""
    st.g['returned'] = st.g.get('returned', ()) + (a[1],)
    return [(st, None)]


ARR = dict(mjs_array_get2=c_get2, mjs_array_set=c_set, mjs_array_del=c_del, mjs_array_length=c_length, mjs_mk_array=c_mk_array,
           mjs_nargs=c_nargs, mjs_arg=c_arg, mjs_check_arg=c_check_arg, mjs_get_int=c_get_int, mjs_return=c_return)
OLDP = z3.Function('old.present', B64, z3.BoolSort())
OLDV = z3.Function('old.value', B64, B64)


def spl_setup(h):
    """-> state in st.g: the array `this` of arbitrary contents and length L"""
    m = M(h)
    this = anyval(h, 'this')
    m.put(h.st, 'vals.this_obj', this)
    nargs = h.sym('nargs', 32)
    h.assume(z3.And(nargs >= 0, nargs < 1 << 20))
    L = simp(z3.ZeroExt(33, h.sym('L', 31)))
    h.assume(z3.ULE(L, BVV(1 << 30, 64)))
    h.assume(z3.Implies(L != 0, OLDP(L - 1)))
    old = lambda w: (z3.And(z3.ULT(w, L), OLDP(w)), OLDV(w))
    w = h.sym('w', 64)
    S = dict(h=h, m=m, this=this, nargs=nargs, L=L, old=old, w=w)
    h.st.g['spl'] = S
    h.st.g['arrays'] = {'this': (this, Ghost(old, L))}
    return m, S


def sx(e):
    return simp(z3.SignExt(32, e))


class Phase(Loopspec):
    """the contents of the arrays are a function of the counter; `want(S, i)` -> {array: (at, length)}, `rng(S, i)`"""

    def __init__(self, rng, want, left):
        self.rng, self.want = rng, want
        self.dec = lambda c: left(c.st.g['spl'], sx(self.i(c)))

    def i(self, c):
        k = [c.env[p] for p in c.env['phis'] if z3.is_bv(c.env[p]) and c.env[p].size() == 32 and p.lstrip('%').split('.')[0] not in ('rcode', 'ret')]
        if len(k) != 1:
            raise Undecided('counter not found: %s' % list(c.env['phis']))
        return k[0]

    def base(self, c):
        """contents when the loop was entered"""
        e = c.st.g.get(('entry', id(self)))
        return e

    def inv(self, c):
        st, S = c.st, c.st.g['spl']
        if c.env.get('_loopold') is None and c.env.get('_entry') is None:
            st.g[('entry', id(self))] = st.g['arrays']
        i = self.i(c)
        out = [('counter in range', self.rng(S, i))]
        for k, (at, n) in self.want(S, sx(i), self.base(c)).items():
            g = st.g['arrays'][k][1] if k in st.g['arrays'] else None
            if g is None:
                raise Undecided('array missing')
            p0, v0 = g.at(S['w'])
            p1, v1 = at(S['w'])
            out.append(('contents of %s: elements present' % k, p0 == p1))
            out.append(('contents of %s: values' % k, z3.Implies(p1, v0 == v1)))
            if n is not None:
                out.append(('length of ' + k, bconst(False) if g.len is None else g.len == n))
        return out

    def modifies(self, c):
        st, S = c.st, c.st.g['spl']
        i = self.i(c)
        for k, (at, n) in self.want(S, sx(i), self.base(c)).items():
            gput(st, k, Ghost(at, n))


def splvars(h, S):
    """start, delete count, number of new items, after the clamping the language defines"""
    L, n = S['L'], S['nargs']
    a0 = sx(GETINT(ARGV(BVV(0, 32))))
    s = z3.If(a0 < 0, z3.If(a0 + L < 0, BVV(0, 64), a0 + L), z3.If(a0 > L, L, a0))
    d = z3.If(n >= 2, sx(GETINT(ARGV(BVV(1, 32)))), L)
    d = z3.If(d < 0, BVV(0, 64), z3.If(d > L - s, L - s, d))
    k = z3.If(n >= 2, sx(n) - 2, BVV(0, 64))
    return simp(s), simp(d), simp(k)


def spv(S):
    h = S['h']
    if 'sdk' not in S:
        S['sdk'] = [h.sym('spl.' + x, 64) for x in 'sdk']
        for x, e in zip(S['sdk'], splvars(h, S)):
            h.assume(x == e)
    return S['sdk']


def undv(S, p, x):
    return z3.If(p, x, und(S['h']))


def want_copy(S, i, base):
    s, d, k = spv(S)

    def ret(w):
        return z3.ULT(w, i), undv(S, *S['old'](s + w))
    return {'ret': (ret, i), 'this': (S['old'], S['L'])}


def want_down(S, i, base):
    s, d, k = spv(S)
    D = k - d           # negative

    def at(w):
        po, vo = S['old'](w)
        src = w - D
        ps, vs = S['old'](src)
        mid = z3.And(w >= s, w < i)
        return z3.If(mid, src < i, po), z3.If(mid, undv(S, ps, vs), vo)
    return {'this': (at, None)}


def want_up(S, i, base):
    s, d, k = spv(S)
    D = k - d           # positive

    def at(w):
        po, vo = S['old'](w)
        src = w - D
        ps, vs = S['old'](src)
        hi = w > i
        return z3.If(hi, z3.And(src > i, src < S['L']), po), z3.If(hi, undv(S, ps, vs), vo)
    return {'this': (at, None)}


def want_new(S, i, base):
    s, d, k = spv(S)
    f = base['this'][1].at

    def at(w):
        p, v = f(w)
        n = z3.And(w >= s, w < s + i)
        return z3.Or(n, p), z3.If(n, ARGV(z3.Extract(31, 0, w - s + 2)), v)
    return {'this': (at, None)}


def final(S):
    s, d, k = spv(S)

    def at(w):
        po, vo = S['old'](w)
        src = w - k + d
        ps, vs = S['old'](src)
        v = z3.If(w < s, undv(S, po, vo), z3.If(w < s + k, ARGV(z3.Extract(31, 0, w - s + 2)), undv(S, ps, vs)))
        return v
    return at


def t_splice(h, case):
    if h.mode != 'proof':
        return r_splice(h, case)
    m, S = spl_setup(h)
    s0, d, k = spv(S)
    h.assume(k < d if case == 'shrink' else k > d if case == 'grow' else k == d)
    w, L = S['w'], S['L']
    n = S['nargs']
    sp = spec(h, S['this'])['array']
    ok = z3.And(sp, n >= 1, spec(h, ARGV(BVV(0, 32)))['number'], z3.Implies(n >= 2, spec(h, ARGV(BVV(1, 32)))['number']))
    for s, _ in h.call(h.st, 'mjs_array_splice', m.addr):
        r = s.g.get('returned', ())
        h.ensure(s, len(r) == 1, 'one result is returned')
        G = s.g['arrays']
        if len(r) != 1 or 'ret' not in G:
            h.ensure(s, False, 'an array is returned')
            continue
        h.ensure(s, r[0] == G['ret'][0], 'the removed elements are returned')
        g, q = G['this'][1], G['ret'][1]
        for s1 in h.case(s, z3.Not(ok)):
            h.ensure(s1, m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], 'wrong arguments are a type error')
            p0, v0 = g.at(w)
            p1, v1 = S['old'](w)
            h.ensure(s1, z3.And(p0 == p1, z3.Implies(p1, v0 == v1)), 'and the array is unchanged')
        for s1 in h.case(s, z3.And(ok, w >= 0, w < 1 << 40)):
            h.ensure(s1, m.error(s1) == 0, 'no error')
            h.ensure(s1, g.val(w, und(h)) == z3.If(w < L + k - d, final(S)(w), und(h)), 'each element is where splicing puts it')
            h.ensure(s1, z3.Implies(w >= L + k - d, z3.Not(g.at(w)[0])), 'nothing is left behind the end')
            h.ensure(s1, z3.Implies(z3.And(w == L + k - d - 1, z3.Or(k != 0, s0 + d < L)), g.at(w)[0]), 'the last element exists')
            h.ensure(s1, q.at(w)[0] == z3.ULT(w, d), 'as many elements as were removed are returned')
            h.ensure(s1, q.val(w, und(h)) == z3.If(w < d, undv(S, *S['old'](s0 + w)), und(h)), 'the removed elements are returned')


def r_splice(h, case):
    m = world(h, 10)
    R = Real(h, m, 'arr', 5)
    na = h.sym('nargs', 3)
    a = [h.sym('a0', 8), h.sym('a1', 8)]
    x = [simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), BVV(1, 32), h.sym('x%d' % i, 16))) for i in range(2)]
    st0 = h.st
    todo = [(b + dc + tail, 2 + new, b, dc) for b in (0, 1) for dc in range(4) for new in range(3) for tail in range(2)]
    todo += [(3, 1, b, 0) for b in (-5, -2, 0, 1, 3, 5)] + [(3, 2, -1, 5), (3, 3, 1, -1), (3, 3, 5, 1), (2, 4, -1, 1), (0, 3, 0, 0)]
    for s, n in R.fix(st0):
        for n1, k, a0, a1 in todo:
            st, dc = clamp(n, k, a0, a1)
            D = max(0, k - 2) - dc
            if n1 != n or (case == 'shrink') != (D < 0) or (case == 'grow') != (D > 0):
                continue
            for s1 in h.case(s, z3.And(na == k, a[0] == a0, a[1] == a1)):
                h.st = s1
                r_one(h, m, R, n, k, a0, a1, x)
    h.st = st0


def clamp(n, k, a0, a1):
    st = max(0, n + a0) if a0 < 0 else min(a0, n)
    return st, max(0, min(a1, n - st)) if k > 1 else n - st


def r_one(h, m, R, n, k, a0, a1, x):
    import struct
    f = lambda v: BVV(struct.unpack('<Q', struct.pack('<d', float(v)))[0], 64)
    args = ([f(a0)] + ([f(a1)] if k > 1 else []) + x)[:k]
    cap = 16
    stack = h.ex.newobj(h.st, 'vstack', BVV(8 * cap, h.PW), 'heap', content='zero', align=16)
    calls = h.ex.newobj(h.st, 'cstack', BVV(8 * cap, h.PW), 'heap', content='zero', align=16)
    for i, v in enumerate(args):
        h.ex.poke(h.st, stack, 8 + 8 * i, 8, v)
    h.ex.poke(h.st, calls, 0, 8, f(1))
    for fld, o, ln in (('stack', stack, 1 + k), ('call_stack', calls, 1)):
        m.put(h.st, fld + '.buf', o.base)
        m.put(h.st, fld + '.len', BVV(8 * ln, h.PW))
        m.put(h.st, fld + '.size', BVV(8 * cap, h.PW))
    m.put(h.st, 'vals.this_obj', R.v)
    items = list(range(n))
    st, dc = clamp(n, k, a0, a1)
    new = [('x', i) for i in range(max(0, k - 2))]
    res = items[:st] + new + items[st + dc:]
    rem = items[st:st + dc]
    val = lambda l, i: und(h) if i >= len(l) else x[l[i][1]] if isinstance(l[i], tuple) else R.vals[l[i]]
    for s, _ in h.call(h.st, 'mjs_array_splice', m.addr):
        h.ensure(s, m.error(s) == 0, 'no error')
        h.ensure(s, m.get(s, 'stack.len') == 8, 'the result replaces function and arguments')
        rv = h.ex.peek(s, simp(m.get(s, 'stack.buf')), 8)
        for i in range(8):
            for s3, y in look(h, m, s, R.v, i):
                h.ensure(s3, y == val(res, i), 'each element is where splicing puts it')
        for i in range(4):
            for s3, y in look(h, m, s, rv, i):
                h.ensure(s3, y == val(rem, i), 'the removed elements are returned')
        for s3, l in h.call(s, 'mjs_array_length', m.addr, R.v):
            h.ensure(s3, l == len(res), 'length after splicing')


SPL = {('mjs_array_splice', 0): Phase(lambda S, i: z3.And(sx(i) >= 0, sx(i) <= spv(S)[1]), want_copy, lambda S, i: spv(S)[1] - i),
       ('mjs_array_splice', 1): Phase(lambda S, i: z3.And(sx(i) >= spv(S)[0], sx(i) <= S['L']), want_down, lambda S, i: S['L'] - i),
       ('mjs_array_splice', 2): Phase(lambda S, i: z3.And(sx(i) >= spv(S)[0] - 1, sx(i) < S['L']), want_up, lambda S, i: i + 1),
       ('mjs_array_splice', 3): Phase(lambda S, i: z3.And(sx(i) >= 0, sx(i) <= z3.If(spv(S)[2] < 0, BVV(0, 64), spv(S)[2])), want_new, lambda S, i: spv(S)[2] - i)}

for _c in ('shrink', 'same', 'grow'):
    task('C10', 'splice_' + _c, ['mjs_array_splice'], always=ERR, replace=ARR, loops=SPL, malloc_may_fail=False, cost=5, bunroll=24, export=['mjs_array_get', 'mjs_array_length', 'mjs_array_del'],
         assumes=ASSUME + ['arrays of at most 2^30 elements', 'fewer than 2^20 arguments'],
         bound='arrays of up to 5 elements, up to 3 removed and 2 new elements')(lambda h, c=_c: t_splice(h, c))


def want_push(S, i, base):
    def at(w):
        po, vo = S['old'](w)
        n = z3.And(w >= S['L'], w < S['L'] + i)
        return z3.Or(n, po), z3.If(n, ARGV(z3.Extract(31, 0, w - S['L'])), vo)
    return {'this': (at, S['L'] + i)}


def t_push(h):
    if h.mode != 'proof':
        return r_push(h)
    m, S = spl_setup(h)
    w, L, n = S['w'], S['L'], S['nargs']
    sp = spec(h, S['this'])['array']
    for s, _ in h.call(h.st, 'mjs_array_push_internal', m.addr):
        r = s.g.get('returned', ())
        h.ensure(s, len(r) == 1, 'one result is returned')
        if len(r) != 1:
            continue
        g = s.g['arrays']['this'][1]
        for s1 in h.case(s, z3.Not(sp)):
            h.ensure(s1, m.error(s1) == h.lay.enums['MJS_TYPE_ERROR'], '`this` must be an array')
            p0, v0 = g.at(w)
            p1, v1 = S['old'](w)
            h.ensure(s1, z3.And(p0 == p1, z3.Implies(p1, v0 == v1)), 'and nothing changes')
        for s1 in h.case(s, sp):
            h.ensure(s1, isint(h, s1, r[0], simp(L + sx(n))), 'the new length is returned')
            want = z3.If(z3.And(w >= L, w < L + sx(n)), ARGV(z3.Extract(31, 0, w - L)), undv(S, *S['old'](w)))
            h.ensure(s1, z3.Implies(w >= 0, g.val(w, und(h)) == want), 'arguments are appended in order, elements stay')
            h.ensure(s1, g.len == L + sx(n) if g.len is not None else False, 'the length grows by the number of arguments')


def r_push(h):
    import struct
    f = lambda v: BVV(struct.unpack('<Q', struct.pack('<d', float(v)))[0], 64)
    m = world(h, 10)
    R = Real(h, m, 'arr')
    na = h.sym('nargs', 2)
    x = [simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), BVV(1, 32), h.sym('x%d' % i, 16))) for i in range(3)]
    for s, n in R.fix(h.st):
        for k in range(4):
            for s1 in h.case(s, na == k):
                stack = h.ex.newobj(s1, 'vstack', BVV(128, h.PW), 'heap', content='zero', align=16)
                calls = h.ex.newobj(s1, 'cstack', BVV(128, h.PW), 'heap', content='zero', align=16)
                for i, v in enumerate(x[:k]):
                    h.ex.poke(s1, stack, 8 + 8 * i, 8, v)
                h.ex.poke(s1, calls, 0, 8, f(1))
                for fld, o, ln in (('stack', stack, 1 + k), ('call_stack', calls, 1)):
                    m.put(s1, fld + '.buf', o.base)
                    m.put(s1, fld + '.len', BVV(8 * ln, h.PW))
                    m.put(s1, fld + '.size', BVV(128, h.PW))
                m.put(s1, 'vals.this_obj', R.v)
                for s2, _ in h.call(s1, 'mjs_array_push_internal', m.addr):
                    rv = h.ex.peek(s2, simp(m.get(s2, 'stack.buf')), 8)
                    h.ensure(s2, m.error(s2) == 0, 'no error')
                    h.ensure(s2, rv == f(n + k), 'the new length is returned')
                    for i in range(7):
                        for s4, y in look(h, m, s2, R.v, i):
                            want = R.vals[i] if i < n else x[i - n] if i < n + k else und(h)
                            h.ensure(s4, y == want, 'arguments are appended in order, elements stay')


task('C10', 'push', ['mjs_array_push_internal', 'mjs_array_push'], always=ERR, replace=ARR, malloc_may_fail=False, bunroll=24, export=['mjs_array_get', 'mjs_array_length', 'mjs_array_del'],
     loops={('mjs_array_push_internal', 0): Phase(lambda S, i: z3.And(i >= 0, i <= S['nargs']), want_push, lambda S, i: sx(S['nargs']) - i)},
     assumes=ASSUME + ['arrays of at most 2^30 elements', 'fewer than 2^20 arguments'], bound='arrays of up to 3 elements, up to 3 arguments')(t_push)


@task('C10', 'mk_array', ['mjs_mk_array', 'mjs_is_array'], replace=CELLS, malloc_may_fail=False)
def t_mk(h):
    m = M(h)
    arena(h, m, 'object_arena', 'mjs_object')
    for s, v in h.call(h.st, 'mjs_mk_array', m.addr):
        h.ensure(s, spec(h, v)['array'], 'the result is an array')
        h.ensure(s, h.ex.peek(s, simp(z3.ZeroExt(16, z3.Extract(47, 0, v))), h.PB) == 0, 'a new array has no elements')
