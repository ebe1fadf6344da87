"""Trusted contracts of the libc functions mjs calls (assumed, never proved)."""
import z3
from .sym import BVV, FPV, Fork, PathEnd, Undecided, Node, simp, isval, toint, bconst


def m_malloc(ex, st, a):
    n = ex.szx(a[0])
    out = []
    if ex.opts.get('malloc_may_fail', True):
        s0 = st.copy()
        s0.events = s0.events + (('malloc-fail', n),)
        out.append((s0, BVV(0, ex.PW)))
    o = ex.newobj(st, 'malloc', n, 'heap', align=16)
    st.events = st.events + (('alloc',),)
    if not ex.feasible(st, z3.ULE(n, BVV(1 << 46, ex.PW)) if ex.PW == 64 else bconst(True)):
        return out
    if ex.PW == 64:
        ex.assume(st, z3.ULE(n, BVV(1 << 46, 64)))
    out.append((st, o.base))
    return out


def m_calloc(ex, st, a):
    n = simp(ex.szx(a[0]) * ex.szx(a[1]))
    out = []
    if ex.opts.get('malloc_may_fail', True):
        s0 = st.copy()
        s0.events = s0.events + (('malloc-fail', n),)
        out.append((s0, BVV(0, ex.PW)))
    if ex.PW == 64:
        ex.assume(st, z3.ULE(n, BVV(1 << 46, 64)))
    st.events = st.events + (('alloc',),)
    o = ex.newobj(st, 'calloc', n, 'heap', align=16, content='zero')
    out.append((st, o.base))
    return out


def heapblock(ex, st, p, what):
    o, off = ex.resolve(st, p, what)
    if o.id in st.dead:
        ex.prove(st, False, 'double free / use after free in ' + what, 'memory')
        raise PathEnd()
    ex.prove(st, ex.bv(off) == 0, what + ' of the start of a block', 'memory')
    if o.kind not in ('heap',):
        ex.prove(st, False, what + ' of a non-heap object ' + o.name, 'memory')
        raise PathEnd()
    return o


def isnull(ex, st, p):
    c = simp(p == 0)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    f1 = ex.feasible(st, c)
    if not f1:
        return False
    if not ex.feasible(st, z3.Not(c)):
        return True
    raise Fork([c, z3.Not(c)])


def m_free(ex, st, a):
    if isnull(ex, st, a[0]):
        return [(st, None)]
    o = heapblock(ex, st, a[0], 'free')
    st.dead = st.dead | {o.id}
    return [(st, None)]


def m_realloc(ex, st, a):
    n = ex.szx(a[1])
    if isnull(ex, st, a[0]):
        return m_malloc(ex, st, [n])
    o = heapblock(ex, st, a[0], 'realloc')
    c = simp(n == 0)
    if not z3.is_false(c):
        if z3.is_true(c) or ex.must(st, c):
            st.dead = st.dead | {o.id}
            return [(st, BVV(0, ex.PW))]
        if not ex.must(st, z3.Not(c)):
            raise Fork([c, z3.Not(c)])
    out = []
    if ex.opts.get('malloc_may_fail', True):
        s0 = st.copy()
        s0.events = s0.events + (('malloc-fail', n),)
        out.append((s0, BVV(0, ex.PW)))
    if ex.PW == 64:
        if not ex.feasible(st, z3.ULE(n, BVV(1 << 46, 64))):
            return out
        ex.assume(st, z3.ULE(n, BVV(1 << 46, 64)))
    src = st.mem[o.id]
    st.dead = st.dead | {o.id}  # the new block may reuse the old address
    st.events = st.events + (('alloc',),)
    q = ex.newobj(st, 'realloc', n, 'heap', align=16)
    m = simp(z3.If(z3.ULT(n, o.size), n, o.size))
    if not (isval(m) and m.as_long() == 0):
        st.mem[q.id] = Node('cp', st.mem[q.id], 0, toint(m), None, src, 0)
    out.append((st, q.base))
    return out


def m_memcmp(ex, st, a):
    p, q, n = a[0], a[1], simp(ex.szx(a[2]))
    if isval(n) and n.as_long() == 0:
        return [(st, BVV(0, 32))]
    if not ex.must(st, n != 0):
        if ex.must(st, n == 0):
            return [(st, BVV(0, 32))]
        raise Fork([n == 0, n != 0])
    o1, f1 = ex.access(st, p, toint(n), 'memcmp')
    o2, f2 = ex.access(st, q, toint(n), 'memcmp')
    m1, m2 = st.mem[o1.id], st.mem[o2.id]
    if isval(n) and n.as_long() <= 16:
        r = BVV(0, 32)
        for i in reversed(range(n.as_long())):
            x = ex.rd(st, m1, ex.addoff(f1, i), 1)
            y = ex.rd(st, m2, ex.addoff(f2, i), 1)
            r = z3.If(x == y, r, z3.ZeroExt(24, x) - z3.ZeroExt(24, y))
        return [(st, simp(r))]
    out = []
    # equal
    s1 = st.copy()

    def at(s, m, f, i):
        return ex.rd(s, m, toint(simp(ex.bv(f) + i)), 1)

    # evaluated with the memory snapshots taken here
    snap = st.copy()

    def eq(i, s=snap):
        return z3.Implies(z3.ULT(i, n), at(s, m1, f1, i) == at(s, m2, f2, i))
    ex.fact(s1, eq)
    s1.g.setdefault('_eq', [])
    out.append((s1, BVV(0, 32)))
    # differ at first index d
    s2 = st.copy()
    d = ex.fresh('cmpdiff', ex.PW)
    ex.assume(s2, z3.ULT(d, n))
    x = at(s2, m1, f1, d)
    y = at(s2, m2, f2, d)
    ex.assume(s2, x != y)
    r = ex.fresh('cmpres', 32)
    ex.assume(s2, z3.And(r != 0, (r > 0) == z3.UGT(x, y)))
    ex.fact(s2, lambda i, s=snap: z3.Implies(z3.ULT(i, d), at(s, m1, f1, i) == at(s, m2, f2, i)))
    ex.point(s2, d)
    if ex.feasible(s2, bconst(True)):
        out.append((s2, r))
    return out


def m_strlen(ex, st, a):
    o, f = ex.resolve(st, a[0], 'strlen')
    if o.id in st.dead:
        ex.prove(st, False, 'use after free in strlen', 'memory')
        raise PathEnd()
    m = st.mem[o.id]
    f = toint(f if isinstance(f, int) else simp(f))
    if m.k == 'bytes' and isinstance(f, int):
        z = m.val.find(b'\0', f)
        if z >= 0:
            return [(st, BVV(z - f, ex.PW))]
    # memo: the same string gives the same length
    lens = st.g.get('_strlen', ())
    for m0, f0, n0 in lens:
        if m0 is m and ex.must(st, ex.bv(f0) == ex.bv(f)):
            return [(st, n0)]
    n = ex.fresh('strlen', ex.PW)
    end = ex.bv(f) + n
    # obligation: a terminator exists inside the object (witness supplied by the spec, or found)
    wit = st.g.get(('nul', o.id))
    if wit is None and isval(o.size) and o.size.as_long() <= 64 and isinstance(f, int):
        cs = [ex.rd(st, m, j, 1) == 0 for j in range(f, o.size.as_long())]
        ex.prove(st, z3.Or(cs), 'strlen argument is NUL-terminated', 'memory')
    else:
        ok = False
        for w in (wit or ()):
            w = ex.bv(w)
            if ex.must(st, z3.And(z3.ULT(w, o.size), z3.ULE(ex.bv(f), w), ex.rd(st, m, toint(simp(w)), 1) == 0)):
                ex.assume(st, z3.ULE(end, w))
                ok = True
        ex.prove(st, ok, 'strlen argument is NUL-terminated', 'memory')
    ex.assume(st, z3.And(z3.ULT(n, o.size), z3.ULT(end, o.size)))
    ex.assume(st, ex.rd(st, m, toint(simp(end)), 1) == 0)
    snap = st.copy()
    ex.fact(st, lambda i: z3.Implies(z3.ULT(i, n), ex.rd(snap, m, toint(simp(ex.bv(f) + i)), 1) != 0))
    ex.point(st, n)
    st.g['_strlen'] = lens + ((m, f, n),)
    return [(st, n)]


def conststr(ex, st, o, f):
    """bytes of a constant C string, or None"""
    m = st.mem[o.id]
    if m.k == 'bytes' and isinstance(f, int):
        z = m.val.find(b'\0', f)
        if z >= 0:
            return m.val[f:z]
    return None


def _cmpstr(ex, st, p, q, n, what, fold=False):
    """strcmp / strncmp (n is not None) / the case-insensitive ones"""
    if n is not None:
        n = simp(ex.szx(n))
        if not ex.must(st, n != 0):
            if ex.must(st, n == 0):
                return [(st, BVV(0, 32))]
            raise Fork([n == 0, n != 0])
    o1, f1 = ex.resolve(st, p, what)
    o2, f2 = ex.resolve(st, q, what)
    f1 = toint(f1 if isinstance(f1, int) else simp(f1))
    f2 = toint(f2 if isinstance(f2, int) else simp(f2))
    for o in (o1, o2):
        if o.id in st.dead:
            ex.prove(st, False, 'use after free in ' + what, 'memory')
            raise PathEnd()
    m1, m2 = st.mem[o1.id], st.mem[o2.id]
    lo = (lambda c: z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)) if fold else (lambda c: c)
    c1, c2 = conststr(ex, st, o1, f1), conststr(ex, st, o2, f2)
    nv = n.as_long() if n is not None and isval(n) else None
    L = None
    for c in (c1, c2):
        if c is not None and (L is None or len(c) + 1 < L):
            L = len(c) + 1
    if nv is not None and nv <= 16 and (L is None or nv < L):
        L = nv
    if L is not None and L <= 40:
        go = bconst(True)
        xs = []
        for i in range(L):
            gi = go if n is None else simp(z3.And(go, z3.UGT(n, i)))
            if not ex.feasible(st, gi):
                break
            for o, f in ((o1, f1), (o2, f2)):
                ex.prove(st, z3.Implies(gi, z3.ULT(ex.bv(f) + i, o.size)), what + ' argument in bounds', 'memory')
            x = ex.rd(st, m1, ex.addoff(f1, i), 1)
            y = ex.rd(st, m2, ex.addoff(f2, i), 1)
            xs.append((gi, lo(x), lo(y)))
            go = simp(z3.And(gi, x == y, x != 0) if not fold else z3.And(gi, lo(x) == lo(y), x != 0))
        r = BVV(0, 32)
        for gi, x, y in reversed(xs):
            r = z3.If(z3.And(gi, x != y), z3.ZeroExt(24, x) - z3.ZeroExt(24, y), z3.If(x == y, r, BVV(0, 32)))
        return [(st, simp(r))]
    snap = st.copy()

    def at(s, m, f, i):
        return ex.rd(s, m, toint(simp(ex.bv(f) + i)), 1)
    for o in (o1, o2):
        for w in st.g.get(('nul', o.id), ()):
            ex.point(st, simp(ex.bv(w) - ex.bv(f1 if o is o1 else f2)))
    out = []
    for eq in (True, False):
        s = st.copy()
        d = ex.fresh('cmpend', ex.PW)
        x, y = at(s, m1, f1, d), at(s, m2, f2, d)
        pre = lambda i: z3.Implies(z3.ULT(i, d), z3.And(lo(at(snap, m1, f1, i)) == lo(at(snap, m2, f2, i)), at(snap, m1, f1, i) != 0))
        if eq:
            ex.assume(s, z3.Or(z3.And(x == 0, y == 0) if n is None else z3.And(x == 0, y == 0, z3.ULT(d, n)), d == n if n is not None else bconst(False)))
            r = BVV(0, 32)
        else:
            ex.assume(s, z3.And(lo(x) != lo(y), z3.ULT(d, n) if n is not None else bconst(True)))
            r = ex.fresh('cmpres', 32)
            ex.assume(s, z3.And(r != 0, (r > 0) == z3.UGT(lo(x), lo(y))))
        ex.fact(s, pre)
        ex.point(s, d)
        if not ex.feasible(s, bconst(True)):
            continue
        for o, f in ((o1, f1), (o2, f2)):
            lim = z3.ULT(d, o.size - ex.bv(f))
            if n is not None:
                lim = z3.Or(lim, z3.And(d == n, z3.ULE(n, o.size - ex.bv(f))))
            ex.prove(s, lim, what + ' argument in bounds', 'memory')
        out.append((s, r))
    return out


def m_strcmp(ex, st, a):
    return _cmpstr(ex, st, a[0], a[1], None, 'strcmp')


def m_strncmp(ex, st, a):
    return _cmpstr(ex, st, a[0], a[1], a[2], 'strncmp')


def m_strcasecmp(ex, st, a):
    return _cmpstr(ex, st, a[0], a[1], None, 'strcasecmp', True)


def m_strncasecmp(ex, st, a):
    return _cmpstr(ex, st, a[0], a[1], a[2], 'strncasecmp', True)


def m_memchr(ex, st, a):
    """first occurrence of a byte in the first n bytes, or NULL"""
    n = simp(ex.szx(a[2]))
    if ex.must(st, n == 0):
        return [(st, BVV(0, ex.PW))]
    if not ex.must(st, n != 0):
        raise Fork([n == 0, n != 0])
    o, f = ex.access(st, a[0], toint(n), 'memchr')
    m = st.mem[o.id]
    c = z3.Extract(7, 0, a[1])
    snap = st.copy()
    at = lambda s, i: ex.rd(s, m, toint(simp(ex.bv(f) + i)), 1)
    out = []
    if m.k == 'bytes' and isinstance(f, int) and isval(n) and n.as_long() <= 64 and f + n.as_long() <= len(m.val):
        # a constant haystack: exact
        bs = m.val[f:f + n.as_long()]
        r, hit = BVV(0, ex.PW), bconst(False)
        for i in reversed(range(len(bs))):
            r = z3.If(c == bs[i], simp(a[0] + i), r)
            hit = z3.Or(hit, c == bs[i])
        return [(s, simp(BVV(0, ex.PW) if v is None else v)) for g, v in ((z3.Not(hit), None), (hit, r)) for s in ex.case(st, g)]
    s1 = st.copy()
    ex.fact(s1, lambda i: z3.Implies(z3.ULT(i, n), at(snap, i) != c))
    out.append((s1, BVV(0, ex.PW)))
    s2 = st.copy()
    d = ex.fresh('chr', ex.PW)
    ex.assume(s2, z3.And(z3.ULT(d, n), at(s2, d) == c))
    ex.fact(s2, lambda i: z3.Implies(z3.ULT(i, d), at(snap, i) != c))
    ex.point(s2, d)
    if ex.feasible(s2, bconst(True)):
        out.append((s2, simp(a[0] + d)))
    return out


def m_strchr(ex, st, a):
    """first occurrence of a byte in a C string (the terminator included), or NULL"""
    (st, n), = m_strlen(ex, st, [a[0]])
    return m_memchr(ex, st, [a[0], a[1], simp(n + 1)])


def m_strnlen(ex, st, a):
    n = ex.szx(a[1])
    out = []
    for s, p in m_memchr(ex, st, [a[0], BVV(0, 32), n]):
        out.append((s, n if isval(simp(p)) and simp(p).as_long() == 0 else simp(p - a[0])))
    return out


def m_assert_fail(ex, st, a):
    ex.prove(st, False, 'assert() holds', 'assert')
    raise PathEnd()


def m_abort(ex, st, a):
    ex.prove(st, False, 'abort() is not reached', 'assert')
    raise PathEnd()


def m_noop(ret=None, bits=32):
    def f(ex, st, a):
        if ret is None:
            return [(st, None)]
        return [(st, BVV(ret, bits))]
    return f


def m_havoc_ret(bits):
    def f(ex, st, a):
        return [(st, ex.fresh('ext', bits if bits != 'ptr' else ex.PW))]
    return f


CTYPE = None


def ctype_table():
    """glibc C-locale classification table, indices -128..255"""
    global CTYPE
    if CTYPE is None:
        import ctypes
        lib = ctypes.CDLL(None)
        lib.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_uint16))
        t = lib.__ctype_b_loc().contents
        base = ctypes.addressof(t.contents)
        CTYPE = bytes((ctypes.c_uint8 * 768).from_address(base - 256))
    return CTYPE


def m_ctype_b_loc(ex, st, a):
    k = ('glob', '__ctype')
    if k not in st.g:
        o = ex.newobj(st, '__ctype_tab', 768, 'global', const=True, content=Node('bytes', val=ctype_table()), align=16)
        q = ex.newobj(st, '__ctype_ptr', ex.PB, 'global', const=True, content='zero', align=16)
        ex.poke(st, q, 0, ex.PB, simp(o.base + BVV(256, ex.PW)))
        st.g[k] = q.id
    return [(st, st.objs[st.g[k]].base)]


def m_strtoul(ex, st, a):
    """base 10: leading digits are converted (exact below 20 digits) and *endptr is set behind them; a string starting with
    another character that is no white space or sign converts nothing; otherwise some prefix is consumed"""
    p, endp, base = a
    if not (isval(simp(base)) and simp(base).as_long() == 10):
        raise Undecided('strtoul base')
    out = []

    def done(s, v, e):
        if not isnull(ex, s, endp):
            ex.store(s, endp, ex.PB, simp(e))
        out.append((s, v))
    dig = lambda b: z3.And(z3.UGE(b, 48), z3.ULE(b, 57))
    b = ex.load(st, p, 1)
    lead = z3.Or(b == 32, b == 43, b == 45, z3.And(z3.UGE(b, 9), z3.ULE(b, 13)))
    for s in ex.case(st, z3.And(z3.Not(dig(b)), z3.Not(lead))):
        done(s, BVV(0, ex.PW), p)
    for s in ex.case(st, lead):
        (s, n), = m_strlen(ex, s, [p])
        e = ex.fresh('end', ex.PW)
        ex.assume(s, z3.ULE(e, n))
        done(s, ex.fresh('strtoul', ex.PW), p + e)
    cur = [s for s in ex.case(st, dig(b))]
    val, i = BVV(0, ex.PW), 0
    while cur:
        s, = cur
        b = ex.load(s, simp(p + i), 1)
        for s1 in ex.case(s, z3.Not(dig(b))):
            done(s1, simp(val) if i < 20 else ex.fresh('strtoul', ex.PW), p + i)
        val = val * 10 + z3.ZeroExt(ex.PW - 8, b - 48)
        i += 1
        cur = ex.case(s, dig(b))
    return out


def m_abs(ex, st, a):
    return [(st, simp(z3.If(a[0] < 0, -a[0], a[0])))]


def m_tolower(ex, st, a):
    c = a[0]
    return [(st, simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))]


def install(ex):
    ex.models.update({
        'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc,
        'memcmp': m_memcmp, 'strlen': m_strlen, '__assert_fail': m_assert_fail, 'abort': m_abort,
        'strcmp': m_strcmp, 'strncmp': m_strncmp, 'strcasecmp': m_strcasecmp, 'strncasecmp': m_strncasecmp,
        'memchr': m_memchr, 'strchr': m_strchr, 'strnlen': m_strnlen, 'abs': m_abs, 'strtoul': m_strtoul, '__isoc23_strtoul': m_strtoul,
        '__ctype_b_loc': m_ctype_b_loc, 'tolower': m_tolower,
        'fflush': m_noop(0), 'fputc': m_noop(0), 'fwrite': m_havoc_ret(64), 'vfprintf': m_noop(0),
        'fprintf': m_noop(0), 'printf': m_noop(0), 'putchar': m_noop(0),
    })
