"""C02: growable byte buffers behave as byte sequences; failed allocation leaves them unchanged."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Node, Undecided, bconst, simp, toint
from .common import MB, wf_block


# ------------------------------------------------------------------ replacement contract (used by callers)
def mbuf_insert_contract(ex, st, args):
    """in place when it fits; otherwise moved to a larger block, or (allocation failure) unchanged with result 0.
    Enforced on the real mbuf_insert by tasks insert_* below."""
    a, off, src, n = args
    P, PW = ex.PB, ex.PW
    buf = ex.load(st, a, P)
    ln = ex.load(st, simp(a + P), P)
    size = ex.load(st, simp(a + 2 * P), P)
    ex.prove(st, z3.ULE(ln, size), 'mbuf_insert requires len <= size', 'requires')
    ex.prove(st, z3.ULE(off, ln), 'mbuf_insert requires off <= len', 'requires')
    ex.prove(st, z3.ULE(n, BVV(1 << (40 if PW == 64 else 28), PW)), 'mbuf_insert requires a sane length', 'requires')
    nl = simp(ln + n)
    out = []
    isnull = simp(src == 0)
    from lvc.libc import isnull as isnullf
    srcnull = isnullf(ex, st, src)

    def body(s, b):
        ex.memcopy(s, simp(b + off + n), simp(b + off), simp(ln - off), True)
        if not srcnull:
            ex.memcopy(s, simp(b + off), src, n, False)
        ex.store(s, simp(a + P), P, nl)
        return [(s, n)]
    fits = z3.ULE(nl, size)
    if ex.feasible(st, simp(fits)):
        s = st.copy()
        ex.assume(s, fits)
        out += ex.forking(s, lambda q: body(q, buf))
    if ex.feasible(st, simp(z3.Not(fits))):
        s = st.copy()
        ex.assume(s, z3.Not(fits))
        if ex.opts.get('malloc_may_fail', True):
            f = s.copy()
            f.events = f.events + (('malloc-fail', 0), ('malloc-fail', 0))
            out.append((f, BVV(0, PW)))
        ns = ex.fresh('newsize', PW)
        ex.assume(s, z3.And(z3.UGE(ns, nl), z3.ULE(ns, nl + nl + 8)))

        def grow(q):
            from lvc.libc import m_realloc
            keep = ex.opts.get('malloc_may_fail', True)
            ex.opts['malloc_may_fail'] = False
            try:
                r = m_realloc(ex, q, [buf, ns])
            finally:
                ex.opts['malloc_may_fail'] = keep
            o = []
            for q2, p in r:
                ex.store(q2, a, P, p)
                ex.store(q2, simp(a + 2 * P), P, ns)
                o += ex.forking(q2, lambda z, p=p: body(z, p))
            return o
        out += ex.forking(s, grow)
    return out


def mbuf_append_contract(ex, st, args):
    a, src, n = args
    ln = ex.load(st, simp(a + ex.PB), ex.PB)
    return mbuf_insert_contract(ex, st, [a, ln, src, n])


def mbuf_append_move(ex, st, args):
    """mbuf_append as its callers may rely on it: the storage always counts as moved (a caller that never uses an old
    storage address behaves the same when it stays in place), the old content is kept, the new bytes follow"""
    a, src, n = args
    P, PW = ex.PB, ex.PW
    buf = ex.load(st, a, P)
    ln = ex.load(st, simp(a + P), P)
    size = ex.load(st, simp(a + 2 * P), P)
    ex.prove(st, z3.ULE(ln, size), 'mbuf_append requires len <= size', 'requires')
    ex.prove(st, z3.ULE(n, BVV(1 << (40 if PW == 64 else 28), PW)), 'mbuf_append requires a sane length', 'requires')
    from lvc.libc import isnull
    null = isnull(ex, st, buf)
    so = None
    if not isnull(ex, st, src):
        so, soff = ex.access(st, src, toint(simp(n)), 'mbuf_append source')
        snode = st.mem[so.id]
    elif not ex.must(st, n == 0):
        so = None
    ns = ex.fresh('newsize', PW)
    nl = simp(ln + n)
    ex.assume(st, z3.And(z3.UGE(ns, nl), z3.ULE(ns, nl + nl + size + 8), z3.UGE(ns, 1)))
    q = ex.newobj(st, 'realloc', ns, 'heap', align=16)
    if not null:
        o, off = ex.resolve(st, buf, 'buffer')
        if o.kind != 'heap':
            ex.prove(st, False, 'mbuf_append on storage that is not a heap block', 'memory')
        st.mem[q.id] = Node('cp', st.mem[q.id], 0, toint(ln), None, st.mem[o.id], 0)
        st.dead = st.dead | {o.id}
    if so is not None:
        sn = toint(simp(n))
        if isinstance(sn, int) and sn <= 8 and sn in (1, 2, 4, 8):
            ex.poke(st, q, toint(ln), sn, ex.rd(st, snode, soff, sn))
        else:
            st.mem[q.id] = Node('cp', st.mem[q.id], toint(ln), sn, None, snode, soff)
    else:
        ex.havoc(st, q, toint(ln), n)
    ex.store(st, a, P, q.base)
    ex.store(st, simp(a + P), P, nl)
    ex.store(st, simp(a + 2 * P), P, ns)
    return [(st, n)]


def mbuf_resize_move(ex, st, args):
    """mbuf_resize to at least the length (tasks resize, resize_ok): the capacity is the requested one, the content is kept; the
    storage always counts as moved"""
    a, new = args
    if z3.is_bv_value(simp(new)) and simp(new).as_long() == 0:
        return None
    P, PW = ex.PB, ex.PW
    buf = ex.load(st, a, P)
    ln = ex.load(st, simp(a + P), P)
    size = ex.load(st, simp(a + 2 * P), P)
    ex.prove(st, z3.ULE(ln, size), 'mbuf_resize requires len <= size', 'requires')
    ex.prove(st, z3.And(z3.ULE(ln, new), new != 0), 'the content stays', 'requires')
    from lvc.libc import isnull
    q = ex.newobj(st, 'realloc', new, 'heap', align=16)
    if not isnull(ex, st, buf):
        o, off = ex.resolve(st, buf, 'buffer')
        if o.kind != 'heap':
            ex.prove(st, False, 'mbuf_resize of storage that is not a heap block', 'memory')
        st.mem[q.id] = Node('cp', st.mem[q.id], 0, toint(ln), None, st.mem[o.id], 0)
        st.dead = st.dead | {o.id}
    ex.store(st, a, P, q.base)
    ex.store(st, simp(a + 2 * P), P, new)
    return [(st, None)]


def mbuf_trim_move(ex, st, args):
    """mbuf_trim: the capacity is the length (task trim)"""
    a = args[0]
    return mbuf_resize_move(ex, st, [a, ex.load(st, simp(a + ex.PB), ex.PB)])


MOVE = {'mbuf_append': mbuf_append_move, 'mbuf_insert': mbuf_insert_contract}
MBUF = {'mbuf_insert': mbuf_insert_contract, 'mbuf_append': mbuf_append_contract}


# ------------------------------------------------------------------ enforcement
def check_insert(h, m, off, src, n, outs, isrc):
    ex = h.ex
    k = h.size('k')
    j = h.size('j')
    old = h.snap(h.st)
    ok = ex.rd(old, old.mem[m.buf.id], toint(k), 1) if m.buf is not None else None
    sj = ex.rd(old, old.mem[src.id], toint(j), 1) if src is not None else None
    for s, r in outs(h.st):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.Or(r == n, r == 0), 'result is the inserted length or 0')
        h.ensure(s, ln == m.len + r, 'length grows by the result')
        h.ensure(s, z3.ULE(ln, size), 'length within capacity')
        wf_block(h, s, buf, size)
        for s1 in h.case(s, z3.ULE(m.len + n, m.size)):
            h.ensure(s1, z3.And(buf == m.base, size == m.size, r == n), 'no reallocation when it fits')
        for s1 in h.case(s, z3.And(r == 0, n != 0)):
            h.ensure(s1, z3.And(buf == m.base, size == m.size), 'failed allocation leaves the buffer unchanged')
        if m.buf is not None:
            for s1 in h.case(s, z3.And(z3.ULT(k, m.len), z3.ULT(k, off))):
                h.ensure(s1, h.byte(s1, buf, k) == ok, 'bytes before the insertion point are kept')
            for s1 in h.case(s, z3.And(z3.ULT(k, m.len), z3.UGE(k, off))):
                h.ensure(s1, h.byte(s1, buf, k + r) == ok, 'bytes after the insertion point are shifted')
        if src is not None:
            for s1 in h.case(s, z3.And(z3.ULT(j, n), r == n)):
                h.ensure(s1, h.byte(s1, buf, off + j) == sj, 'inserted bytes are the source bytes')


@task('C02', 'insert', ['mbuf_insert'], cost=5)
def t_insert(h):
    m = MB(h, 'm')
    off = h.size('off')
    n = h.size('n', bound=16)
    h.assume(z3.ULE(off, m.len))
    src = h.obj('src', n, kind='input', align=1)
    check_insert(h, m, off, src, n, lambda st: h.call(st, 'mbuf_insert', m.addr, off, src, n), True)


@task('C02', 'insert_null', ['mbuf_insert'], cost=4)
def t_insert_null(h):
    m = MB(h, 'm')
    off = h.size('off')
    n = h.size('n', bound=16)
    h.assume(z3.ULE(off, m.len))
    check_insert(h, m, off, None, n, lambda st: h.call(st, 'mbuf_insert', m.addr, off, BVV(0, h.PW), n), False)


@task('C02', 'insert_empty', ['mbuf_insert'])
def t_insert_empty(h):
    m = MB(h, 'm', null=True)
    n = h.size('n', bound=16)
    src = h.obj('src', n, kind='input', align=1)
    check_insert(h, m, BVV(0, h.PW), src, n, lambda st: h.call(st, 'mbuf_insert', m.addr, BVV(0, h.PW), src, n), True)


@task('C02', 'append', ['mbuf_append', 'mbuf_insert'], cost=4)
def t_append(h):
    m = MB(h, 'm')
    n = h.size('n', bound=16)
    src = h.obj('src', n, kind='input', align=1)
    check_insert(h, m, m.len, src, n, lambda st: h.call(st, 'mbuf_append', m.addr, src, n), True)


def resize_spec(h, m, new, outs):
    ex = h.ex
    k = h.size('k')
    old = h.snap(h.st)
    ok = ex.rd(old, old.mem[m.buf.id], toint(k), 1) if m.buf is not None else None
    for s, r in outs(h.st):
        buf, ln, size = m.get(s)
        h.ensure(s, ln == m.len, 'length unchanged')
        h.ensure(s, z3.ULE(ln, size), 'length within capacity')
        h.ensure(s, z3.Or(size == m.size, size == new), 'capacity is the old or the requested one')
        for s1 in h.case(s, z3.ULT(new, m.len)):
            h.ensure(s1, z3.And(size == m.size, buf == m.base), 'never shrinks below the content')
        wf_block(h, s, buf, size)
        if m.buf is not None:
            for s1 in h.case(s, z3.ULT(k, m.len)):
                h.ensure(s1, h.byte(s1, buf, k) == ok, 'content kept')
            for s1 in h.case(s, z3.And(m.size != size)):
                h.ensure(s1, z3.Or(m.len == 0, size != 0), 'content block kept')
        for s1 in h.case(s, size == 0):
            h.ensure(s1, z3.Or(buf == 0, m.size == 0), 'empty buffer has no block')
    if not ex.opts.get('malloc_may_fail', True):
        pass


@task('C02', 'resize', ['mbuf_resize'])
def t_resize(h):
    m = MB(h, 'm')
    new = h.size('new', bound=24)
    resize_spec(h, m, new, lambda st: h.call(st, 'mbuf_resize', m.addr, new))


@task('C02', 'resize_ok', ['mbuf_resize'], malloc_may_fail=False)
def t_resize_ok(h):
    m = MB(h, 'm')
    new = h.size('new', bound=24)
    for s, r in h.call(h.st, 'mbuf_resize', m.addr, new):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.Implies(z3.UGE(new, m.len), size == new), 'capacity is exactly the requested one')


@task('C02', 'trim', ['mbuf_trim'], malloc_may_fail=False)
def t_trim(h):
    m = MB(h, 'm')
    k = h.size('k')
    old = h.byte(h.st, m.buf, k)
    for s, r in h.call(h.st, 'mbuf_trim', m.addr):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(ln == m.len, size == m.len), 'capacity equals length')
        wf_block(h, s, buf, size)
        for s1 in h.case(s, z3.ULT(k, m.len)):
            h.ensure(s1, h.byte(s1, buf, k) == old, 'content kept')


@task('C02', 'remove', ['mbuf_remove'])
def t_remove(h):
    m = MB(h, 'm')
    n = h.size('n', bound=24)
    k = h.size('k')
    old = h.byte(h.st, m.buf, k)
    for s, r in h.call(h.st, 'mbuf_remove', m.addr, n):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(buf == m.base, size == m.size), 'block and capacity unchanged')
        h.ensure(s, ln == z3.If(z3.ULE(n, m.len), m.len - n, m.len), 'n bytes are dropped from the front')
        for s1 in h.case(s, z3.And(z3.ULE(n, m.len), z3.UGE(k, n), z3.ULT(k, m.len))):
            h.ensure(s1, h.byte(s1, buf, k - n) == old, 'remaining bytes keep their order')
        for s1 in h.case(s, z3.And(z3.UGT(n, m.len), z3.ULT(k, m.len))):
            h.ensure(s1, h.byte(s1, buf, k) == old, 'nothing changes when n exceeds the length')


@task('C02', 'clear', ['mbuf_clear'])
def t_clear(h):
    m = MB(h, 'm')
    for s, r in h.call(h.st, 'mbuf_clear', m.addr):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(buf == m.base, size == m.size, ln == 0), 'length 0, block kept')


@task('C02', 'init', ['mbuf_init'])
def t_init(h):
    o = h.obj('mb', h.lay.size('mbuf'), kind='input')
    n = h.size('n', bound=24)
    for s, r in h.call(h.st, 'mbuf_init', o, n):
        buf, ln, size = (h.get(s, o, 'mbuf', f) for f in ('buf', 'len', 'size'))
        h.ensure(s, z3.And(ln == 0, z3.Or(size == n, z3.And(size == 0, buf == 0))), 'empty with the requested capacity, or none')
        wf_block(h, s, buf, size)


@task('C02', 'free', ['mbuf_free'])
def t_free(h):
    m = MB(h, 'm')
    for s, r in h.call(h.st, 'mbuf_free', m.addr):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(buf == 0, ln == 0, size == 0), 'reset to empty')
        h.ensure(s, bconst(m.buf.id in s.dead), 'block released')


@task('C02', 'free_empty', ['mbuf_free'])
def t_free0(h):
    m = MB(h, 'm', null=True)
    for s, r in h.call(h.st, 'mbuf_free', m.addr):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(buf == 0, ln == 0, size == 0), 'still empty')


@task('C02', 'move', ['mbuf_move'])
def t_move(h):
    m = MB(h, 'm')
    o = h.obj('to', h.lay.size('mbuf'), kind='input')
    for s, r in h.call(h.st, 'mbuf_move', m.addr, o):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(buf == 0, ln == 0, size == 0), 'source is empty')
        b2, l2, s2 = (h.get(s, o, 'mbuf', f) for f in ('buf', 'len', 'size'))
        h.ensure(s, z3.And(b2 == m.base, l2 == m.len, s2 == m.size), 'target takes over the bytes')


@task('C02', 'append_and_free', ['mbuf_append_and_free'], cost=4)
def t_aaf(h):
    ex = h.ex
    m = MB(h, 'm')
    n = h.size('n', bound=16)
    src = h.obj('src', n)
    k = h.size('k')
    j = h.size('j')
    ok = h.byte(h.st, m.buf, k)
    sj = h.byte(h.st, src, j)
    for s, r in h.call(h.st, 'mbuf_append_and_free', m.addr, src, n):
        buf, ln, size = m.get(s)
        h.ensure(s, z3.And(z3.Or(r == n, r == 0), ln == m.len + r, z3.ULE(ln, size)), 'length')
        wf_block(h, s, buf, size)
        for s1 in h.case(s, z3.ULT(k, m.len)):
            h.ensure(s1, h.byte(s1, buf, k) == ok, 'old bytes kept')
        for s1 in h.case(s, z3.And(z3.ULT(j, n), r == n)):
            h.ensure(s1, h.byte(s1, buf, m.len + j) == sj, 'new bytes appended')
        # exactly one owner: the data block is either taken over or freed
        taken = buf == src.base
        for s1 in h.case(s, z3.And(m.len == 0)):
            h.ensure(s1, bconst(src.id not in s1.dead and m.buf.id in s1.dead), 'data block taken over, old block freed')
        for s1 in h.case(s, z3.And(m.len != 0)):
            h.ensure(s1, bconst(src.id in s1.dead), 'data block freed')
