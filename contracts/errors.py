"""C21: the error of an execution: code, message, names; the formatting helpers that allocate."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Undecided, bconst, isval, simp
from .arrays import cstr
from .mjs import M, _field

ASSUME = ['memory for messages can be obtained', 'vsnprintf formats as the C standard says']


def text(h, name, bs, kind='heap'):
    """a NUL-terminated string with the given bytes"""
    o = h.obj(name, h.c(len(bs) + 1), kind=kind, align=1 if kind != 'heap' else 16)
    for i, b in enumerate(bs + b'\0'):
        h.ex.poke(h.st, o, i, 1, BVV(b, 8))
    return o


def fresh(ex, st, name, bs=None):
    o = ex.newobj(st, name, BVV(16 if bs is None else len(bs) + 1, ex.PW), 'heap', align=16)
    if bs is not None:
        for i, b in enumerate(bs + b'\0'):
            ex.poke(st, o, i, 1, BVV(b, 8))
    return o


def c_avprintf(ex, st, a):
    """a new block with the formatted text (discharged by avprintf_*): what was formatted is recorded"""
    buf, size, fmt, ap = a
    G = st.g['err']
    ex.prove(st, size == 0, 'a new block is asked for', 'requires')
    ex.prove(st, fmt == G['fmt'].base, 'the format of the caller', 'requires')
    if ex.PB == 8:
        area = ex.load(st, simp(ap + 8), 8)
        for i, x in enumerate(G['args']):
            ex.prove(st, ex.load(st, simp(area + 8 * i), 8) == x, 'the arguments of the caller', 'requires')
    o = fresh(ex, st, 'formatted', None if G['h'].mode == 'proof' else b'ab')
    st.g['new'] = st.g.get('new', ()) + (o,)
    ex.store(st, buf, ex.PB, o.base)
    return [(st, BVV(2, 32))]


def c_asprintf(ex, st, a):
    buf, size, fmt = a[:3]
    f = cstr(ex, st, fmt)
    if f is None:
        raise Undecided('format string')
    bs = None
    for x in a[3:]:
        o, _ = ex.resolve(st, x, 'formatted string')
        if o.id in st.dead:
            ex.prove(st, False, 'formatted strings are alive', 'memory')
    if st.g['err']['h'].mode != 'proof':
        if f.count(b'%') != f.count(b'%s') or f.count(b'%s') != len(a) - 3:
            raise Undecided('format')
        bs = f.replace(b'%s', b'\1')
        for x in a[3:]:
            bs = bs.replace(b'\1', cstr(ex, st, x), 1)
    o = fresh(ex, st, 'joined', bs)
    st.g['joined'] = st.g.get('joined', ()) + ((f, tuple(simp(x) for x in a[3:]), o),)
    ex.store(st, buf, ex.PB, o.base)
    return [(st, BVV(8, 32))]


def setup(h, m, old, fmt=True):
    err0 = h.sym('error0', 32)
    err = h.sym('err', 32)
    m.put(h.st, 'error', err0)
    o = None
    if old:
        o = text(h, 'oldmsg', b'xy') if h.mode != 'proof' else h.obj('oldmsg', h.c(8))
        m.put(h.st, 'error_msg', o.base)
    else:
        m.put(h.st, 'error_msg', h.c(0))
    f = text(h, 'fmt', b'ab', 'input') if h.mode != 'proof' else h.obj('fmt', h.c(8), kind='input')
    args = [h.sym('arg%d' % i, 64) for i in range(2)]
    h.st.g['err'] = dict(h=h, fmt=f, args=args)
    return err0, err, o, f, args


def is_text(h, st, p, bs):
    return z3.And([h.ex.peek(st, simp(p + i), 1) == b for i, b in enumerate(bs + b'\0')])


def kept(h, st, m, snap):
    """every other part of the interpreter is as before"""
    lo, n = h.lay.off('mjs', 'error')
    lm, nm = h.lay.off('mjs', 'error_msg')
    k = h.syms.get('k')
    inside = z3.Or(z3.And(z3.UGE(k, lo), z3.ULT(k, lo + n)), z3.And(z3.UGE(k, lm), z3.ULT(k, lm + nm)))
    kk = z3.ZeroExt(h.PW - 16, k)
    h.ensure(st, z3.Or(inside, h.byte(st, m.o, kk) == h.byte(snap, m.o, kk)), 'nothing else of the interpreter changes')


def anyk(h, m):
    k = h.sym('k', 16)
    h.assume(z3.ULT(k, h.lay.size('mjs')))


def t_set(h, old, fmt):
    m = M(h)
    err0, err, o, f, args = setup(h, m, old)
    anyk(h, m)
    snap = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_set_errorf', m.addr, err, f if fmt else h.c(0), *(args if fmt else [])):
        h.ensure(s, r == err, 'the code is returned')
        h.ensure(s, m.error(s) == err, 'the code is set')
        p = m.get(s, 'error_msg')
        if o is not None and h.mode != 'replay':
            h.ensure(s, bconst(o.id in s.dead), 'the earlier message is released')
        if not fmt:
            h.ensure(s, p == 0, 'there is no message')
        elif h.mode != 'proof':
            h.ensure(s, is_text(h, s, p, b'ab'), 'the message is the formatted text')
        else:
            N = s.g.get('new', ())
            h.ensure(s, bconst(len(N) == 1 and N[0].id not in s.dead) if N else bconst(False), 'one message is made')
            if N:
                h.ensure(s, p == N[0].base, 'the message is the formatted text')
        kept(h, s, m, snap)


def t_prepend(h, old):
    m = M(h)
    err0, err, o, f, args = setup(h, m, old)
    h.assume(err != 0)
    anyk(h, m)
    snap = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_prepend_errorf', m.addr, err, f, *args):
        h.ensure(s, r == err, 'the code is returned')
        h.ensure(s, m.error(s) == z3.If(err0 == 0, err, err0), 'an earlier code is kept')
        p = m.get(s, 'error_msg')
        if h.mode != 'proof':
            h.ensure(s, is_text(h, s, p, b'ab: xy' if old else b'ab'), 'the message is the new text before the earlier one')
        else:
            N, J = s.g.get('new', ()), s.g.get('joined', ())
            h.ensure(s, bconst(len(N) == 1 and len(J) == (1 if old else 0)), 'the texts are made once')
            if len(N) != 1 or len(J) != (1 if old else 0):
                continue
            if old:
                f2, a2, j = J[0]
                h.ensure(s, z3.And(bconst(f2 == b'%s: %s' and len(a2) == 2), a2[0] == N[0].base, a2[1] == o.base), 'the message is the new text before the earlier one')
                h.ensure(s, p == j.base, 'the message is the new text before the earlier one')
                h.ensure(s, bconst(N[0].id in s.dead and o.id in s.dead and j.id not in s.dead), 'the parts are released, the message is not')
            else:
                h.ensure(s, p == N[0].base, 'the message is the formatted text')
                h.ensure(s, bconst(N[0].id not in s.dead), 'the message is alive')
        kept(h, s, m, snap)


NAMES = dict(MJS_OK='NO_ERROR', MJS_SYNTAX_ERROR='SYNTAX_ERROR', MJS_REFERENCE_ERROR='REFERENCE_ERROR', MJS_TYPE_ERROR='TYPE_ERROR',
             MJS_OUT_OF_MEMORY='OUT_OF_MEMORY', MJS_INTERNAL_ERROR='INTERNAL_ERROR', MJS_NOT_IMPLEMENTED_ERROR='NOT_IMPLEMENTED',
             MJS_FILE_READ_ERROR='FILE_OPEN_ERROR', MJS_BAD_ARGS_ERROR='BAD_ARGUMENTS')


def t_strerror(h):
    m = M(h)
    err = h.sym('err', 32)
    h.assume(z3.ULT(err, h.lay.enums['MJS_ERRS_CNT']))
    has = h.boolean('has')
    n = h.size('n', 12, bound=8)
    h.assume(z3.UGE(n, 1))
    msg = h.obj('msg', n)
    for k, t in NAMES.items():
        for s0 in h.case(h.st, err == h.lay.enums[k]):
            named(h, s0, m, has, msg, BVV(h.lay.enums[k], 32), t.encode())


def named(h, s0, m, has, msg, err, want):
    for st in h.case(s0, has):
        m.put(st, 'error_msg', msg.base)
        c = h.byte(st, msg)
        for s, r in h.call(st, 'mjs_strerror', m.addr, err):
            h.ensure(s, z3.Implies(c != 0, r == msg.base), 'the message, if there is one')
            for s1 in h.case(s, c == 0):
                h.ensure(s1, is_text(h, s1, r, want), 'else the name of the code')
    for st in h.case(s0, z3.Not(has)):
        m.put(st, 'error_msg', h.c(0))
        for s, r in h.call(st, 'mjs_strerror', m.addr, err):
            h.ensure(s, is_text(h, s, r, want), 'else the name of the code')


def c_libc_vsnprintf(ex, st, a):
    """ASSUMED: C99 vsnprintf: as much of the text as fits and a NUL, the length of the whole text is returned"""
    buf, size, fmt, ap = a
    G = st.g['fmt']
    h = G['h']
    ex.prove(st, fmt == G['fmt'].base, 'the format of the caller', 'requires')
    area = ex.load(st, simp(ap + 8), 8)
    for i, x in enumerate(G['args']):
        ex.prove(st, ex.load(st, simp(area + 8 * i), 8) == x, 'the arguments of the caller', 'requires')
    ex.store(st, simp(ap + 8), 8, simp(area + 8 * len(G['args'])))      # the list is used up
    L, T = G['len'], G['text']
    out = []
    for s in ex.case(st, size == 0):
        out.append(s)
    for s in ex.case(st, z3.UGT(size, L)):
        ex.memcopy(s, buf, T.base, simp(L + 1), False)
        out.append(s)
    for s in ex.case(st, z3.And(size != 0, z3.ULE(size, L))):
        ex.memcopy(s, buf, T.base, simp(size - 1), False)
        ex.store(s, simp(buf + size - 1), 1, BVV(0, 8))
        out.append(s)
    return [(s, z3.Extract(31, 0, L)) for s in out]


def t_format(h, va, given):
    """va: mg_avprintf itself, else mg_asprintf; given: the caller has a buffer"""
    L = h.size('len', 20, bound=6)
    T = h.obj('text', simp(L + 1), kind='input')
    h.assume(h.byte(h.st, T, L) == 0)
    cell = h.obj('buf', h.c(h.PB), zero=True)
    fmt = h.obj('fmt', h.c(8), kind='input')
    args = [h.sym('arg%d' % i, 64) for i in range(2)]
    k = h.size('k', 20)
    h.assume(z3.ULE(k, L))
    size = h.c(0)
    blk = None
    if given:
        size = h.size('size', 20, bound=6)
        blk = h.obj('given', size)
        h.ex.poke(h.st, cell, 0, h.PB, blk.base)
    h.st.g['fmt'] = dict(h=h, fmt=fmt, args=args, len=L, text=T)
    if va:
        area = h.obj('args', h.c(16), kind='input')
        for i, x in enumerate(args):
            h.ex.poke(h.st, area, 8 * i, 8, x)
        ap = h.obj('ap', h.c(24), zero=True)
        h.ex.poke(h.st, ap, 0, 4, BVV(48, 32))
        h.ex.poke(h.st, ap, 4, 4, BVV(176, 32))
        h.ex.poke(h.st, ap, 8, 8, area.base)
        outs = h.call(h.st, 'mg_avprintf', cell, size, fmt, ap)
    else:
        outs = h.call(h.st, 'mg_asprintf', cell, size, fmt, *args)
    for s, r in outs:
        p = h.ex.peek(s, cell.base, h.PB)
        for s1 in h.case(s, p == 0):
            h.ensure(s1, r == 0xffffffff, 'no text means no memory')
        for s1 in h.case(s, p != 0):
            h.ensure(s1, r == z3.Extract(31, 0, L), 'the length of the text')
            o, off = h.ex.resolve(s1, p, 'formatted text')
            if given:
                for s2 in h.case(s1, z3.ULT(L, size)):
                    h.ensure(s2, p == blk.base, 'the given buffer is used when the text fits')
                for s2 in h.case(s1, z3.UGE(L, size)):
                    h.ensure(s2, p != blk.base, 'else a new block is made')
            h.ensure(s1, h.byte(s1, p, k) == h.byte(s1, T, k), 'the whole text with its NUL')
            h.ensure(s1, bconst(o.id not in s1.dead), 'the text is alive')


OPT = dict(replace=dict(mg_avprintf=c_avprintf, mg_asprintf=c_asprintf), breplace=dict(mg_avprintf=c_avprintf, mg_asprintf=c_asprintf), malloc_may_fail=False,
           assumes=ASSUME, bound='short texts', bunroll=12)
for _o in (False, True):
    _s = '_again' if _o else ''
    task('C21', 'set' + _s, ['mjs_set_errorf'], **OPT)(lambda h, o=_o: t_set(h, o, True))
    task('C21', 'clear' + _s, ['mjs_set_errorf'], **OPT)(lambda h, o=_o: t_set(h, o, False))
    task('C21', 'prepend' + _s, ['mjs_prepend_errorf'], **OPT)(lambda h, o=_o: t_prepend(h, o))
task('C21', 'strerror', ['mjs_strerror'], assumes=ASSUME, bunroll=8)(t_strerror)
for _g in (False, True):
    for _v in (True, False):
        task('C21', 'format%s%s' % ('_va' if _v else '', '_into' if _g else ''), ['mg_avprintf'] + ([] if _v else ['mg_asprintf']), always=dict(vsnprintf=c_libc_vsnprintf), assumes=['vsnprintf formats as the C standard says'],
             noreplay=True, bound='texts up to 6 bytes', bunroll=8, malloc_may_fail=True)(lambda h, v=_v, g=_g: t_format(h, v, g))
