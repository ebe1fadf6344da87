"""C07: a collection marks everything reachable from the roots, and compacting strings keeps what values refer to."""
import itertools
import z3
from lvc.spec import task
from lvc.sym import BVV, Fork, Loopspec, PathEnd, Undecided, bconst, isval, simp, toint
from lvc.walk import ArrWalk, Walk
from .common import MB
from .mbuf import MOVE
from .mjs import ERR, M, _field
from .values import anyval, spec, tag

ASSUME = ['cells reached by marking belong to their arena (else the code aborts)', 'cells are 4-byte aligned',
          'a chunk of the string store holds at least 6 bytes (shorter strings are stored inlined)']


def mkval(h, t, p):
    return simp(z3.Concat(BVV(h.k['MJS_TAG_' + t] >> 48, 16), z3.Extract(47, 0, p)))


def c_yes(ex, st, a):
    """the cell belongs to its arena"""
    st.g['chk'] = st.g.get('chk', ()) + ((a[0], simp(a[1])),)
    return [(st, BVV(1, 32))]


def c_mark(ex, st, a):
    """the first call is the one under verification; recursive calls are recorded; they may replace the value passed"""
    if not st.g.get('marking'):
        st.g['marking'] = True
        return None
    f = st.g.get('onmark')
    if f:
        f(st, simp(a[1]))
    st.g['marked'] = st.g.get('marked', ()) + (simp(a[1]),)
    o, off = ex.resolve(st, a[1], 'marked value')
    ex.havoc(st, o, ex.bv(off), BVV(8, ex.PW))
    return [(st, None)]


MARK = dict(replace=dict(gc_mark=c_mark, gc_check_val=c_yes, gc_check_ptr=c_yes), assumes=ASSUME, malloc_may_fail=False, bunroll=12)


@task('C07', 'mark_object', ['gc_mark'], bound='up to 3 properties', **MARK)
def t_obj(h):
    if h.mode != 'proof':
        return r_obj(h)
    ex = h.ex
    m = M(h)
    PW = h.PW
    o = h.structobj('obj', 'mjs_object', kind='input', zero=True)
    head = h.sym('head', PW)
    was = h.boolean('marked')
    h.assume(z3.Extract(1, 0, head) == 0)
    slot = h.obj('slot', 8, kind='input', zero=True)
    v = simp(z3.If(h.boolean('isarr'), mkval(h, 'ARRAY', o.base), mkval(h, 'OBJECT', o.base)))
    ex.poke(h.st, slot, 0, 8, v)
    po = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}
    E = lambda st, c, n: ex.prove(st, c, n, 'ensures')

    def onmark(st, p):
        E(st, z3.Extract(0, 0, ex.peek(st, o.base, h.PB)) == 1, 'an object is marked before what it refers to, so cycles end')

    def mat(ex, st, N, label, role):
        nx = ex.fresh('next', PW)
        ex.assume(st, z3.Extract(1, 0, nx) == 0)
        ex.poke(st, N, po['next'], h.PB, nx)
        if role == 'cur':
            st.g['marked'] = ()

    def onstep(ex, st, r, old, new):
        mk = st.g.get('marked', ())
        for f in ('name', 'value'):
            E(st, sum(1 for p in mk if p.eq(simp(r.N.base + po[f]))) == 1, 'the %s of each property is marked' % f)
        E(st, ex.peek(st, r.N.base, h.PB) == ex.rd(st, r.mem[r.N.id], 0, h.PB) | 1, 'each property is marked')
        E(st, len(mk) == 2, 'nothing else is marked')
    h.st.g['onmark'] = onmark
    h.st.g['walks'] = (Walk('props', head, None, BVV(h.lay.size('mjs_property'), PW), po['next'], ['prop'], mat, lambda l: True, onstep, None,
                            lambda ex, st, oid: oid == o.id or st.objs[oid].name.startswith('props')),)
    outs = []
    for s in h.case(h.st, was):
        ex.poke(s, o, 0, h.PB, simp(head | 1))
        outs += h.call(s, 'gc_mark', m.addr, slot)
    for s in h.case(h.st, z3.Not(was)):
        ex.poke(s, o, 0, h.PB, head)
        outs += h.call(s, 'gc_mark', m.addr, slot)
    for s, _ in outs:
        h.ensure(s, ex.peek(s, slot.base, 8) == v, 'the reference is unchanged')
        h.ensure(s, ex.peek(s, o.base, h.PB) == head | 1, 'the object is marked and keeps its properties')
        w = s.g.get('walk:props')
        for s1 in h.case(s, was):
            h.ensure(s1, len(s1.g.get('marked', ())) == 0 and w is None, 'an object already marked is not visited again')
        for s1 in h.case(s, z3.Not(was)):
            h.ensure(s1, w is not None and w.N is None, 'all properties are visited')


def r_obj(h):
    """outside proof mode: an object with 0..3 properties whose names and values are not references, one value another object"""
    ex = h.ex
    m = M(h)
    PW = h.PW
    sz = h.lay.size('mjs_property')
    po = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}
    oc = h.obj('objcells', BVV(8 * 4, PW), kind='heap', zero=True)
    pc = h.obj('propcells', BVV(sz * 4, PW), kind='heap', zero=True)
    for nm, c, n in (('object_arena', oc, 8), ('property_arena', pc, sz)):
        b = h.structobj(nm + '.block', 'gc_block', kind='heap', zero=True)
        h.put(h.st, b, 'gc_block', 'base', c.base)
        h.put(h.st, b, 'gc_block', 'size', BVV(4, PW))
        m.put(h.st, nm + '.blocks', b.base)
        m.put(h.st, nm + '.cell_size', BVV(n, PW))
    st_ = h.obj('strings', 16, kind='heap', zero=True)
    m.put(h.st, 'owned_strings.buf', st_.base)
    m.put(h.st, 'owned_strings.len', BVV(16, PW))
    m.put(h.st, 'owned_strings.size', BVV(16, PW))
    # object 0 has n properties; the value of property i is object i + 1 if bit i is set, which refers back to object 0
    n = h.sym('n', 2)
    bits = h.sym('refs', 3)
    slot = h.obj('slot', 8, kind='input', zero=True)
    st0 = h.st
    for k in range(4):
        for bb in range(1 << k):
            for s in h.case(st0, z3.And(n == k, bits == bb)):
                ref = lambda i: mkval(h, 'OBJECT', simp(oc.base + 8 * i))
                ex.poke(s, slot, 0, 8, ref(0))
                nx = BVV(0, PW)
                for i in reversed(range(k)):
                    ex.poke(s, pc, sz * i + po['next'], h.PB, nx)
                    ex.poke(s, pc, sz * i + po['name'], 8, BVV(h.k['MJS_TAG_STRING_I'] | 1 | 0x6100 + (i << 8), 64))
                    ex.poke(s, pc, sz * i + po['value'], 8, ref(i + 1) if bb >> i & 1 else ref(0))
                    nx = simp(pc.base + sz * i)
                if k:
                    ex.poke(s, pc, po['name'], 8, BVV(h.k['MJS_TAG_STRING_O'] | 1, 64))
                ex.poke(s, oc, 0, h.PB, nx)
                for s1, _ in h.call(s, 'gc_mark', m.addr, slot):
                    mk = lambda p: simp(z3.Extract(0, 0, ex.peek(s1, simp(p), h.PB)) == 1)
                    h.ensure(s1, mk(oc.base), 'the object is marked')
                    h.ensure(s1, h.byte(s1, st_, 0) == (1 if k else 0), 'names are marked')
                    for i in range(3):
                        h.ensure(s1, mk(pc.base + sz * i) == (i < k), 'exactly its properties are marked')
                        h.ensure(s1, mk(oc.base + 8 * (i + 1)) == (i < k and bool(bb >> i & 1)), 'exactly the objects referred to are marked')


@task('C07', 'mark_ffi', ['gc_mark'], **MARK)
def t_ffi(h):
    m = M(h)
    if h.mode != 'proof':
        b = h.structobj('block', 'gc_block', kind='heap', zero=True)
    c = h.structobj('sig', 'mjs_ffi_sig', kind='input')
    if h.mode != 'proof':
        h.put(h.st, b, 'gc_block', 'base', c.base)
        h.put(h.st, b, 'gc_block', 'size', BVV(1, h.PW))
        m.put(h.st, 'ffi_sig_arena.blocks', b.base)
        m.put(h.st, 'ffi_sig_arena.cell_size', BVV(h.lay.size('mjs_ffi_sig'), h.PW))
    w0 = h.ex.peek(h.st, c.base, h.PB)
    n = h.lay.size('mjs_ffi_sig')
    rest = h.ex.peek(h.st, simp(c.base + h.PB), n - h.PB)
    slot = h.obj('slot', 8, kind='input', zero=True)
    v = mkval(h, 'FUNCTION_FFI', c.base)
    h.ex.poke(h.st, slot, 0, 8, v)
    for s, _ in h.call(h.st, 'gc_mark', m.addr, slot):
        h.ensure(s, h.ex.peek(s, c.base, h.PB) == w0 | 1, 'the signature is marked')
        h.ensure(s, h.ex.peek(s, simp(c.base + h.PB), n - h.PB) == rest, 'and otherwise unchanged')
        h.ensure(s, h.ex.peek(s, slot.base, 8) == v, 'the reference is unchanged')


@task('C07', 'mark_other', ['gc_mark'], **MARK)
def t_other(h):
    m = M(h)
    slot = h.obj('slot', 8, kind='input', zero=True)
    v = anyval(h, 'v')
    sp = spec(h, v)
    h.assume(z3.Not(z3.Or(sp['object'], sp['array'], sp['ffi'], tag(h, v, 'STRING_O'))))
    h.ex.poke(h.st, slot, 0, 8, v)
    for s, _ in h.call(h.st, 'gc_mark', m.addr, slot):
        h.ensure(s, h.ex.peek(s, slot.base, 8) == v, 'a value without storage of its own is left alone')
        h.ensure(s, len(s.g.get('marked', ())) == 0, 'a value without storage of its own is left alone')


@task('C07', 'mark_string', ['gc_mark'], **MARK)
def t_str(h):
    m = M(h)
    b = m.mb('owned_strings', bound=32)
    off = h.size('offset', bound=24)
    h.assume(z3.And(z3.UGE(off, 1), z3.ULE(off, BVV(1 << 30, h.PW)), z3.UGE(b.len, 8), z3.ULE(off, b.len - 7)))
    before = h.byte(h.st, b.buf, simp(off - 1))
    h.assume(z3.ULE(before, 1))
    slot = h.obj('slot', 8, kind='input', zero=True)
    v = mkval(h, 'STRING_O', off)
    h.ex.poke(h.st, slot, 0, 8, v)
    first = h.ex.peek(h.st, simp(b.base + off), 6)
    w = h.size('w', bound=31)
    h.assume(z3.ULT(w, b.len))
    wold = h.byte(h.st, b.buf, w)
    for s, _ in h.call(h.st, 'gc_mark', m.addr, slot):
        x = h.ex.peek(s, slot.base, 8)
        t = z3.If(before == 0, BVV(h.k['MJS_TAG_STRING_C'] >> 48, 16), BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16))
        h.ensure(s, x == z3.Concat(t, first), 'the value holds the displaced bytes, tagged by whether it is the first reference')
        h.ensure(s, h.byte(s, b.buf, simp(off - 1)) == 1, 'the string is marked')
        h.ensure(s, h.ex.peek(s, simp(b.base + off), 6) == z3.Extract(47, 0, slot.base), 'the string links to the value')
        h.ensure(s, z3.Implies(z3.Or(z3.ULT(w, off - 1), z3.UGE(w, off + 6)), h.byte(s, b.buf, w) == wold), 'other bytes are unchanged')
        buf, ln, size = b.get(s)
        h.ensure(s, z3.And(buf == b.base, ln == b.len, size == b.size), 'the store is unchanged')


# ---------------------------------------------------------------- roots
def c_root(ex, st, a):
    """gc_mark of a root, recorded"""
    st.g['roots'] = st.g.get('roots', ()) + (simp(a[1]),)
    o = [o for o in st.objs.values() if simp(a[1]).eq(simp(o.base)) and o.id not in st.dead]
    return [(st, None)]


def c_compact(ex, st, a):
    """gc_compact_strings, recorded"""
    st.g['log'] = st.g.get('log', ()) + ('compact',)
    st.g['atcompact'] = tuple(k for k in st.g if k.startswith('walk:') and done(st.g[k]))
    return [(st, None)]


def done(r):
    return getattr(r, 'end', None) is True or (not hasattr(r, 'end') and r.N is None)


def c_sweep(ex, st, a):
    """gc_sweep (C06), recorded"""
    st.g['log'] = st.g.get('log', ()) + (('sweep', simp(a[1]), simp(a[2])),)
    return [(st, None)]


def c_resize(ex, st, a):
    """mbuf_resize (C02), recorded"""
    st.g['log'] = st.g.get('log', ()) + (('resize', simp(a[0]), simp(a[1])),)
    return [(st, None)]


@task('C07', 'roots', ['mjs_gc'], replace=dict(gc_mark=c_root, gc_compact_strings=c_compact, gc_sweep=c_sweep, mbuf_resize=c_resize),
      assumes=ASSUME, malloc_may_fail=False, bound='one or two entries per kind of root', bunroll=40)
def t_roots(h):
    if h.mode != 'proof':
        return r_roots(h)
    ex = h.ex
    m = M(h)
    PW = h.PW
    E = lambda st, c, n: ex.prove(st, c, n, 'ensures')
    walks = []
    for fld, kind in (('owned_values', 'ptr'), ('scopes', 'val'), ('stack', 'val'), ('call_stack', 'val')):
        base = h.sym(fld + '.base', PW)
        n = h.size(fld + '.n', 26)
        h.assume(z3.And(z3.UGE(base, 4096), z3.ULE(base, BVV(1 << (46 if PW == 64 else 30), PW)), z3.Extract(2, 0, base) == 0))
        es = 8 if kind == 'val' else h.PB
        m.put(h.st, fld + '.buf', base)
        m.put(h.st, fld + '.len', simp(n * es))

        def mat(ex, st, r):
            st.g['roots0'] = st.g.get('roots', ())

        def onstep(ex, st, r, old, new, kind=kind, fld=fld):
            new_ = st.g.get('roots', ())[len(st.g['roots0']):]
            want = r.N.base if kind == 'val' else ex.rd(st, r.mem[r.N.id], 0, h.PB)
            E(st, len(new_) == 1 and simp(new_[0]).eq(simp(want)), 'each entry of %s is marked' % fld)
        walks.append(ArrWalk(fld, base, n, es, mat, onstep, lambda ex, st, r, vals, st0: None, lambda ex, st, oid, r: False))
    cb = h.sym('cbargs', PW)
    m.put(h.st, 'ffi_cb_args', cb)
    co = {f: h.lay.off('mjs_ffi_cb_args', f)[0] for f in ('next', 'func', 'userdata')}

    def cmat(ex, st, N, label, role):
        ex.poke(st, N, co['next'], h.PB, ex.fresh('next', PW))
        if role == 'cur':
            st.g['roots0'] = st.g.get('roots', ())

    def cstep(ex, st, r, old, new):
        new_ = st.g.get('roots', ())[len(st.g['roots0']):]
        for f in ('func', 'userdata'):
            E(st, any(p.eq(simp(r.N.base + co[f])) for p in new_), 'the %s of each callback is marked' % f)
    walks.append(Walk('cbargs', cb, None, BVV(h.lay.size('mjs_ffi_cb_args'), PW), co['next'], ['cb'], cmat, lambda l: True, cstep))
    h.st.g['walks'] = tuple(walks)
    ln, size = h.size('strings.len'), h.size('strings.size')
    h.assume(z3.ULE(ln, size))
    m.put(h.st, 'owned_strings.len', ln)
    m.put(h.st, 'owned_strings.size', size)
    full = h.sym('full', 32)
    at = lambda f: simp(m.o.base + h.lay.off('mjs', f)[0])
    for s, _ in h.call(h.st, 'mjs_gc', m.addr, full):
        roots = s.g.get('roots', ())
        for i in range(3):
            p = simp(at('vals.this_obj') + 8 * i)
            h.ensure(s, any(x.eq(p) for x in roots), 'the values of the interpreter are marked')
        log = s.g.get('log', ())
        h.ensure(s, log[:1] == ('compact',), 'strings are compacted after marking')
        if log[:1] != ('compact',):
            continue
        for w in walks:
            h.ensure(s, 'walk:' + w.name in s.g['atcompact'], 'all of %s is marked first' % w.name)
        sw = [x for x in log if x[0] == 'sweep']
        for f in ('object_arena', 'property_arena', 'ffi_sig_arena'):
            h.ensure(s, sum(1 for x in sw if x[1].eq(at(f + '.blocks')) and z3.is_true(simp(x[2] == 0))) == 1, 'each arena is swept once, from its first cell')
        h.ensure(s, len(sw) == 3, 'each arena is swept once, from its first cell')
        rs = [x for x in log if x[0] == 'resize']
        keep = h.k.get('_MJS_STRING_BUF_RESERVE', None)
        for x in rs:
            h.ensure(s, z3.And(full != 0, x[1] == at('owned_strings.buf'), z3.UGE(x[2], ln), z3.ULT(x[2], size)), 'only a full collection shrinks the string store, never below its content')
        if not rs:
            h.ensure(s, z3.Or(full == 0, z3.ULE(size, ln + 500)), 'a full collection gives back unused string memory')


def r_roots(h):
    """a heap with one object behind every kind of root, and garbage"""
    ex = h.ex
    PW = h.PW
    m = h.structobj('mjs', 'mjs', kind='input', zero=True)
    put = lambda f, v: h.put(h.st, m, 'mjs', f, v)
    NOBJ = 24
    psz, fsz = h.lay.size('mjs_property'), 32
    oc = h.obj('objcells', BVV(8 * NOBJ, PW), kind='heap', zero=True)
    pc = h.obj('propcells', BVV(psz * 4, PW), kind='heap', zero=True)
    fc = h.obj('sigcells', BVV(h.lay.size('mjs_ffi_sig') * 2, PW), kind='heap', zero=True)
    for nm, c, sz, n in (('object_arena', oc, 8, NOBJ), ('property_arena', pc, psz, 4), ('ffi_sig_arena', fc, h.lay.size('mjs_ffi_sig'), 2)):
        b = h.structobj(nm + '.block', 'gc_block', kind='heap', zero=True)
        h.put(h.st, b, 'gc_block', 'base', c.base)
        h.put(h.st, b, 'gc_block', 'size', BVV(n, PW))
        put(nm + '.blocks', b.base)
        put(nm + '.cell_size', BVV(sz, PW))
    ref = lambda i: mkval(h, 'OBJECT' if i % 2 else 'ARRAY', simp(oc.base + 8 * i))
    k = 0
    for i in range(3):
        ex.poke(h.st, m, h.lay.off('mjs', 'vals.this_obj')[0] + 8 * i, 8, ref(k))
        k += 1
    slots = h.obj('slots', 16, kind='input', zero=True)
    for i in range(2):
        ex.poke(h.st, slots, 8 * i, 8, ref(k))
        k += 1
    for fld in ('scopes', 'stack', 'call_stack'):
        b = h.obj(fld + '.b', 24, kind='heap', zero=True)
        for i in range(2):
            ex.poke(h.st, b, 8 * i, 8, ref(k))
            k += 1
        ex.poke(h.st, b, 16, 8, ref(NOBJ - 1))
        put(fld + '.buf', b.base)
        put(fld + '.len', BVV(16, PW))
        put(fld + '.size', BVV(24, PW))
    b = h.obj('owned.b', 2 * h.PB, kind='heap', zero=True)
    for i in range(2):
        ex.poke(h.st, b, h.PB * i, h.PB, simp(slots.base + 8 * i))
    put('owned_values.buf', b.base)
    put('owned_values.len', BVV(2 * h.PB, PW))
    put('owned_values.size', BVV(2 * h.PB, PW))
    nx = BVV(0, PW)
    for i in range(2):
        c = h.structobj('cb%d' % i, 'mjs_ffi_cb_args', kind='heap', zero=True)
        h.put(h.st, c, 'mjs_ffi_cb_args', 'next', nx)
        for f in ('func', 'userdata'):
            h.put(h.st, c, 'mjs_ffi_cb_args', f, ref(k))
            k += 1
        nx = c.base
    put('ffi_cb_args', nx)
    # object 0 has two properties: an object and a native function
    po = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}
    ex.poke(h.st, pc, po['value'], 8, ref(k))
    k += 1
    ex.poke(h.st, pc, po['next'], h.PB, simp(pc.base + psz))
    ex.poke(h.st, pc, psz + po['value'], 8, mkval(h, 'FUNCTION_FFI', fc.base))
    for i in range(2):
        ex.poke(h.st, pc, psz * i + po['name'], 8, BVV(h.k['MJS_TAG_STRING_I'] | 0x6101 + (i << 8), 64))
    ex.poke(h.st, oc, 0, h.PB, pc.base)
    sb = h.obj('strings', 700, kind='heap', zero=True)
    put('owned_strings.buf', sb.base)
    put('owned_strings.len', BVV(1, PW))
    put('owned_strings.size', BVV(700, PW))
    full = h.boolean('full')
    for fv in (0, 1):
        for s in h.case(h.st, full == bool(fv)):
            for s1, _ in h.call(s, 'mjs_gc', m, BVV(fv, 32)):
                for nm, c, sz, n, live in (('object_arena', oc, 8, NOBJ, k), ('property_arena', pc, psz, 4, 2), ('ffi_sig_arena', fc, h.lay.size('mjs_ffi_sig'), 2, 1)):
                    free = set()
                    p = simp(h.get(s1, m, 'mjs', nm + '.free'))
                    while isval(p) and p.as_long() != 0 and len(free) < 40:
                        i = [j for j in range(n) if simp(p == c.base + sz * j).eq(z3.BoolVal(True))]
                        if not i or i[0] in free:
                            h.ensure(s1, False, 'the free list holds each cell once')
                            return
                        free.add(i[0])
                        p = simp(ex.peek(s1, p, h.PB))
                    h.ensure(s1, free == set(range(live, n)), 'exactly what no root leads to is freed')
                h.ensure(s1, ex.peek(s1, oc.base, h.PB) == pc.base, 'marks are cleared')
                h.ensure(s1, h.get(s1, m, 'mjs', 'owned_strings.len') == 1, 'the string store is kept')
                sz = h.get(s1, m, 'mjs', 'owned_strings.size')
                h.ensure(s1, z3.And(z3.UGE(sz, 1), z3.ULE(sz, 501)) if fv else sz == 700, 'only a full collection gives back unused string memory')


@task('C07', 'maybe', ['maybe_gc'], replace=dict(mjs_gc=lambda ex, st, a: [(setg(st, 'ran', simp(a[1])), None)]), nobounded=True, noreplay=True)
def t_maybe(h):
    m = M(h)
    g, bit, _ = h.lay.bit('mjs', 'inhibit_gc')
    inh = z3.Extract(bit, bit, h.ex.peek(h.st, simp(m.o.base + g), 1)) == 1
    for s, r in h.call(h.st, 'maybe_gc', m.addr):
        ran = s.g.get('ran')
        h.ensure(s, (r != 0) == z3.Not(inh), 'a collection runs unless inhibited')
        h.ensure(s, z3.Not(inh) == (ran is not None), 'a collection runs unless inhibited')


def setg(st, k, v):
    st.g[k] = v
    return st


# ---------------------------------------------------------------- string store
def t_compact(h, shape):
    """marking then compacting: every referenced string keeps its content, unreferenced ones go"""
    ex = h.ex
    PW = h.PW
    m = M(h)
    shape0, shape = shape, [n if n < 128 else n + 1 for n in shape]     # sizes without the first prefix byte and the NUL
    total = 1 + sum(n + 2 for n in shape)
    sb = h.obj('strings', BVV(total, PW), kind='heap')
    offs = []
    o = 1
    st0 = h.st
    ex.poke(st0, sb, 0, 1, BVV(0, 8))
    for n in shape0:
        offs.append(o)
        ll = 1 if n < 128 else 2
        ex.poke(st0, sb, o, ll, BVV(n if n < 128 else (n & 127 | 128) | n >> 7 << 8, 8 * ll))
        ex.poke(st0, sb, o + n + ll, 1, BVV(0, 8))
        o += n + ll + 1
    m.put(st0, 'owned_strings.buf', sb.base)
    m.put(st0, 'owned_strings.len', BVV(total, PW))
    m.put(st0, 'owned_strings.size', BVV(total, PW))
    content = [ex.peek(st0, simp(sb.base + a), n + 2) for a, n in zip(offs, shape)]
    slots = h.obj('slots', BVV(8 * 4, PW), kind='input', zero=True)
    sel = h.sym('sel', 12)
    no = 0
    combos = [c for k in range(4) for c in itertools.product(range(len(shape)), repeat=k)]
    for c in combos:
        no += 1
        for s in h.case(st0, sel == no):
            for i, t in enumerate(c):
                ex.poke(s, slots, 8 * i, 8, BVV(h.k['MJS_TAG_STRING_O'] | offs[t], 64))
            cur = [s]
            for i in range(len(c)):
                cur = [s2 for s1 in cur for s2, _ in h.call(s1, 'gc_mark', m.addr, simp(slots.base + 8 * i))]
            for s1 in cur:
                for s2, _ in h.call(s1, 'gc_compact_strings', m.addr):
                    keep = sorted(set(c))
                    h.ensure(s2, m.get(s2, 'owned_strings.len') == 1 + sum(shape[t] + 2 for t in keep), 'unreferenced strings are gone')
                    h.ensure(s2, h.byte(s2, sb, 0) == 0, 'marks are cleared')
                    at = {}
                    o = 1
                    for t in keep:
                        at[t] = o
                        h.ensure(s2, ex.peek(s2, simp(sb.base + o), shape[t] + 2) == content[t], 'a referenced string keeps its content')
                        o += shape[t] + 2
                    for i, t in enumerate(c):
                        h.ensure(s2, ex.peek(s2, simp(slots.base + 8 * i), 8) == BVV(h.k['MJS_TAG_STRING_O'] | at[t], 64),
                                 'every reference follows its string')


for _sh in ((6,), (6, 9), (7, 6, 8), (6, 130, 7)):
    task('C07', 'compact_' + '_'.join(map(str, _sh)), ['gc_compact_strings', 'gc_mark'], mode='bounded', assumes=ASSUME, cost=2,
         bound='string stores of %d strings of %s bytes, up to 3 references' % (len(_sh), _sh), bunroll=24)(lambda h, s=_sh: t_compact(h, s))


# ---------------------------------------------------------------- values registered by the host
class Scan(Loopspec):
    """entries behind the current one differ from the pointer looked for"""

    def __init__(self):
        self.modifies = None
        self.dec = None

    def inv(self, ctx):
        ex, st = ctx.ex, ctx.st
        S = st.g['disown']
        k = [ctx.env[p] for p in ctx.env['phis'] if z3.is_bv(ctx.env[p]) and ctx.env[p].size() == ex.PW]
        if len(k) != 1:
            raise Undecided('entry pointer not found')
        vp = k[0]
        d = vp - S['base']
        j = S['j']
        return [('entries are visited backwards', z3.And(d >= -ex.PB, d < S['n'] * ex.PB, z3.Extract(2 if ex.PB == 8 else 1, 0, d) == 0)),
                ('no entry behind is the one', z3.Implies(z3.And(j * ex.PB > d, z3.ULT(j, S['n'])), S['at'](j) != S['v']))]


def owned(h, bound):
    m = M(h)
    n = h.size('n', 24, bound=bound)
    cap = h.size('cap', 26, bound=bound + 2)
    h.assume(z3.UGE(cap, n))
    b = h.obj('owned', simp(cap * h.PB), kind='heap')
    h.assume(cap != 0)
    m.put(h.st, 'owned_values.buf', b.base)
    m.put(h.st, 'owned_values.len', simp(n * h.PB))
    m.put(h.st, 'owned_values.size', simp(cap * h.PB))
    return m, n, b


@task('C07', 'disown', ['mjs_disown'], loops={('mjs_disown', 0): Scan()}, malloc_may_fail=False, bound='up to 4 values', bunroll=8)
def t_disown(h):
    m, n, b = owned(h, 4)
    v = h.sym('v', h.PW)
    j = h.size('j', 24, bound=4)
    st0 = h.snap(h.st)
    at = lambda i: h.ex.peek(st0, simp(b.base + i * h.PB), h.PB)
    h.st.g['disown'] = dict(n=n, v=v, base=b.base, at=at, j=j)
    h.assume(z3.ULT(j, n))
    last = n - 1
    for s, r in h.call(h.st, 'mjs_disown', m.addr, v):
        ln = m.get(s, 'owned_values.len')
        now = h.ex.peek(s, simp(b.base + j * h.PB), h.PB)
        h.ensure(s, m.get(s, 'owned_values.buf') == b.base, 'the list stays where it is')
        for s1 in h.case(s, r == 0):
            h.ensure(s1, ln == n * h.PB, 'a value that is not registered changes nothing')
            h.ensure(s1, z3.And(at(j) != v, now == at(j)), 'a value is found if it is registered')
        for s1 in h.case(s, r != 0):
            h.ensure(s1, z3.And(r == 1, ln == (n - 1) * h.PB), 'one entry is removed')
            h.ensure(s1, z3.Implies(z3.And(at(j) != v, j != last), now == at(j)), 'other entries stay registered')
            h.ensure(s1, z3.Implies(z3.And(at(j) == v, j != last), z3.Or(now == v, now == at(last))), 'the last entry takes the place of the one removed')
    # exactly one occurrence goes: checked for lists without duplicates
    

@task('C07', 'disown_once', ['mjs_disown'], mode='bounded', bound='up to 4 values', bunroll=8)
def t_disown2(h):
    m, n, b = owned(h, 4)
    v = h.sym('v', h.PW)
    st0 = h.st
    for k in range(5):
        for s in h.case(st0, n == k):
            old = [h.ex.peek(s, simp(b.base + i * h.PB), h.PB) for i in range(k)]
            w = h.sym('w%d' % k, h.PW)
            cnt = lambda l: sum([z3.If(x == w, BVV(1, 8), BVV(0, 8)) for x in l], BVV(0, 8))
            for s1, r in h.call(s, 'mjs_disown', m.addr, v):
                for s2 in h.case(s1, r == 0):
                    h.ensure(s2, z3.And([x != v for x in old] or [z3.BoolVal(True)]), 'a value is found if it is registered')
                for s2 in h.case(s1, r != 0):
                    if k == 0:
                        h.ensure(s2, False, 'nothing is registered')
                        continue
                    new = [h.ex.peek(s2, simp(b.base + i * h.PB), h.PB) for i in range(k - 1)]
                    h.ensure(s2, cnt(new) == cnt(old) - z3.If(w == v, BVV(1, 8), BVV(0, 8)), 'exactly one registration is removed')


@task('C07', 'disown_none', ['mjs_disown'])
def t_disown0(h):
    m = M(h)
    for f in ('buf', 'len', 'size'):
        m.put(h.st, 'owned_values.' + f, BVV(0, h.PW))
    for s, r in h.call(h.st, 'mjs_disown', m.addr, h.sym('v', h.PW)):
        h.ensure(s, z3.And(r == 0, m.get(s, 'owned_values.len') == 0), 'nothing is registered')


@task('C07', 'own', ['mjs_own'], replace=MOVE, malloc_may_fail=False, bound='up to 4 values')
def t_own(h):
    m, n, b = owned(h, 4)
    v = h.sym('v', h.PW)
    j = h.size('j', 24, bound=4)
    h.assume(z3.ULT(j, n))
    oldj = h.ex.peek(h.st, simp(b.base + j * h.PB), h.PB)
    for s, r in h.call(h.st, 'mjs_own', m.addr, v):
        q, ln = m.get(s, 'owned_values.buf'), m.get(s, 'owned_values.len')
        h.ensure(s, ln == (n + 1) * h.PB, 'one entry is added')
        h.ensure(s, h.ex.peek(s, simp(q + n * h.PB), h.PB) == v, 'the value is registered')
        h.ensure(s, h.ex.peek(s, simp(q + j * h.PB), h.PB) == oldj, 'other entries stay registered')
