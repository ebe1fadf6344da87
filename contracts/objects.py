"""C09: an object is a map from names to values: set, get, delete and iteration agree, for every list of properties."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Undecided, bconst, isval, simp, toint
from lvc.walk import Walk
from .common import MB
from .mbuf import MBUF
from .mjs import ERR, M, _field
from .strs import STRS, DStr, Str, find, reg, tagof
from .values import anyval, spec, tag

ASSUME = ['property names of at most 5 bytes are stored inlined and no name occurs twice (established by mjs_set, the only '
          'writer of property lists, see the set tasks)', 'memory for cells and strings can be obtained']


def c_alloc_cell(ex, st, a):
    """a fresh zeroed cell of the arena (C06); may schedule a collection"""
    m, arena = a
    lay = ex.lay
    o, n = lay.off('gc_arena', 'cell_size')
    size = None
    for f, s in (('object_arena', 'mjs_object'), ('property_arena', 'mjs_property'), ('ffi_sig_arena', 'mjs_ffi_sig')):
        b, _ = _field(ex, m, f + '.blocks')
        if simp(b).eq(simp(arena)):
            size = lay.size(s)
    if size is None:
        raise Undecided('unknown arena')
    g, bit, _ = lay.bit('mjs', 'need_gc')
    ng = ex.load(st, simp(m + g), 1)
    ex.store(st, simp(m + g), 1, simp(ng | (z3.ZeroExt(7, ex.fresh('need_gc', 1)) << bit)))
    c = ex.newobj(st, 'cell', BVV(size, ex.PW), 'cell', content='zero', align=8)
    st.events = st.events + (('cell', c.id),)
    return [(st, c.base)]


CELLS = {'gc_alloc_cell': c_alloc_cell}


def arena(h, m, field, struct, cells=4):
    """outside proof mode: a real free list of `cells` cells (in proof mode gc_alloc_cell is replaced by its contract)"""
    if h.mode == 'proof':
        return
    n = h.lay.size(struct)
    a = h.obj(field + '.cells', BVV(n * cells, h.PW), kind='input', zero=True)
    for i in range(cells - 1):
        h.ex.poke(h.st, a, i * n, h.PB, simp(a.base + (i + 1) * n))
    m.put(h.st, field + '.free', a.base)
    m.put(h.st, field + '.cell_size', BVV(n, h.PW))


class Key:
    """a property name: content bytes and, for at most 5 bytes, its inlined value"""

    def __init__(self, h, n, byte):
        self.h, self.n, self.byte = h, n, byte
        n8 = z3.Extract(7, 0, n)
        bs = [z3.If(z3.UGT(n, i), byte(i), BVV(0, 8)) for i in range(5)]
        v5 = z3.Concat(BVV(tagof(h, '5'), 16), BVV(0, 8), *bs[::-1])
        vi = z3.Concat(BVV(tagof(h, 'I'), 16), BVV(0, 8), *(bs[:4][::-1] + [n8]))
        self.v5, self.vi = simp(v5), simp(vi)
        self.short = simp(z3.If(n == 5, v5, vi))


def rawkey(h, name, cls, nul=False):
    """a name given as pointer and length"""
    n = h.size(name + '.n', bound=9)
    h.assume(z3.ULE(n, 5) if cls == 'short' else z3.And(z3.UGE(n, 6), z3.ULE(n, BVV(1 << 30, h.PW))))
    o = h.obj(name, simp(n + 1) if nul else n, kind='input', align=1)
    if nul:
        h.assume(h.byte(h.st, o, n) == 0)
        h.st.g[('nul', o.id)] = (n,)
        h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, n), h.byte(h.st, o, i) != 0))
    h.ex.point(h.st, n)
    if cls == 'short' and h.mode == 'proof':
        for i in range(5):
            h.ex.point(h.st, i)
    st0 = h.snap(h.st)
    k = Key(h, n, lambda i: h.byte(st0, o, i))
    k.o = o
    return k


def strkey(h, m, name, kind):
    s = Str(h, m, name, kind, min=0 if kind in 'I5' else 6, bound=9)
    st0 = h.snap(h.st)
    k = Key(h, s.n, lambda i: s.byte(i, st0))
    k.v = s.v
    k.s = s
    return k


class Props:
    """the property list of an object: in proof mode of arbitrary length, otherwise up to three properties"""

    def __init__(self, h, m, key, cls, name='o', arr=True):
        self.h, self.m, self.key, self.cls, self.name = h, m, key, cls, name
        self.n = 0
        self.o = h.structobj(name, 'mjs_object', kind='input', zero=True)
        kind = h.boolean(name + '.isarr') if arr else bconst(False)
        base = z3.Extract(47, 0, self.o.base)
        self.v = simp(z3.Concat(z3.If(kind, BVV(h.k['MJS_TAG_ARRAY'] >> 48, 16), BVV(h.k['MJS_TAG_OBJECT'] >> 48, 16)), base))
        self.offs = {f: h.lay.off('mjs_property', f)[0] for f in ('next', 'name', 'value')}
        self.psize = h.lay.size('mjs_property')
        if h.mode == 'proof':
            self.head = h.sym(name + '.head', h.PW)
            labels = ['I', '5', 'O', 'F'] + (['mI', 'm5'] if cls == 'short' else ['mO', 'mF'])
            h.st.g['walks'] = h.st.g.get('walks', ()) + (Walk(
                name, self.head, self.o.base, BVV(self.psize, h.PW), self.offs['next'], labels, self.mat,
                lambda l: not l.startswith('m')),)
            h.ex.poke(h.st, self.o, 0, h.PB, self.head)
            return
        self.nodes = []
        kinds = ['5', 'O', 'I'] if cls == 'short' else ['5', 'I', 'O']
        self.cnt = h.size(name + '.cnt', 3)
        L = len(kinds)
        h.assume(z3.ULE(self.cnt, L))
        objs = [h.obj('%s.p%d' % (name, i), BVV(self.psize, h.PW), kind='input') for i in range(L)]
        link = lambda i: simp(z3.If(z3.UGT(self.cnt, i), objs[i].base, BVV(0, h.PW))) if i < L else BVV(0, h.PW)
        for i, (o, kd) in enumerate(zip(objs, kinds)):
            s = Str(h, m, '%s.name%d' % (name, i), kd, min=6 if kd in 'OF' else 0, bound=9)
            val = anyval(h, '%s.val%d' % (name, i))
            h.ex.poke(h.st, o, self.offs['next'], h.PB, link(i + 1))
            h.ex.poke(h.st, o, self.offs['name'], 8, s.v)
            h.ex.poke(h.st, o, self.offs['value'], 8, val)
            self.nodes.append((o, s, val, self.eqkey(s)))
        self.head = link(0)
        h.ex.poke(h.st, self.o, 0, h.PB, self.head)
        for i in range(L):
            for j in range(i):
                a, b = self.nodes[i][1], self.nodes[j][1]
                if kinds[i] == kinds[j] == 'O':
                    h.assume(z3.Not(self.eqstr(a, b)))
                else:
                    h.assume(a.v != b.v)

    def eqstr(self, a, b):
        return z3.And([a.n == b.n] + [z3.Implies(z3.UGT(a.n, i), a.byte(i) == b.byte(i)) for i in range(9)])

    def eqkey(self, s):
        k = self.key
        if s.kind in 'I5':
            return z3.And(z3.ULE(k.n, 5), s.v == k.short)
        return z3.And([s.n == k.n] + [z3.Implies(z3.UGT(k.n, i), s.byte(i) == k.byte(i)) for i in range(9)])

    def mat(self, ex, st, N, label, role):
        h, k = self.h, self.key
        self.n += 1
        u = '%s.%s%d' % (self.name, label, self.n)
        h0, h.st = h.st, st
        try:
            if label in ('mI', 'm5'):
                v = k.v5 if label == 'm5' else k.vi
                ex.assume(st, k.n == 5 if label == 'm5' else z3.ULE(k.n, 4))
                reg(st, DStr(v, k.n, label[1], self.m.addr))
            else:
                kd = label[-1]
                s = Str(h, self.m, u, kd, min=6 if kd in 'OF' else 0)
                v = s.v
                st0 = st.copy()
                if label[0] == 'm':
                    ex.assume(st, s.n == k.n)
                    ex.fact(st, lambda i: z3.Implies(z3.ULT(i, k.n), s.byte(i, st0) == k.byte(i)))
                elif kd in 'I5':
                    ex.assume(st, v != (k.v5 if kd == '5' else k.vi) if self.cls == 'short' else bconst(True))
                elif self.cls == 'long':
                    w = h.size(u + '.w')
                    ex.point(st, w)
                    ex.assume(st, z3.Or(s.n != k.n, z3.And(z3.ULT(w, k.n), s.byte(w, st0) != k.byte(w))))
            val = h.sym(u + '.val', 64)
            nx = h.sym(u + '.next', h.PW)
            ex.poke(st, N, self.offs['next'], h.PB, nx)
            ex.poke(st, N, self.offs['name'], 8, v)
            ex.poke(st, N, self.offs['value'], 8, val)
        finally:
            h.st = h0

    # ---- specification side
    def fld(self, s, o, f):
        return self.h.ex.peek(s, simp(o.base + self.offs[f]), 8 if f != 'next' else self.h.PB)

    def outcome(self, s, old):
        """the property with the name asked for: yields (state, node or None, predecessor or None)"""
        h = self.h
        if h.mode == 'proof':
            r = s.g.get('walk:' + self.name)
            if r is None:
                raise Undecided('the property list was not walked')
            if r.label is not None and not r.label.startswith('m'):
                h.ensure(s, False, 'the search ends only at the property asked for or at the end of the list')
                return
            self.pre = {o.id: {f: h.ex.rd(s, r.mem[o.id], self.offs[f], 8 if f != 'next' else h.PB) for f in self.offs}
                        for o in (r.N, r.P) if o is not None}
            yield s, r.N, r.P
            return
        self.pre = {o.id: {f: self.fld(old, o, f) for f in self.offs} for o, _, _, _ in self.nodes}
        none = bconst(True)
        for i, (o, sn, val, eq) in enumerate(self.nodes):
            c = z3.And(z3.UGT(self.cnt, i), eq)
            for s1 in h.case(s, z3.And(none, c)):
                yield s1, o, self.nodes[i - 1][0] if i else None
            none = z3.And(none, z3.Not(c))
        for s1 in h.case(s, none):
            yield s1, None, None

    def unchanged(self, s, what='', skip=()):
        """every property still has its name, value and successor (except the (node, field) pairs in skip)"""
        h = self.h
        if h.mode == 'proof':
            r = s.g['walk:' + self.name]
            ns = [(o, None) for o in (r.N, r.P) if o is not None]
        else:
            ns = [(o, z3.UGT(self.cnt, i)) for i, (o, _, _, _) in enumerate(self.nodes)]
        for o, c in ns:
            for f in self.offs:
                if (o.id, f) in skip:
                    continue
                e = self.fld(s, o, f) == self.pre[o.id][f]
                h.ensure(s, e if c is None else z3.Implies(c, e), 'other properties are unchanged' + what)

    def curhead(self, s):
        return self.h.ex.peek(s, self.o.base, self.h.PB)


# ---------------------------------------------------------------- tasks
def setup(h, cls, kind=None, nul=False, alloc=False):
    m = M(h)
    b = m.mb('owned_strings', bound=48)
    h.assume(z3.UGE(b.len, 1))
    m.mb('foreign_strings', bound=48)
    arena(h, m, 'property_arena', 'mjs_property')
    key = strkey(h, m, 'key', kind) if kind else rawkey(h, 'key', cls, nul)
    p = Props(h, m, key, cls)
    return m, key, p


OPT = dict(always=dict(ERR, **MBUF), replace=dict(STRS, **CELLS), breplace=STRS, malloc_may_fail=False, assumes=ASSUME, bunroll=24,
           bound='up to 3 properties, names up to 9 bytes')


def t_own(h, cls):
    m, k, p = setup(h, cls)
    old = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_get_own_property', m.addr, p.v, k.o, k.n):
        for s1, N, P in p.outcome(s, old):
            h.ensure(s1, r == (N.base if N is not None else 0), 'the property of that name, or NULL if there is none')
            p.unchanged(s1)


def t_own_v(h, kind):
    m, k, p = setup(h, 'short' if kind in 'I5' else 'long', kind)
    old = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_get_own_property_v', m.addr, p.v, k.v):
        for s1, N, P in p.outcome(s, old):
            h.ensure(s1, r == (N.base if N is not None else 0), 'the property of that name, or NULL if there is none')
            p.unchanged(s1)


def und(h):
    return BVV(h.k['MJS_UNDEFINED'], 64)


def checkget(h, p, s, r, old):
    for s1, N, P in p.outcome(s, old):
        h.ensure(s1, r == (p.pre[N.id]['value'] if N is not None else und(h)), 'the value of the property, or undefined')
        p.unchanged(s1)


def t_get(h, cls, nul):
    m, k, p = setup(h, cls, nul=nul)
    old = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_get', m.addr, p.v, k.o, BVV(-1, h.PW) if nul else k.n):
        checkget(h, p, s, r, old)


def t_get_v(h, kind):
    m, k, p = setup(h, 'short' if kind in 'I5' else 'long', kind)
    old = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_get_v', m.addr, p.v, k.v):
        checkget(h, p, s, r, old)


def content(h, s, m, v, k, what):
    """the string value v has the content of key k (state s)"""
    d = find(h.ex, s, v) if h.mode == 'proof' else None
    cell = h.ex.newobj(s, 'namecell', BVV(8, h.PW), 'input', content='zero', align=16)
    h.ex.poke(s, cell, 0, 8, v)
    j = h.size('name.j', bound=12)
    if d is None and h.mode == 'proof':
        h.ensure(s, False, what)
        return
    if h.mode == 'proof':
        outs = [(s, d.ptr(h.ex, s, cell.base), d.n)]
    else:
        z = h.ex.newobj(s, 'namelen', BVV(h.PB, h.PW), 'input', content='zero', align=16)
        outs = [(s2, q, h.ex.peek(s2, z.base, h.PB)) for s2, q in h.call(s, 'mjs_get_string', m.addr, cell, z)]
    for s2, q, n in outs:
        h.ensure(s2, n == k.n, what)
        for s3 in h.case(s2, z3.And(z3.ULT(j, k.n), z3.ULT(j, n))):
            h.ensure(s3, h.byte(s3, q, j) == k.byte(j), what)


def t_set(h, cls, kind=None, nul=False):
    m, k, p = setup(h, cls, kind, nul=nul, alloc=True)
    val = anyval(h, 'val')
    om = m.owned_strings
    w = h.size('w')
    ow = h.byte(h.st, om.buf, w)
    old = h.snap(h.st)
    if kind:
        outs = h.call(h.st, 'mjs_set_v', m.addr, p.v, k.v, val)
    else:
        outs = h.call(h.st, 'mjs_set', m.addr, p.v, k.o, BVV(-1, h.PW) if nul else k.n, val)
    done = False
    for s, r in outs:
        h.ensure(s, r == 0, 'setting a property of an object succeeds')
        buf, ln, size = om.get(s)
        for s1 in h.case(s, z3.ULT(w, om.len)):
            h.ensure(s1, h.byte(s1, buf, w) == ow, 'existing strings are unchanged')
        for s1, N, P in p.outcome(s, old):
            if N is not None:
                h.ensure(s1, p.fld(s1, N, 'value') == val, 'an existing property takes the new value')
                p.unchanged(s1, skip={(N.id, 'value')})
                h.ensure(s1, p.curhead(s1) == h.ex.peek(old, p.o.base, h.PB) if h.mode != 'proof' else
                         p.curhead(s1) == h.ex.rd(s1, s1.g['walk:o'].mem[p.o.id], 0, h.PB), 'no property is added')
            else:
                q = p.curhead(s1)
                g = lambda f: h.ex.peek(s1, simp(q + p.offs[f]), 8 if f != 'next' else h.PB)
                h.ensure(s1, g('next') == p.head, 'the new property is followed by the existing ones')
                h.ensure(s1, g('value') == val, 'the new property has the value')
                nm = g('name')
                if cls == 'short':
                    h.ensure(s1, nm == k.short, 'short names are stored inlined')
                elif not done or h.mode != 'proof':
                    pass
                if cls == 'long':
                    h.ensure(s1, tag(h, nm, 'STRING_O', 'STRING_F', 'STRING_D'), 'the new property has that name')
                    if kind:
                        h.ensure(s1, nm == k.v, 'the new property has that name')
                    else:
                        names(h, s1, m, nm, k)
                p.unchanged(s1)


def names(h, s, m, nm, k):
    ex = h.ex
    j = h.syms.get('name.j')
    if j is None:
        h.size('name.j', 12)
        j = h.syms['name.j']
    j = z3.ZeroExt(h.PW - 12, j)
    cell = ex.newobj(s, 'namecell', BVV(8, h.PW), 'input', content='zero', align=16)
    ex.poke(s, cell, 0, 8, nm)
    if h.mode == 'proof':
        d = find(ex, s, nm)
        if d is None:
            h.ensure(s, False, 'the new property has that name')
            return
        outs = [(s, d.ptr(ex, s, cell.base), d.n)]
    else:
        z = ex.newobj(s, 'namelen', BVV(h.PB, h.PW), 'input', content='zero', align=16)
        outs = [(s2, q, ex.peek(s2, z.base, h.PB)) for s2, q in h.call(s, 'mjs_get_string', m.addr, cell, z)]
    for s2, q, n in outs:
        h.ensure(s2, n == k.n, 'the new property has that name')
        for s3 in h.case(s2, z3.And(z3.ULT(j, k.n), z3.ULT(j, n))):
            h.ensure(s3, h.byte(s3, q, j) == k.byte(j), 'the new property has that name')


def t_del(h, cls, nul=False):
    m, k, p = setup(h, cls, nul=nul)
    old = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_del', m.addr, p.v, k.o, BVV(-1, h.PW) if nul else k.n):
        for s1, N, P in p.outcome(s, old):
            if N is None:
                h.ensure(s1, r == BVV(-1, 32), 'deleting a property that does not exist reports so')
                p.unchanged(s1)
                h.ensure(s1, p.curhead(s1) == p.head, 'nothing is removed')
                continue
            h.ensure(s1, r == 0, 'deleting an existing property succeeds')
            nx = p.pre[N.id]['next']
            if P is None:
                h.ensure(s1, p.curhead(s1) == nx, 'the property is unlinked')
                p.unchanged(s1)
            else:
                h.ensure(s1, p.fld(s1, P, 'next') == nx, 'the property is unlinked')
                h.ensure(s1, p.curhead(s1) == p.head, 'the first property stays')
                p.unchanged(s1, skip={(P.id, 'next')})


def t_nonobj(h):
    m = M(h)
    m.mb('owned_strings')
    v = anyval(h, 'v')
    sv = spec(h, v)
    h.assume(z3.Not(z3.Or(sv['object'], sv['array'])))
    k = rawkey(h, 'key', 'short')
    val = anyval(h, 'val')
    for s, r in h.call(h.snap(h.st), 'mjs_get', m.addr, v, k.o, k.n):
        h.ensure(s, r == und(h), 'a value that is no object has no properties')
    for s, r in h.call(h.snap(h.st), 'mjs_get_own_property', m.addr, v, k.o, k.n):
        h.ensure(s, r == 0, 'a value that is no object has no properties')
    for s, r in h.call(h.snap(h.st), 'mjs_set', m.addr, v, k.o, k.n, val):
        h.ensure(s, r == h.lay.enums['MJS_REFERENCE_ERROR'], 'setting a property of a non-object is an error')
    for s, r in h.call(h.snap(h.st), 'mjs_del', m.addr, v, k.o, k.n):
        h.ensure(s, r == BVV(-1, 32), 'deleting from a non-object reports so')


def t_next(h, first):
    m = M(h)
    o = h.structobj('o', 'mjs_object', kind='input', zero=True)
    v = simp(z3.Concat(BVV(h.k['MJS_TAG_OBJECT'] >> 48, 16), z3.Extract(47, 0, o.base)))
    last = h.boolean('last')
    p0 = h.structobj('p0', 'mjs_property', kind='input')
    p1 = h.structobj('p1', 'mjs_property', kind='input')
    nm = anyval(h, 'name', ['string'])
    h.put(h.st, p1, 'mjs_property', 'name', nm)
    nx = simp(z3.If(last, BVV(0, h.PW), p1.base))
    it = h.obj('it', 8, kind='input', zero=True)
    ptr = lambda p: simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), z3.Extract(47, 0, p.base)))
    h.put(h.st, o, 'mjs_object', 'properties', nx if first else p0.base)
    h.put(h.st, p0, 'mjs_property', 'next', nx)
    h.ex.poke(h.st, it, 0, 8, und(h) if first else ptr(p0))
    for s, r in h.call(h.st, 'mjs_next', m.addr, v, it):
        i = h.ex.peek(s, it.base, 8)
        h.ensure(s, r == z3.If(last, und(h), nm), 'iteration yields the name of the following property, then undefined')
        h.ensure(s, i == z3.If(last, und(h), ptr(p1)), 'the iterator advances by one property')
        h.ensure(s, h.get(s, p1, 'mjs_property', 'name') == nm, 'properties are unchanged')


def t_mk(h):
    m = M(h)
    arena(h, m, 'object_arena', 'mjs_object')
    for s, v in h.call(h.st, 'mjs_mk_object', m.addr):
        h.ensure(s, spec(h, v)['object'], 'the result is an object')
        h.ensure(s, h.ex.peek(s, simp(z3.ZeroExt(16, z3.Extract(47, 0, v))), h.PB) == 0, 'a new object has no properties')


def c_own_v(ex, st, a):
    """own property lookup, recorded: NULL or a property record"""
    out = []
    n = len(st.g.get('own', ()))
    for found in (False, True):
        s = st.copy()
        if found:
            p = ex.newobj(s, 'prop%d' % n, ex.lay.size('mjs_property'), 'input', align=8)
            val = ex.peek(s, simp(p.base + ex.lay.off('mjs_property', 'value')[0]), 8)
        s.g['own'] = s.g.get('own', ()) + ((a[1], a[2], val if found else None),)
        out.append((s, p.base if found else BVV(0, ex.PW)))
    return out


def c_proto(ex, st, a):
    """the first call is the one under verification, a recursive call is used by contract"""
    if not st.g.get('proto'):
        st.g['proto'] = True
        return None
    v = ex.fresh('inherited', 64)
    st.g['rec'] = st.g.get('rec', ()) + ((a[1], a[2], v),)
    return [(st, v)]


def t_proto(h):
    m = M(h)
    obj, key = anyval(h, 'obj', ['object', 'array']), anyval(h, 'key', ['string'])
    pv = BVV(int.from_bytes(b'\x03__p\0\0\0', 'little') | h.k['MJS_TAG_STRING_I'], 64)
    for s, r in h.call(h.st, 'mjs_get_v_proto', m.addr, obj, key):
        own = s.g.get('own', ())
        rec = s.g.get('rec', ())
        h.ensure(s, z3.And(own[0][0] == obj, own[0][1] == key) if own else False, 'own properties are looked up first')
        if not own:
            continue
        if own[0][2] is not None:
            h.ensure(s, z3.And(r == own[0][2], len(rec) == 0), 'an own property hides the inherited one')
            continue
        ok = len(own) == 2
        h.ensure(s, z3.And(own[1][0] == obj, own[1][1] == pv) if ok else False, 'then the prototype is looked up')
        if not ok:
            continue
        if own[1][2] is None:
            h.ensure(s, z3.And(r == und(h), len(rec) == 0), 'without a prototype the property is undefined')
        else:
            h.ensure(s, z3.And(len(rec) == 1, rec[0][0] == own[1][2], rec[0][1] == key, r == rec[0][2]) if rec else False,
                     'otherwise the property of the prototype is used')


for _c in ('short', 'long'):
    task('C09', 'own_' + _c, ['mjs_get_own_property'], **OPT)(lambda h, c=_c: t_own(h, c))
    for _n in (False, True):
        _s = _c + ('_cstr' if _n else '')
        task('C09', 'get_' + _s, ['mjs_get'], **OPT)(lambda h, c=_c, n=_n: t_get(h, c, n))
        task('C09', 'del_' + _s, ['mjs_del'], **OPT)(lambda h, c=_c, n=_n: t_del(h, c, n))
    task('C09', 'set_' + _c, ['mjs_set', 'mjs_set_internal'], **OPT)(lambda h, c=_c: t_set(h, c))
for _k in 'I5OF':
    task('C09', 'own_v_' + _k, ['mjs_get_own_property_v'], **OPT)(lambda h, k=_k: t_own_v(h, k))
    task('C09', 'get_v_' + _k, ['mjs_get_v'], **OPT)(lambda h, k=_k: t_get_v(h, k))
    task('C09', 'set_v_' + _k, ['mjs_set_v', 'mjs_set_internal'], **OPT)(lambda h, k=_k: t_set(h, 'short' if k in 'I5' else 'long', k))
task('C09', 'non_object', ['mjs_get', 'mjs_set', 'mjs_del', 'mjs_get_own_property'], **OPT)(t_nonobj)
task('C09', 'next_first', ['mjs_next'], **OPT)(lambda h: t_next(h, True))
task('C09', 'next_following', ['mjs_next'], **OPT)(lambda h: t_next(h, False))
task('C09', 'new_object', ['mjs_mk_object'], **OPT)(t_mk)
task('C09', 'proto', ['mjs_get_v_proto'], nobounded=True, noreplay=True,
     **dict(OPT, replace=dict(STRS, mjs_get_own_property_v=c_own_v, mjs_get_v_proto=c_proto)))(t_proto)
