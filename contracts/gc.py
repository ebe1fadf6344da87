"""C06: cell arenas: cells are handed out zeroed and once, and a sweep keeps exactly the marked ones."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Fork, Loopspec, PathEnd, Undecided, bconst, isval, simp, toint
from lvc.walk import ArrWalk, Walk
from .mjs import ERR, M, _field
from .values import anyval, spec

STRUCT = ('mjs_object', 'mjs_property', 'mjs_ffi_sig')
ARENA = dict(mjs_object='object_arena', mjs_property='property_arena', mjs_ffi_sig='ffi_sig_arena')
ASSUME = ['memory for blocks can be obtained (the code aborts otherwise)', 'cells are 4-byte aligned, so the two low bits of their first word are free for marks']


def aoff(h, f):
    return h.lay.off('gc_arena', f)[0]


def arena(h, name='arena'):
    return h.structobj(name, 'gc_arena', kind='input')


def aput(h, st, a, f, v):
    h.put(st, a, 'gc_arena', f, v)


def aget(h, st, a, f):
    return h.get(st, a, 'gc_arena', f)


# ---------------------------------------------------------------- a new block
class Thread(Loopspec):
    """cells before the current one are linked, each to its predecessor, and otherwise zero"""

    def __init__(self):
        self.dec = None

    def cur(self, ctx):
        G = ctx.st.g['blk']
        k = [(p, ctx.env[p]) for p in ctx.env['phis'] if z3.is_bv(ctx.env[p]) and ctx.env[p].size() == ctx.ex.PW]
        if len(k) != 1:
            raise Undecided('cell pointer not found')
        return k[0][1]

    def inv(self, ctx):
        ex, st = ctx.ex, ctx.st
        G = st.g['blk']
        h, a, cs, n = G['h'], G['a'], G['cs'], G['n']
        if '_entry' not in ctx.env:
            st.g['base'] = simp(self.cur(ctx))
        base = st.g['base']
        if '_loopold' not in ctx.env or ctx.env['_loopold'].get('i') is None:
            i = BVV(0, ex.PW) if '_entry' not in ctx.env else st.g['i']
        else:
            i = simp(ctx.env['_loopold']['i'] + 1)
        cur = self.cur(ctx)
        if '_loopold' in ctx.env and 'i' not in ctx.env['_loopold']:
            ctx.env['_loopold']['i'] = i
        free = aget(h, st, a, 'free')
        w, x = G['w'], G['x']
        out = [('cells are visited in order', z3.And(cur == base + i * cs, z3.ULE(i, n))),
               ('the last cell threaded heads the free list', free == z3.If(i == 0, G['free'], base + (i - 1) * cs))]
        link = ex.peek(st, simp(base + w * cs), ex.PB)
        out.append(('each cell links to the one before', z3.Implies(z3.ULT(w, i), link == z3.If(w == 0, G['free'], base + (w - 1) * cs))))
        out.append(('the rest of the cell is zero', z3.Implies(z3.ULT(w, n), ex.peek(st, simp(base + w * cs + x), 1) == 0)))
        return out

    def modifies(self, ctx):
        ex, st = ctx.ex, ctx.st
        G = st.g['blk']
        o, _ = ex.resolve_spec(st, st.g['base'])
        ex.havoc(st, o)
        st.g['i'] = ex.fresh('i', ex.PW)
        aput(G['h'], st, G['a'], 'free', ex.fresh('free', ex.PW))


def t_init(h, struct):
    """gc_arena_init: one block, every cell of it free"""
    cs = h.lay.size(struct)
    a = arena(h)
    n = h.size('n', 24, bound=4)
    h.assume(z3.UGE(n, 1))
    inc = h.sym('inc', h.PW)
    w, x = h.size('w', 24, bound=4), h.size('x', 5)
    h.assume(z3.And(z3.ULT(w, n), z3.UGE(x, h.PB), z3.ULT(x, cs)) if cs > h.PB else z3.And(z3.ULT(w, n), x == 0))
    if cs == h.PB:
        x = None
    h.st.g['blk'] = dict(h=h, a=a, cs=cs, n=n, free=BVV(0, h.PW), w=w, x=x if x is not None else BVV(cs, h.PW))
    if h.mode == 'proof' and x is None:
        Thr = h.ex.loopspecs[('gc_new_block', 0)]
        inv0 = Thr.inv
        h.ex.loopspecs[('gc_new_block', 0)] = type('T', (Thread,), dict(inv=lambda s, c: Thread.inv(s, c)[:3]))()
    for s, _ in h.call(h.st, 'gc_arena_init', a, BVV(cs, h.PW), n, inc):
        b = aget(h, s, a, 'blocks')
        h.ensure(s, z3.And(aget(h, s, a, 'cell_size') == cs, aget(h, s, a, 'size_increment') == inc), 'sizes are recorded')
        h.ensure(s, aget(h, s, a, 'destructor') == 0, 'no destructor yet')
        h.ensure(s, b != 0, 'there is a block')
        g = lambda f: h.get(s, b, 'gc_block', f)
        base = g('base')
        h.ensure(s, z3.And(g('next') == 0, g('size') == n), 'one block of that size')
        h.ensure(s, aget(h, s, a, 'free') == base + (n - 1) * cs, 'the last cell heads the free list')
        link = h.ex.peek(s, simp(base + w * cs), h.PB)
        h.ensure(s, link == z3.If(w == 0, BVV(0, h.PW), base + (w - 1) * cs), 'each cell links to the one before it')
        if x is not None:
            h.ensure(s, h.ex.peek(s, simp(base + w * cs + x), 1) == 0, 'the rest of each cell is zero')


for _s in STRUCT:
    task('C06', 'init_' + _s[4:], ['gc_arena_init', 'gc_new_block'], loops={('gc_new_block', 0): Thread()}, malloc_may_fail=False,
         assumes=ASSUME, bound='blocks of up to 4 cells', bunroll=8)(lambda h, s=_s: t_init(h, s))


# ---------------------------------------------------------------- allocation
def c_new_block(ex, st, a):
    """a block of n zeroed cells, all put on the free list (tasks init_*)"""
    ar, n = a
    off = lambda s, f: ex.lay.off(s, f)[0]
    cs = simp(ex.load(st, simp(ar + off('gc_arena', 'cell_size')), ex.PB))
    free = ex.load(st, simp(ar + off('gc_arena', 'free')), ex.PB)
    if not isval(cs):
        raise Undecided('cell size')
    cs = cs.as_long()
    out = []
    for k in (1, 2, 3, None):
        for s in ex.case(st, n == k if k else z3.UGE(n, 4)):
            out += block_of(ex, s, ar, BVV(k, ex.PW) if k else n, cs, free)
    return out


def block_of(ex, st, ar, n, cs, free):
    off = lambda s, f: ex.lay.off(s, f)[0]
    b = ex.newobj(st, 'block', BVV(ex.lay.size('gc_block'), ex.PW), 'heap', content='zero', align=16)
    m = ex.newobj(st, 'cells', simp(n * cs), 'heap', align=16)
    ex.poke(st, b, off('gc_block', 'base'), ex.PB, m.base)
    ex.poke(st, b, off('gc_block', 'size'), ex.PB, n)
    for k in range(4):
        if isval(n) and k >= n.as_long():
            break
        i = simp(n - 1 - k)
        ex.poke(st, m, toint(simp(i * cs)), ex.PB, simp(z3.If(i == 0, free, m.base + (i - 1) * cs)))
    ex.store(st, simp(ar + off('gc_arena', 'free')), ex.PB, simp(m.base + (n - 1) * cs))
    return [(st, b.base)]


def t_alloc(h, struct, empty):
    m = M(h)
    cs = h.lay.size(struct)
    fld = ARENA[struct]
    p = lambda f: fld + '.' + f
    m.put(h.st, p('cell_size'), BVV(cs, h.PW))
    st = h.st
    cells = []
    if empty:
        m.put(st, p('free'), BVV(0, h.PW))
        n = h.size('inc', 24, bound=4)
        h.assume(z3.UGE(n, 1))
        m.put(st, p('size_increment'), n)
        nfree = n
        m.put(st, p('blocks'), h.sym('oldblocks', h.PW))
        oldb = m.get(st, p('blocks'))
    else:
        cells = [h.obj('cell%d' % i, BVV(cs, h.PW), kind='input', align=8) for i in range(5)]
        nfree = h.size('nfree', 3)
        h.assume(z3.And(z3.UGE(nfree, 1), z3.ULE(nfree, 5)))
        for i, c in enumerate(cells):
            nx = cells[i + 1].base if i < 4 else None
            h.ex.poke(st, c, 0, h.PB, simp(z3.If(nfree == i + 1, BVV(0, h.PW), nx)) if nx is not None else
                      (BVV(0, h.PW) if h.mode != 'proof' else h.sym('farlink', h.PW)))
        m.put(st, p('free'), cells[0].base)
    g, bit, _ = h.lay.bit('mjs', 'need_gc')
    bits0 = h.ex.peek(st, simp(m.o.base + g), 1)
    w = h.size('w', 31)
    o1, nn = h.lay.off('mjs', p('free'))
    old = h.snap(st)
    for s, r in h.call(st, 'gc_alloc_cell', m.addr, simp(m.o.base + h.lay.off('mjs', p('blocks'))[0])):
        h.ensure(s, h.ex.peek(s, r, cs) == 0, 'the cell is zeroed')
        bits = h.ex.peek(s, simp(m.o.base + g), 1)
        mask = BVV(0xff ^ (1 << bit), 8)
        h.ensure(s, (bits & mask) == (bits0 & mask), 'other flags are unchanged')
        need = z3.Extract(bit, bit, bits) == 1
        was = z3.Extract(bit, bit, bits0) == 1
        h.ensure(s, need == z3.Or(was, z3.ULE(nfree, 3)), 'a collection is scheduled when at most two free cells are left')
        fr = m.get(s, p('free'))
        if empty:
            b = m.get(s, p('blocks'))
            gb = lambda f: h.get(s, b, 'gc_block', f)
            base = gb('base')
            h.ensure(s, z3.And(gb('next') == oldb, gb('size') == n), 'a block of the configured size is put in front')
            h.ensure(s, r == base + (n - 1) * cs, 'the cell comes from the new block')
            h.ensure(s, fr == z3.If(n == 1, BVV(0, h.PW), base + (n - 2) * cs), 'the other cells stay free')
        else:
            h.ensure(s, r == cells[0].base, 'the first free cell is taken')
            h.ensure(s, fr == h.ex.peek(old, cells[0].base, h.PB), 'it leaves the free list')
            for i, c in enumerate(cells[1:]):
                h.ensure(s, h.ex.peek(s, c.base, cs) == h.ex.peek(old, c.base, cs), 'other cells are unchanged')
            h.ensure(s, m.get(s, p('blocks')) == m.get(old, p('blocks')), 'no block is added')
        for f in ('object_arena', 'property_arena', 'ffi_sig_arena'):
            if f != fld:
                h.ensure(s, m.get(s, f + '.free') == m.get(old, f + '.free'), 'other arenas are unchanged')


for _s in STRUCT:
    for _e in (False, True):
        task('C06', 'alloc_%s%s' % (_s[4:], '_grow' if _e else ''), ['gc_alloc_cell'], replace=dict(gc_new_block=c_new_block),
             malloc_may_fail=False, assumes=ASSUME, bound='new blocks of up to 4 cells', bunroll=12)(lambda h, s=_s, e=_e: t_alloc(h, s, e))


# ---------------------------------------------------------------- sweep
def word(h, s, o):
    return h.ex.peek(s, o.base, h.PB)


def c_free(ex, st, a):
    """free(), recorded; block descriptors die"""
    st.g['freed'] = st.g.get('freed', ()) + (simp(a[0]),)
    for o in st.objs.values():
        if o.id not in st.dead and simp(a[0]).eq(simp(o.base)):
            st.dead = st.dead | {o.id}
    return [(st, None)]


def c_destr(ex, st, a):
    """the destructor of a cell, recorded"""
    st.g['destroyed'] = st.g.get('destroyed', ()) + ((a[0], simp(a[2])),)
    return [(st, None)]


def t_sweep(h, struct):
    if h.mode != 'proof':
        return r_sweep(h, struct)
    ex = h.ex
    m = M(h)
    cs = h.lay.size(struct)
    a = arena(h)
    PW = h.PW
    aput(h, h.st, a, 'cell_size', BVV(cs, PW))
    destr = h.sym('destructor', PW)
    aput(h, h.st, a, 'destructor', destr)
    fhead, bhead = h.sym('free.head', PW), h.sym('blocks.head', PW)
    aput(h, h.st, a, 'free', fhead)
    aput(h, h.st, a, 'blocks', bhead)
    bo = {f: h.lay.off('gc_block', f)[0] for f in ('next', 'base', 'size')}
    tmp = {aoff(h, f) for f in ('free',)}
    E = lambda st, c, n: ex.prove(st, c, n, 'ensures')

    # --- free cells
    def fmat(ex, st, N, label, role):
        ex.assume(st, z3.Extract(1, 0, word(h, st, N)) == 0)

    def fstep(ex, st, r, old, new):
        w0 = ex.rd(st, r.mem[r.N.id], 0, h.PB)
        E(st, word(h, st, r.N) == w0 | 2, 'free cells are told apart from used ones')
    free = Walk('freecells', fhead, None, BVV(cs, PW), 0, ['cell'], fmat, lambda l: True, fstep, None, lambda ex, st, oid: st.objs[oid].name.startswith('freecells'))

    # --- blocks
    def bmat(ex, st, N, label, role):
        ex.poke(st, N, bo['next'], h.PB, BVV(0, PW) if label == 'last' else ex.fresh('next', PW))
        if label != 'last':
            ex.assume(st, ex.peek(st, simp(N.base + bo['next']), h.PB) != 0)
        n = ex.fresh('cells', 24)
        n = simp(z3.ZeroExt(PW - 24, n))
        ex.assume(st, z3.UGE(n, 1))
        base = ex.fresh('cellmem', PW)
        ex.assume(st, z3.And(z3.ULE(base, BVV((1 << 46) if PW == 64 else 1 << 30, PW)), z3.UGE(base, 4096), z3.Extract(2, 0, base) == 0))
        ex.poke(st, N, bo['size'], h.PB, n)
        ex.poke(st, N, bo['base'], h.PB, base)
        if role == 'cur':
            st.g['blk'] = dict(n=n, base=base, N=N)
            wm = ex.fresh('witness.marked', 1) == 1
            w = ex.fresh('witness.idx', PW)
            ex.assume(st, z3.ULT(w, n))
            st.g['wit'] = (w, wm)
            st.g['walks'] = (free, blocks, ArrWalk('cells', base, n, cs, cmat, cstep, center, cmod))
            st.g['freed'] = ()

    def benter(ex, st, r, e):
        if r.first:
            f = BVV(0, PW)
            E(r_entry(st, r), aget(h, st, a, 'free') == 0, 'the free list is rebuilt from scratch')
        else:
            f = ex.fresh('free', PW)
            aput(h, st, a, 'free', f)
            for x in ('alive', 'garbage'):
                aput(h, st, a, x, ex.fresh(x, PW))
        st.g['free0'] = f
        st.g['atend'] = r.N is None

    def r_entry(st, r):
        return st

    def bstep(ex, st, r, old, new):
        c = st.g.get('walk:cells')
        if c is None or not c.end:
            E(st, False, 'all cells of the block are looked at')
            return
        B = st.g['blk']
        w, wm = st.g['wit']
        gone = r.N.id in st.dead
        fr = aget(h, st, a, 'free')
        E(st, bconst(gone) == z3.And(st.g['freedn'] == B['n'], r.label != 'last') if True else None, 'a block without used cells is released, except the first')
        if gone:
            E(st, z3.Not(wm), 'no cell in use is released')
            E(st, fr == st.g['free0'], 'the cells of a released block leave the free list')
            f = st.g['freed']
            ok = len(f) == 2
            E(st, z3.Or(z3.And(f[0] == B['base'], f[1] == r.N.base), z3.And(f[1] == B['base'], f[0] == r.N.base)) if ok else False,
              'block and cells are freed')
        else:
            E(st, fr == st.g['free1'], 'the free cells of the block are on the free list')
            E(st, len(st.g['freed']) == 0, 'nothing is freed')

    def bmod(ex, st, oid):
        n = st.objs[oid].name
        return oid == a.id or n.startswith('blocks')
    blocks = Walk('blocks', bhead, simp(a.base + aoff(h, 'blocks')), BVV(h.lay.size('gc_block'), PW), bo['next'], ['mid', 'last'], bmat,
                  lambda l: True, bstep, benter, bmod, removable=True)
    blocks.passes = lambda l: True

    # --- cells of a block
    def counter(r, vals):
        c = [(k, v) for k, v in vals.items() if k in r.entry and isval(simp(r.entry[k])) and simp(r.entry[k]).as_long() == 0]
        if len(c) != 1:
            raise Undecided('cell counter not found')
        return c[0][1]

    def cmat(ex, st, r):
        pass

    def center(ex, st, r, vals, st0):
        E(st0, aget(h, st0, a, 'free') == st0.g['free0'], 'the free list is extended')
        B = st.g['blk']
        w, wm = st.g['wit']
        fr = ex.fresh('free', PW)
        aput(h, st, a, 'free', fr)
        for x in ('alive', 'garbage'):
            aput(h, st, a, x, ex.fresh(x, PW))
        k = counter(r, vals)
        ex.assume(st, z3.And(z3.ULE(k, r.idx), z3.Implies(z3.And(wm, z3.ULT(w, r.idx)), z3.ULT(k, r.idx)),
                             z3.Implies(k == 0, fr == st.g['free0'])))
        st.g['free1'] = fr
        st.g['freedn'] = k
        st.g['destroyed'] = ()
        if r.N is not None:
            ex.assume(st, z3.Implies(r.idx == w, (z3.Extract(0, 0, word(h, st, r.N)) == 1) == wm))

    def cmod(ex, st, oid, r):
        return oid in (a.id, r.N.id)

    def cstep(ex, st, r, old, new):
        w, wm = st.g['wit']
        w0 = ex.rd(st, r.mem[r.N.id], 0, cs)
        w1 = ex.peek(st, r.N.base, cs)
        marked = z3.Extract(0, 0, w0) == 1
        isfree = z3.Extract(1, 1, w0) == 1
        k0, k1 = counter(r, {k: old[k] for k in r.entry}), counter(r, {k: new[k] for k in r.entry if k in new})
        fr0, fr1 = st.g['free1'], aget(h, st, a, 'free')
        d = st.g['destroyed']
        E(st, z3.Implies(marked, w1 == w0 & ~BVV(1, 8 * cs)), 'a cell in use is kept and unmarked')
        E(st, z3.Implies(marked, z3.And(fr1 == fr0, k1 == k0, len(d) == 0)), 'a cell in use is not put on the free list')
        E(st, z3.Implies(z3.Not(marked), z3.And(fr1 == r.N.base, z3.Extract(h.PW - 1, 0, w1) == fr0, k1 == k0 + 1)), 'any other cell is put on the free list')
        if cs > h.PB:
            E(st, z3.Implies(z3.Not(z3.Or(marked, isfree)), z3.Extract(8 * cs - 1, h.PW, w1) == 0), 'garbage is cleared')
        want = z3.And(z3.Not(marked), z3.Not(isfree), destr != 0)
        E(st, z3.And(len(d) <= 1, want == (len(d) == 1)), 'the destructor runs once, for garbage')
        if d:
            E(st, z3.And(d[0][0] == destr, d[0][1] == r.N.base), 'the destructor gets the cell')
        E(st, z3.And(z3.ULE(k1, r.idx + 1), z3.Implies(z3.And(wm, z3.ULT(w, r.idx + 1)), z3.ULT(k1, r.idx + 1))), 'cells freed are counted')

    h.st.g['walks'] = (free, blocks)
    for s, _ in h.call(h.st, 'gc_sweep', m.addr, a, BVV(0, PW)):
        r = s.g.get('walk:blocks')
        h.ensure(s, r is not None and r.N is None, 'all blocks are looked at')
        f = s.g.get('walk:freecells')
        h.ensure(s, f is not None and f.N is None, 'all free cells are looked at')


CFG = [(2,), (1, 2), (2, 2), (1, 1, 1)]
KIND = 'MGF'


def r_sweep(h, struct):
    """blocks of few cells, every combination of marked, garbage and free"""
    import itertools
    cs = h.lay.size(struct)
    m = M(h)
    a = h.structobj('arena', 'gc_arena', kind='input', zero=True)
    st0 = h.st
    aput(h, st0, a, 'cell_size', BVV(cs, h.PW))
    sel = h.sym('sel', 10)
    val = h.sym('content', 64)
    val = simp(z3.Concat(z3.Extract(63, 2, val), BVV(0, 2)))
    big = simp(z3.Concat(*([val] * (cs // 8)))) if cs > 8 else val
    no = 0
    for shape in CFG:
        for ks in itertools.product(KIND, repeat=sum(shape)):
            no += 1
            for s in h.case(st0, sel == no):
                one_sweep(h, m, a, s, cs, shape, ks, big)


def one_sweep(h, m, a, s, cs, shape, ks, big):
    ex = h.ex
    PW = h.PW
    blocks, cells = [], []
    nxt = BVV(0, PW)
    kinds = list(ks)
    for n in shape[::-1]:
        b = ex.newobj(s, 'block', BVV(h.lay.size('gc_block'), PW), 'heap', content='zero', align=16)
        c = ex.newobj(s, 'cells', BVV(cs * n, PW), 'heap', content='zero', align=16)
        h.put(s, b, 'gc_block', 'next', nxt)
        h.put(s, b, 'gc_block', 'base', c.base)
        h.put(s, b, 'gc_block', 'size', BVV(n, PW))
        nxt = b.base
        blocks.insert(0, (b, c, n))
    free = BVV(0, PW)
    for b, c, n in blocks:
        for i in range(n):
            k = kinds.pop(0)
            if k == 'F':
                ex.poke(s, c, i * cs, h.PB, free)
                free = simp(c.base + i * cs)
            else:
                ex.poke(s, c, i * cs, cs, big | (1 if k == 'M' else 0))
            cells.append((c, i, k, b))
    aput(h, s, a, 'free', free)
    aput(h, s, a, 'blocks', nxt)
    for s1, _ in h.call(s, 'gc_sweep', m.addr, a, BVV(0, PW)):
        want, keep = set(), []
        for bi, (b, c, n) in enumerate(blocks):
            mine = [x for x in cells if x[3] is b]
            if bi < len(blocks) - 1 and all(x[2] != 'M' for x in mine):
                h.ensure(s1, b.id in s1.dead and c.id in s1.dead, 'a block without used cells is released, except the first')
                continue
            h.ensure(s1, b.id not in s1.dead and c.id not in s1.dead, 'no other block is released')
            if b.id in s1.dead or c.id in s1.dead:
                return
            keep.append(b)
            for c, i, k, _ in mine:
                at = simp(c.base + i * cs)
                if k == 'M':
                    h.ensure(s1, ex.peek(s1, at, cs) == big, 'a cell in use is kept and unmarked')
                else:
                    want.add((c.id, i))
                    if k == 'G' and cs > h.PB:
                        h.ensure(s1, ex.peek(s1, simp(at + h.PB), cs - h.PB) == 0, 'garbage is cleared')
        q = aget(h, s1, a, 'blocks')
        for b in keep:
            h.ensure(s1, q == b.base, 'kept blocks stay linked in order')
            q = h.get(s1, b, 'gc_block', 'next')
        h.ensure(s1, q == 0, 'kept blocks stay linked in order')
        p = aget(h, s1, a, 'free')
        seen = 0
        while seen <= len(cells):
            v = simp(p)
            if isval(v) and v.as_long() == 0:
                break
            hit = [x for x in cells if (x[0].id, x[1]) in want and simp(v == x[0].base + x[1] * cs).eq(z3.BoolVal(True))]
            h.ensure(s1, len(hit) == 1, 'the free list holds cells not in use, each once')
            if len(hit) != 1:
                return
            want.discard((hit[0][0].id, hit[0][1]))
            p = ex.peek(s1, v, h.PB)
            seen += 1
        h.ensure(s1, not want, 'every cell not in use is free')


for _s in STRUCT:
    task('C06', 'sweep_' + _s[4:], ['gc_sweep'], models={}, always=dict(indirect=c_destr), replace=dict(free=c_free), malloc_may_fail=False,
         assumes=ASSUME + ['arenas are swept from the first cell'], bound='arenas of up to 3 blocks and 4 cells', bunroll=12, cost=3)(lambda h, s=_s: t_sweep(h, s))


# ---------------------------------------------------------------- membership
def t_check(h, struct):
    ex = h.ex
    cs = h.lay.size(struct)
    a = arena(h)
    PW = h.PW
    p = h.sym('p', PW)
    bo = {f: h.lay.off('gc_block', f)[0] for f in ('next', 'base', 'size')}
    aput(h, h.st, a, 'cell_size', BVV(cs, PW))
    inside = lambda base, n: z3.And(z3.UGE(p, base), z3.ULT(p, base + n * cs))
    top = BVV(1 << (46 if PW == 64 else 30), PW)
    if h.mode == 'proof':
        head = h.sym('blocks.head', PW)
        aput(h, h.st, a, 'blocks', head)

        def mat(ex, st, N, label, role):
            ex.poke(st, N, bo['next'], h.PB, ex.fresh('next', PW))
            n = simp(z3.ZeroExt(PW - 24, ex.fresh('cells', 24)))
            base = ex.fresh('cellmem', PW)
            ex.assume(st, z3.And(z3.ULE(base, top), base != 0))
            ex.poke(st, N, bo['size'], h.PB, n)
            ex.poke(st, N, bo['base'], h.PB, base)
            ex.assume(st, inside(base, n) if label == 'has' else z3.Not(inside(base, n)))
        h.st.g['walks'] = (Walk('blocks', head, None, BVV(h.lay.size('gc_block'), PW), bo['next'], ['has', 'no'], mat, lambda l: l == 'no'),)
        for s, r in h.call(h.st, 'gc_check_ptr', a, p):
            w = s.g.get('walk:blocks')
            if w is None:
                raise Undecided('blocks not walked')
            h.ensure(s, w.label is None or w.label == 'has', 'every block is considered')
            h.ensure(s, (r != 0) == (w.label == 'has'), 'a pointer belongs to the arena iff it points into one of its blocks')
        return
    bl = [h.structobj('b%d' % i, 'gc_block', kind='input', zero=True) for i in range(2)]
    cnt = h.size('blocks', 2)
    h.assume(z3.ULE(cnt, 2))
    any_ = bconst(False)
    for i, b in enumerate(bl):
        n = h.size('n%d' % i, 4)
        base = h.sym('base%d' % i, PW)
        h.assume(z3.And(z3.ULE(base, top), base != 0))
        h.put(h.st, b, 'gc_block', 'base', base)
        h.put(h.st, b, 'gc_block', 'size', n)
        h.put(h.st, b, 'gc_block', 'next', simp(z3.If(z3.UGT(cnt, i + 1), bl[1].base, BVV(0, PW))) if i == 0 else BVV(0, PW))
        any_ = z3.Or(any_, z3.And(z3.UGT(cnt, i), inside(base, n)))
    aput(h, h.st, a, 'blocks', simp(z3.If(cnt == 0, BVV(0, PW), bl[0].base)))
    for s, r in h.call(h.st, 'gc_check_ptr', a, p):
        h.ensure(s, (r != 0) == any_, 'a pointer belongs to the arena iff it points into one of its blocks')


for _s in STRUCT:
    task('C06', 'check_ptr_' + _s[4:], ['gc_check_ptr'], assumes=ASSUME, bound='up to 2 blocks')(lambda h, s=_s: t_check(h, s))


def c_check_ptr(ex, st, a):
    """membership of an arena (check_ptr_*), recorded"""
    r = ex.fresh('member', 32)
    st.g['chk'] = st.g.get('chk', ()) + ((a[0], a[1], r),)
    return [(st, r)]


@task('C06', 'check_val', ['gc_check_val'], replace=dict(gc_check_ptr=c_check_ptr), nobounded=True, noreplay=True)
def t_checkval(h):
    m = M(h)
    v = anyval(h, 'v')
    sp = spec(h, v)
    at = lambda f: simp(m.o.base + h.lay.off('mjs', f + '.blocks')[0])
    ptr = z3.ZeroExt(h.PW - 48, z3.Extract(47, 0, v)) if h.PW > 48 else z3.Extract(h.PW - 1, 0, v)
    for s, r in h.call(h.st, 'gc_check_val', m.addr, v):
        c = s.g.get('chk', ())
        for kinds, f in ((('object', 'array'), 'object_arena'), (('ffi',), 'ffi_sig_arena')):
            for s1 in h.case(s, z3.Or([sp[k] for k in kinds])):
                h.ensure(s1, z3.And(c[0][0] == at(f), c[0][1] == ptr, r == c[0][2]) if len(c) == 1 else False, 'the pointer is looked up in the arena of its type')
        for s1 in h.case(s, z3.Not(z3.Or(sp['object'], sp['array'], sp['ffi']))):
            h.ensure(s1, r != 0, 'other values have no cell')
