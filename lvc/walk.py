"""Unbounded singly linked lists: loops that walk one are verified by an inductive invariant found at the loop header.

A Walk describes a NULL-terminated list of arbitrary length.  When a loop is entered with a variable equal to the head of
the list (or to the address of the cell holding the head), the loop is cut: one arbitrary iteration is explored with only
the current node (and, if the code keeps a trailing pointer, the previous node) materialised; every other variable of the
loop is arbitrary.  At the back edge the obligations are: the walking variable is the next field of the current node, a
trailing variable is the current node, nothing but locals was modified, the current node is one the walk may pass
(`passes`), and whatever the harness adds (`onstep`).  By induction the walk visits the nodes in order, and every node
passed satisfies `passes`."""
import z3
from .sym import BVV, Undecided, bconst, isval, simp


class Walk:
    def __init__(self, name, head, headcell, size, nextoff, labels, mat, passes, onstep=None, onenter=None, modok=None, removable=False):
        self.name = name
        self.head = head
        self.headcell = headcell
        self.size = size
        self.nextoff = nextoff
        self.labels = labels          # labels of a current node
        self.mat = mat                # mat(ex, st, obj, label, role): constrain the fresh node
        self.passes = passes          # label -> may the walk go past such a node
        self.onstep = onstep          # onstep(ex, st, rec, old, new): extra back edge obligations
        self.onenter = onenter        # onenter(ex, st, rec, entry): extra entry obligations / assumptions
        self.modok = modok or (lambda ex, st, oid: False)
        self.removable = removable    # the walk may unlink and free the current node (onstep states when)


class Rec:
    pass


def slots(ex, st, env, blk):
    """variables of the loop: header phis and pointer-sized locals kept in memory"""
    out = []
    for ph in blk.phis:
        v = env[ph.res]
        if z3.is_bv(v):
            out.append((('phi', ph.res), v, ex.mod.res(ph.ty).k == 'ptr'))
    for oid in env['allocas']:
        o = st.objs[oid]
        if oid in st.dead or not isval(o.size) or o.size.as_long() != ex.PB:
            continue
        v = ex.peek(st, o.base, ex.PB)
        out.append((('mem', oid), simp(v), True))
    return out


def same(ex, st, a, b):
    a, b = simp(a), simp(b)
    return a.eq(b)


def find(ex, st, env, blk):
    ws = st.g.get('walks', ())
    if not ws:
        return None
    sl = slots(ex, st, env, blk)
    for w in ws:
        for k, v, p in sl:
            if not p:
                continue
            if same(ex, st, v, w.head) or (w.headcell is not None and same(ex, st, v, w.headcell)):
                return w
    return None


def setslot(ex, st, env, k, v):
    if k[0] == 'phi':
        env[k[1]] = v
    else:
        ex.poke(st, st.objs[k[1]], 0, ex.PB, v)


class ArrWalk:
    """A loop that visits n cells of `size` bytes from `base` in order, of which only the current one is materialised.
    enter: (state, index) of an arbitrary iteration or of the end (index == n); the harness relates the other variables."""

    def __init__(self, name, base, n, size, mat, onstep, onenter, modok):
        self.name, self.base, self.n, self.size = name, base, n, size
        self.mat, self.onstep, self.onenter, self.modok = mat, onstep, onenter, modok
        self.head, self.headcell = base, None

    def enter(self, ex, f, L, bn, prev, env, st, lc, work):
        blk = f.blocks[bn]
        sl = slots(ex, st, env, blk)
        kind = {k: 'cur' if p and same(ex, st, v, self.head) else 'other' for k, v, p in sl}
        entry = {k: v for k, v, p in sl if kind[k] == 'other'}
        for end in (False, True):
            s, e = st.copy(), dict(env)
            for oid in env['allocas']:
                if oid not in s.dead and ('mem', oid) in kind:
                    ex.havoc(s, s.objs[oid])
            r = Rec()
            r.w, r.kind, r.entry, r.end, r.N = self, kind, entry, end, None
            r.idx = self.n if end else ex.fresh(self.name + '.idx', ex.PW)
            if not end:
                ex.assume(s, z3.ULT(r.idx, self.n))
                r.N = ex.newobj(s, self.name + '.cell', self.size, 'input', align=8)
                ex.assume(s, r.N.base == self.base + r.idx * self.size)
                self.mat(ex, s, r)
            cur = simp(self.base + self.n * self.size) if end else r.N.base
            for ph in blk.phis:
                e[ph.res] = cur if kind.get(('phi', ph.res)) == 'cur' else ex.undef_named(ph.ty, ph.res)
            for k, c in kind.items():
                if k[0] == 'mem' and c == 'cur':
                    setslot(ex, s, e, k, cur)
            s.g['walk:' + self.name] = r
            r.mem0 = dict(s.mem)
            self.onenter(ex, s, r, {k: (e[k[1]] if k[0] == 'phi' else ex.peek(s, s.objs[k[1]].base, ex.PB)) for k in entry}, st)
            r.old = {k: (e[k[1]] if k[0] == 'phi' else ex.peek(s, s.objs[k[1]].base, ex.PB)) for k in kind}
            r.mem = dict(s.mem)
            r.allocas = set(env['allocas'])
            if not ex.feasible(s, bconst(True)):
                continue
            lc2 = dict(lc)
            lc2[bn] = r
            work.append((bn, prev, 0, e, s, lc2))

    def back(self, ex, r, f, bn, env, st):
        new = {k: v for k, v, p in slots(ex, st, env, f.blocks[bn])}
        P = lambda c, n: ex.prove(st, c, 'cell walk: ' + n, 'invariant')
        if r.N is None:
            P(False, 'the walk ends behind the last cell')
            return
        for k, c in r.kind.items():
            if c == 'cur':
                P(new[k] == r.N.base + self.size if k in new else bconst(False), 'advances to the next cell')
        for oid, nd in st.mem.items():
            if oid in r.mem and r.mem[oid] is not nd and oid not in r.allocas and not self.modok(ex, st, oid, r):
                P(False, '%s is not modified by the walk' % st.objs[oid].name)
        self.onstep(ex, st, r, r.old, new)
        ex.stats['paths'] += 1


def enter(ex, w, f, L, bn, prev, env, st, lc, work):
    if isinstance(w, ArrWalk):
        return w.enter(ex, f, L, bn, prev, env, st, lc, work)
    blk = f.blocks[bn]
    sl = slots(ex, st, env, blk)
    kind = {}
    ptr = {k: p for k, v, p in sl}
    for k, v, p in sl:
        if p and same(ex, st, v, w.head):
            kind[k] = 'cur'
        elif p and w.headcell is not None and same(ex, st, v, w.headcell):
            kind[k] = 'link'
        elif p and k[0] == 'phi' and isval(simp(v)) and simp(v).as_long() == 0:
            kind[k] = 'prev'
        else:
            kind[k] = 'other'
    # the value on entry of every other variable
    entry = {k: v for k, v, p in sl if kind[k] == 'other'}
    needprev = any(x in ('prev', 'link') for x in kind.values())
    variants = []
    for first in ((True, False) if needprev else (None,)):
        variants.append((first, None))
        for l in w.labels:
            variants.append((first, l))
    for first, label in variants:
        prevs = [None] if first is not False else [l for l in w.labels if w.passes(l)]
        for pl in prevs:
            s = st.copy()
            e = dict(env)
            slotmem = {k[1] for k in kind if k[0] == 'mem' and kind[k] != 'other'}
            for oid in env['allocas']:
                if oid not in slotmem and oid not in s.dead:
                    ex.havoc(s, s.objs[oid])
            N = P = None
            if pl is not None:
                P = ex.newobj(s, w.name + '.prev', w.size, 'input', align=8)
                w.mat(ex, s, P, pl, 'prev')
            if label is not None:
                N = ex.newobj(s, w.name + '.node', w.size, 'input', align=8)
                w.mat(ex, s, N, label, 'cur')
            cur = N.base if N is not None else BVV(0, ex.PW)
            if P is not None:
                ex.poke(s, P, w.nextoff, ex.PB, cur)
                ex.assume(s, w.head != 0)
            if first:
                ex.assume(s, w.head == cur)
                if w.headcell is not None:
                    o, off = ex.resolve_spec(s, w.headcell)
                    ex.poke(s, o, off, ex.PB, cur)
            for ph in blk.phis:
                k = ('phi', ph.res)
                c = kind.get(k, 'other')
                if c == 'cur':
                    e[ph.res] = cur
                elif c == 'prev':
                    e[ph.res] = P.base if P is not None else BVV(0, ex.PW)
                elif c == 'link':
                    e[ph.res] = simp(P.base + w.nextoff) if P is not None else w.headcell
                else:
                    e[ph.res] = ex.undef_named(ph.ty, ph.res)
            for k, c in kind.items():
                if k[0] == 'mem' and c != 'other':
                    setslot(ex, s, e, k, cur if c == 'cur' else w.headcell if P is None else simp(P.base + w.nextoff))
            r = Rec()
            r.w, r.N, r.P, r.label, r.kind, r.entry, r.first = w, N, P, label, kind, entry, first
            r.old = {k: (e[k[1]] if k[0] == 'phi' else ex.peek(s, s.objs[k[1]].base, ex.PB)) for k in kind}
            s.g['walk:' + w.name] = r
            if w.onenter is not None:
                w.onenter(ex, s, r, e)
            r.mem = dict(s.mem)
            r.allocas = set(env['allocas'])
            if not ex.feasible(s, bconst(True)):
                continue
            lc2 = dict(lc)
            lc2[bn] = r
            work.append((bn, prev, 0, e, s, lc2))


def back(ex, r, f, bn, env, st):
    w = r.w
    if isinstance(w, ArrWalk):
        return w.back(ex, r, f, bn, env, st)
    blk = f.blocks[bn]
    new = {k: v for k, v, p in slots(ex, st, env, blk)}
    P = lambda c, n: ex.prove(st, c, 'list walk: ' + n, 'invariant')
    if r.N is None:
        P(False, 'the walk ends at the end of the list')
        return
    # the links as they were when the node was reached (marking may use low bits of a link)
    nxt = ex.rd(st, r.mem[r.N.id], w.nextoff, ex.PB)
    gone = w.removable and r.N.id in st.dead
    for k, c in r.kind.items():
        v = new.get(k)
        if v is None and c != 'other':
            P(False, 'walking variable lost')
        if c == 'cur':
            P(v == nxt, 'advances to the next node')
        elif c == 'prev' and gone:
            P(v == r.old[k], 'trailing pointer stays when a node is removed')
        elif c == 'link' and gone:
            P(v == r.old[k], 'trailing link stays when a node is removed')
            P(ex.peek(st, r.old[k], ex.PB) == nxt, 'a removed node is unlinked')
        elif c == 'prev':
            P(v == r.N.base, 'trailing pointer is the node just passed')
        elif c == 'link':
            P(v == r.N.base + w.nextoff, 'trailing link is the node just passed')
    P(w.passes(r.label), 'a node that ends the search is not passed')
    for oid, nd in st.mem.items():
        if oid in r.mem and r.mem[oid] is not nd and oid not in r.allocas and not w.modok(ex, st, oid):
            P(False, '%s is not modified by the walk' % st.objs[oid].name)
    if w.onstep is not None:
        w.onstep(ex, st, r, r.old, new)
    ex.stats['paths'] += 1
