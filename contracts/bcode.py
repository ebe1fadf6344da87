"""C15: bytecode emission, bytecode parts, and the way back from a bytecode position to file and line."""
import struct
import z3
from lvc.spec import task
from lvc.sym import BVV, Loopspec, Undecided, bconst, isval, simp, toint
from .arrays import GETINT, c_get_int, cstr
from .common import MB, wf_block
from .mbuf import MBUF
from .mjs import ERR, M, _field
from .varint import spec_byte, spec_llen

ASSUME = ['memory can be obtained', 'bytecode and source are smaller than 2^30 bytes']


def pw(h, e):
    n = e.size()
    return simp(e if n == h.PW else z3.Extract(h.PW - 1, 0, e) if n > h.PW else z3.ZeroExt(h.PW - n, e))


def to64(e):
    return e if e.size() == 64 else z3.ZeroExt(64 - e.size(), e)


# ---------------------------------------------------------------- varints (C01)
def c_llen(ex, st, a):
    """number of 7 bit groups (C01)"""
    return [(st, pw(ex, spec_llen(a[0])))]


def c_encode(ex, st, a):
    """the 7 bit groups are written, nothing else (C01)"""
    n, buf, size = a
    L = simp(spec_llen(n))
    ex.prove(st, z3.ULE(L, to64(size)), 'the varint fits where it is written', 'requires')
    t = ex.newobj(st, 'varint', BVV(16, ex.PW), 'input', content='zero', align=16)
    for k in range(10):
        ex.poke(st, t, k, 1, simp(spec_byte(n, k)))
    ex.memcopy(st, buf, t.base, pw(ex, L), False)
    return [(st, pw(ex, L))]


VI = {'cs_varint_llen': c_llen, 'cs_varint_encode': c_encode}
OPT = dict(replace=dict(MBUF, **VI), breplace=MBUF, malloc_may_fail=False, assumes=ASSUME, bunroll=24, bound='buffers of up to 8 bytes')


def vbyte(n, j):
    """j-th byte of the encoding of n, j symbolic"""
    r = BVV(0, 8)
    for k in range(9, -1, -1):
        r = z3.If(j == k, spec_byte(n, k), r)
    return r


# ---------------------------------------------------------------- emission
class Emit:
    def __init__(self, h, empty):
        self.h = h
        self.m = m = M(h)
        self.ps = h.structobj('pstate', 'pstate', kind='input')
        self.b = m.mb('bcode_gen', bound=8, maxbits=29, null=empty)
        self.map = MB(h, 'map', owner=self.ps, path=('pstate', 'offset_lineno_map'), bound=8, maxbits=29, null=empty)
        g = lambda n, b=29: simp(z3.ZeroExt(32 - b, h.sym(n, b)))
        self.cur, self.start, self.line, self.last = g('cur'), g('start'), g('line', 31), g('last', 31)
        h.assume(z3.And(z3.ULE(pw(h, self.cur), self.b.len), z3.ULE(self.start, self.cur)))
        if h.bounded:
            h.assume(z3.ULE(self.line, 200))
        for f, v in (('mjs', m.addr), ('cur_idx', self.cur), ('start_bcode_idx', self.start), ('line_no', self.line), ('last_emitted_line_no', self.last)):
            h.put(h.st, self.ps, 'pstate', f, v)
        self.k = h.size('k')
        self.j = h.size('j')
        self.ob = None if empty else h.byte(h.st, self.b.buf, self.k)
        self.obs = (lambda i, st=h.snap(h.st): BVV(0, 8)) if empty else (lambda i, st=h.snap(h.st): h.byte(st, self.b.base, i))
        self.om = None if empty else h.byte(h.st, self.map.buf, self.j)

    def g(self, s, f):
        return self.h.get(s, self.ps, 'pstate', f)

    def check(self, s, n, byte):
        """n bytes are inserted at the insertion point; byte(i) is the i-th of them"""
        h, k, j = self.h, self.k, self.j
        buf, ln, size = self.b.get(s)
        cur = pw(h, self.cur)
        h.ensure(s, ln == self.b.len + n, 'the code grows by what is emitted')
        wf_block(h, s, buf, size, 'code')
        h.ensure(s, z3.ULE(ln, size), 'code length within capacity')
        h.ensure(s, self.g(s, 'cur_idx') == self.cur + z3.Extract(31, 0, n), 'the insertion point moves behind what is emitted')
        for s1 in h.case(s, z3.ULT(k, cur)):
            h.ensure(s1, h.byte(s1, buf, k) == self.obs(k), 'code before the insertion point is kept')
        for s1 in h.case(s, z3.And(z3.UGE(k, cur + n), z3.ULT(k, ln))):
            h.ensure(s1, h.byte(s1, buf, k) == self.obs(k - n), 'code behind the insertion point is shifted')
        for s1 in h.case(s, z3.And(z3.UGE(k, cur), z3.ULT(k, cur + n))):
            h.ensure(s1, h.byte(s1, buf, k) == byte(simp(k - cur)), 'the emitted bytes')
        # line map
        mb, ml, ms = self.map.get(s)
        off, line = z3.SignExt(32, self.cur - self.start), z3.SignExt(32, self.line)
        l1, l2 = pw(h, spec_llen(off)), pw(h, spec_llen(line))
        new = self.last < self.line
        for s1 in h.case(s, z3.Not(new)):
            h.ensure(s1, z3.And(ml == self.map.len, self.g(s1, 'last_emitted_line_no') == self.last), 'no map item within a line')
        for s1 in h.case(s, new):
            h.ensure(s1, z3.And(ml == self.map.len + l1 + l2, self.g(s1, 'last_emitted_line_no') == self.line), 'one map item for a new line')
            wf_block(h, s1, mb, ms, 'map')
            h.ensure(s1, z3.ULE(ml, ms), 'map length within capacity')
            for s2 in h.case(s1, z3.And(z3.UGE(j, self.map.len), z3.ULT(j, self.map.len + l1))):
                h.ensure(s2, h.byte(s2, mb, j) == vbyte(off, j - self.map.len), 'the item starts with the code offset')
            for s2 in h.case(s1, z3.And(z3.UGE(j, self.map.len + l1), z3.ULT(j, ml))):
                h.ensure(s2, h.byte(s2, mb, j) == vbyte(line, j - self.map.len - l1), 'the item ends with the line number')
        if self.om is not None:
            for s1 in h.case(s, z3.ULT(j, self.map.len)):
                h.ensure(s1, h.byte(s1, mb, j) == self.om, 'earlier map items are kept')
        for f in ('line_no', 'start_bcode_idx', 'mjs'):
            h.ensure(s, self.g(s, f) == dict(line_no=self.line, start_bcode_idx=self.start, mjs=self.m.addr)[f], 'the parser state is otherwise unchanged')


def t_byte(h, empty):
    E = Emit(h, empty)
    b = h.sym('byte', 8)
    for s, _ in h.call(h.st, 'emit_byte', E.ps, b):
        E.check(s, BVV(1, h.PW), lambda i: b)


def t_int(h, empty):
    E = Emit(h, empty)
    n = h.sym('n', 64)
    for s, _ in h.call(h.st, 'emit_int', E.ps, n):
        E.check(s, pw(h, spec_llen(n)), lambda i: vbyte(n, i))


def t_str(h, empty):
    E = Emit(h, empty)
    n = h.size('n', 28, bound=4)
    src = h.obj('src', n, kind='input', align=1)
    st0 = h.snap(h.st)
    L = pw(h, spec_llen(to64(n)))

    def byte(i):
        i = simp(i)
        return z3.If(z3.ULT(i, L), vbyte(to64(n), i), h.byte(st0, src, i - L))
    for s, _ in h.call(h.st, 'emit_str', E.ps, src, n):
        E.check(s, simp(L + n), byte)


for _e in (False, True):
    for _n, _f in (('byte', t_byte), ('int', t_int), ('str', t_str)):
        task('C15', 'emit_%s%s' % (_n, '_first' if _e else ''), ['emit_' + _n, 'add_lineno_map_item'], cost=4, **OPT)(lambda h, f=_f, e=_e: f(h, e))


def c_shift(ex, st, a):
    """line map items behind the place move along (task shift_map)"""
    st.g['shifted'] = st.g.get('shifted', ()) + (tuple(simp(x) for x in a),)
    return [(st, None)]


@task('C15', 'insert_offset', ['mjs_bcode_insert_offset'], cost=3, **dict(OPT, replace=dict(OPT['replace'], shift_lineno_map=c_shift)))
def t_insert(h):
    E = Emit(h, False)
    off = h.size('off', 29, bound=8)
    v = h.sym('v', 64)
    h.assume(z3.And(z3.ULT(off, E.b.len), z3.ULE(pw(h, E.start), off)))
    k = E.k
    rel = simp(off - pw(h, E.start))
    if h.mode != 'proof':
        # one map item of one-byte numbers, or none
        h.assume(z3.And(z3.Or(E.map.len == 0, E.map.len == 2), z3.UGE(E.map.size, 4), z3.ULT(v, 1 << 21)))
        o0, l0 = (simp(z3.ZeroExt(56, h.byte(h.st, E.map.base, i))) for i in (0, 1))
        h.assume(z3.And(z3.ULT(o0, 120), z3.ULT(l0, 128)))
    L = pw(h, spec_llen(v))
    d = simp(L - 1)
    for s, r in h.call(h.st, 'mjs_bcode_insert_offset', E.ps, E.m.addr, off, v):
        buf, ln, size = E.b.get(s)
        h.ensure(s, r == z3.Extract(31, 0, d), 'the result is how far the code behind moved')
        h.ensure(s, ln == E.b.len + d, 'the reserved byte gives way to the whole offset')
        wf_block(h, s, buf, size, 'code')
        h.ensure(s, z3.ULE(ln, size), 'code length within capacity')
        h.ensure(s, E.g(s, 'cur_idx') == E.cur + z3.If(z3.UGE(pw(h, E.cur), off), z3.Extract(31, 0, d), BVV(0, 32)), 'an insertion point behind it moves along')
        for s1 in h.case(s, z3.ULT(k, off)):
            h.ensure(s1, h.byte(s1, buf, k) == E.obs(k), 'code before the offset is kept')
        for s1 in h.case(s, z3.And(z3.UGE(k, off), z3.ULT(k, off + L))):
            h.ensure(s1, h.byte(s1, buf, k) == vbyte(v, k - off), 'the offset is stored as a varint')
        for s1 in h.case(s, z3.And(z3.UGE(k, off + L), z3.ULT(k, ln))):
            h.ensure(s1, h.byte(s1, buf, k) == E.obs(k - d), 'code behind the offset is shifted')
        if h.mode != 'proof':
            mb, ml, ms = E.map.get(s)
            h.ensure(s, z3.And(ml == E.map.len, z3.ULE(ml, ms)), 'line map items are kept')
            for s1 in h.case(s, ml == 2):
                h.ensure(s1, z3.ZeroExt(56, h.byte(s1, mb, 0)) == o0 + z3.If(z3.UGT(o0, to64(rel)), to64(d), BVV(0, 64)), 'items for moved code move along')
                h.ensure(s1, z3.ZeroExt(56, h.byte(s1, mb, 1)) == l0, 'their lines are kept')
            continue
        sh = s.g.get('shifted', ())
        for s1 in h.case(s, d == 0):
            h.ensure(s1, bconst(len(sh) == 0), 'the line map is unchanged when nothing moves')
        for s1 in h.case(s, d != 0):
            h.ensure(s1, bconst(len(sh) == 1), 'line map items for moved code move along')
            for p, after, diff in sh[:1]:
                h.ensure(s1, z3.And(p == E.ps.base, after == rel, diff == z3.Extract(31, 0, d)), 'line map items for moved code move along')
        h.ensure(s, z3.And(E.map.get(s)[1] == E.map.len, E.map.get(s)[0] == E.map.base), 'the line map is otherwise unchanged')


# ---------------------------------------------------------------- parts
class Parts:
    """any number of committed parts, each starting where the one before ends"""

    def __init__(self, h, m, null=False, maxbits=26, items=3):
        self.h, self.m = h, m
        self.psz = h.lay.size('mjs_bcode_part')
        o = lambda f: h.lay.off('mjs_bcode_part', f)[0]
        self.os, self.ol, self.op = o('start_idx'), o('data.len'), o('data.p')
        self.b = b = m.mb('bcode_parts', mult=self.psz, bound=self.psz * items, maxbits=maxbits, null=null)
        self.n = BVV(0, h.PW) if null else b.items
        self.len = h.size('bcode_len', 30, bound=None)
        m.put(h.st, 'bcode_len', self.len)
        st0 = h.snap(h.st)
        self.start = lambda i: h.ex.peek(st0, simp(b.base + i * self.psz + self.os), h.PB)
        self.plen = lambda i: h.ex.peek(st0, simp(b.base + i * self.psz + self.ol), h.PB)
        self.end = lambda i: simp(self.start(i) + self.plen(i))
        lim = BVV(1 << 30, h.PW)
        if null:
            h.assume(self.len == 0)
            return
        if h.mode != 'proof':
            for i in range(items):
                prev = BVV(0, h.PW) if i == 0 else self.end(BVV(i - 1, h.PW))
                ii = BVV(i, h.PW)
                if h.mode == 'replay' and not z3.is_true(simp(z3.ULT(ii, self.n))):
                    continue
                h.assume(z3.Implies(z3.ULT(ii, self.n), z3.And(self.start(ii) == prev, z3.ULE(self.plen(ii), 64))))
            self.total()
            return
        h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, self.n), z3.And(z3.ULE(self.start(i), lim), z3.ULE(self.plen(i), lim), z3.Implies(i == 0, self.start(i) == 0))))
        h.ex.fact(h.st, lambda i: z3.Implies(z3.And(z3.UGE(i, 1), z3.ULT(i, self.n)), self.start(i) == self.end(i - 1)))
        h.ex.point(h.st, BVV(0, h.PW))
        h.ex.point(h.st, simp(self.n - 1))
        self.total()

    def total(self):
        h = self.h
        h.assume(z3.Implies(self.n != 0, self.len == self.end(self.n - 1)) if h.mode != 'replay' or not z3.is_true(simp(self.n == 0)) else bconst(True))
        h.assume(z3.Implies(self.n == 0, self.len == 0))


class PartLoop(Loopspec):
    """parts before the current one end at or before the offset"""

    def __init__(self):
        Loopspec.__init__(self, self.check, None, lambda c: simp(c.st.g['parts'].n - self.i(c)))

    def i(self, c):
        k = [c.env[p] for p in c.env['phis'] if z3.is_bv(c.env[p]) and (c.env[p].size() == 32 or len(c.env['phis']) == 1)]
        if len(k) != 1:
            raise Undecided('part index not found')
        e = k[0]
        return e if e.size() == c.ex.PW else simp(z3.ZeroExt(c.ex.PW - e.size(), e))

    def check(self, c):
        P, off = c.st.g['parts'], c.st.g['off']
        i = self.i(c)
        c.ex.point(c.st, i)
        c.ex.point(c.st, simp(i - 1))
        return [('part index in range', z3.ULE(i, P.n)), ('earlier parts end before the offset', z3.Implies(i != 0, z3.ULE(P.end(i - 1), off)))]


@task('C15', 'part_of_offset', ['mjs_bcode_part_get_by_offset', 'mjs_bcode_part_get', 'mjs_bcode_parts_cnt'],
      loops={('mjs_bcode_part_get_by_offset', 0): PartLoop()}, bound='up to 3 parts of up to 64 bytes', bunroll=8, assumes=ASSUME)
def t_part(h):
    m = M(h)
    P = Parts(h, m)
    off = h.sym('off', h.PW)
    h.st.g.update(parts=P, off=off)
    for s, r in h.call(h.st, 'mjs_bcode_part_get_by_offset', m.addr, off):
        for s1 in h.case(s, z3.UGE(off, P.len)):
            h.ensure(s1, r == 0, 'no part for an offset behind the code')
        for s1 in h.case(s, z3.ULT(off, P.len)):
            d = simp(r - P.b.base)
            h.ensure(s1, z3.And(z3.ULT(d, P.b.len), z3.URem(d, P.psz) == 0) if h.mode != 'proof' else z3.And(z3.ULT(d, P.b.len), d & (P.psz - 1) == 0) if P.psz & (P.psz - 1) == 0 else z3.ULT(d, P.b.len),
                     'one of the parts')
            st, ln = h.get(s1, r, 'mjs_bcode_part', 'start_idx'), h.get(s1, r, 'mjs_bcode_part', 'data.len')
            h.ensure(s1, z3.And(z3.ULE(st, off), z3.ULT(off, st + ln)), 'the part that contains the offset')
        h.ensure(s, z3.And(m.get(s, 'bcode_len') == P.len, P.b.get(s)[1] == P.b.len), 'nothing changes')


def t_commit(h, first):
    m = M(h)
    P = Parts(h, m, null=first, items=2)
    b = m.mb('bcode_gen', bound=8, maxbits=29)
    h.assume(z3.UGE(b.len, 1))
    k, j = h.size('k'), h.size('j')
    st0 = h.snap(h.st)
    oldc = h.byte(h.st, b.buf, k)
    oldp = None if first else h.byte(h.st, P.b.buf, j)
    psz = P.psz
    for s, _ in h.call(h.st, 'mjs_bcode_commit', m.addr):
        buf, ln, size = P.b.get(s)
        h.ensure(s, ln == P.b.len + psz, 'one part is added')
        wf_block(h, s, buf, size, 'parts')
        h.ensure(s, z3.ULE(ln, size), 'parts within capacity')
        if oldp is not None:
            for s1 in h.case(s, z3.ULT(j, P.b.len)):
                h.ensure(s1, h.byte(s1, buf, j) == oldp, 'earlier parts are kept')
        bp = simp(buf + P.b.len)
        g = lambda f: h.get(s, bp, 'mjs_bcode_part', f)
        h.ensure(s, g('start_idx') == P.len, 'it starts where the code ended')
        h.ensure(s, g('data.len') == b.len, 'it has the length of the generated code')
        h.ensure(s, m.get(s, 'bcode_len') == P.len + b.len, 'the code length grows by it')
        for f, want in (('exec_res', h.lay.enums['MJS_ERRS_CNT']), ('in_rom', 0)):
            o, bit, w = h.lay.bit('mjs_bcode_part', f)
            x = h.ex.peek(s, simp(bp + o), 1)
            h.ensure(s, z3.Extract(bit + w - 1, bit, x) == want, 'it is not executed yet and owns its code')
        p = g('data.p')
        wf_block(h, s, p, b.len, 'part')
        for s1 in h.case(s, z3.ULT(k, b.len)):
            h.ensure(s1, h.byte(s1, p, k) == oldc, 'it holds the generated code')
        nb, nl, ns = b.get(s)
        h.ensure(s, z3.And(nb == 0, nl == 0, ns == 0), 'the generation buffer is handed over')


for _f in (False, True):
    task('C15', 'commit' + ('_first' if _f else ''), ['mjs_bcode_commit', 'mjs_bcode_part_add'], cost=2, **OPT)(lambda h, f=_f: t_commit(h, f))


# ---------------------------------------------------------------- line numbers
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
VAL = z3.Function('varint.at', B64, B64)
LEN = z3.Function('varint.len', B64, B64)
BND = z3.Function('map.item', B64, z3.BoolSort())
ANS = z3.Function('line.from', B64, B32, B32)


def c_decode(ex, st, a):
    """the varint at this position (C01)"""
    G = st.g['map']
    p, size, num, llen = a
    q = to64(p)
    ex.access(st, p, toint(pw(ex, simp(LEN(q)))), 'varint')
    ex.prove(st, z3.UGE(to64(size), LEN(q)), 'the whole varint is decoded', 'requires')
    ex.store(st, num, 8, VAL(q))
    ex.store(st, llen, ex.PB, pw(ex, simp(LEN(q))))
    return [(st, bconst(True))]


def c_part1(ex, st, a):
    """the part that contains the offset, or none (task part_of_offset)"""
    G = st.g['map']
    out = []
    for s in ex.case(st, z3.ULT(a[1], G['total'])):
        for s1 in ex.case(s, z3.And(z3.ULE(G['start'], a[1]), z3.ULT(a[1], G['start'] + G['n']))):
            out.append((s1, G['bp'].base))
    for s in ex.case(st, z3.UGE(a[1], G['total'])):
        out.append((s, BVV(0, ex.PW)))
    return out


class MapLoop(Loopspec):
    """the answer for the rest of the map, given the line before it, is the answer for the whole map"""

    def __init__(self):
        Loopspec.__init__(self, self.check, self.mod, lambda c: simp(c.st.g['map']['pe'] - self.vars(c)[0]))

    def vars(self, c):
        ph = [c.env[p] for p in c.env['phis'] if z3.is_bv(c.env[p])]
        p = [v for v in ph if v.size() == c.ex.PW]
        l = [v for v in ph if v.size() == 32]
        if len(p) != 1 or len(l) != 1:
            raise Undecided('variables of the map loop not found')
        return p[0], l[0]

    def check(self, c):
        G = c.st.g['map']
        p, l = self.vars(c)
        q, pe, p0 = to64(p), to64(G['pe']), to64(G['p0'])
        q2 = simp(q + LEN(q))
        nx = simp(q2 + LEN(q2))
        # the definition of the answer, and of a well-formed map, at this item
        c.ex.assume(c.st, ANS(q, l) == z3.If(z3.Or(z3.UGE(q, pe), z3.UGE(VAL(q), G['off'])), l, ANS(nx, z3.Extract(31, 0, VAL(q2)))))
        c.ex.assume(c.st, z3.Implies(z3.And(BND(q), z3.ULT(q, pe)), z3.And(z3.UGE(LEN(q), 1), z3.ULE(LEN(q), 10), z3.UGE(LEN(q2), 1), z3.ULE(LEN(q2), 10),
                                                                          z3.ULE(LEN(q) + LEN(q2), pe - q), BND(nx))))
        return [('position at a map item', z3.And(BND(q), z3.UGE(q, p0), z3.ULE(q, pe))), ('the answer is still ahead', ANS(q, l) == ANS(p0, BVV(1, 32)))]

    def mod(self, c):
        st = c.st
        for oid in c.env['allocas']:
            o = st.objs[oid]
            if oid not in st.dead and not (isval(o.size) and o.size.as_long() == c.ex.lay.size('mbuf')):
                c.ex.havoc(st, o)


def header(h, st, data, f, v):
    h.ex.poke(st, data, 1 + 4 * f, 4, v)


HDR = dict(total=0, bcode=1, map=2)
HI = 15


def CODE(h, m):
    """outside proof mode: one part of 48 bytes from file `f`: code from offset 15 on, line map from 25 on"""
    data = h.obj('data', BVV(48, h.PW), kind='input', align=1)
    header(h, h.st, data, HDR['bcode'], BVV(HI - 1, 32))
    header(h, h.st, data, HDR['map'], BVV(24, 32))
    h.ex.poke(h.st, data, 13, 1, BVV(ord('f'), 8))
    h.ex.poke(h.st, data, 14, 1, BVV(0, 8))
    b = m.mb('bcode_parts', mult=h.lay.size('mjs_bcode_part'), bound=h.lay.size('mjs_bcode_part'))
    h.assume(b.items == 1)
    for f, v in (('start_idx', BVV(0, h.PW)), ('data.p', data.base), ('data.len', BVV(48, h.PW))):
        h.put(h.st, b.buf, 'mjs_bcode_part', f, v)
    m.put(h.st, 'bcode_len', BVV(48, h.PW))
    return data


MAP = ((2, 2), (6, 30), (9, 300))


def CODEMAP(h, m):
    """... with a line map"""
    data = CODE(h, m)
    for i, x in enumerate((7, 2, 2, 6, 30, 9, 0x80 | 300 & 0x7f, 300 >> 7)):
        h.ex.poke(h.st, data, 25 + i, 1, BVV(x, 8))


def line_at(h, off):
    return answer(h, [(BVV(o, 64), BVV(l, 32), bconst(True)) for o, l in MAP], z3.SignExt(32, z3.Extract(31, 0, off) - HI))


def textis(h, s, offs, what):
    """outside proof mode: the stack trace has a line for each of the positions"""
    m = h.st.g['tm']
    lines = [line_at(h, o) for o in offs]
    if h.mode == 'replay':
        want = ''.join('  at f:%d\n' % simp(l).as_long() for l in lines).encode() + b'\0'
        t = m.get(s, 'stack_trace')
        h.ensure(s, t != 0, what)
        if simp(t).as_long():
            h.ensure(s, z3.And([h.byte(s, t, i) == c for i, c in enumerate(want)]), what)
        return
    made = [f for f in s.g.get('fmt', ()) if f[0] != b'%s%s']
    h.ensure(s, bconst(len(made) == len(lines)), what)
    old = None
    for (f, args, text), l in zip(made, lines):
        h.ensure(s, z3.And(bconst(f == b'  at %s:%d\n' and len(args) == 2 and cstr(h.ex, s, args[0]) == b'f'), args[1] == l), what)
        join = [x for x in s.g['fmt'] if x[0] == b'%s%s' and simp(x[1][1]).eq(simp(text.base))]
        if old is not None:
            h.ensure(s, bconst(len(join) == 1) if len(join) != 1 else join[0][1][0] == old, what)
        old = text.base if not join else join[0][2].base
    h.ensure(s, m.get(s, 'stack_trace') == old, what)


def answer(h, items, off):
    """reference: the line of the last item before the first one at or behind the offset"""
    r = None
    line = BVV(1, 32)
    res = []
    done = bconst(False)
    for o, l, there in items:
        stop = z3.Or(z3.Not(there), z3.UGE(o, off))
        res.append((z3.And(z3.Not(done), stop), line))
        done = z3.Or(done, stop)
        line = l
    r = line
    for c, l in res[::-1]:
        r = z3.If(c, l, r)
    return simp(r)


class ShiftLoop(MapLoop):
    """as many items written as read"""

    def vars(self, c):
        p = [c.env[x] for x in c.env['phis'] if z3.is_bv(c.env[x]) and c.env[x].size() == c.ex.PW]
        if len(p) != 1:
            raise Undecided('variables of the map loop not found')
        return p[0], None

    def check(self, c):
        G = c.st.g['map']
        p, _ = self.vars(c)
        q, pe, p0 = to64(p), to64(G['pe']), to64(G['p0'])
        q2 = simp(q + LEN(q))
        c.ex.assume(c.st, z3.Implies(z3.And(BND(q), z3.ULT(q, pe)), z3.And(z3.UGE(LEN(q), 1), z3.ULE(LEN(q), 10), z3.UGE(LEN(q2), 1), z3.ULE(LEN(q2), 10),
                                                                          z3.ULE(LEN(q) + LEN(q2), pe - q), BND(simp(q2 + LEN(q2))))))
        c.st.g['item'] = p
        return [('position at a map item', z3.And(BND(q), z3.UGE(q, p0), z3.ULE(q, pe))), ('every item is written before the next one is read', c.st.g['written'] == p)]

    def mod(self, c):
        MapLoop.mod(self, c)
        c.st.g['written'] = c.ex.fresh('written', c.ex.PW)


def c_put(ex, st, a):
    """what is appended is the current item, moved when it is behind the place; `written` is the position behind the last item written"""
    G = st.g['map']
    m, src, n = a
    ex.prove(st, m == G['addr'], 'items go to the line map', 'requires')
    q = to64(st.g['item'])
    q2 = simp(q + LEN(q))
    off = simp(VAL(q) + z3.If(z3.UGT(VAL(q), to64(G['after'])), z3.SignExt(32, G['diff']), BVV(0, 64)))
    line = VAL(q2)
    l1, l2 = pw(ex, spec_llen(off)), pw(ex, spec_llen(line))
    ex.prove(st, n == l1 + l2, 'an item is written whole', 'requires')
    j = G['j']
    for s in ex.case(st, z3.ULT(j, l1)):
        ex.prove(s, ex.peek(s, simp(src + j), 1) == vbyte(off, j), 'the offset of an item moves with its code', 'requires')
    for s in ex.case(st, z3.And(z3.UGE(j, l1), z3.ULT(j, l1 + l2))):
        ex.prove(s, ex.peek(s, simp(src + j), 1) == vbyte(line, j - l1), 'the line of an item is kept', 'requires')
    ex.prove(st, st.g['written'] == st.g['item'], 'every item is written once', 'requires')
    st.g['written'] = simp(pw(ex, simp(q2 + LEN(q2))))
    return [(st, n)]


@task('C15', 'shift_map', ['shift_lineno_map'], loops={('shift_lineno_map', 0): ShiftLoop()}, replace=dict(cs_varint_decode=c_decode, mbuf_append=c_put, **VI), malloc_may_fail=False,
      bound='line maps of up to 2 items of one-byte numbers', bunroll=12, export=['shift_lineno_map'],
      assumes=ASSUME + ['line maps are whole items, as emitted (tasks emit_*)'])
def t_shift(h):
    m = M(h)
    ps = h.structobj('pstate', 'pstate', kind='input')
    mp = MB(h, 'map', owner=ps, path=('pstate', 'offset_lineno_map'), bound=4, maxbits=29)
    after, diff = h.size('after', 29), simp(z3.ZeroExt(28, h.sym('diff', 4)))
    h.assume(z3.And(diff >= 1, diff <= 9))
    if h.mode != 'proof':
        h.assume(z3.And(z3.Or(mp.len == 0, mp.len == 2, mp.len == 4), mp.size == 4))
        st0 = h.snap(h.st)
        b = [z3.ZeroExt(56, h.byte(st0, mp.base, i)) for i in range(4)]
        h.assume(z3.And([z3.ULT(x, 118) for x in b]))
        for s, _ in h.call(h.st, 'shift_lineno_map', ps, after, diff):
            mb, ml, ms = mp.get(s)
            h.ensure(s, z3.And(ml == mp.len, z3.ULE(ml, ms)), 'line map items are kept')
            for i in range(2):
                for s1 in h.case(s, z3.UGT(ml, 2 * i)):
                    o, l = b[2 * i], b[2 * i + 1]
                    h.ensure(s1, z3.ZeroExt(56, h.byte(s1, mb, 2 * i)) == o + z3.If(z3.UGT(o, to64(after)), z3.SignExt(32, diff), BVV(0, 64)), 'the offset of an item moves with its code')
                    h.ensure(s1, z3.ZeroExt(56, h.byte(s1, mb, 2 * i + 1)) == l, 'the line of an item is kept')
        return
    p0, pe = mp.base, simp(mp.base + mp.len)
    h.assume(BND(to64(p0)))
    j = h.size('j', 6)
    h.st.g.update(map=dict(p0=p0, pe=pe, after=after, diff=diff, addr=mp.addr, j=j), written=p0, item=p0)
    for s, _ in h.call(h.st, 'shift_lineno_map', ps, after, diff):
        mb, ml, ms = mp.get(s)
        h.ensure(s, s.g['written'] == pe, 'all items are written')
        h.ensure(s, z3.And(ml == 0, mb != mp.base), 'the new map starts empty')
        wf_block(h, s, mb, ms, 'map')
        h.ensure(s, bconst(mp.buf.id in s.dead), 'the old map is released')


@task('C15', 'line_of_offset', ['mjs_get_lineno_by_offset'], loops={('mjs_get_lineno_by_offset', 0): MapLoop()},
      replace=dict(cs_varint_decode=c_decode, mjs_bcode_part_get_by_offset=c_part1), bound='line maps of up to 3 items of one to three byte numbers, one of 65 items', bunroll=80,
      assumes=ASSUME + ['line maps are whole items, as emitted (tasks emit_*)'])
def t_line(h):
    m = M(h)
    off = h.sym('off', 32)
    if h.mode != 'proof':
        lay = h.sym('lay', 3)
        data = CODE(h, m)
        n = h.sym('items', 2)
        bs = [h.byte(h.st, data, 26 + i) for i in range(14)]
        z = lambda b: z3.ZeroExt(56, b)
        big = h.obj('big', BVV(200, h.PW), kind='input', zero=True)
        S = h.st
        for la, (w1, w2) in enumerate(((1, 1), (1, 2), (2, 1), (1, 3), (3, 1))):
            for s in h.case(S, lay == la):
                items, at = [], 0
                h.ex.poke(s, data, 25, 1, simp(z3.ZeroExt(6, n) * (w1 + w2)))
                h.assume(z3.ULE(n, 3), s)
                for i in range(3):
                    def num(at, w):
                        for x in range(w):
                            h.assume((z3.UGE if x < w - 1 else z3.ULT)(bs[at + x], 0x80), s)
                        return simp(sum((z(bs[at + x] & 0x7f) << (7 * x) for x in range(w)), BVV(0, 64)))
                    o, l = num(at, w1), num(at + w1, w2)
                    items.append((o, z3.Extract(31, 0, l), z3.UGT(n, i)))
                    at += w1 + w2
                for s1, r in h.call(s, 'mjs_get_lineno_by_offset', m.addr, off):
                    want = answer(h, items, simp(z3.SignExt(32, off - HI)))
                    h.ensure(s1, r == z3.If(z3.ULT(off, 48), want, BVV(1, 32)), 'the line of the last map item before the offset')
        # a map of more than 127 bytes
        n = 65
        for i, x in enumerate([2 * n & 0x7f | 0x80, 2 * n >> 7] + [y for i in range(n) for y in (i + 1, i + 2)]):
            h.ex.poke(h.st, big, 25 + i, 1, BVV(x, 8))
        for s in h.case(S, lay == 7):
            header(h, s, big, HDR['bcode'], BVV(HI - 1, 32))
            header(h, s, big, HDR['map'], BVV(24, 32))
            h.put(s, m.bcode_parts.buf, 'mjs_bcode_part', 'data.p', big.base)
            h.put(s, m.bcode_parts.buf, 'mjs_bcode_part', 'data.len', BVV(200, h.PW))
            m.put(s, 'bcode_len', BVV(200, h.PW))
            for o in (HI, HI + 1, HI + 2, HI + 30, HI + 64, HI + 65, HI + 66, 150):
                for s0 in h.case(s, off == o):
                    for s1, r in h.call(s0, 'mjs_get_lineno_by_offset', m.addr, BVV(o, 32)):
                        h.ensure(s1, r == max(1, min(n, o - HI - 1) + 1), 'the line of the last map item before the offset')
        return
    n = h.size('n', 30)
    data = h.obj('data', n, kind='input', align=1)
    bp = h.structobj('part', 'mjs_bcode_part', kind='input')
    start = h.size('start', 30)
    total = h.size('total', 30)
    mo, bo = h.size('mapoff', 30), h.size('codeoff', 30)
    h.assume(z3.And(z3.UGE(n, 13), z3.ULE(start + n, total), z3.ULT(mo, n), z3.ULT(bo, n)))
    header(h, h.st, data, HDR['map'], z3.Extract(31, 0, mo))
    header(h, h.st, data, HDR['bcode'], z3.Extract(31, 0, bo))
    for f, v in (('start_idx', start), ('data.p', data.base), ('data.len', n)):
        h.put(h.st, bp, 'mjs_bcode_part', f, v)
    ms = simp(data.base + 1 + mo)
    p0 = simp(ms + pw(h, simp(LEN(to64(ms)))))
    pe = simp(p0 + pw(h, simp(VAL(to64(ms)))))
    h.assume(z3.And(z3.UGE(LEN(to64(ms)), 1), z3.ULE(LEN(to64(ms)), 10), z3.ULE(VAL(to64(ms)), 1 << 30), z3.ULE(1 + mo + pw(h, LEN(to64(ms))) + pw(h, VAL(to64(ms))), n)))
    h.assume(BND(to64(p0)))
    rel = simp(z3.SignExt(32, off - z3.Extract(31, 0, 1 + bo + start)))
    h.st.g['map'] = dict(p0=p0, pe=pe, off=rel, total=total, start=start, n=n, bp=bp)
    o64 = simp(z3.SignExt(h.PW - 32, off)) if h.PW > 32 else off
    for s, r in h.call(h.st, 'mjs_get_lineno_by_offset', m.addr, off):
        for s1 in h.case(s, z3.ULT(o64, total)):
            h.ensure(s1, r == ANS(to64(p0), BVV(1, 32)), 'the line of the last map item before the offset')
        for s1 in h.case(s, z3.UGE(o64, total)):
            h.ensure(s1, r == 1, 'line 1 for an offset outside the code')


@task('C15', 'file_of_offset', ['mjs_get_bcode_filename_by_offset', 'mjs_get_bcode_filename'], bound='up to 3 parts', bunroll=8,
      replace=dict(mjs_bcode_part_get_by_offset=c_part1), assumes=ASSUME)
def t_file(h):
    m = M(h)
    off = h.sym('off', 32)
    n = BVV(40, h.PW) if h.mode != 'proof' else h.size('n', 30)
    data = h.obj('data', n, kind='input', align=1)
    start = BVV(0, h.PW) if h.mode != 'proof' else h.size('start', 30)
    total = n if h.mode != 'proof' else h.size('total', 30)
    h.assume(z3.And(z3.UGE(n, 14), z3.ULE(start + n, total)))
    if h.mode != 'proof':
        b = m.mb('bcode_parts', mult=h.lay.size('mjs_bcode_part'), bound=h.lay.size('mjs_bcode_part'))
        h.assume(b.items == 1)
        bp = b.buf
        m.put(h.st, 'bcode_len', n)
    else:
        bp = h.structobj('part', 'mjs_bcode_part', kind='input')
    for f, v in (('start_idx', start), ('data.p', data.base), ('data.len', n)):
        h.put(h.st, bp, 'mjs_bcode_part', f, v)
    h.st.g['map'] = dict(total=total, start=start, n=n, bp=bp)
    o64 = simp(z3.SignExt(h.PW - 32, off)) if h.PW > 32 else off
    for s, r in h.call(h.st, 'mjs_get_bcode_filename_by_offset', m.addr, off):
        h.ensure(s, r == z3.If(z3.ULT(o64, total), data.base + 13, BVV(0, h.PW)), 'the name behind the header of the part, or none')


# ---------------------------------------------------------------- call frames
FRAME, RETADDR = 5, 3


@task('C15', 'offset_of_frame', ['mjs_get_offset_by_call_frame_num'], replace=dict(mjs_get_int=c_get_int), bound='call stacks of up to 11 values', bunroll=8, assumes=ASSUME)
def t_frameoff(h):
    m = M(h)
    b = m.mb('call_stack', mult=8, bound=88, maxbits=29)
    cf = h.sym('cf', 32)
    st0 = h.snap(h.st)
    cur = m.get(h.st, 'cur_bcode_offset')
    if h.mode != 'proof':
        for i in range(11):
            h.ex.poke(h.st, b.buf, 8 * i, 8, BVV(0x4000000000000000 + (i << 52), 64)) if h.mode != 'replay' or not z3.is_false(simp(z3.UGE(b.size, 8 * i + 8))) else None
        h.assume(z3.UGE(b.size, 88))
    items = simp(z3.LShR(b.len, 3))
    c64 = simp(z3.SignExt(h.PW - 32, cf)) if h.PW > 32 else cf
    for s, r in h.call(h.st, 'mjs_get_offset_by_call_frame_num', m.addr, cf):
        for s1 in h.case(s, cf == 0):
            h.ensure(s1, r == (cur if cur.size() == 32 else z3.Extract(31, 0, cur)), 'frame 0 is the current position')
        there = z3.And(cf > 0, z3.ULE(c64 * FRAME, items))
        for s1 in h.case(s, z3.And(cf != 0, z3.Not(there))):
            h.ensure(s1, r == -1, 'no such frame')
        for s1 in h.case(s, there):
            pos = simp(items - 1 - RETADDR - FRAME * (c64 - 1))
            if h.mode == 'proof':
                h.ensure(s1, r == GETINT(h.ex.peek(s1, simp(b.base + pos * 8), 8)), 'the return address of the frame')
            else:
                want = BVV(0, 32)
                for i in range(11):
                    x = struct.unpack('<d', struct.pack('<Q', 0x4000000000000000 + (i << 52)))[0]
                    want = z3.If(pos == i, BVV(int(x), 32), want)
                h.ensure(s1, r == want, 'the return address of the frame')


# ---------------------------------------------------------------- stack trace
def c_line(ex, st, a):
    """one more line of the stack trace (tasks trace_line*)"""
    G = st.g['trace']
    h, b, m = G['h'], G['b'], G['m']
    ln = b.get(st)[1]
    done = simp(b.items - z3.LShR(ln, 3))
    c = st.g['lines']
    ex.prove(st, done == c * FRAME, 'one line for each call frame', 'requires')
    ra = GETINT(h.ex.peek(st, simp(b.base + (b.items - 1 - RETADDR - FRAME * (c - 1)) * 8), 8))
    ex.prove(st, a[1] == z3.If(c == 0, G['off'], z3.SignExt(ex.PW - 32, ra) if ex.PW > 32 else ra), 'the line is that of the position left in this frame', 'requires')
    st.g['lines'] = simp(c + 1)
    return [(st, None)]


class Frames(Loopspec):
    """whole frames have been removed, one line added for each"""

    def __init__(self):
        Loopspec.__init__(self, self.check, self.mod, lambda c: c.st.g['trace']['b'].get(c.st)[1])

    def check(self, c):
        G = c.st.g['trace']
        b = G['b']
        n = c.st.g['lines']
        return [('lines and frames agree', z3.And(z3.UGE(n, 1), z3.ULE((n - 1) * FRAME, b.items), z3.ULE(n, 1 << 29), b.get(c.st)[1] == (b.items - (n - 1) * FRAME) * 8)),
                ('the stack stays in place', b.get(c.st)[0] == b.base)]

    def mod(self, c):
        G = c.st.g['trace']
        o, n = c.ex.lay.off('mjs', 'call_stack.len')
        G['m'].put(c.st, 'call_stack.len', c.ex.fresh('depth', c.ex.PW))
        c.st.g['lines'] = c.ex.fresh('lines', c.ex.PW)


def t_trace(h):
    if h.mode != 'proof':
        return r_trace(h)
    m = M(h)
    b = m.mb('call_stack', mult=8, bound=88, maxbits=29)
    off = h.sym('off', h.PW)
    h.st.g.update(trace=dict(h=h, b=b, m=m, off=off), lines=BVV(0, h.PW))
    k = h.size('k')
    old = h.byte(h.st, b.buf, k)
    for s, _ in h.call(h.st, 'mjs_gen_stack_trace', m.addr, off):
        n = s.g['lines']
        h.ensure(s, z3.And(z3.ULE((n - 1) * FRAME, b.items), z3.UGT(n * FRAME, b.items)), 'a line for the position and for every call frame')
        for s1 in h.case(s, z3.ULT(k, b.len)):
            h.ensure(s1, h.byte(s1, b.buf, k) == old, 'stored frames are not altered')


def r_trace(h):
    """two frames, positions in the code or the exit address"""
    m = M(h)
    b = m.mb('call_stack', mult=8, bound=88)
    h.assume(z3.And(b.len == 80, b.size == 88))
    CODEMAP(h, m)
    h.st.g['tm'] = m
    off, x = h.sym('off', 4), h.sym('x', 8)
    pos = simp(z3.ZeroExt(h.PW - 4, off) + 16)
    EXIT = 0x7fffffff
    S = h.st
    for i, (r0, r1) in enumerate(((17, 22), (30, 18), (EXIT, 19), (20, EXIT))):
        for s in h.case(S, x == i):
            for j in range(10):
                v = r1 if j == 9 - RETADDR else r0 if j == 4 - RETADDR else 3
                h.ex.poke(s, b.buf, 8 * j, 8, BVV(struct.unpack('<Q', struct.pack('<d', float(v)))[0], 64))
            for s1, _ in h.call(s, 'mjs_gen_stack_trace', m.addr, pos):
                h.ensure(s1, b.get(s1)[1] == 0, 'every frame is visited')
                textis(h, s1, [pos] + [BVV(r, h.PW) for r in (r1, r0) if r != EXIT], 'a line for the position and every frame called from the script')


def c_asprintf(ex, st, a):
    """allocates the formatted text; what is formatted is recorded"""
    buf, size, fmt = a[:3]
    f = cstr(ex, st, fmt)
    if f is None:
        raise Undecided('format string')
    text = ex.newobj(st, 'text', BVV(16, ex.PW), 'heap', align=16)
    st.g['fmt'] = st.g.get('fmt', ()) + ((f, tuple(simp(x) for x in a[3:]), text),)
    for x in a[3:]:
        if z3.is_bv(x) and x.size() == ex.PW:
            o, _ = ex.resolve(st, x, 'formatted string')
            if o.id in st.dead:
                ex.prove(st, False, 'formatted strings are alive', 'memory')
    ex.store(st, buf, ex.PB, text.base)
    return [(st, BVV(8, 32))]


FILE = z3.Function('file.of', B64, B64)
LINE = z3.Function('line.of', B32, B32)


def c_fileof(ex, st, a):
    G = st.g['tl']
    ex.prove(st, a[1] == z3.Extract(31, 0, G['off']), 'the file of the position', 'requires')
    return [(s, v) for v, c in ((G['file'].base, G['known']), (BVV(0, ex.PW), z3.Not(G['known']))) for s in ex.case(st, c)]


def c_lineof(ex, st, a):
    G = st.g['tl']
    ex.prove(st, a[1] == z3.Extract(31, 0, G['off']), 'the line of the position', 'requires')
    return [(st, G['line'])]


def t_traceline(h, first):
    m = M(h)
    old = None
    off = h.sym('off', h.PW)
    known, line = h.sym('known', 1) == 1, h.sym('line', 32)
    file = h.obj('file', BVV(8, h.PW), kind='input', zero=True)
    if h.mode != 'proof':
        CODEMAP(h, m)
        h.st.g['tm'] = m
        h.assume(z3.ULT(off, 40))
        S = h.st
        for s, _ in h.call(S, 'mjs_append_stack_trace_line', m.addr, off):
            if first:
                textis(h, s, [off], 'the line of the position is named')
                continue
            # a second line goes behind the first
            for s1, _ in h.call(s, 'mjs_append_stack_trace_line', m.addr, BVV(18, h.PW)):
                textis(h, s1, [off, BVV(18, h.PW)], 'the line is put behind the trace so far')
        return
    if not first:
        old = h.obj('trace', BVV(8, h.PW))
        m.put(h.st, 'stack_trace', old.base)
    h.st.g['tl'] = dict(off=off, file=file, known=known, line=line)
    for s, _ in h.call(h.st, 'mjs_append_stack_trace_line', m.addr, off):
        F = s.g.get('fmt', ())
        t = m.get(s, 'stack_trace')
        for s1 in h.case(s, off == 0x7fffffff):
            h.ensure(s1, bconst(len(F) == 0), 'calls from C add no line')
            h.ensure(s1, t == (BVV(0, h.PW) if first else old.base), 'calls from C add no line')
        for s1 in h.case(s, off != 0x7fffffff):
            h.ensure(s1, bconst(len(F) == (1 if first else 2)), 'one line is made')
            if len(F) != (1 if first else 2):
                continue
            f, args, text = F[0]
            h.ensure(s1, bconst(f == b'  at %s:%d\n' and len(args) == 2), 'the line names file and line number')
            for s2 in h.case(s1, known):
                h.ensure(s2, args[0] == file.base, 'the file of the position is named')
            for s2 in h.case(s1, z3.Not(known)):
                h.ensure(s2, bconst(cstr(h.ex, s2, args[0]) == b'<unknown-filename>'), 'an unknown file is named as such')
            h.ensure(s1, args[1] == line, 'the line of the position is named')
            if first:
                h.ensure(s1, t == text.base, 'the line is the trace')
            else:
                f2, a2, t2 = F[1]
                h.ensure(s1, z3.And(bconst(f2 == b'%s%s'), a2[0] == old.base, a2[1] == text.base, t == t2.base), 'the line is put behind the trace so far')
                h.ensure(s1, bconst(text.id in s1.dead and old.id in s1.dead), 'the parts are released')
                h.ensure(s1, bconst(t2.id not in s1.dead), 'the trace is alive')


def c_fprintf(ex, st, a):
    """diagnostic output only"""
    return [(st, BVV(0, 32))]


for _f in (False, True):
    task('C15', 'trace_line' + ('_first' if _f else ''), ['mjs_append_stack_trace_line'], always=dict(ERR, fprintf=c_fprintf, mg_asprintf=c_asprintf), assumes=ASSUME, export=['mjs_append_stack_trace_line'],
         replace=dict(mjs_get_bcode_filename_by_offset=c_fileof, mjs_get_lineno_by_offset=c_lineof), bunroll=8, bound='one part of fixed layout')(
             lambda h, f=_f: t_traceline(h, f))


task('C15', 'stack_trace', ['mjs_gen_stack_trace'], replace=dict(mjs_get_int=c_get_int, mjs_append_stack_trace_line=c_line), loops={('mjs_gen_stack_trace', 0): Frames()},
     bound='two call frames', bunroll=12, assumes=ASSUME, always=dict(ERR, fprintf=c_fprintf, mg_asprintf=c_asprintf))(t_trace)


# ---------------------------------------------------------------- a whole source
from .mbuf import mbuf_append_move, mbuf_insert_contract, mbuf_resize_move, mbuf_trim_move  # noqa: E402


def c_statements(ex, st, a):
    """ASSUMED: compiling statements appends code to the generation buffer and items to the line map, and moves the insertion point behind it"""
    G = st.g['parse']
    h, m, p = G['h'], G['m'], a[0]
    po = lambda f: (simp(p + ex.lay.off('pstate', f)[0]), ex.lay.off('pstate', f)[1])
    cur, n = po('cur_idx')
    gen, _ = _field(ex, m.addr, 'bcode_gen')
    ln = m.get(st, 'bcode_gen.len')
    c0 = ex.load(st, cur, n)
    ex.prove(st, z3.And(pw(ex, c0) == ln, ex.load(st, po('start_bcode_idx')[0], n) == c0), 'code is generated behind the header', 'requires')
    ex.prove(st, ex.load(st, po('mjs')[0], ex.PB) == m.addr, 'the parser knows its interpreter', 'requires')
    ex.prove(st, ex.load(st, po('pos')[0], ex.PB) == G['src'].base, 'parsing starts at the start of the source', 'requires')
    mbuf_append_move(ex, st, [gen, BVV(0, ex.PW), G['n']])
    mbuf_append_move(ex, st, [po('offset_lineno_map')[0], BVV(0, ex.PW), G['ml']])
    ex.store(st, cur, n, simp(c0 + z3.Extract(31, 0, G['n'])))
    for f, v in (('line_no', G['line']), ('last_emitted_line_no', G['last'])):
        ex.store(st, po(f)[0], 4, v)
    G = dict(G)
    G['code0'] = ln
    G['codest'] = st.copy()
    G['map'] = po('offset_lineno_map')[0]
    st.g['parse'] = G
    return [(st, G['res'])]


def c_emit(ex, st, a):
    """one byte of code at the insertion point; a new line gets a map item (tasks emit_byte*)"""
    p, b = a
    po = lambda f: simp(p + ex.lay.off('pstate', f)[0])
    G = st.g['parse']
    m = G['m']
    gen, _ = _field(ex, m.addr, 'bcode_gen')
    cur = ex.load(st, po('cur_idx'), 4)
    ex.prove(st, pw(ex, cur) == m.get(st, 'bcode_gen.len'), 'the insertion point is behind the code', 'requires')
    ex.prove(st, ex.load(st, po('mjs'), ex.PB) == m.addr, 'the parser knows its interpreter', 'requires')
    t = ex.newobj(st, 'byte', BVV(1, ex.PW), 'input', content='zero', align=1)
    ex.poke(st, t, 0, 1, b)
    mbuf_append_move(ex, st, [gen, t.base, BVV(1, ex.PW)])
    ex.store(st, po('cur_idx'), 4, simp(cur + 1))
    line, last = ex.load(st, po('line_no'), 4), ex.load(st, po('last_emitted_line_no'), 4)
    out = []
    for s in ex.case(st, z3.Not(last < line)):
        out.append((s, None))
    for s in ex.case(st, last < line):
        g = dict(s.g['parse'])
        g['xml'] = ex.fresh('item', ex.PW)
        s.g['parse'] = g
        ex.assume(s, z3.And(z3.UGE(g['xml'], 2), z3.ULE(g['xml'], 10)))
        mbuf_append_move(ex, s, [po('offset_lineno_map'), BVV(0, ex.PW), g['xml']])
        ex.store(s, po('last_emitted_line_no'), 4, line)
        out.append((s, None))
    return out


@task('C15', 'parse', ['mjs_parse', 'pinit', 'mjs_bcode_commit', 'mjs_bcode_part_add'], cost=9, timeout=60000,
      replace=dict(mbuf_append=mbuf_append_move, mbuf_insert=mbuf_insert_contract, mbuf_resize=mbuf_resize_move, mbuf_trim=mbuf_trim_move, parse_statement_list=c_statements, emit_byte=c_emit, **VI),
      breplace=dict(parse_statement_list=c_statements), malloc_may_fail=False, bound='one source text, its statements by contract', bunroll=24, always=ERR,
      assumes=ASSUME + ['compiling the statements of the source only appends code and map items (parse_statement_list is not under contract)'])
def t_parse(h):
    m = M(h)
    P = Parts(h, m, items=1, null=h.mode != 'proof')
    z = BVV(0, h.PW)
    for f in ('buf', 'len', 'size'):
        m.put(h.st, 'bcode_gen.' + f, z)
    E = h.lay.enums
    if h.mode != 'proof':
        path = h.obj('path', BVV(3, h.PW), kind='input', zero=True)
        src = h.obj('src', BVV(8, h.PW), kind='input', zero=True)
        for o, t in ((path, 'f1'), (src, 'a;\n\nb;')):
            for i, c in enumerate(t):
                h.ex.poke(h.st, o, i, 1, BVV(ord(c), 8))
        c = lambda v, b=h.PW: BVV(v, b)
        h.st.g['parse'] = dict(h=h, m=m, src=src, n=c(6), ml=c(2), res=c(0, 32), line=c(3, 32), last=c(3, 32))
        for s, r in h.call(h.st, 'mjs_parse', path, src, m.addr):
            h.ensure(s, r == 0, 'the source is compiled')
            b = P.b.get(s)
            bp = simp(b[0] + P.b.len)
            g = lambda f: h.get(s, bp, 'mjs_bcode_part', f)
            h.ensure(s, b[1] == P.b.len + P.psz, 'one part is added')
            p, n = g('data.p'), g('data.len')
            hd = lambda i: pw(h, h.ex.peek(s, simp(p + 1 + 4 * i), 4))
            h.ensure(s, z3.And(h.byte(s, p) == E['OP_BCODE_HEADER'], hd(0) == n - 1), 'the header records the size')
            h.ensure(s, z3.And([h.byte(s, p, 13 + i) == c for i, c in enumerate(b'f1\0')]), 'the file name follows the header')
            bo, mo = hd(1), hd(2)
            h.ensure(s, z3.And(bo == 15, z3.UGT(mo, bo), z3.ULT(mo, n)), 'the code follows the file name')
            h.ensure(s, h.byte(s, p, mo) == E['OP_EXIT'], 'the code ends with an exit')
            ml = h.byte(s, p, 1 + mo)
            h.ensure(s, z3.And(n == 2 + mo + pw(h, ml), ml == 2), 'the line map ends the part')
            h.ensure(s, z3.And(g('start_idx') == P.len, m.get(s, 'bcode_len') == P.len + n), 'the part is committed behind the others')
            h.ensure(s, m.get(s, 'bcode_gen.len') == 0, 'the generation buffer is handed over')
        return
    pn = h.size('path.n', 16)
    path = h.obj('path', simp(pn + 1), kind='input', align=1)
    src = h.obj('src', BVV(8, h.PW), kind='input', zero=True)
    h.assume(h.byte(h.st, path, pn) == 0)
    h.st.g[('nul', path.id)] = (pn,)
    k, j = h.size('k'), h.size('j')
    st0 = h.snap(h.st)
    G = dict(h=h, m=m, src=src, n=h.size('code.n', 28), ml=h.size('map.n', 28), res=h.sym('res', 32), line=simp(z3.ZeroExt(1, h.sym('line', 31))),
             last=simp(z3.ZeroExt(1, h.sym('last', 31))), xml=z)
    h.st.g['parse'] = G
    h.ex.point(h.st, k)
    for s, r in h.call(h.st, 'mjs_parse', path, src, m.addr):
        h.ensure(s, r == G['res'], 'the result of parsing is passed on')
        h.ensure(s, z3.And([m.get(s, 'bcode_gen.' + f) == 0 for f in ('buf', 'len', 'size')]), 'the generation buffer is empty again')
        g1 = s.g['parse']
        for s1 in h.case(s, r != 0):
            h.ensure(s1, z3.And(P.b.get(s1)[1] == P.b.len, P.b.get(s1)[0] == P.b.base, m.get(s1, 'bcode_len') == P.len), 'nothing is committed on an error')
        for s1 in h.case(s, r == 0):
            b = P.b.get(s1)
            h.ensure(s1, b[1] == P.b.len + P.psz, 'one part is added')
            bp = simp(b[0] + P.b.len)
            g = lambda f: h.get(s1, bp, 'mjs_bcode_part', f)
            p, n = g('data.p'), g('data.len')
            L = s1.g['_strlen'][0][2]
            hd = lambda i: h.ex.peek(s1, simp(p + 1 + 4 * i), 4)
            bo = simp(12 + L + 1)
            mo = simp(bo + G['n'] + 1)
            ml = simp(G['ml'] + g1['xml'])
            vl = pw(h, spec_llen(to64(ml)))
            t32 = lambda e: z3.Extract(31, 0, e)
            h.ensure(s1, h.byte(s1, p) == E['OP_BCODE_HEADER'], 'a part starts with a header')
            h.ensure(s1, hd(HDR['bcode']) == t32(bo), 'the header says where the code is')
            h.ensure(s1, hd(HDR['map']) == t32(mo), 'the header says where the line map is')
            h.ensure(s1, hd(HDR['total']) == t32(n - 1), 'the header says how large the part is')
            h.ensure(s1, n == 1 + mo + vl + ml, 'the part is header, file name, code and line map')
            for s2 in h.case(s1, z3.ULE(k, L)):
                h.ensure(s2, h.byte(s2, p, simp(13 + k)) == h.byte(st0, path, k), 'the file name with its terminator follows the header')
            for s2 in h.case(s1, z3.ULT(k, G['n'])):
                h.ensure(s2, h.byte(s2, p, simp(1 + bo + k)) == h.byte(g1['codest'], m.get(g1['codest'], 'bcode_gen.buf'), simp(g1['code0'] + k)), 'the code of the statements follows')
            h.ensure(s1, h.byte(s1, p, simp(mo)) == E['OP_EXIT'], 'the code ends with an exit')
            for s2 in h.case(s1, z3.ULT(j, vl)):
                h.ensure(s2, h.byte(s2, p, simp(1 + mo + j)) == vbyte(to64(ml), j), 'the line map starts with its length')
            mp = h.ex.peek(g1['codest'], simp(g1['map'] + h.lay.off('mbuf', 'buf')[0]), h.PB)
            for i in range(1, 6):
                for s2 in h.case(s1, z3.And(vl == i, z3.ULT(j, G['ml']))):
                    h.ensure(s2, h.byte(s2, p, simp(1 + mo + i + j)) == h.byte(g1['codest'], mp, j), 'the map items follow')
            h.ensure(s1, z3.And(z3.UGE(vl, 1), z3.ULE(vl, 5)), 'the length of the line map takes 1 to 5 bytes')
            h.ensure(s1, z3.And(g('start_idx') == P.len, m.get(s1, 'bcode_len') == P.len + n), 'the part is committed behind the others')
