"""strings as callers see them: builder for an arbitrary existing string in any representation, and the replacement
contracts of mjs_get_string / mjs_mk_string (discharged on the real functions by C04)."""
import z3
from lvc.sym import BVV, Fork, Node, Undecided, bconst, isval, simp, toint
from lvc.libc import isnull, m_strlen
from .common import MB
from .mjs import _field


def tagof(h, name):
    return h.k['MJS_TAG_STRING_' + name] >> 48


class Str:
    """kinds: I inlined 0..4 bytes, 5 inlined five bytes, O in owned_strings, F foreign (content outside the interpreter)"""

    def __init__(self, h, m, name, kind, min=0, bound=16, nul=True):
        self.h, self.m, self.kind, self.name = h, m, kind, name
        ex, st, PW = h.ex, h.st, h.PW
        self.src = None
        if kind in ('I', '5'):
            b = h.sym(name + '.bytes', 40)
            if kind == 'I':
                l = h.sym(name + '.len', 8)
                h.assume(z3.And(z3.ULE(l, 4), z3.UGE(l, min)))
                self.v = simp(z3.Concat(BVV(tagof(h, 'I'), 16), BVV(0, 8), z3.Extract(39, 8, b), l))
                self.n = simp(z3.ZeroExt(PW - 8, l))
                # bytes past the length are zero, as mjs_mk_string leaves them
                for i in range(4):
                    h.assume(z3.Implies(z3.ULE(l, i), z3.Extract(8 * i + 15, 8 * i + 8, b) == 0))
                self.bb = [z3.Extract(8 * i + 15, 8 * i + 8, b) for i in range(4)]
            else:
                self.v = simp(z3.Concat(BVV(tagof(h, '5'), 16), BVV(0, 8), b))
                self.n = BVV(5, PW)
                self.bb = [z3.Extract(8 * i + 7, 8 * i, b) for i in range(5)]
            reg(h.st, self)
            return
        self.n = h.size(name + '.n', bound=bound)
        h.assume(z3.And(z3.UGE(self.n, max(min, 0)), z3.ULE(self.n, BVV((1 << 30), PW))))
        small = h.mode != 'proof'
        if small:
            h.assume(z3.ULE(self.n, 127))
        self.hdr = BVV(1, PW) if small else simp(z3.ZeroExt(PW - 8, h.sym(name + '.hdr', 8)))
        h.assume(z3.And(z3.UGE(self.hdr, 1), z3.ULE(self.hdr, 5)))
        o = h.size(name + '.off', bound=64)
        self.off = o
        if kind == 'O':
            om = m.owned_strings
            h.assume(z3.ULT(o, om.len))
            h.assume(z3.ULE(o + self.hdr + self.n + 1, om.len))
            if small:
                h.assume(h.byte(st, om.buf, o) == z3.Extract(7, 0, self.n))
            h.assume(h.byte(st, om.buf, simp(o + self.hdr + self.n)) == 0)
            self.v = simp(z3.Concat(BVV(tagof(h, 'O'), 16), z3.Extract(47, 0, z3.ZeroExt(64 - PW, o) if PW < 64 else o)))
        else:
            fm = m.foreign_strings
            h.assume(z3.ULE(o + self.hdr + h.PB, fm.len))
            self.src = h.obj(name + '.src', self.n, kind='input', align=1)
            if small:
                h.assume(h.byte(st, fm.buf, o) == z3.Extract(7, 0, self.n))
            if h.mode == 'replay':
                h.ex.poke(st, fm.buf, simp(o + 1), h.PB, self.src.base)
            elif small:
                h.assume(h.ex.peek(st, simp(fm.base + o + 1), h.PB) == self.src.base)
            self.v = simp(z3.Concat(BVV(tagof(h, 'F'), 16), z3.Extract(47, 0, z3.ZeroExt(64 - PW, o) if PW < 64 else o)))
        reg(h.st, self)

    def byte(self, i, st=None):
        """content byte i in the initial (or given) state"""
        h = self.h
        st = st or h.st
        i = h.ex.bv(i)
        if self.kind in ('I', '5'):
            r = BVV(0, 8)
            for j, b in enumerate(self.bb):
                r = z3.If(i == j, b, r)
            return simp(r)
        if self.kind == 'O':
            om = self.m.owned_strings
            return h.ex.rd(st, st.mem[om.buf.id], toint(simp(self.off + self.hdr + i)), 1)
        return h.byte(st, self.src, i)

    # ---- contract view: pointer of the content in state st
    def ptr(self, ex, st, cell):
        if self.kind == 'I':
            return simp(cell + 1)
        if self.kind == '5':
            return cell
        if self.kind == 'O':
            a, n = _field(ex, self.m.addr, 'owned_strings.buf')
            return simp(ex.load(st, a, ex.PB) + self.off + self.hdr)
        return self.src.base


class DStr:
    """a string made during the call (by the mjs_mk_string contract)"""

    def __init__(self, v, n, kind, maddr, off=None, p=None):
        self.v, self.n, self.kind, self.maddr, self.off, self.p = v, n, kind, maddr, off, p

    def ptr(self, ex, st, cell):
        if self.kind == 'I':
            return simp(cell + 1)
        if self.kind == '5':
            return cell
        if self.kind == 'O':
            a, n = _field(ex, self.maddr, 'owned_strings.buf')
            return simp(ex.load(st, a, ex.PB) + self.off)
        return self.p


def reg(st, s):
    st.g['strs'] = (s,) + st.g.get('strs', ())


def find(ex, st, v):
    for s in st.g.get('strs', ()):
        if simp(s.v).eq(simp(v)):
            return s
    for s in st.g.get('strs', ()):
        if ex.must(st, s.v == v):
            return s
    return None


def isstr(ex, v):
    hi = z3.Extract(63, 48, v)
    return z3.Or([hi == BVV(ex.k['MJS_TAG_STRING_' + n] >> 48, 16) for n in ('I', '5', 'O', 'F', 'D')])


def c_get_string(ex, st, a):
    """a known string: its content pointer and length; a non-string: NULL, 0"""
    m, cell, sizep = a
    v = ex.load(st, cell, 8)
    s = find(ex, st, v)
    if s is not None:
        n, p = s.n, s.ptr(ex, st, cell)
    elif ex.must(st, z3.Not(isstr(ex, v))):
        n, p = BVV(0, ex.PW), BVV(0, ex.PW)
    else:
        if ex.must(st, isstr(ex, v)):
            return None
        for s in st.g.get('strs', ()):
            if ex.feasible(st, s.v == v):
                raise Fork([s.v == v, s.v != v])
        if ex.feasible(st, isstr(ex, v)):
            raise Fork([isstr(ex, v), z3.Not(isstr(ex, v))])
        return None
    if not isnull(ex, st, sizep):
        ex.store(st, sizep, ex.PB, n)
    return [(st, p)]


def grow(ex, st, mb, need):
    """room for `need` more bytes at the end of the mbuf at `mb` -> [(st, base)] with the old content in place"""
    P = ex.PB
    buf = ex.load(st, mb, P)
    ln = ex.load(st, simp(mb + P), P)
    size = ex.load(st, simp(mb + 2 * P), P)
    nl = simp(ln + need)
    out = []
    fits = simp(z3.ULE(nl, size))
    if ex.feasible(st, fits):
        s = st.copy()
        ex.assume(s, fits)
        out.append((s, buf, ln))
    if ex.feasible(st, simp(z3.Not(fits))):
        s = st.copy()
        ex.assume(s, z3.Not(fits))
        ns = ex.fresh('newsize', ex.PW)
        ex.assume(s, z3.And(z3.UGE(ns, nl), z3.ULE(ns, nl + nl + 256)))
        q = ex.newobj(s, 'realloc', ns, 'heap', align=16)
        if not isnull(ex, s, buf):
            o, off = ex.resolve(s, buf, 'buffer')
            s.mem[q.id] = Node('cp', s.mem[q.id], 0, toint(ln), None, s.mem[o.id], 0)
            s.dead = s.dead | {o.id}
        ex.store(s, mb, P, q.base)
        ex.store(s, simp(mb + 2 * P), P, ns)
        out.append((s, q.base, ln))
    return out


def c_mk_string(ex, st, a):
    m, p, n, copy = a
    if ex.must(st, n == BVV(-1, ex.PW)):
        (st, n), = m_strlen(ex, st, [p])
    k = ex.k
    tg = lambda x: BVV(k['MJS_TAG_STRING_' + x] >> 48, 16)
    P = ex.PB
    cp = simp(copy != 0)
    if not z3.is_true(cp) and not z3.is_false(cp) and not ex.must(st, cp) and not ex.must(st, z3.Not(cp)):
        raise Fork([cp, z3.Not(cp)])
    if z3.is_false(cp) or (not z3.is_true(cp) and ex.must(st, z3.Not(cp))):
        if ex.must(st, n != 0):
            mb, _ = _field(ex, m, 'foreign_strings.buf')
            need = ex.fresh('fneed', ex.PW)
            ex.assume(st, z3.And(z3.UGE(need, P + 1), z3.ULE(need, P + 10)))
            out = []
            for s, base, ln in grow(ex, st, mb, need):
                o, off = ex.resolve(s, base, 'buffer')
                ex.havoc(s, o, simp(ex.bv(off) + ln), need)
                ex.store(s, simp(mb + P), P, simp(ln + need))
                v = simp(z3.Concat(tg('F'), z3.Extract(47, 0, ln)))
                reg(s, DStr(v, n, 'F', m, p=p))
                out.append((s, v))
            return out
        if not ex.must(st, n == 0):
            raise Fork([n == 0, n != 0])
    cases = [z3.ULE(n, 4), n == 5, z3.UGT(n, 5)]
    live = [c for c in cases if ex.feasible(st, simp(c))]
    if len(live) > 1:
        raise Fork(live)
    null = isnull(ex, st, p)
    if not null and not ex.must(st, n == 0):
        so, soff = ex.access(st, p, toint(simp(n)), 'string source')
        src = st.mem[so.id]
    else:
        src = None
    if not live[0].eq(cases[2]):
        five = live[0].eq(cases[1])
        bs = []
        for i in range(5 if five else 4):
            f = ex.fresh('pad', 8)
            if src is not None:
                b = ex.rd(st, src, ex.addoff(soff, i), 1)
                b = b if five else z3.If(z3.UGT(n, i), b, BVV(0, 8))
            elif null:
                b = f
            else:
                b = BVV(0, 8)
            bs.append(b)
        if five:
            v = simp(z3.Concat(tg('5'), BVV(0, 8), *bs[::-1]))
        else:
            v = simp(z3.Concat(tg('I'), BVV(0, 8), *(bs[::-1] + [z3.Extract(7, 0, n)])))
        reg(st, DStr(v, n, '5' if five else 'I', m))
        return [(st, v)]
    ex.prove(st, z3.ULE(n, BVV(1 << 40 if ex.PW == 64 else 1 << 28, ex.PW)), 'mjs_mk_string requires a sane length', 'requires')
    mb, _ = _field(ex, m, 'owned_strings.buf')
    g, bit, _ = ex.lay.bit('mjs', 'need_gc')
    ng = ex.load(st, simp(m + g), 1)
    ex.store(st, simp(m + g), 1, simp(ng | (z3.ZeroExt(7, ex.fresh('need_gc', 1)) << bit)))
    hdr = ex.fresh('hdr', 8)
    ex.assume(st, z3.And(z3.UGE(hdr, 1), z3.ULE(hdr, 9)))
    hdr = simp(z3.ZeroExt(ex.PW - 8, hdr))
    out = []
    for s, base, ln in grow(ex, st, mb, simp(hdr + n + 1)):
        o, off = ex.resolve(s, base, 'buffer')
        ex.havoc(s, o, simp(ex.bv(off) + ln), simp(hdr + n + 1))
        d = simp(ex.bv(off) + ln + hdr)
        if src is not None:
            s.mem[o.id] = Node('cp', s.mem[o.id], toint(d), toint(simp(n)), None, src, soff)
        ex.store(s, simp(base + ln + hdr + n), 1, BVV(0, 8))
        ex.store(s, simp(mb + P), P, simp(ln + hdr + n + 1))
        v = simp(z3.Concat(tg('O'), z3.Extract(47, 0, ln)))
        reg(s, DStr(v, n, 'O', m, off=simp(ln + hdr)))
        out.append((s, v))
    return out


STRS = {'mjs_get_string': c_get_string, 'mjs_mk_string': c_mk_string}
