"""shared specification helpers"""
import z3
from lvc.sym import BVV, FPV, Fork, Node, Obj, PathEnd, Undecided, bconst, isval, simp, toint


def U(x):
    return z3.BoolVal(x)


class MB:
    """an arbitrary well-formed mbuf placed at `addr` (len <= size, block of `size` bytes, NULL iff size 0)"""

    def __init__(self, h, name, owner=None, path='', null=False, maxbits=31, minsize=1, full=False, bound=16, kind='heap',
                 mult=None):
        self.h = h
        self.name = name
        self.owner = owner
        self.path = path
        PW = h.PW
        if null:
            self.size = BVV(0, PW)
            self.len = BVV(0, PW)
            self.buf = None
            self.base = BVV(0, PW)
        else:
            self.size = h.size(name + '.size', maxbits, bound=bound)
            self.len = h.size(name + '.len', maxbits, bound=bound)
            h.assume(z3.And(z3.ULE(self.len, self.size), z3.UGE(self.size, minsize)))
            if mult:
                # length is a whole number of mult-byte items
                n = h.size(name + '.items', maxbits - 4, bound=None if bound is None else bound // mult)
                h.assume(self.len == n * BVV(mult, PW))
                self.items = n
            if full:
                h.assume(self.len == self.size)
            self.buf = h.obj(name + '.buf', self.size, kind=kind)
            self.base = self.buf.base
        if owner is None:
            self.owner = h.obj(name, h.lay.size('mbuf'), kind='input', zero=True)
            self.struct = 'mbuf'
            self.pre = ''
        else:
            self.struct, self.pre = path
            self.pre += '.'
        self.write(h.st)

    def write(self, st):
        h = self.h
        h.put(st, self.owner, self.struct, self.pre + 'buf', self.base)
        h.put(st, self.owner, self.struct, self.pre + 'len', self.len)
        h.put(st, self.owner, self.struct, self.pre + 'size', self.size)

    @property
    def addr(self):
        return simp(self.owner.base + BVV(self.h.off(self.struct, self.pre + 'buf')[0], self.h.PW))

    def get(self, st):
        h = self.h
        return (h.get(st, self.owner, self.struct, self.pre + 'buf'), h.get(st, self.owner, self.struct, self.pre + 'len'),
                h.get(st, self.owner, self.struct, self.pre + 'size'))


def wf_block(h, s, buf, size, what='buffer'):
    """postcondition: buf is NULL with size 0, or points at the start of a live heap block of at least size bytes"""
    ex = h.ex
    for s1 in h.case(s, z3.And(size != 0)):
        try:
            o, off = ex.resolve_spec(s1, buf)
        except Undecided:
            h.ensure(s1, False, what + ' points to a live block')
            continue
        if o.id in s1.dead:
            h.ensure(s1, False, what + ' is not freed memory')
            continue
        h.ensure(s1, z3.And(ex.bv(off) == 0, z3.ULE(size, o.size)), what + ' block holds size bytes')
