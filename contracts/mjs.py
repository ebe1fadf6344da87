"""the interpreter context: builder for an arbitrary well-formed one, and replacement contracts shared by callers"""
import z3
from lvc.sym import BVV, Node, Undecided, bconst, simp, toint
from lvc.libc import isnull
from .common import MB


class M:
    """an arbitrary interpreter context; only the parts a task asks for are well-formed, the rest is arbitrary memory"""

    def __init__(self, h, name='mjs', error=True, zero=False):
        self.h = h
        self.name = name
        self.o = h.structobj(name, 'mjs', kind='input', zero=zero)
        if error:
            h.put(h.st, self.o, 'mjs', 'error', BVV(0, 32))
            h.put(h.st, self.o, 'mjs', 'error_msg', BVV(0, h.PW))
            h.put(h.st, self.o, 'mjs', 'stack_trace', BVV(0, h.PW))

    @property
    def addr(self):
        return self.o.base

    def mb(self, field, **kw):
        m = MB(self.h, self.name + '.' + field, owner=self.o, path=('mjs', field), **kw)
        setattr(self, field, m)
        return m

    def get(self, st, path):
        return self.h.get(st, self.o, 'mjs', path)

    def put(self, st, path, v):
        self.h.put(st, self.o, 'mjs', path, v)

    def error(self, st):
        return self.get(st, 'error')


def _field(ex, p, path):
    o, n = ex.lay.off('mjs', path)
    return simp(p + BVV(o, ex.PW)), n


def _newmsg(ex, st):
    n = ex.fresh('msglen', 20)
    o = ex.newobj(st, 'errmsg', simp(z3.ZeroExt(ex.PW - 20, n) + 1), 'heap', align=16)
    return o.base


def _dropmsg(ex, st, a):
    old = ex.load(st, a, ex.PB)
    if not isnull(ex, st, old):
        o, off = ex.resolve(st, old, 'error message')
        st.dead = st.dead | {o.id}


def c_prepend_errorf(ex, st, args):
    """error keeps an earlier code or becomes err; message replaced by a fresh string.  Enforced by C21."""
    m, err = args[0], args[1]
    ex.prove(st, err != 0, 'mjs_prepend_errorf requires an error code', 'requires')
    a, n = _field(ex, m, 'error')
    old = ex.load(st, a, n)
    ex.store(st, a, n, simp(z3.If(old == 0, err, old)))
    b, _ = _field(ex, m, 'error_msg')
    _dropmsg(ex, st, b)
    ex.store(st, b, ex.PB, _newmsg(ex, st))
    return [(st, err)]


def c_set_errorf(ex, st, args):
    m, err, fmt = args[0], args[1], args[2]
    a, n = _field(ex, m, 'error')
    ex.store(st, a, n, err)
    b, _ = _field(ex, m, 'error_msg')
    _dropmsg(ex, st, b)
    ex.store(st, b, ex.PB, BVV(0, ex.PW) if isnull(ex, st, fmt) else _newmsg(ex, st))
    return [(st, err)]


ERR = {'mjs_prepend_errorf': c_prepend_errorf, 'mjs_set_errorf': c_set_errorf}
