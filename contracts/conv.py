"""C18: what a value is called when it is used as a property name (mjs_to_string)."""
import z3
from lvc.spec import task
from lvc.sym import BVV, bconst, simp
from .builtins import OPT, World
from .strs import Str
from .values import anyval


def c_jprintf(ex, st, a):
    """ASSUMED: the text of a number (at most 49 bytes) and a NUL are put into the buffer of the output"""
    v, m, out = a
    G = st.g['ts']
    h = G['h']
    ex.prove(st, v == G['v'], 'the value is printed', 'requires')
    P = ex.PB
    at = ex.lay.off('json_out', 'u')[0]
    buf = ex.load(st, simp(out + at), P)
    ex.prove(st, z3.And(ex.load(st, simp(out + at + P), P) == 50, ex.load(st, simp(out + at + 2 * P), P) == 0), 'an empty buffer of 50 bytes', 'requires')
    ex.memcopy(st, buf, G['text'].base, simp(G['n'] + 1), False)
    o, f = ex.resolve(st, buf, 'buffer')
    st.g['_strlen'] = st.g.get('_strlen', ()) + ((st.mem[o.id], f, simp(G['n'])),)
    return [(st, BVV(0, 32))]


def outs(h):
    return [h.obj(n, h.c(h.PB), zero=True) for n in ('p', 'size')] + [h.obj('need_free', h.c(4), zero=True)]


def res(h, s, o):
    return h.ex.peek(s, o[0].base, h.PB), h.ex.peek(s, o[1].base, h.PB), h.ex.peek(s, o[2].base, 4)


def t_string(h, kind):
    W = World(h, kind == 'F')
    m = W.m
    a = Str(h, m, 'a', kind, bound=6)
    cell = h.obj('v', h.c(8), zero=True)
    h.ex.poke(h.st, cell, 0, 8, a.v)
    o = outs(h)
    k = h.size('k')
    h.assume(z3.ULT(k, a.n))
    st0 = h.snap(h.st)
    for s, r in h.call(h.st, 'mjs_to_string', m.addr, cell, *o):
        p, n, f = res(h, s, o)
        h.ensure(s, z3.And(r == 0, m.error(s) == 0), 'a string is a name')
        h.ensure(s, n == a.n, 'the length of the string')
        h.ensure(s, f == 0, 'a string is borrowed')
        if kind in ('I', '5'):
            for i in range(5):
                for s1 in h.case(s, z3.UGT(a.n, i)):
                    h.ensure(s1, h.byte(s1, p, BVV(i, h.PW)) == a.byte(i, st0), 'the bytes of the string')
        else:
            h.ensure(s, h.byte(s, p, k) == a.byte(k, st0), 'the bytes of the string')


def t_number(h):
    m = World(h, False).m
    v = anyval(h, 'v', ['number'])
    cell = h.obj('v', h.c(8), zero=True)
    h.ex.poke(h.st, cell, 0, 8, v)
    n = h.size('n', 8)
    h.assume(z3.ULE(n, 49))
    t = h.obj('text', simp(n + 1), kind='input')
    k = h.size('k', 8)
    h.assume(z3.ULE(k, n))
    h.assume(z3.And((h.byte(h.st, t, n) == 0)))
    h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, n), h.ex.rd(h.st, h.st.mem[t.id], i, 1) != 0))
    h.st.g['ts'] = dict(h=h, v=v, n=n, text=t)
    o = outs(h)
    for s, r in h.call(h.st, 'mjs_to_string', m.addr, cell, *o):
        p, ln, f = res(h, s, o)
        h.ensure(s, r == 0, 'a number has a text')
        h.ensure(s, ln == n, 'the length of the text')
        h.ensure(s, f != 0, 'the text is a copy to be freed')
        ob, off = h.ex.resolve(s, p, 'text')
        h.ensure(s, bconst(ob.kind == 'heap' and ob.id not in s.dead), 'the text is a block of its own')
        h.ensure(s, h.byte(s, p, k) == h.byte(s, t, k), 'the text and its NUL')


CONST = dict(undefined='undefined', null='null', foreign='TODO_foreign')


def t_other(h, kind):
    m = World(h, False).m
    v = anyval(h, 'v', [kind])
    cell = h.obj('v', h.c(8), zero=True)
    h.ex.poke(h.st, cell, 0, 8, v)
    o = outs(h)
    for s, r in h.call(h.st, 'mjs_to_string', m.addr, cell, *o):
        p, n, f = res(h, s, o)
        h.ensure(s, f == 0, 'nothing is to be freed')
        if kind in CONST or kind == 'boolean':
            h.ensure(s, z3.And(r == 0, m.error(s) == 0), 'it has a name')
            for c, t in ([(bconst(True), CONST[kind])] if kind in CONST else [(z3.Extract(0, 0, v) == 1, 'true'), (z3.Extract(0, 0, v) == 0, 'false')]):
                for s1 in h.case(s, c):
                    h.ensure(s1, z3.And([n == len(t)] + [h.ex.peek(s1, simp(p + i), 1) == b for i, b in enumerate(t.encode() + b'\0')]), 'the name of the value')
        else:
            h.ensure(s, z3.And(r == h.lay.enums['MJS_TYPE_ERROR'], m.error(s) == r), 'no name: a type error')
            h.ensure(s, z3.And(p == 0, n == 0), 'no text')


for _k in ('I', '5', 'O', 'F'):
    task('C18', 'name_of_string_' + _k, ['mjs_to_string'], **OPT)(lambda h, k=_k: t_string(h, k))
task('C18', 'name_of_number', ['mjs_to_string'], **dict(OPT, always=dict(OPT['always'], mjs_jprintf=c_jprintf), noreplay=True))(t_number)
for _k in ('boolean', 'null', 'undefined', 'foreign', 'object', 'array', 'function', 'ffi'):
    task('C18', 'name_of_' + _k, ['mjs_to_string'], **OPT)(lambda h, k=_k: t_other(h, k))
