"""C08: operators compute the documented result for every pair of operands and keep the value stack balanced."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, Undecided, bconst, simp, toint
from .common import MB
from .mbuf import MBUF
from .mjs import ERR, M
from .strs import STRS, Str, find
from .values import NAME, anyval, isnan, spec, tag, wf

BASE = dict(always=dict(ERR, **MBUF), replace=dict(STRS), malloc_may_fail=False, assumes=['memory for stacks and strings can be obtained'])
F64 = z3.Float64()
RNE, RTZ = z3.RNE(), z3.RTZ()
OPS = ['MINUS', 'PLUS', 'MUL', 'DIV', 'REM', 'AND', 'OR', 'XOR', 'LSHIFT', 'RSHIFT', 'URSHIFT']


def tok(h, n):
    return h.lay.enums['TOK_' + n]


def fp(v):
    return z3.fpBVToFP(v, F64)


def F(x):
    return z3.FPVal(x, F64)


class Stack:
    """the value stack: arbitrary depth, the given values on top"""

    def __init__(self, h, m, vals, field='stack', maxbits=28):
        self.h, self.m, self.vals, self.field = h, m, vals, field
        self.b = m.mb(field, mult=8, bound=8 * (len(vals) + 2), maxbits=maxbits)
        b = self.b
        h.assume(z3.UGE(b.items, len(vals)))
        for i, v in enumerate(vals[::-1]):
            h.ex.poke(h.st, b.buf, simp((b.items - (i + 1)) * 8), 8, v)
        self.k = h.size(field + '.k')
        h.assume(z3.ULT(self.k, BVV(1 << 28, h.PW)))
        self.old = h.ex.peek(h.st, simp(b.base + self.k * 8), 8)

    def check(self, s, pushed, popped=None, what=''):
        """the operands are gone, `pushed` results are on top, everything below is unchanged -> pushed values"""
        h, b = self.h, self.b
        buf, ln, size = b.get(s)
        n = len(self.vals) if popped is None else popped
        low = simp(b.len - 8 * n)
        h.ensure(s, ln == low + 8 * pushed, what + 'operands are replaced by the result on the stack')
        for s1 in h.case(s, z3.ULT(self.k, b.items - n)):
            h.ensure(s1, h.ex.peek(s1, simp(buf + self.k * 8), 8) == self.old, what + 'values below the operands are unchanged')
        return [h.ex.peek(s, simp(buf + low + 8 * i), 8) for i in range(pushed)]


def dbl(h, v):
    """double of a number value (NaN tag is a NaN)"""
    return fp(v)


def i64ok(f):
    return z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGT(f, F(-9.0e18)), z3.fpLT(f, F(9.0e18)))


def i32ok(f):
    return z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGT(f, F(-2147483648.0)), z3.fpLT(f, F(2147483647.0)))


class _T:
    def __init__(self, w):
        self.k, self.w = 'int', w


def conv(h, op, f, w):
    """C conversion of a double to a w-bit integer"""
    return h.ex.cast(op, None, FPV(f), _T(w), h.st)


def arith_spec(h, op, a, b):
    """-> (precondition on numeric operands, result is NaN, result)"""
    T, N = bconst(True), bconst(False)
    if op == 'MINUS':
        return T, N, z3.fpSub(RNE, a, b)
    if op == 'PLUS':
        return T, N, z3.fpAdd(RNE, a, b)
    if op == 'MUL':
        return T, N, z3.fpMul(RNE, a, b)
    if op == 'DIV':
        return T, z3.fpIsZero(b), z3.fpDiv(RNE, a, b)
    sb = lambda e: simp(z3.fpSignedToFP(RNE, simp(e), F64))
    i64 = lambda f: conv(h, 'fptosi', f, 64)
    if op in ('AND', 'OR', 'XOR'):
        x, y = i64(a), i64(b)
        return z3.And(i64ok(a), i64ok(b)), N, sb({'AND': x & y, 'OR': x | y, 'XOR': x ^ y}[op])
    if op in ('LSHIFT', 'RSHIFT'):
        sh = z3.And(i64ok(b), z3.ULT(i64(b), BVV(64, 64)))
    if op == 'LSHIFT':
        x = i64(a)
        return z3.And(i64ok(a), sh), N, sb(x << i64(b))
    if op == 'RSHIFT':
        return z3.And(i64ok(a), sh), N, sb(i64(a) >> i64(b))
    if op == 'URSHIFT':
        u = lambda f: conv(h, 'fptoui', f, 32)
        return (z3.And(z3.fpGEQ(a, F(0.0)), z3.fpLT(a, F(4294967296.0)), z3.fpGEQ(b, F(0.0)), z3.fpLT(b, F(4294967296.0)), z3.ULT(u(b), BVV(32, 32))), N,
                simp(z3.fpUnsignedToFP(RNE, simp(z3.LShR(u(a), u(b))), F64)))
    if op == 'REM':
        # |a| mod |int(b)| with the sign of a
        y = conv(h, 'fptosi', b, 32)
        an = z3.fpLT(a, F(0.0))
        y64 = z3.SignExt(32, y)
        cases = []
        for neg in (False, True):
            x = conv(h, 'fptosi', simp(z3.fpNeg(a)) if neg else a, 64)
            for yneg in (False, True):
                r = sb(z3.SRem(x, -y64 if yneg else y64))
                cases.append((z3.And(an if neg else z3.Not(an), y64 < 0 if yneg else y64 >= 0), simp(z3.fpNeg(r)) if neg else r))
        return z3.And(i64ok(a), i32ok(b)), y == 0, cases
    raise KeyError(op)


def same(h, s, v, f):
    """the double stored in v is f"""
    d = h.ex.fbdef.get(v.get_id())
    if d is not None and h.mode != 'replay':
        e = h.ex.reduce(s, d[1])
        if e.eq(f) or simp(e).eq(simp(f)):
            return bconst(True)
        return e == f
    return (d[1] if d is not None else fp(v)) == f


def check_num(h, s, v, nan, f, what):
    h.ensure(s, spec(h, v)['number'], what + ' is a number')
    h.ensure(s, z3.Implies(nan, isnan(v)), what + ' is NaN when undefined')
    for c, r in (f if isinstance(f, list) else [(bconst(True), f)]):
        for s1 in h.case(s, z3.And(z3.Not(nan), c)):
            h.ensure(s1, same(h, s1, v, r), what)


def t_arith(h, op):
    m = M(h)
    a, b = anyval(h, 'a', ['number']), anyval(h, 'b', ['number'])
    fa, fb = fp(a), fp(b)
    pre, nan, f = arith_spec(h, op, fa, fb)
    anynan = z3.Or(isnan(a), isnan(b))
    h.assume(z3.Or(anynan, pre))
    for s, v in h.call(h.st, 'do_op', m.addr, a, b, BVV(tok(h, op), 32)):
        check_num(h, s, v, z3.Or(anynan, nan), f, 'number %s number' % op)
        h.ensure(s, m.error(s) == 0, 'no error')


def t_ptr(h, op, pa, pb):
    m = M(h)
    a = anyval(h, 'a', ['foreign' if pa else 'number'])
    b = anyval(h, 'b', ['foreign' if pb else 'number'])
    ptr = lambda v: z3.Extract(47, 0, v)
    up = lambda v: simp(z3.fpUnsignedToFP(RNE, simp(z3.ZeroExt(16, ptr(v))), F64))
    fa, fb = (up(a) if pa else fp(a)), (up(b) if pb else fp(b))
    ok = op == 'MINUS' or (op == 'PLUS' and not (pa and pb))
    h.assume(z3.And(z3.Not(isnan(a)) if not pa else True, z3.Not(isnan(b)) if not pb else True))
    if ok:
        r = z3.fpSub(RNE, fa, fb) if op == 'MINUS' else z3.fpAdd(RNE, fa, fb)
        q = conv(h, 'fptoui', r, 64) if not (pa and pb) else None
        if not (pa and pb):
            h.assume(z3.And(z3.fpGEQ(r, F(0.0)), z3.ULT(q, BVV(1 << 47, 64))))
    for s, v in h.call(h.st, 'do_op', m.addr, a, b, BVV(tok(h, op), 32)):
        if ok and pa and pb:
            h.ensure(s, z3.And(spec(h, v)['number'], same(h, s, v, r)), 'pointer difference is a number')
            h.ensure(s, m.error(s) == 0, 'no error')
        elif ok:
            h.ensure(s, spec(h, v)['foreign'], 'pointer %s offset is a pointer' % op)
            h.ensure(s, ptr(v) == z3.Extract(47, 0, q), 'pointer moved by the offset')
            h.ensure(s, m.error(s) == 0, 'no error')
        else:
            h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'any other operator on a pointer is a type error')


def t_mixed(h, op):
    """operand types that no operator accepts: type error, result undefined"""
    m = M(h)
    a, b = anyval(h, 'a'), anyval(h, 'b')
    sa, sb = spec(h, a), spec(h, b)
    na, nb = z3.Or(sa['number'], sa['foreign']), z3.Or(sb['number'], sb['foreign'])
    h.assume(z3.Not(z3.And(na, nb)))
    if op == 'PLUS':
        h.assume(z3.Not(z3.And(sa['string'], sb['string'])))
    for s, v in h.call(h.st, 'do_op', m.addr, a, b, BVV(tok(h, op), 32)):
        h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'implicit conversion is a type error')
        h.ensure(s, spec(h, v)['undefined'], 'and yields undefined')


def c_concat(ex, st, a):
    """recorded; the content of the result is C05's s_concat contract"""
    v = ex.fresh('concat', 64)
    st.g['concat'] = (a[1], a[2], v)
    return [(st, v)]


def t_strplus(h):
    m = M(h)
    a, b = anyval(h, 'a', ['string']), anyval(h, 'b', ['string'])
    for s, v in h.call(h.st, 'do_op', m.addr, a, b, BVV(tok(h, 'PLUS'), 32)):
        r = s.g.get('concat')
        h.ensure(s, z3.And(r[0] == a, r[1] == b, v == r[2]) if r else False, 'string + string is their concatenation')
        h.ensure(s, m.error(s) == 0, 'no error')


for _op in OPS:
    task('C08', 'arith_' + _op, ['do_op', 'do_arith_op'], cost=2, **BASE)(lambda h, o=_op: t_arith(h, o))
    task('C08', 'mixed_' + _op, ['do_op'], **BASE)(lambda h, o=_op: t_mixed(h, o))
for _op in ('PLUS', 'MINUS', 'MUL', 'DIV'):
    task('C08', 'ptrptr_' + _op, ['do_op'], cost=2, **BASE)(lambda h, o=_op: t_ptr(h, o, True, True))
    task('C08', 'ptrnum_' + _op, ['do_op'], cost=2, **BASE)(lambda h, o=_op: t_ptr(h, o, True, False))
    task('C08', 'numptr_' + _op, ['do_op'], cost=2, **BASE)(lambda h, o=_op: t_ptr(h, o, False, True))
task('C08', 'string_plus', ['do_op'], nobounded=True, noreplay=True,
     **dict(BASE, replace=dict(STRS, s_concat=c_concat)))(t_strplus)


# ---------------------------------------------------------------- exec_expr: operand order, stack effect, routing
def run(h, m, vals, op, stack=None):
    s0 = stack or Stack(h, m, vals)
    return s0, h.call(h.st, 'exec_expr', m.addr, BVV(tok(h, op), 32))


def t_bin(h, op):
    m = M(h)
    a, b = anyval(h, 'a', ['number']), anyval(h, 'b', ['number'])
    fa, fb = fp(a), fp(b)
    pre, nan, f = arith_spec(h, op, fa, fb)
    anynan = z3.Or(isnan(a), isnan(b))
    h.assume(z3.Or(anynan, pre))
    S, outs = run(h, m, [a, b], op)
    for s, _ in outs:
        v, = S.check(s, 1)
        check_num(h, s, v, z3.Or(anynan, nan), f, 'number %s number, left operand below the right one' % op)
        h.ensure(s, m.error(s) == 0, 'no error')


def t_bin_str(h):
    m = M(h)
    a, b = anyval(h, 'a', ['string']), anyval(h, 'b', ['string'])
    S, outs = run(h, m, [a, b], 'PLUS')
    for s, _ in outs:
        v, = S.check(s, 1)
        r = s.g.get('concat')
        h.ensure(s, z3.And(r[0] == a, r[1] == b, v == r[2]) if r else False, 'string + string is their concatenation')


def t_bin_mixed(h, op):
    m = M(h)
    a, b = anyval(h, 'a'), anyval(h, 'b')
    sa, sb = spec(h, a), spec(h, b)
    h.assume(z3.Not(z3.And(z3.Or(sa['number'], sa['foreign']), z3.Or(sb['number'], sb['foreign']))))
    if op == 'PLUS':
        h.assume(z3.Not(z3.And(sa['string'], sb['string'])))
    S, outs = run(h, m, [a, b], op)
    for s, _ in outs:
        S.check(s, 1)
        h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'implicit conversion is a type error')


def t_neg(h):
    m = M(h)
    a = anyval(h, 'a', ['number'])
    S, outs = run(h, m, [a], 'UNARY_MINUS')
    for s, _ in outs:
        v, = S.check(s, 1)
        check_num(h, s, v, isnan(a), simp(z3.fpNeg(fp(a))), 'negated number')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_tilda(h):
    m = M(h)
    a = anyval(h, 'a', ['number'])
    h.assume(i64ok(fp(a)))
    S, outs = run(h, m, [a], 'TILDA')
    x = conv(h, 'fptosi', fp(a), 64)
    for s, _ in outs:
        v, = S.check(s, 1)
        check_num(h, s, v, bconst(False), simp(z3.fpSignedToFP(RNE, simp(~x), F64)), 'bitwise complement of the integer part')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_noop(h, op):
    m = M(h)
    a = anyval(h, 'a')
    S, outs = run(h, m, [a], op)
    for s, _ in outs:
        v, = S.check(s, 1)
        h.ensure(s, v == a, 'operand is left on the stack')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_loose(h, op):
    m = M(h)
    a, b = anyval(h, 'a'), anyval(h, 'b')
    S, outs = run(h, m, [a, b], op)
    for s, _ in outs:
        h.ensure(s, m.error(s) == h.lay.enums['MJS_NOT_IMPLEMENTED_ERROR'], '== and != are rejected')


def boolv(h, b):
    return z3.If(b, BVV(h.k['MJS_TAG_BOOLEAN'] | 1, 64), BVV(h.k['MJS_TAG_BOOLEAN'], 64))


def truthy(h, s, v, st_):
    """documented truth value (strings: length recorded at the time of the call)"""


TRUE_KINDS = ['boolean', 'number', 'null', 'undefined', 'foreign', 'object', 'array', 'function', 'ffi']


def truth(h, v):
    s = spec(h, v)
    num = z3.And(z3.Not(isnan(v)), z3.Extract(62, 0, v) != 0)
    return z3.Or(z3.And(s['boolean'], z3.Extract(0, 0, v) == 1), z3.And(s['number'], num), s['foreign'], s['object'],
                 s['array'], s['function'], s['ffi'])


def t_truthy(h, fn):
    m = M(h)
    v = anyval(h, 'v', TRUE_KINDS)
    h.assume(z3.Implies(spec(h, v)['boolean'], z3.ULE(z3.Extract(47, 0, v), 1)))
    t = truth(h, v)
    if fn == 'exec':
        S, outs = run(h, m, [v], 'NOT')
    else:
        outs = h.call(h.st, fn, m.addr, v)
    for s, r in outs:
        if fn == 'exec':
            r, = S.check(s, 1)
            h.ensure(s, r == boolv(h, z3.Not(t)), '! is the negated truth value')
        elif fn == 'mjs_is_truthy':
            h.ensure(s, (r != 0) == t, 'truth value')
        else:
            h.ensure(s, r == boolv(h, t), 'truth value as a boolean')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_truthy_str(h, fn, kind):
    m = M(h)
    if kind == 'O':
        m.mb('owned_strings')
    if kind == 'F':
        m.mb('foreign_strings')
    a = Str(h, m, 'a', kind)
    t = a.n != 0
    if fn == 'exec':
        S, outs = run(h, m, [a.v], 'NOT')
    else:
        outs = h.call(h.st, fn, m.addr, a.v)
    for s, r in outs:
        if fn == 'exec':
            r, = S.check(s, 1)
            h.ensure(s, r == boolv(h, z3.Not(t)), 'exactly the empty string is falsy')
        else:
            h.ensure(s, (r != 0) == t, 'exactly the empty string is falsy')


def c_s_cmp(ex, st, a):
    """recorded; its result is C05's contract: zero iff the contents are equal"""
    r = ex.fresh('scmp', 32)
    st.g['scmp'] = st.g.get('scmp', ()) + ((a[1], a[2], r),)
    return [(st, r)]


def t_equal(h, via, neg=False):
    m = M(h)
    a, b = anyval(h, 'a'), anyval(h, 'b')
    sa, sb = spec(h, a), spec(h, b)
    if via == 'exec':
        S, outs = run(h, m, [a, b], 'NE_NE' if neg else 'EQ_EQ')
    else:
        outs = h.call(h.st, 'check_equal', m.addr, a, b)
    nul = BVV(h.k['MJS_NULL'], 64)
    for s, r in outs:
        if via == 'exec':
            v, = S.check(s, 1)
            h.ensure(s, z3.Or(v == boolv(h, bconst(True)), v == boolv(h, bconst(False))), 'result is a boolean')
            r = (z3.Extract(0, 0, v) == 1) != bconst(neg)
        else:
            r = r != 0
        num = z3.And(sa['number'], sb['number'])
        strs = z3.And(sa['string'], sb['string'])
        fn = z3.Or(z3.And(sa['foreign'], b == nul), z3.And(sb['foreign'], a == nul))
        h.ensure(s, z3.Implies(num, r == z3.fpEQ(fp(a), fp(b))), 'numbers are equal iff their values are (NaN never)')
        h.ensure(s, z3.Implies(fn, r == (z3.Extract(47, 0, z3.If(sa['foreign'], a, b)) == 0)), 'a pointer equals null iff it is zero')
        rec = s.g.get('scmp', ())
        if rec:
            x, y, c = rec[-1]
            h.ensure(s, z3.Implies(z3.And(strs, a != b), z3.And(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)), r == (c == 0))),
                     'strings are equal iff their contents are')
        else:
            h.ensure(s, z3.Implies(z3.And(strs, a != b), False), 'strings are equal iff their contents are')
        h.ensure(s, z3.Implies(z3.And(strs, a == b), r), 'a string equals itself')
        h.ensure(s, z3.Implies(z3.And(z3.Not(num), z3.Not(strs), z3.Not(fn)), r == (a == b)), 'other values are equal iff identical')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_rel(h, op):
    m = M(h)
    a, b = anyval(h, 'a', ['number']), anyval(h, 'b', ['number'])
    f = dict(LT=z3.fpLT, GT=z3.fpGT, LE=z3.fpLEQ, GE=z3.fpGEQ)[op]
    S, outs = run(h, m, [a, b], op)
    for s, _ in outs:
        v, = S.check(s, 1)
        h.ensure(s, v == boolv(h, f(fp(a), fp(b))), 'comparison of two numbers')
        h.ensure(s, m.error(s) == 0, 'no error')


def c_get_v(ex, st, a):
    """own property value, no side effect (C09)"""
    g = st.g.get('props', ())
    for o, k, v in g[::-1]:
        if simp(o).eq(simp(a[1])) and simp(k).eq(simp(a[2])):
            return [(st, v)]
    v = st.g.get('propval')
    st.g['got'] = st.g.get('got', ()) + ((a[1], a[2]),)
    return [(st, v)]


def c_set_v(ex, st, a):
    """records the property update (C09)"""
    st.g['props'] = st.g.get('props', ()) + ((a[1], a[2], a[3]),)
    return [(st, BVV(0, 32))]


PROPS = dict(BASE, replace=dict(STRS, mjs_get_v=c_get_v, mjs_set_v=c_set_v), nobounded=True, noreplay=True)


def one_set(h, s, obj, key, v=None):
    p = s.g.get('props', ())
    ok = len(p) == 1
    h.ensure(s, z3.And(p[0][0] == obj, p[0][1] == key) if ok else False, 'exactly the addressed property is written')
    return p[0][2] if ok else None


def t_assign(h):
    m = M(h)
    key, obj, val = anyval(h, 'key'), anyval(h, 'obj', ['object', 'array']), anyval(h, 'val')
    S, outs = run(h, m, [key, obj, val], 'ASSIGN')
    for s, _ in outs:
        v, = S.check(s, 1)
        w = one_set(h, s, obj, key)
        h.ensure(s, v == val, 'an assignment yields the assigned value')
        if w is not None:
            h.ensure(s, w == val, 'and stores it')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_assign_foreign(h, ok):
    m = M(h)
    key, val = anyval(h, 'key'), anyval(h, 'val')
    mem = h.obj('mem', BVV(64, h.PW), kind='input')
    obj = simp(z3.Concat(BVV(h.k['MJS_TAG_FOREIGN'] >> 48, 16), z3.Extract(47, 0, mem.base + 32)))
    sk, sv = spec(h, key), spec(h, val)
    h.assume(z3.ULT(mem.base, BVV(1 << 47, 64)))
    good = z3.And(sk['number'], sv['number'], z3.Not(isnan(val)), z3.fpGT(fp(val), F(-1.0)), z3.fpLT(fp(val), F(256.0)))
    S = Stack(h, m, [key, obj, val])
    if ok:
        h.assume(good)
        h.assume(z3.And(z3.fpGEQ(fp(key), F(-32.0)), z3.fpLT(fp(key), F(32.0))))
        k = conv(h, 'fptosi', fp(key), 64)
        j = h.size('j', 6)
        old = h.byte(h.st, mem, j)
    else:
        h.assume(z3.Not(good))
    outs = h.call(h.st, 'exec_expr', m.addr, BVV(tok(h, 'ASSIGN'), 32))
    for s, _ in outs:
        v, = S.check(s, 1)
        if ok:
            h.ensure(s, v == val, 'an assignment yields the assigned value')
            w = z3.Extract(7, 0, conv(h, 'fptosi', fp(val), 64))
            h.ensure(s, h.byte(s, mem, j) == z3.If(j == k + 32, w, old), 'exactly the addressed byte is written')
            h.ensure(s, m.error(s) == 0, 'no error')
        else:
            h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'non-number index or value outside 0..255 is a type error')


def t_assign_bad(h):
    m = M(h)
    key, obj, val = anyval(h, 'key'), anyval(h, 'obj'), anyval(h, 'val')
    so = spec(h, obj)
    h.assume(z3.Not(z3.Or(so['object'], so['array'], so['foreign'])))
    S, outs = run(h, m, [key, obj, val], 'ASSIGN')
    for s, _ in outs:
        S.check(s, 1)
        h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'assigning to a property of a non-object is a type error')
        h.ensure(s, len(s.g.get('props', ())) == 0, 'nothing is written')


def t_incdec(h, op):
    m = M(h)
    key, obj = anyval(h, 'key', ['string']), anyval(h, 'obj', ['object', 'array'])
    x = anyval(h, 'x', ['number'])
    h.st.g['propval'] = x
    f = simp((z3.fpAdd if 'PLUS' in op else z3.fpSub)(RNE, fp(x), F(1.0)))
    S, outs = run(h, m, [key, obj], op)
    for s, _ in outs:
        v, = S.check(s, 1)
        w = one_set(h, s, obj, key)
        g = s.g.get('got', ())
        h.ensure(s, z3.And([z3.And(o == obj, k == key) for o, k in g]) if g else False, 'the addressed property is read')
        if w is not None:
            check_num(h, s, w, isnan(x), f, 'stored value is one off')
            h.ensure(s, v == (x if 'POSTFIX' in op else w), 'postfix yields the old, prefix the new value')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_badtarget(h, op, n):
    m = M(h)
    key, obj = anyval(h, 'key'), anyval(h, 'obj')
    so = spec(h, obj)
    h.assume(z3.Not(z3.And(z3.Or(so['object'], so['array']), spec(h, key)['string'])))
    S, outs = run(h, m, [key, obj] + ([anyval(h, 'val')] if n == 3 else []), op)
    for s, _ in outs:
        h.ensure(s, m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'updating something that is no property is a type error')
        h.ensure(s, len(s.g.get('props', ())) == 0, 'nothing is written')


def t_opassign(h, op):
    m = M(h)
    key, obj = anyval(h, 'key', ['string']), anyval(h, 'obj', ['object', 'array'])
    x, y = anyval(h, 'x', ['number']), anyval(h, 'y', ['number'])
    h.st.g['propval'] = x
    pre, nan, f = arith_spec(h, op, fp(x), fp(y))
    anynan = z3.Or(isnan(x), isnan(y))
    h.assume(z3.Or(anynan, pre))
    S, outs = run(h, m, [key, obj, y], op + '_ASSIGN')
    for s, _ in outs:
        v, = S.check(s, 1)
        w = one_set(h, s, obj, key)
        if w is not None:
            check_num(h, s, w, z3.Or(anynan, nan), f, 'stored value is property %s operand' % op)
            h.ensure(s, v == w, 'a compound assignment yields the stored value')
        h.ensure(s, m.error(s) == 0, 'no error')


def t_typeof(h):
    m = M(h)
    v = anyval(h, 'v')
    m.mb('owned_strings')
    S, outs = run(h, m, [v], 'KEYWORD_TYPEOF')
    sv = spec(h, v)
    for s, _ in outs:
        r, = S.check(s, 1)
        for k, name in NAME.items():
            for s1 in h.case(s, sv[k]):
                d = find(h.ex, s1, r)
                h.ensure(s1, d is not None, 'typeof yields a string')
                if d is None:
                    continue
                h.ensure(s1, d.n == len(name), 'typeof names the type of a %s' % k)
                cell = h.ex.newobj(s1, 'cell', BVV(8, h.PW), 'input', align=16)
                h.ex.poke(s1, cell, 0, 8, r)
                for i, c in enumerate(name.encode()):
                    h.ensure(s1, h.ex.peek(s1, simp(d.ptr(h.ex, s1, cell.base) + i), 1) == c, 'typeof names the type of a %s' % k)


EX = ['exec_expr']
CMP = dict(BASE, replace=dict(STRS, s_cmp=c_s_cmp), nobounded=True, noreplay=True)
for _op in OPS:
    task('C08', 'expr_' + _op, EX, cost=2, **BASE)(lambda h, o=_op: t_bin(h, o))
    task('C08', 'expr_mixed_' + _op, EX, **BASE)(lambda h, o=_op: t_bin_mixed(h, o))
    task('C08', 'assign_' + _op, EX, cost=2, **PROPS)(lambda h, o=_op: t_opassign(h, o))
    task('C08', 'assign_bad_' + _op, EX, **PROPS)(lambda h, o=_op: t_badtarget(h, o + '_ASSIGN', 3))
task('C08', 'expr_string_plus', EX, nobounded=True, noreplay=True, **dict(BASE, replace=dict(STRS, s_concat=c_concat)))(t_bin_str)
task('C08', 'unary_minus', EX, **BASE)(t_neg)
task('C08', 'unary_tilda', EX, **BASE)(t_tilda)
for _op in ('UNARY_PLUS', 'DOT', 'COMMA'):
    task('C08', 'noop_' + _op, EX, **BASE)(lambda h, o=_op: t_noop(h, o))
for _op in ('EQ', 'NE'):
    task('C08', 'loose_' + _op, EX, **BASE)(lambda h, o=_op: t_loose(h, o))
for _f in ('mjs_is_truthy', 'mjs_to_boolean_v', 'exec'):
    task('C08', 'truthy_' + _f, EX if _f == 'exec' else [_f], **BASE)(lambda h, f=_f: t_truthy(h, f))
for _f in ('mjs_is_truthy', 'exec'):
    for _k in 'I5OF':
        task('C08', 'truthy_%s_%s' % (_f, _k), EX if _f == 'exec' else [_f], **BASE)(lambda h, f=_f, k=_k: t_truthy_str(h, f, k))
task('C08', 'equal', ['check_equal'], **CMP)(lambda h: t_equal(h, 'fn'))
task('C08', 'expr_equal', EX, **CMP)(lambda h: t_equal(h, 'exec'))
task('C08', 'expr_notequal', EX, **CMP)(lambda h: t_equal(h, 'exec', True))
for _op in ('LT', 'GT', 'LE', 'GE'):
    task('C08', 'relation_' + _op, EX, **BASE)(lambda h, o=_op: t_rel(h, o))
task('C08', 'assign_object', EX, **PROPS)(t_assign)
task('C08', 'assign_byte', EX, **PROPS)(lambda h: t_assign_foreign(h, True))
task('C08', 'assign_byte_bad', EX, **PROPS)(lambda h: t_assign_foreign(h, False))
task('C08', 'assign_bad', EX, **PROPS)(t_assign_bad)
for _op in ('POSTFIX_PLUS', 'POSTFIX_MINUS', 'PLUS_PLUS', 'MINUS_MINUS'):
    task('C08', 'incdec_' + _op, EX, **PROPS)(lambda h, o=_op: t_incdec(h, o))
    task('C08', 'incdec_bad_' + _op, EX, **PROPS)(lambda h, o=_op: t_badtarget(h, o, 2))
task('C08', 'typeof', EX, nobounded=True, **BASE)(t_typeof)
