"""C16 part 1: operand stacks, call frames, arguments and return values; builders for calls in progress used by the builtins."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, Loopspec, Undecided, bconst, simp, toint
from .common import MB
from .mbuf import MBUF, MOVE
from .mjs import ERR, M, _field
from .values import ENUM, anyval, isnan, spec

BASE = dict(always=ERR, replace=MOVE, malloc_may_fail=False, assumes=['memory for stacks can be obtained'])
RNE = z3.RNE()


def num(h, x, st=None):
    """the number value of an integer expression of at most 53 bits"""
    st = st or h.st
    v = h.ex.fbits(st, FPV(simp(z3.fpSignedToFP(RNE, x, z3.Float64()))))
    if h.mode != 'replay':
        h.assume(z3.Not(isnan(v)), st)
    return v


def numval(h, s, v):
    """(integer, 64 bit signed) of a number value that was made from an integer, else via FP"""
    d = h.ex.fbdef.get(v.get_id()) if h.mode != 'replay' else None
    if d is not None:
        x = h.ex.int_source(d[1])
        if x is not None:
            e, sg = x
            n = e.size()
            return simp(e if n == 64 else z3.SignExt(64 - n, e) if sg else z3.ZeroExt(64 - n, e)) if n <= 64 else simp(z3.Extract(63, 0, e))
        f = d[1]
    else:
        f = z3.fpBVToFP(v, z3.Float64())
    return simp(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(64)))


def isint(h, s, v, x):
    """v is the number x (64-bit signed integer expression)"""
    if h.mode == 'replay':
        return simp(z3.fpToIEEEBV(z3.fpSignedToFP(RNE, x, z3.Float64()))) == v
    d = h.ex.fbdef.get(v.get_id())
    if d is not None:
        src = h.ex.int_source(d[1])
        if src is not None:
            return numval(h, s, v) == x
    return z3.fpBVToFP(v, z3.Float64()) == z3.fpSignedToFP(RNE, x, z3.Float64())


class VStack:
    """a value stack field of the context: arbitrary depth with the given values on top"""

    def __init__(self, h, m, field, vals=(), maxbits=26, extra=2):
        self.h, self.m, self.vals, self.field = h, m, list(vals), field
        self.b = b = m.mb(field, mult=8, bound=8 * (len(vals) + extra), maxbits=maxbits)
        self.items = b.items
        h.assume(z3.UGE(b.items, len(self.vals)))
        for i, v in enumerate(self.vals[::-1]):
            self.poke(i, v)
        self.k = h.size(field + '.k', 27)
        self.old = h.ex.peek(h.st, simp(b.base + self.k * 8), 8)

    def poke(self, fromtop, v):
        h, b = self.h, self.b
        h.ex.poke(h.st, b.buf, simp((b.items - (fromtop + 1)) * 8), 8, v)

    def seal(self):
        """after the last poke: remember the content"""
        self.old = self.h.ex.peek(self.h.st, simp(self.b.base + self.k * 8), 8)
        return self

    def depth(self, s):
        return simp(z3.LShR(self.b.get(s)[1], 3))

    def at(self, s, idx):
        return self.h.ex.peek(s, simp(self.b.get(s)[0] + idx * 8), 8)

    def top(self, s, i=0):
        buf, ln, size = self.b.get(s)
        return self.h.ex.peek(s, simp(buf + ln - 8 * (i + 1)), 8)

    def check(self, s, pushed=0, popped=0, what=None, keep=None):
        """`popped` items were removed and `pushed` added; items below are unchanged -> pushed values"""
        h, b = self.h, self.b
        what = what or self.field
        buf, ln, size = b.get(s)
        low = simp(b.len - 8 * popped)
        h.ensure(s, ln == low + 8 * pushed, '%s: depth changes by %d' % (what, pushed - popped))
        c = z3.ULT(self.k, b.items - popped)
        if keep is not None:
            c = z3.And(c, keep(self.k))
        for s1 in h.case(s, c):
            h.ensure(s1, h.ex.peek(s1, simp(buf + self.k * 8), 8) == self.old, '%s: values below are unchanged' % what)
        return [h.ex.peek(s, simp(buf + low + 8 * i), 8) for i in range(pushed)]


class Call:
    """a native function called by a script: `args` on top of the value stack above the function slot, this_obj set,
    a call frame whose top item is the position of the return value"""

    def __init__(self, h, m, args, this=None, func=None, maxbits=26):
        self.h, self.m, self.args = h, m, args
        self.func = func if func is not None else anyval(h, 'callee')
        self.stack = VStack(h, m, 'stack', [self.func] + list(args), maxbits)
        pos = simp(self.stack.items - len(args))
        self.pos = pos
        self.posv = num(h, z3.Extract(31, 0, pos))
        self.calls = VStack(h, m, 'call_stack', [self.posv], maxbits)
        if this is not None:
            m.put(h.st, 'vals.this_obj', this)

    def ret(self, s):
        """checks the frame discipline of a finished native call -> returned value"""
        h = self.h
        r, = self.stack.check(s, 1, len(self.args) + 1, 'value stack')
        self.calls.check(s, what='call stack')
        return r


def args_unknown(h, m, maxbits=26):
    """arbitrary number of arguments -> (stack, n)"""
    st = VStack(h, m, 'stack', maxbits=maxbits, extra=6)
    n = h.size('nargs', maxbits, bound=4)
    h.assume(z3.ULT(n, st.items))
    posv = num(h, z3.Extract(31, 0, simp(st.items - n)))
    cs = VStack(h, m, 'call_stack', [posv], maxbits)
    return st, n, cs


# ---------------------------------------------------------------- arguments and return
@task('C16', 'nargs', ['mjs_nargs', 'mjs_getretvalpos'], **BASE)
def t_nargs(h):
    m = M(h)
    S, n, C = args_unknown(h, m)
    for s, r in h.call(h.st, 'mjs_nargs', m.addr):
        h.ensure(s, r == z3.Extract(31, 0, n), 'the number of arguments of the call in progress')
        S.check(s)
        C.check(s)


@task('C16', 'arg', ['mjs_arg'], **BASE)
def t_arg(h):
    m = M(h)
    S, n, C = args_unknown(h, m)
    i = h.size('i', 30, bound=6)
    want = S.at(h.st, simp(S.items - n + i))
    for s, r in h.call(h.st, 'mjs_arg', m.addr, z3.Extract(31, 0, i)):
        for s1 in h.case(s, z3.ULT(i, n)):
            h.ensure(s1, r == want, 'argument i of the call in progress')
        for s1 in h.case(s, z3.And(z3.UGE(i, n), z3.ULT(i, BVV(1 << 30, h.PW)))):
            h.ensure(s1, r == h.k['MJS_UNDEFINED'], 'a missing argument is undefined')
        S.check(s)


@task('C16', 'return', ['mjs_return'], **BASE)
def t_ret(h):
    m = M(h)
    S, n, C = args_unknown(h, m)
    v = anyval(h, 'v')
    for s, _ in h.call(h.st, 'mjs_return', m.addr, v):
        buf, ln, size = S.b.get(s)
        low = simp(S.items - n - 1)
        h.ensure(s, ln == 8 * (low + 1), 'function and arguments are replaced by one value')
        h.ensure(s, S.at(s, low) == v, 'the returned value')
        for s1 in h.case(s, z3.ULT(S.k, low)):
            h.ensure(s1, S.at(s1, S.k) == S.old, 'values below are unchanged')
        C.check(s)


def t_checkarg(h, useth):
    m = M(h)
    S, n, C = args_unknown(h, m)
    i = h.size('i', 20, bound=6)
    want = S.at(h.st, simp(S.items - n + i))
    this = anyval(h, 'this')
    m.put(h.st, 'vals.this_obj', this)
    ty = h.sym('type', 32)
    h.assume(z3.ULT(ty, h.lay.enums['MJS_TYPES_CNT']))
    out = h.obj('out', 8, kind='input')
    noout = h.boolean('noout')
    nm = h.obj('argname', 4, kind='input', zero=True)
    v = this if useth else want
    sv = spec(h, v)
    if not useth:
        h.assume(z3.Or(z3.UGE(i, n), z3.Or(list(sv.values()))))
    fits = z3.And(True if useth else z3.ULT(i, n), z3.Or([z3.And(sv[k], ty == h.lay.enums['MJS_TYPE_' + e]) for k, e in ENUM.items()]))
    idx = BVV(-1, 32) if useth else z3.Extract(31, 0, i)
    for s, r in h.call(h.st, 'mjs_check_arg', m.addr, idx, nm, ty, simp(z3.If(noout, BVV(0, h.PW), out.base))):
        h.ensure(s, (r != 0) == fits, 'accepted iff the argument is present and of the type')
        h.ensure(s, z3.If(fits, m.error(s) == 0, m.error(s) == h.lay.enums['MJS_TYPE_ERROR']), 'otherwise a type error')
        h.ensure(s, z3.Implies(z3.And(fits, z3.Not(noout)), h.ex.peek(s, out.base, 8) == v), 'the argument is handed out')
        S.check(s)
        C.check(s)


task('C16', 'check_arg', ['mjs_check_arg'], **BASE)(lambda h: t_checkarg(h, False))
task('C16', 'check_this', ['mjs_check_arg'], **BASE)(lambda h: t_checkarg(h, True))


@task('C16', 'normalize_idx', ['mjs_normalize_idx'])
def t_norm(h):
    i, n = h.sym('i', 32), h.sym('n', 32)
    h.assume(n >= 0)
    for s, r in h.call(h.st, 'mjs_normalize_idx', i, n):
        w = z3.If(i < 0, z3.If(n + i < 0, BVV(0, 32), n + i), z3.If(i > n, n, i))
        h.ensure(s, r == w, 'negative counts from the end, result clamped to the size')


@task('C16', 'push_pop', ['mjs_push', 'mjs_pop', 'push_mjs_val', 'mjs_pop_val', 'vtop', 'mjs_stack_size'], **BASE)
def t_pushpop(h):
    m = M(h)
    S = VStack(h, m, 'stack')
    v = anyval(h, 'v')
    for s, _ in h.call(h.st, 'mjs_push', m.addr, v):
        w, = S.check(s, 1)
        h.ensure(s, w == v, 'the pushed value is on top')
        for s2, r in h.call(s, 'vtop', S.b.addr):
            h.ensure(s2, r == v, 'top of stack')
            for s3, r3 in h.call(s2, 'mjs_pop', m.addr):
                h.ensure(s3, r3 == v, 'the pushed value is popped')
                S.check(s3)
                h.ensure(s3, m.error(s3) == 0, 'no error')


@task('C16', 'pop_empty', ['mjs_pop', 'vtop'], **BASE)
def t_popempty(h):
    m = M(h)
    m.mb('stack', null=True)
    for s, r in h.call(h.st, 'vtop', m.stack.addr):
        h.ensure(s, r == h.k['MJS_UNDEFINED'], 'top of an empty stack is undefined')
        for s2, r2 in h.call(s, 'mjs_pop', m.addr):
            h.ensure(s2, z3.And(r2 == h.k['MJS_UNDEFINED'], m.error(s2) == h.lay.enums['MJS_INTERNAL_ERROR']), 'underflow is an error')


@task('C16', 'vptr', ['vptr'], **BASE)
def t_vptr(h):
    m = M(h)
    S = VStack(h, m, 'stack')
    i = h.sym('i', 32)
    n = z3.Extract(31, 0, S.items)
    j = z3.If(i < 0, n + i, i)
    for s, r in h.call(h.st, 'vptr', S.b.addr, i):
        ok = z3.And(j >= 0, j < n)
        h.ensure(s, z3.If(ok, r == S.b.base + z3.SignExt(h.PW - 32, j) * 8 if h.PW > 32 else j * 8, r == 0),
                 'address of item i, counted from the top when negative, NULL outside the stack')


# ---------------------------------------------------------------- call frames
FRAME = ['THIS', 'RETURN_ADDR', 'SCOPE_IDX', 'LOOP_ADDR_IDX', 'RETVAL_STACK_IDX']


class World:
    """all stacks of the interpreter, arbitrary depth"""

    def __init__(self, h, m, stack=(), call=(), arg=(), scopes=(), loops=(), maxbits=26, extra=2):
        self.h, self.m = h, m
        kw = dict(maxbits=maxbits, extra=extra)
        self.stack = VStack(h, m, 'stack', stack, **kw)
        self.call_stack = VStack(h, m, 'call_stack', call, **kw)
        self.arg_stack = VStack(h, m, 'arg_stack', arg, **kw)
        self.scopes = VStack(h, m, 'scopes', scopes, **kw)
        self.loops = VStack(h, m, 'loop_addresses', loops, **kw)

    def rest(self, s, *skip):
        for f in ('stack', 'call_stack', 'arg_stack', 'scopes', 'loops'):
            if f not in skip:
                getattr(self, f).check(s)


@task('C16', 'push_frame', ['call_stack_push_frame'], **BASE)
def t_pushframe(h):
    m = M(h)
    this, prev = anyval(h, 'this'), anyval(h, 'prev')
    W = World(h, m, arg=[this])
    m.put(h.st, 'vals.this_obj', prev)
    off = h.size('off', 32)
    rv = anyval(h, 'rv', ['number'])
    for s, _ in h.call(h.st, 'call_stack_push_frame', m.addr, off, rv):
        f = W.call_stack.check(s, 5)
        h.ensure(s, m.get(s, 'vals.this_obj') == this, '`this` of the callee')
        h.ensure(s, f[0] == prev, "the caller's `this` is saved")
        h.ensure(s, isint(h, s, f[1], off), 'the return address is saved')
        h.ensure(s, isint(h, s, f[2], W.scopes.items), 'the number of scopes is saved')
        h.ensure(s, isint(h, s, f[3], W.loops.items), 'the number of loop addresses is saved')
        h.ensure(s, f[4] == rv, 'the return value position is saved')
        W.arg_stack.check(s, 0, 1)
        W.rest(s, 'arg_stack', 'call_stack')


def poploop(field):
    """while (size > n) pop: only the length changes, in whole items, downward"""
    def la(c):
        a, n = _field(c.ex, c.env_mjs, field + '.len')
        return a, n

    def inv(c):
        a, n = la(c)
        ln = c.ex.peek(c.st, a, n)
        l0 = c.st.g.setdefault('len0:' + field, ln)
        return [('whole items', z3.Extract(2, 0, ln) == 0), ('not longer', z3.ULE(ln, l0)),
                ('not below the target', z3.Or(ln == l0, z3.UGE(z3.LShR(ln, 3), c.st.g['target:' + field])))]

    def mod(c):
        a, n = la(c)
        o, off = c.ex.resolve_spec(c.st, a)
        c.ex.havoc(c.st, o, off, n)
    return Loopspec(lambda c: inv(_bind(c)), lambda c: mod(_bind(c)), lambda c: c.ex.peek(c.st, la(_bind(c))[0], c.ex.PB))


def _bind(c):
    c.env_mjs = c.st.g['mjs']
    return c


def frame(h, W, retpos=None, scope=None, loop=None, ra=None, this=None):
    """frame values for the top of the call stack"""
    return [this, num(h, ra), num(h, scope), num(h, loop), num(h, retpos)]


def mkframe(h, name='fr'):
    g = lambda n, b: z3.ZeroExt(1, h.sym(name + '.' + n, b))
    d = dict(this=anyval(h, name + '.this'), ra=g('ra', 31), scope=g('scope', 27), loop=g('loop', 27), ret=g('ret', 27))
    d['vals'] = [d['this'], num(h, d['ra']), num(h, d['scope']), num(h, d['loop']), num(h, d['ret'])]
    return d


def zx(h, e):
    return simp(z3.ZeroExt(h.PW - e.size(), e))


@task('C16', 'restore_frame', ['call_stack_restore_frame'],
      loops={('call_stack_restore_frame', 0): poploop('scopes'), ('call_stack_restore_frame', 1): poploop('loop_addresses')}, **BASE)
def t_restore(h):
    m = M(h)
    fr = mkframe(h)
    W = World(h, m, call=fr['vals'])
    h.st.g['mjs'] = m.addr
    h.st.g['target:scopes'] = zx(h, fr['scope'])
    h.st.g['target:loop_addresses'] = zx(h, fr['loop'])
    for s, r in h.call(h.st, 'call_stack_restore_frame', m.addr):
        W.call_stack.check(s, 0, 5)
        h.ensure(s, r == zx(h, fr['ra']), 'the return address')
        h.ensure(s, m.get(s, 'vals.this_obj') == fr['this'], "the caller's `this` is restored")
        for f, x in (('scopes', 'scope'), ('loops', 'loop')):
            S = getattr(W, f)
            t = zx(h, fr[x])
            h.ensure(s, S.b.get(s)[1] == z3.If(z3.ULT(t, S.items), t * 8, S.b.len), '%s opened by the callee are dropped, no others' % f)
            for s1 in h.case(s, z3.And(z3.ULT(S.k, S.items), z3.ULT(S.k, t))):
                h.ensure(s1, S.at(s1, S.k) == S.old, '%s of the caller are unchanged' % f)
        h.ensure(s, W.stack.b.get(s)[1] == zx(h, fr['ret']) * 8, 'the value stack is cut back to the return value')
        h.ensure(s, W.stack.b.get(s)[0] == W.stack.b.base, 'the value stack stays in place')
        for s1 in h.case(s, z3.ULT(W.stack.k, W.stack.items)):
            h.ensure(s1, W.stack.at(s1, W.stack.k) == W.stack.old, 'values are unchanged')
        W.arg_stack.check(s)
