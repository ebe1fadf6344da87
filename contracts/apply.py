"""C16 part 3: calls from the host: mjs_apply (and Function.apply), builtin properties."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Loopspec, Undecided, bconst, simp
from .calls import Call, VStack, World, isint, num, numval, zx
from .exec import ASSUME, c_rec, rec
from .mbuf import MOVE
from .mjs import ERR, M, _field
from .values import anyval, spec

NR = dict(nobounded=True, noreplay=True)


def und(h):
    return BVV(h.k['MJS_UNDEFINED'], 64)


class PushLoop(Loopspec):
    """arguments below the counter have been pushed"""

    def __init__(self):
        self.dec = None

    def counter(self, ctx):
        k = [ctx.env[p] for p in ctx.env['phis'] if z3.is_bv(ctx.env[p]) and ctx.env[p].size() == 32]
        if len(k) != 1:
            raise Undecided('argument counter not found')
        return k[0]

    def inv(self, ctx):
        ex, st = ctx.ex, ctx.st
        A = st.g['apply']
        h, S, n = A['h'], A['W'].stack, A['nargs']
        i = self.counter(ctx)
        buf, ln, size = S.b.get(st)
        low = simp(S.items + 1)
        ip = z3.ZeroExt(ex.PW - 32, i)
        out = [('counter in range', z3.And(i >= 0, i <= n)),
               ('depth of the value stack', z3.And(ln == (low + ip) * 8, z3.ULE(ln, size)))]
        j = A['j']
        inb = z3.ULT(S.k, S.items)
        # content is readable only inside the block
        def at(k):
            return ex.peek(st, simp(buf + k * 8), 8)
        out.append(('values below are unchanged', z3.Implies(inb, at(S.k) == S.old)))
        out.append(('the callee is below the arguments', at(S.items) == A['func']))
        out.append(('arguments pushed so far', z3.Implies(z3.ULT(j, ip), at(simp(low + j)) == A['argj'])))
        return out

    def modifies(self, ctx):
        ex, st = ctx.ex, ctx.st
        A = st.g['apply']
        S = A['W'].stack
        sz = ex.fresh('stacksize', ex.PW)
        ex.assume(st, z3.And(z3.UGE(sz, S.items * 8 + 8), z3.ULT(sz, BVV(1 << (40 if ex.PW == 64 else 31), ex.PW))))
        o = ex.newobj(st, 'stackbuf', sz, 'heap', align=8)
        S.b.buf = o
        A['m'].put(st, 'stack.buf', o.base)
        A['m'].put(st, 'stack.len', ex.fresh('stacklen', ex.PW))
        A['m'].put(st, 'stack.size', sz)


def frame_ok(h, A, st):
    """at the moment control is handed over: -> values of the frame"""
    m, W, n = A['m'], A['W'], A['n']
    h.ensure(st, m.get(st, 'vals.this_obj') == A['this'], '`this` of the callee')
    f = W.call_stack.check(st, 5)
    h.ensure(st, f[0] == A['prev'], "the caller's `this` is saved")
    h.ensure(st, isint(h, st, f[1], BVV(0x7fffffff, h.PW)), 'the callee returns to the host')
    h.ensure(st, isint(h, st, f[2], W.scopes.items), 'the number of scopes is saved')
    h.ensure(st, isint(h, st, f[3], W.loops.items), 'the number of loop addresses is saved')
    h.ensure(st, isint(h, st, f[4], simp(W.stack.items + 1)), 'the callee finds its arguments')
    W.arg_stack.check(st)
    buf, ln, size = W.stack.b.get(st)
    h.ensure(st, ln == (W.stack.items + 1 + n) * 8, 'all arguments are passed')
    for s1 in h.case(st, z3.ULT(A['j'], n)):
        h.ensure(s1, W.stack.at(s1, simp(W.stack.items + 1 + A['j'])) == A['argj'], 'each argument is passed, in order')
    return buf


def c_native(kind):
    def c(ex, st, a):
        """a native function: runs in its frame, leaves its result in the slot of the function, may fail"""
        A = st.g['apply']
        h, m, W = A['h'], A['m'], A['W']
        if kind == 'indirect':
            h.ensure(st, a[0] == z3.Extract(h.PW - 1, 0, A['func'] & BVV((1 << 48) - 1, 64)), 'the function called is the one the value points to')
            a = a[1:]
        h.ensure(st, a[0] == m.addr, 'the native function gets the context')
        buf = frame_ok(h, A, st)
        r = ex.fresh('native', 64)
        st.g['result'] = r
        ex.store(st, simp(buf + W.stack.items * 8), 8, r)
        m.put(st, 'stack.len', simp(W.stack.items * 8 + 8))
        for fld, V in (('scopes', W.scopes), ('loop_addresses', W.loops)):
            k = z3.ZeroExt(ex.PW - 20, ex.fresh('opened', 20))
            b, ln, sz = V.b.get(st)
            ex.assume(st, z3.ULE(ln + k * 8, sz))
            m.put(st, fld + '.len', simp(ln + k * 8))
        b, n = _field(ex, m.addr, 'error')
        e = ex.fresh('nerr', 32)
        ex.store(st, b, n, e)
        return [(st, e if kind != 'indirect' else None)]
    return c


def c_execute(ex, st, a):
    """mjs_execute (instruction tasks RETURN_to_host and error paths): on success the frame is gone and the result is handed out,
    on failure all stacks have their depth on entry and the result is undefined"""
    A = st.g['apply']
    h, m, W = A['h'], A['m'], A['W']
    h.ensure(st, a[1] == z3.Extract(h.PW - 1, 0, A['func'] & BVV((1 << 48) - 1, 64)), 'execution starts at the function')
    frame_ok(h, A, st)
    b, n = _field(ex, m.addr, 'error')
    s2 = st.copy()
    # success
    r = ex.fresh('result', 64)
    st.g['result'] = r
    ex.store(st, a[2], 8, r)
    ex.store(st, b, n, BVV(0, 32))
    m.put(st, 'stack.len', simp(W.stack.items * 8))
    m.put(st, 'call_stack.len', W.call_stack.b.len)
    m.put(st, 'vals.this_obj', A['prev'])
    # failure
    e = ex.fresh('xerr', 32)
    ex.assume(s2, e != 0)
    s2.g['result'] = und(h)
    ex.store(s2, a[2], 8, und(h))
    ex.store(s2, b, n, e)
    m.put(s2, 'vals.this_obj', ex.fresh('leftthis', 64))
    return [(st, BVV(0, 32)), (s2, e)]


def c_restore(ex, st, a):
    """call_stack_restore_frame (task restore_frame)"""
    m, h = M.__new__(M), None
    A = st.g['apply']
    h, m, W = A['h'], A['m'], A['W']
    buf, ln, size = W.call_stack.b.get(st)
    ex.prove(st, z3.UGE(ln, 40), 'a frame exists', 'requires')
    f = [ex.peek(st, simp(buf + ln - 40 + 8 * i), 8) for i in range(5)]
    m.put(st, 'call_stack.len', simp(ln - 40))
    m.put(st, 'vals.this_obj', f[0])
    for fld, V, v in (('scopes', W.scopes, f[2]), ('loop_addresses', W.loops, f[3])):
        b, l, sz = V.b.get(st)
        t = numval(h, st, v)
        t = t if ex.PW == 64 else z3.Extract(31, 0, t)
        m.put(st, fld + '.len', simp(z3.If(z3.ULT(t, z3.LShR(l, 3)), t * 8, l)))
    t = numval(h, st, f[4])
    m.put(st, 'stack.len', simp((t if ex.PW == 64 else z3.Extract(31, 0, t)) * 8))
    ra = numval(h, st, f[1])
    return [(st, ra if ex.PW == 64 else z3.Extract(31, 0, ra))]


def t_apply(h, kind):
    m = M(h)
    W = World(h, m)
    func = anyval(h, 'func', None if kind == 'other' else [kind])
    this, prev = anyval(h, 'this'), anyval(h, 'prev')
    m.put(h.st, 'vals.this_obj', prev)
    n = h.size('nargs', 20)
    args = h.obj('args', simp(n * 8), kind='input', align=8)
    j = h.size('j', 20)
    argj = h.ex.peek(h.st, simp(args.base + j * 8), 8)
    res = h.obj('res', 8, kind='input')
    nores = h.boolean('nores')
    rp = simp(z3.If(nores, BVV(0, h.PW), res.base))
    old = h.ex.peek(h.st, res.base, 8)
    e0 = m.error(h.st)
    A = dict(h=h, m=m, W=W, func=func, this=this, prev=prev, n=n, nargs=z3.Extract(31, 0, n), j=j, argj=argj)
    h.st.g['apply'] = A
    if kind == 'other':
        sp = spec(h, func)
        h.assume(z3.Not(z3.Or(sp['function'], sp['foreign'], sp['ffi'])))
    for s, r in h.call(h.st, 'mjs_apply', m.addr, rp, func, this, A['nargs'], args.base):
        h.ensure(s, r == m.error(s), 'the error is returned')
        h.ensure(s, m.get(s, 'vals.this_obj') == prev, '`this` is restored')
        for f in ('stack', 'call_stack', 'arg_stack', 'scopes', 'loops'):
            getattr(W, f).check(s)
        if kind == 'other':
            h.ensure(s, r == h.lay.enums['MJS_TYPE_ERROR'], 'calling a non-callable value is a type error')
            continue
        if 'result' not in s.g:
            h.ensure(s, False, 'the function is called')
            continue
        for s1 in h.case(s, z3.Not(nores)):
            h.ensure(s1, h.ex.peek(s1, res.base, 8) == s.g['result'], 'the result of the function')


for _n in ('function', 'foreign', 'ffi', 'other'):
    task('C16', 'apply_' + _n, ['mjs_apply'], always=ERR, malloc_may_fail=False, assumes=ASSUME + ['natives are well behaved'],
         loops={('mjs_apply', 0): PushLoop()},
         replace=dict(MOVE, mjs_execute=c_execute, mjs_ffi_call2=c_native('ffi'), indirect=c_native('indirect'),
                      call_stack_restore_frame=c_restore), **NR)(lambda h, n=_n: t_apply(h, n))
