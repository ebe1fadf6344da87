"""C16 part 2: every bytecode instruction.  The interpreter loop is cut at its head: one arbitrary instruction, at an arbitrary
position of an arbitrary code part, with arbitrary stacks, is executed; its effect on the stacks and on the next position is
the postcondition.  Outside proof mode the instruction is followed by exit instructions and executed for real."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, Loopspec, Undecided, bconst, simp, toint
from .calls import World, frame, isint, mkframe, num, numval, poploop, zx
from .common import MB
from .mbuf import MBUF, MOVE
from .mjs import ERR, M, _field
from .ops import boolv
from .values import anyval, isnan, spec

ASSUME = ['memory for stacks can be obtained', 'bytecode is what the compiler emits: operands of an instruction lie within its '
          'code part, stacks hold the operands and frames the instruction needs',
          'the disassembly written to the log has no effect on execution', 'a garbage collection between instructions does not change what the script can observe (C07)']
PAD = 12


def und(h):
    return BVV(h.k['MJS_UNDEFINED'], 64)


def c_maybe_gc(ex, st, a):
    return [(st, ex.fresh('gcdone', 32))]


def c_varint(ex, st, a):
    """the varint at this position (C01)"""
    for p, n, l in st.g.get('varints', ()):
        if simp(p).eq(simp(a[0])) or ex.must(st, p == a[0]):
            ex.store(st, a[1], 4, z3.Extract(31, 0, l))
            return [(st, n)]
    ex.prove(st, False, 'an operand is decoded where the instruction has it', 'requires')
    return [(st, ex.fresh('varint', 64))]


def c_part(ex, st, a):
    """the code part that contains the offset (C15)"""
    out = []
    none = bconst(True)
    for o, start, ln in st.g.get('parts', ()):
        c = simp(z3.And(z3.UGE(a[1], start), z3.ULT(a[1], start + ln)))
        c1 = simp(z3.And(none, c))
        if ex.feasible(st, c1):
            s = st.copy()
            ex.assume(s, c1)
            out.append((s, o))
        none = simp(z3.And(none, z3.Not(c)))
    if ex.feasible(st, none):
        s = st.copy()
        ex.assume(s, none)
        ex.prove(s, False, 'code offset lies in a known code part', 'requires')
    return out


def c_stack_trace(ex, st, a):
    """only the stack trace changes (C21)"""
    b, _ = _field(ex, a[0], 'stack_trace')
    ex.store(st, b, ex.PB, BVV(0, ex.PW))
    return [(st, None)]


class StepSpec(Loopspec):
    def __init__(self):
        self.modifies = None
        self.dec = None

    def inv(self, ctx):
        if '_loopold' in ctx.env:
            ctx.st.g['stepper'].begin(ctx)
        return []

    def step(self, ctx, rec):
        ctx.st.g['stepper'].end(ctx)


def c_silent(ex, st, a):
    """diagnostic output only"""
    return [(st, BVV(0, ex.PW))]


def c_silent0(ex, st, a):
    """diagnostic output only"""
    return [(st, None)]


CUT = {('mjs_execute', 0): StepSpec()}
OPT = dict(always=dict(ERR, mjs_disasm_single=c_silent, mjs_dump=c_silent0), replace=dict(MOVE, maybe_gc=c_maybe_gc, cs_varint_decode_unsafe=c_varint, mjs_bcode_part_get_by_offset=c_part,
                                    mjs_gen_stack_trace=c_stack_trace), loops=CUT, malloc_may_fail=False, assumes=ASSUME)


class Step:
    """operands: 'v' a varint, 'b:N' a fixed byte, 's' bytes of the length given by the preceding varint"""

    def __init__(self, h, op, operands=(), prev=None, stack=(), call=(), arg=(), scopes=(), loops=(), atend=False):
        self.h = h
        self.m = m = M(h)
        self.proof = h.mode == 'proof'
        self.prev = prev
        PW = h.PW
        code = h.lay.enums['OP_' + op] if isinstance(op, str) else op
        code = BVV(code, 8) if isinstance(code, int) else code
        self.W = World(h, m, stack, call, arg, scopes, loops)
        # something stays on the value stack, which is below the limit of 2^26 items
        h.assume(z3.UGT(self.W.stack.items, len(stack)))
        self.atend = atend
        g, bit, _ = h.lay.bit('mjs', 'need_gc')
        if not self.proof:
            h.ex.poke(h.st, m.o, g, 1, simp(h.ex.peek(h.st, simp(m.o.base + g), 1) & BVV(~(1 << bit), 8)))
        # code part
        self.ops = []
        if self.proof:
            self.pos = h.size('pos', 28)
            self.len = h.size('codelen', 29)
            self.start = h.size('start', 28)
        else:
            self.pos = BVV(0, PW)
            self.start = BVV(0, PW)
        at = BVV(1, PW)
        todo = []
        last = None
        for i, o in enumerate(operands):
            if isinstance(o, str) and o == 'v':
                if self.proof:
                    l = z3.ZeroExt(PW - 4, h.sym('llen%d' % i, 4))
                    h.assume(z3.And(z3.UGE(l, 1), z3.ULE(l, 10)))
                    n = h.sym('n%d' % i, 64)
                else:
                    l = BVV(1, PW)
                    n = z3.ZeroExt(57, h.sym('n%d' % i, 7))
                    h.assume(z3.ULE(n, 8))
                self.ops.append((n, l))
                todo.append((at, n, l, 'v'))
                at = simp(at + l)
                last = n
            elif isinstance(o, tuple):
                # raw bytes of the code part
                self.ops.append(simp(at))
                at = simp(at + o[1])
            elif isinstance(o, str) and o == 's':
                # bytes follow; their number is the preceding varint
                h.assume(z3.ULE(last, BVV(1 << 20, 64)))
                self.ops.append((simp(at), last))
                at = simp(at + (last if PW == 64 else z3.Extract(31, 0, last)))
            else:
                self.ops.append(o)
                todo.append((at, o, None, 'b'))
                at = simp(at + 1)
        self.ilen = at
        if self.proof:
            h.assume(z3.UGE(self.pos, self.len) if atend else z3.ULE(self.pos + self.ilen, self.len))
            self.code = h.obj('code', self.len, kind='input', align=1)
        else:
            self.len = simp(self.ilen + PAD)
            self.code = h.obj('code', self.len, kind='input', align=1)
            ex = OPX(h)
            if h.mode == 'replay':
                for i in range(toint(simp(self.len))):
                    h.ex.poke(h.st, self.code, i, 1, BVV(ex, 8))
            else:
                h.ex.fact(h.st, lambda i: z3.Implies(z3.And(z3.UGE(i, self.ilen), z3.ULT(i, self.len)),
                                                     h.byte(h.st, self.code, i) == ex))
        if atend:
            pass
        elif self.proof:
            h.assume(h.byte(h.st, self.code, self.pos) == code)
        else:
            h.ex.poke(h.st, self.code, 0, 1, code)
        for a, n, l, k in todo:
            if k == 'v' and self.proof:
                h.st.g['varints'] = h.st.g.get('varints', ()) + ((simp(self.code.base + self.pos + a), n, l),)
            elif k == 'v':
                h.ex.poke(h.st, self.code, toint(a), 1, z3.Extract(7, 0, n))
            elif self.proof:
                h.assume(h.byte(h.st, self.code, simp(self.pos + a)) == n)
            else:
                h.ex.poke(h.st, self.code, toint(a), 1, n if not isinstance(n, int) else BVV(n, 8))
        self.part = self.mkpart('part', self.start, self.code.base, self.len)
        if not self.proof:
            b = h.obj('parts', BVV(h.lay.size('mjs_bcode_part') * 1, PW), kind='heap', zero=True)
            self.fillpart(b, 0, self.start, self.code.base, self.len)
            m.put(h.st, 'bcode_parts.buf', b.base)
            m.put(h.st, 'bcode_parts.len', b.size)
            m.put(h.st, 'bcode_parts.size', b.size)
            m.put(h.st, 'bcode_len', self.len)
        this = anyval(h, 'this_obj')
        self.this = this
        m.put(h.st, 'vals.this_obj', this)
        self.lastobj = anyval(h, 'last_obj')
        m.put(h.st, 'vals.last_getprop_obj', self.lastobj)
        self.results = []

    def mkpart(self, name, start, p, ln):
        h = self.h
        if not self.proof:
            return None
        o = h.structobj(name, 'mjs_bcode_part', kind='input', zero=True)
        self.fillpart(o, 0, start, p, ln)
        h.st.g['parts'] = h.st.g.get('parts', ()) + ((o.base, start, ln),)
        return o

    def fillpart(self, o, base, start, p, ln):
        h = self.h
        for f, v in (('start_idx', start), ('data.p', p), ('data.len', ln)):
            h.ex.poke(h.st, o, base + h.lay.off('mjs_bcode_part', f)[0], h.PB, v)

    # ---- loop cut
    def begin(self, ctx):
        """one arbitrary iteration"""
        h, st, env = self.h, ctx.st, ctx.env
        ex = ctx.ex
        self.ivar = None
        self.bpvars = []
        fields = [self.start, self.code.base, self.len]
        for k in env['phis']:
            v0 = env['_entry'][k]
            if not z3.is_bv(v0):
                continue
            if v0.size() == h.PW:
                f = [x for x in fields if ex.must(st, v0 == x)]
                if f:
                    env[k] = f[0]
                    self.bpvars.append((k, fields.index(f[0]) if False else [i for i, x in enumerate(fields) if x is f[0]][0]))
                elif ex.must(st, v0 == self.entry) and self.ivar is None:
                    self.ivar = k
            elif v0.size() == 8 and self.prev is not None:
                env[k] = BVV(self.prev, 8)
        if self.ivar is None:
            raise Undecided('instruction counter of the interpreter loop not found')
        env[self.ivar] = self.pos
        st.g['inloop'] = True
        # the stacks have grown since the loop was entered
        for f, l in self.full:
            self.m.put(st, f + '.len', l)

    def end(self, ctx):
        s = ctx.st.copy()
        s.g['bp'] = [(i, ctx.env[k]) for k, i in self.bpvars]
        self.results.append((s, ctx.env[self.ivar]))

    STACKS = ['stack', 'call_stack', 'arg_stack', 'scopes', 'loop_addresses']

    def run(self, post, exits=None, error=None):
        """post(s, next): after the instruction; exits(s, r, res): the function returned normally; error(s): it failed"""
        h, m = self.h, self.m
        res = h.obj('res', 8, kind='input', zero=True)
        if self.proof:
            h.st.g['stepper'] = self
            self.full, self.low = [], {}
            for f in self.STACKS:
                l = m.get(h.st, f + '.len')
                n = h.size(f + '.entry', 26)
                # operands of the instruction were pushed during this activation
                h.assume(z3.ULE(n * 8 + (8 * len(self.W.stack.vals) if f == 'stack' else 0), l))
                h.assume(n >= (1 if f in ('scopes',) else 0))
                self.full.append((f, l))
                self.low[f] = simp(n * 8)
                m.put(h.st, f + '.len', simp(n * 8))
            start = self.entry = h.size('enter', 28)
            h.assume(z3.ULT(start, self.len))
            off = simp(self.start + start)
        else:
            off = BVV(0, h.PW)
            self.low = {f: m.get(h.st, f + '.len') for f in self.STACKS}
        outs = h.call(h.st, 'mjs_execute', m.addr, off, res)
        if self.proof:
            for s, nxt in self.results:
                h.ensure(s, m.error(s) == 0, 'no error')
                if post is None:
                    h.ensure(s, False, 'the instruction does not complete normally')
                else:
                    post(s, nxt)
            for s, r in outs:
                for s1 in h.case(s, bconst('inloop' in s.g)):
                    for s2 in h.case(s1, m.error(s1) != 0):
                        self.failed(s2, r, res, error)
                    for s2 in h.case(s1, m.error(s1) == 0):
                        if exits is None:
                            h.ensure(s2, False, 'execution goes on after the instruction')
                        else:
                            exits(s2, r, h.ex.peek(s2, res.base, 8))
            return
        for s, r in outs:
            for s1 in h.case(s, m.error(s) != 0):
                self.failed(s1, r, res, error)
            for s1 in h.case(s, m.error(s) == 0):
                if exits is not None:
                    exits(s1, r, h.ex.peek(s1, res.base, 8))
                elif post is None:
                    h.ensure(s1, False, 'the instruction does not complete normally')
                else:
                    # undo the final pop of the result
                    m.put(s1, 'stack.len', simp(m.get(s1, 'stack.len') + 8))
                    post(s1, m.get(s1, 'cur_bcode_offset'))

    def failed(self, s, r, res, error):
        h, m = self.h, self.m
        if error is None:
            h.ensure(s, False, 'no error')
            return
        for f in self.STACKS:
            h.ensure(s, m.get(s, f + '.len') == self.low[f], 'after an error all stacks have the depth they had on entry')
        h.ensure(s, h.ex.peek(s, res.base, 8) == und(h), 'a failed script evaluates to undefined')
        h.ensure(s, r == m.error(s), 'the error is returned')
        error(s)

    def next(self, s, nxt, want=None, part=None):
        h = self.h
        for i, v in s.g.get('bp', ()):
            h.ensure(s, v == (part or [self.start, self.code.base, self.len])[i], 'execution continues in the right code part')
        h.ensure(s, nxt == simp(self.pos + self.ilen if want is None else want), 'execution continues at the right instruction')


def OPX(h):
    return h.lay.enums['OP_EXIT']


def deftask(name, fn, funcs=('mjs_execute',), **kw):
    o = dict(OPT)
    o.update(kw)
    if 'replace' in kw:
        o['replace'] = dict(OPT['replace'], **kw['replace'])
    task('C16', 'op_' + name, list(funcs), **o)(fn)


# ---------------------------------------------------------------- constants and stack shuffling
def t_push(h, op, val):
    S = Step(h, op)

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        h.ensure(s, v == val(h, S), 'the value is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
        h.ensure(s, S.m.get(s, 'vals.this_obj') == S.this, '`this` is unchanged')
    S.run(post)


for _n, _v in (('PUSH_NULL', lambda h, S: BVV(h.k['MJS_NULL'], 64)), ('PUSH_UNDEF', lambda h, S: und(h)),
               ('PUSH_TRUE', lambda h, S: boolv(h, bconst(True))), ('PUSH_FALSE', lambda h, S: boolv(h, bconst(False))),
               ('PUSH_THIS', lambda h, S: S.this)):
    deftask(_n, lambda h, n=_n, v=_v: t_push(h, n, v))


def c_fresh(tag):
    def c(ex, st, a):
        """recorded"""
        v = ex.fresh(tag, 64)
        st.g[tag] = st.g.get(tag, ()) + ((tuple(a), v),)
        return [(st, v)]
    return c


def t_pushnew(h, op, tag):
    S = Step(h, op)

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        g = s.g.get(tag, ())
        h.ensure(s, v == g[0][1] if len(g) == 1 else False, 'a new object is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


NR = dict(nobounded=True, noreplay=True)
deftask('PUSH_OBJ', lambda h: t_pushnew(h, 'PUSH_OBJ', 'mkobj'), replace=dict(mjs_mk_object=c_fresh('mkobj')), **NR)
deftask('PUSH_ARRAY', lambda h: t_pushnew(h, 'PUSH_ARRAY', 'mkarr'), replace=dict(mjs_mk_array=c_fresh('mkarr')), **NR)


def t_pushfunc(h):
    S = Step(h, 'PUSH_FUNC', ['v'])
    n, l = S.ops[0]
    if S.proof:
        h.assume(z3.ULE(n, z3.ZeroExt(64 - h.PW, S.pos) if h.PW < 64 else S.pos))
    else:
        h.assume(n == 0)

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        addr = simp(S.start + S.pos - n)
        h.ensure(s, v == (addr | BVV(h.k['MJS_TAG_FUNCTION'], 64)), 'a function at the given code position is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('PUSH_FUNC', t_pushfunc)


def t_pushint(h):
    S = Step(h, 'PUSH_INT', ['v'])
    n, l = S.ops[0]

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        h.ensure(s, isint(h, s, v, n), 'the integer is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('PUSH_INT', t_pushint)


def c_strtod(ex, st, a):
    """the number whose text starts at this address (libc)"""
    f = ex.fresh('strtod', 64)
    st.g['strtod'] = st.g.get('strtod', ()) + ((a[0], f),)
    return [(st, FPV(None, f))]


def t_pushdbl(h):
    S = Step(h, 'PUSH_DBL', ['v', 's'])
    at, n = S.ops[1]

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        g = s.g.get('strtod', ())
        ok = len(g) == 1
        h.ensure(s, g[0][0] == S.code.base + S.pos + at if ok else False, 'the text of the number is converted')
        if ok:
            f = g[0][1]
            h.ensure(s, z3.If(isnan(f), v == h.k['MJS_TAG_NAN'], v == f), 'the number is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('PUSH_DBL', t_pushdbl, replace=dict(strtod=c_strtod), **NR)


def c_mkstr(ex, st, a):
    """recorded (C04)"""
    v = ex.fresh('mkstr', 64)
    st.g['mkstr'] = st.g.get('mkstr', ()) + ((a[1], a[2], a[3], v),)
    return [(st, v)]


def t_pushstr(h):
    S = Step(h, 'PUSH_STR', ['v', 's'])
    at, n = S.ops[1]

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        g = s.g.get('mkstr', ())
        h.ensure(s, z3.And(g[0][0] == S.code.base + S.pos + at, g[0][1] == n, g[0][2] != 0, v == g[0][3]) if len(g) == 1 else False,
                 'a copy of the literal is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('PUSH_STR', t_pushstr, replace=dict(mjs_mk_string=c_mkstr), **NR)


def t_shuffle(h, op):
    a, b = anyval(h, 'a'), anyval(h, 'b')
    vals = dict(DROP=[a], DUP=[a], SWAP=[b, a], NOP=[])[op]
    want = dict(DROP=[], DUP=[a, a], SWAP=[a, b], NOP=[])[op]
    S = Step(h, op, stack=vals)

    def post(s, nxt):
        vs = S.W.stack.check(s, len(want), len(vals))
        h.ensure(s, z3.And([x == y for x, y in zip(vs, want)] + [bconst(True)]), 'stack contents')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


for _n in ('DROP', 'DUP', 'SWAP', 'NOP'):
    deftask(_n, lambda h, n=_n: t_shuffle(h, n))


# ---------------------------------------------------------------- jumps
def small(h, S, n):
    """jump distance: non-negative and inside the part"""
    if S.proof:
        h.assume(z3.ULE(n, BVV(1 << 28, 64)))
    return simp(z3.Extract(h.PW - 1, 0, n))


def c_truthy(ex, st, a):
    """recorded (C08)"""
    t = ex.fresh('truth', 32)
    st.g['truth'] = st.g.get('truth', ()) + ((a[1], t),)
    return [(st, t)]


def t_jmp(h):
    S = Step(h, 'JMP', ['v'])
    n = small(h, S, S.ops[0][0])

    def post(s, nxt):
        S.W.rest(s)
        S.next(s, nxt, S.pos + S.ilen + n)
    S.run(post)


deftask('JMP', t_jmp)


def t_cjmp(h, op):
    """proof: for every value, with the truth test by contract (C08); otherwise for a boolean"""
    a = anyval(h, 'a', None if h.mode == 'proof' else ['boolean', 'null', 'undefined'])
    S = Step(h, op, ['v'], stack=[a])
    n = small(h, S, S.ops[0][0])

    def post(s, nxt):
        if S.proof:
            g = s.g.get('truth', ())
            h.ensure(s, g[0][0] == a if len(g) == 1 else False, 'the value on top of the stack is tested')
            if len(g) != 1:
                return
            t = g[0][1] != 0
        else:
            t = a == boolv(h, bconst(True))
        for val in (True, False):
            for s1 in h.case(s, t == bconst(val)):
                if op == 'JMP_FALSE':
                    # falls through without the value, or jumps with undefined as the result so far
                    v = S.W.stack.check(s1, 0 if val else 1, 1)
                    if not val:
                        h.ensure(s1, v[0] == und(h), 'undefined replaces the condition')
                    jump = not val
                else:
                    S.W.stack.check(s1)
                    jump = val if op == 'JMP_NEUTRAL_TRUE' else not val
                S.next(s1, nxt, S.pos + S.ilen + n if jump else None)
        S.W.rest(s, 'stack')
    S.run(post)


if True:
    for _n in ('JMP_FALSE', 'JMP_NEUTRAL_TRUE', 'JMP_NEUTRAL_FALSE'):
        deftask(_n, lambda h, n=_n: t_cjmp(h, n), replace=dict(mjs_is_truthy=c_truthy), nobounded=True)


# ---------------------------------------------------------------- loops, break, continue
def t_loop(h):
    S = Step(h, 'LOOP', ['v', 'v'])
    b, l1 = S.ops[0]
    c, l2 = S.ops[1]
    b, c = small(h, S, b), small(h, S, c)

    def post(s, nxt):
        v = S.W.loops.check(s, 3)
        h.ensure(s, isint(h, s, v[0], S.W.scopes.items), 'the number of scopes is remembered')
        h.ensure(s, isint(h, s, v[1], simp(S.pos + 1 + l1 + b)), 'the break target, relative to its operand')
        h.ensure(s, isint(h, s, v[2], simp(S.pos + 1 + l1 + l2 + c)), 'the continue target, relative to its operand')
        S.W.rest(s, 'loops')
        S.next(s, nxt)
    S.run(post)


deftask('LOOP', t_loop)


def t_brk(h, op):
    nsc = z3.ZeroExt(1, h.sym('nscopes', 26))
    brk, con = z3.ZeroExt(1, h.sym('brk', 28)), z3.ZeroExt(1, h.sym('cont', 28))
    S = Step(h, op, loops=[num(h, nsc), num(h, brk), num(h, con)])
    t = brk if op == 'BREAK' else con
    h.assume(z3.And(z3.ULT(0, t), z3.ULE(zx(h, nsc), S.W.scopes.items)))
    if not S.proof:
        h.assume(z3.ULT(zx(h, t), S.len))

    def post(s, nxt):
        S.W.loops.check(s, 0, 3 if op == 'BREAK' else 0)
        h.ensure(s, S.m.get(s, 'scopes.len') == zx(h, nsc) * 8, 'scopes opened inside the loop are closed, no others')
        for s1 in h.case(s, z3.ULT(S.W.scopes.k, zx(h, nsc))):
            h.ensure(s1, S.W.scopes.at(s1, S.W.scopes.k) == S.W.scopes.old, 'remaining scopes are unchanged')
        S.W.rest(s, 'loops', 'scopes')
        S.next(s, nxt, zx(h, t))
    S.run(post)


def t_brkbad(h, op):
    S = Step(h, op)
    h.assume(z3.ULT(S.W.loops.items, 3))
    S.run(None, error=lambda s: h.ensure(s, S.m.error(s) == h.lay.enums['MJS_SYNTAX_ERROR'], 'misplaced break or continue is a syntax error'))


for _n in ('BREAK', 'CONTINUE'):
    deftask(_n, lambda h, n=_n: t_brk(h, n))
    deftask(_n + '_misplaced', lambda h, n=_n: t_brkbad(h, n))


# ---------------------------------------------------------------- scopes
def t_delscope(h, one):
    S = Step(h, 'DEL_SCOPE', scopes=[anyval(h, 'sc')] + ([] if one else [anyval(h, 'sc2')]))
    if one:
        # a single scope: nothing to delete beyond the global one
        S.run(None, error=lambda s: h.ensure(s, S.m.error(s) == h.lay.enums['MJS_INTERNAL_ERROR'], 'scope underflow'))
        return

    def post(s, nxt):
        S.W.scopes.check(s, 0, 1)
        S.W.rest(s, 'scopes')
        S.next(s, nxt)
    S.run(post)


deftask('DEL_SCOPE', lambda h: t_delscope(h, False))


def t_newscope(h):
    S = Step(h, 'NEW_SCOPE')

    def post(s, nxt):
        v, = S.W.scopes.check(s, 1)
        g = s.g.get('mkobj', ())
        h.ensure(s, v == g[0][1] if len(g) == 1 else False, 'a new scope object is opened')
        S.W.rest(s, 'scopes')
        S.next(s, nxt)
    S.run(post)


deftask('NEW_SCOPE', t_newscope, replace=dict(mjs_mk_object=c_fresh('mkobj')), **NR)


def t_pushscope(h):
    sc = anyval(h, 'sc')
    S = Step(h, 'PUSH_SCOPE', scopes=[sc])

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        h.ensure(s, v == sc, 'the innermost scope is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('PUSH_SCOPE', t_pushscope)


def t_findscope(h):
    key = anyval(h, 'key')
    S = Step(h, 'FIND_SCOPE', stack=[key])

    def post(s, nxt):
        v, = S.W.stack.check(s, 1)
        g = s.g.get('findscope', ())
        h.ensure(s, z3.And(g[0][0][1] == key, v == g[0][1]) if len(g) == 1 else False, 'the scope that has the name is pushed')
        S.W.rest(s, 'stack')
        S.next(s, nxt)
    S.run(post)


deftask('FIND_SCOPE', t_findscope, replace=dict(mjs_find_scope=c_fresh('findscope')), **NR)


def c_own_has(ex, st, a):
    """does this scope have the name?  (C09)"""
    f = z3.Function('has', z3.BitVecSort(64), z3.BitVecSort(1))
    ex.prove(st, a[2] == st.g['key'], 'the name looked up is the one asked for', 'requires')
    c = f(simp(a[1])) == 1
    if ex.feasible(st, c) and ex.feasible(st, z3.Not(c)):
        from lvc.sym import Fork
        raise Fork([c, z3.Not(c)])
    if ex.feasible(st, c):
        p = ex.newobj(st, 'prop', ex.lay.size('mjs_property'), 'input', align=8)
        return [(st, p.base)]
    return [(st, BVV(0, ex.PW))]


class ScopeLoop(Loopspec):
    """scopes above the counter do not have the name"""

    def __init__(self):
        self.modifies = None
        self.dec = None

    def inv(self, ctx):
        st = ctx.st
        W, h = st.g['W'], st.g['W'].h
        k = [ctx.env[p] for p in ctx.env['phis'] if z3.is_bv(ctx.env[p]) and ctx.env[p].size() == h.PW]
        if len(k) != 1:
            raise Undecided('scope counter not found')
        c = k[0]
        if '_loopold' in ctx.env:
            st.g['j'] = c
        has = z3.Function('has', z3.BitVecSort(64), z3.BitVecSort(1))
        w = st.g['w']
        return [('counter stays in range', z3.ULE(c, W.scopes.items)),
                ('scopes passed do not have the name', z3.Implies(z3.And(z3.UGE(w, c), z3.ULT(w, W.scopes.items)), has(st.g['sw']) == 0))]


def t_find(h):
    m = M(h)
    key = anyval(h, 'key', ['string'])
    W = World(h, m)
    w = h.size('w', 26)
    h.st.g['W'], h.st.g['key'], h.st.g['w'] = W, key, w
    sw = W.scopes.at(h.st, w)
    h.st.g['sw'] = sw
    has = z3.Function('has', z3.BitVecSort(64), z3.BitVecSort(1))
    for s, r in h.call(h.st, 'mjs_find_scope', m.addr, key):
        W.rest(s)
        for s1 in h.case(s, m.error(s) != 0):
            h.ensure(s1, z3.And(r == und(h), m.error(s1) == h.lay.enums['MJS_REFERENCE_ERROR']), 'an unknown name is a reference error')
            h.ensure(s1, z3.Implies(z3.ULT(w, W.scopes.items), has(sw) == 0), 'an error only if no scope has the name')
        for s1 in h.case(s, m.error(s) == 0):
            # the scope below the counter of the last iteration has it, those above do not
            h.ensure(s1, has(r) == 1, 'the scope found has the name')
            j = s1.g.get('j')
            if j is None:
                h.ensure(s1, False, 'a scope is searched for')
                continue
            h.ensure(s1, z3.And(z3.UGE(j, 1), z3.ULE(j, W.scopes.items), r == W.scopes.at(s1, simp(j - 1))), 'the result is one of the open scopes')
            h.ensure(s1, z3.Implies(z3.And(z3.UGE(w, j), z3.ULT(w, W.scopes.items)), has(sw) == 0), 'no inner scope has the name')


deftask('find_scope', t_find, funcs=('mjs_find_scope',), replace=dict(mjs_get_own_property_v=c_own_has, mjs_get_cstring=c_fresh('cstr')),
        loops={('mjs_find_scope', 0): ScopeLoop()}, **NR)


# ---------------------------------------------------------------- properties
def c_rec(tag, ret=None, err=False):
    """recorded call; ret: name of a fresh 64-bit result; err: may fail"""
    def c(ex, st, a):
        """recorded"""
        v = ex.fresh(tag, 64 if ret == 64 else 32) if ret else None
        st.g[tag] = st.g.get(tag, ()) + ((tuple(a[1:]), v),)
        if err:
            b, n = _field(ex, a[0], 'error')
            f = ex.freshb(tag + '.fails')
            ex.store(st, b, n, simp(z3.If(f, ex.fresh('err', 32) | 1, ex.load(st, b, n))))
        return [(st, v)]
    return c


def rec(h, s, tag, n=1):
    """the n recorded calls, or None (obligation failed)"""
    g = s.g.get(tag, ())
    h.ensure(s, len(g) == n, '%s: %d time(s)' % (tag, n))
    return g if len(g) == n else None


def c_own(ex, st, a):
    """own property or NULL (C09)"""
    f = ex.freshb('own')
    st.g['own'] = st.g.get('own', ()) + (((a[1], a[2]), f),)
    p = ex.newobj(st, 'prop', ex.lay.size('mjs_property'), 'input', align=8)
    return [(st, simp(z3.If(f, p.base, BVV(0, ex.PW))))]


def t_create(h):
    key, obj = anyval(h, 'key'), anyval(h, 'obj')
    S = Step(h, 'CREATE', stack=[key, obj])

    def post(s, nxt):
        S.W.stack.check(s, 0, 2)
        S.W.rest(s, 'stack')
        S.next(s, nxt)
        g = rec(h, s, 'own')
        if not g:
            return
        h.ensure(s, z3.And(g[0][0][0] == obj, g[0][0][1] == key), 'the variable is looked up in the scope')
        for s1 in h.case(s, g[0][1]):
            h.ensure(s1, not s1.g.get('set_v'), 'an existing variable keeps its value')
        for s1 in h.case(s, z3.Not(g[0][1])):
            w = rec(h, s1, 'set_v')
            if w:
                o, k, v = w[0][0]
                h.ensure(s1, z3.And(o == obj, k == key, v == und(h)), 'a new variable is undefined')
    S.run(post)


deftask('CREATE', t_create, replace=dict(mjs_get_own_property_v=c_own, mjs_set_v=c_rec('set_v', 32)), **NR)


def c_push_arr(ex, st, a):
    """array append (C10)"""
    r = ex.fresh('arrpush', 32)
    st.g['arrpush'] = st.g.get('arrpush', ()) + (((a[1], a[2]), r),)
    return [(st, r)]


def t_append(h):
    arr, val = anyval(h, 'arr'), anyval(h, 'val')
    S = Step(h, 'APPEND', stack=[arr, val])

    def called(s):
        g = rec(h, s, 'arrpush')
        if g:
            h.ensure(s, z3.And(g[0][0][0] == arr, g[0][0][1] == val), 'the value is appended to the array')
        return g

    def post(s, nxt):
        g = called(s)
        if g:
            h.ensure(s, g[0][1] == 0, 'no error when the append succeeded')
        S.W.stack.check(s, 0, 2)
        S.W.rest(s, 'stack')
        S.next(s, nxt)

    def error(s):
        g = called(s)
        if g:
            h.ensure(s, g[0][1] != 0, 'an error only when the append failed')
        h.ensure(s, S.m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'type error')
    S.run(post, error=error)


deftask('APPEND', t_append, replace=dict(mjs_array_push=c_push_arr), **NR)


def c_builtin(ex, st, a):
    """builtin properties of strings, arrays, functions and foreign pointers (C18, C10)"""
    f = ex.freshb('builtin')
    v = ex.fresh('builtinval', 64)
    st.g['builtin'] = st.g.get('builtin', ()) + (((a[1], a[2]), f, v),)
    old = ex.load(st, a[3], 8)
    ex.store(st, a[3], 8, simp(z3.If(f, v, old)))
    return [(st, simp(z3.If(f, BVV(1, 32), BVV(0, 32))))]


def t_get(h, prev):
    key, obj = anyval(h, 'key'), anyval(h, 'obj')
    S = Step(h, 'GET', stack=[key, obj], prev=None if prev is None else h.lay.enums['OP_' + prev])
    isobj = spec(h, obj)['object'] if 'object' in spec(h, obj) else None
    sp = spec(h, obj)
    isobj = z3.Or(sp['object'], sp['array'])

    def post(s, nxt):
        v, = S.W.stack.check(s, 1, 2)
        S.W.rest(s, 'stack')
        S.next(s, nxt)
        g = rec(h, s, 'builtin')
        if not g:
            return
        (o, k), f, bv = g[0]
        h.ensure(s, z3.And(o == obj, k == key), 'the property asked for is looked up')
        for s1 in h.case(s, f):
            h.ensure(s1, v == bv, 'builtin property')
        for s1 in h.case(s, z3.Not(f)):
            h.ensure(s1, isobj, 'only objects have other properties')
            w = rec(h, s1, 'get_v_proto')
            if w:
                h.ensure(s1, z3.And(w[0][0][0] == obj, w[0][0][1] == key, v == w[0][1]), 'property of the object or its prototypes')
        this = S.m.get(s, 'vals.last_getprop_obj')
        h.ensure(s, this == (und(h) if prev == 'FIND_SCOPE' else obj),
                 'a variable is not a method' if prev == 'FIND_SCOPE' else 'the object becomes `this` of a method call')

    def error(s):
        g = s.g.get('builtin', ())
        h.ensure(s, z3.And(z3.Not(g[0][1]), z3.Not(isobj)) if len(g) == 1 else False, 'an error only when the value has no properties')
        h.ensure(s, S.m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'type error')
    S.run(post, error=error)


for _n in ('FIND_SCOPE', 'PUSH_STR', 'SWAP', 'EXPR'):
    deftask('GET_after_' + _n, lambda h, n=_n: t_get(h, n), replace=dict(getprop_builtin=c_builtin, mjs_get_v_proto=c_rec('get_v_proto', 64)), **NR)


def c_next(ex, st, a):
    """next key (C09)"""
    v, it = ex.fresh('nextkey', 64), ex.fresh('nextit', 64)
    st.g['next'] = st.g.get('next', ()) + (((a[1], ex.load(st, a[2], 8)), v, it),)
    ex.store(st, a[2], 8, it)
    return [(st, v)]


def t_forin(h):
    name, obj, it = anyval(h, 'name'), anyval(h, 'obj'), anyval(h, 'it')
    S = Step(h, 'FOR_IN_NEXT', stack=[name, obj, it])
    sp = spec(h, obj)
    isobj = z3.Or(sp['object'], sp['array'])

    def post(s, nxt):
        v = S.W.stack.check(s, 3, 3)
        S.W.rest(s, 'stack')
        S.next(s, nxt)
        h.ensure(s, isobj, 'only objects can be iterated')
        g = rec(h, s, 'next')
        if not g:
            return
        (o, i), k, i2 = g[0]
        h.ensure(s, z3.And(o == obj, i == it), 'iteration goes on from the current position')
        h.ensure(s, z3.And(v[0] == name, v[1] == obj, v[2] == i2), 'the position advances, nothing else on the stack changes')
        for s1 in h.case(s, k == und(h)):
            h.ensure(s1, not s1.g.get('set_v'), 'nothing is assigned at the end')
        for s1 in h.case(s, k != und(h)):
            f, w = rec(h, s1, 'findscope'), rec(h, s1, 'set_v')
            if f and w:
                h.ensure(s1, z3.And(f[0][0][1] == name, w[0][0][0] == f[0][1], w[0][0][1] == name, w[0][0][2] == k),
                         'the key is assigned to the loop variable')

    def error(s):
        h.ensure(s, z3.And(z3.Not(isobj), S.m.error(s) == h.lay.enums['MJS_TYPE_ERROR']), 'iterating a non-object is a type error')
    S.run(post, error=error)


deftask('FOR_IN_NEXT', t_forin, replace=dict(mjs_next=c_next, mjs_find_scope=c_fresh('findscope'), mjs_set_v=c_rec('set_v', 32)), **NR)


# ---------------------------------------------------------------- calls
RLOOPS = dict(CUT)
RLOOPS[('call_stack_restore_frame', 0)] = poploop('scopes')
RLOOPS[('call_stack_restore_frame', 1)] = poploop('loop_addresses')


def exitoff(h):
    return 0x7fffffff


def t_return(h, exit_):
    fr = mkframe(h)
    S = Step(h, 'RETURN', call=fr['vals'])
    W = S.W
    h.st.g['mjs'] = S.m.addr
    h.st.g['target:scopes'] = zx(h, fr['scope'])
    h.st.g['target:loop_addresses'] = zx(h, fr['loop'])
    ret = zx(h, fr['ret'])
    h.assume(z3.And(z3.UGE(ret, 1), z3.ULE(ret, W.stack.items)))
    ra = zx(h, fr['ra'])
    if exit_:
        h.assume(ra == exitoff(h))
    else:
        code2 = h.obj('code2', h.size('codelen2', 28), kind='input', align=1)
        start2 = h.size('start2', 28)
        h.assume(z3.And(ra != exitoff(h), z3.UGE(ra, start2), z3.ULT(ra, start2 + code2.size),
                        z3.Or(z3.ULE(S.start + S.len, start2), z3.ULE(start2 + code2.size, S.start))))
        S.mkpart('part2', start2, code2.base, code2.size)
    low = W.stack.at(h.st, simp(ret - 1))

    def common(s, ret):
        W.call_stack.check(s, 0, 5)
        h.ensure(s, S.m.get(s, 'vals.this_obj') == fr['this'], "the caller's `this` is restored")
        for f, x in (('scopes', 'scope'), ('loops', 'loop')):
            V = getattr(W, f)
            t = zx(h, fr[x])
            h.ensure(s, V.b.get(s)[1] == z3.If(z3.ULT(t, V.items), t * 8, V.b.len), '%s opened by the callee are dropped, no others' % f)
        h.ensure(s, W.stack.b.get(s)[1] == ret * 8, 'the value stack is cut back to the return value')
        W.arg_stack.check(s)

    def post(s, nxt):
        common(s, ret)
        S.next(s, nxt, simp(ra - start2 + 1), [start2, code2.base, code2.size])

    def exits(s, r, res):
        common(s, ret - 1)
        h.ensure(s, z3.And(r == 0, res == low), 'the return value is the result')
    S.run(None if exit_ else post, exits=exits if exit_ else None)


deftask('RETURN', lambda h: t_return(h, False), loops=RLOOPS, **NR)
deftask('RETURN_to_host', lambda h: t_return(h, True), loops=RLOOPS, **NR)


def t_args(h, prev):
    S = Step(h, 'ARGS', prev=h.lay.enums['OP_' + prev])

    def post(s, nxt):
        v = S.W.arg_stack.check(s, 2)
        h.ensure(s, v[0] == (S.lastobj if prev == 'GET' else und(h)), '`this` of the call')
        h.ensure(s, isint(h, s, v[1], S.W.stack.items), 'the place of the return value')
        S.W.rest(s, 'arg_stack')
        S.next(s, nxt)
    S.run(post)


for _n in ('GET', 'PUSH_FUNC', 'DUP'):
    deftask('ARGS_after_' + _n, lambda h, n=_n: t_args(h, n), **NR)


def c_native(kind):
    def c(ex, st, a):
        """a native function: runs in its frame, leaves its result in the slot of the function, may leave more above, may open
        scopes and loops, may fail"""
        S = st.g['stepper']
        h, m, W = S.h, S.m, S.W
        if kind == 'indirect':
            st.g['target'] = a[0]
            h.ensure(st, a[1] == m.addr, 'the native function gets the context')
        else:
            st.g['ffi'] = True
            h.ensure(st, a[0] == m.addr, 'the native function gets the context')
        h.ensure(st, m.get(st, 'vals.this_obj') == S.callthis, '`this` of the callee')
        f = W.call_stack.check(st, 5)
        h.ensure(st, f[0] == S.this, "the caller's `this` is saved")
        h.ensure(st, f[4] == S.posv, 'the native function finds its arguments')
        W.arg_stack.check(st, 0, 2)
        W.stack.check(st)
        r = ex.fresh('native', 64)
        st.g['native'] = r
        b, ln, sz = W.stack.b.get(st)
        ex.poke(st, W.stack.b.buf, simp((S.P - 1) * 8), 8, r)
        m.put(st, 'stack.len', simp(S.P * 8))
        for fld, V in (('scopes', W.scopes), ('loop_addresses', W.loops)):
            k = z3.ZeroExt(ex.PW - 20, ex.fresh('opened', 20))
            b, ln, sz = V.b.get(st)
            ex.assume(st, z3.ULE(ln + k * 8, sz))
            m.put(st, fld + '.len', simp(ln + k * 8))
        fails = ex.freshb('native.fails')
        b, n = _field(ex, m.addr, 'error')
        ex.store(st, b, n, simp(z3.If(fails, BVV(h.lay.enums['MJS_TYPE_ERROR'], 32), BVV(0, 32))))
        return [(st, BVV(0, 32) if kind != 'indirect' else None)]
    return c


def t_call(h, kind):
    sp0 = {'function': ['function'], 'foreign': ['foreign'], 'string': ['string'], 'ffi': ['ffi'], 'other': None}[kind]
    func = anyval(h, 'func', sp0)
    this = anyval(h, 'this')
    P = h.size('P', 26)
    posv = num(h, z3.Extract(31, 0, P))
    S = Step(h, 'CALL', arg=[this, posv])
    W = S.W
    S.P, S.posv, S.callthis = P, posv, this
    h.assume(z3.And(z3.UGE(P, 1), z3.ULE(P, W.stack.items)))
    h.ex.poke(h.st, W.stack.b.buf, simp((P - 1) * 8), 8, func)
    W.stack.seal()
    h.st.g['mjs'] = S.m.addr
    h.st.g['target:scopes'] = W.scopes.items
    h.st.g['target:loop_addresses'] = W.loops.items
    keep = lambda k: k != P - 1
    if kind == 'other':
        sp = spec(h, func)
        h.assume(z3.Not(z3.Or(sp['function'], sp['foreign'], sp['string'], sp['ffi'])))

        def error(s):
            h.ensure(s, S.m.error(s) == h.lay.enums['MJS_TYPE_ERROR'], 'calling a non-callable value is a type error')
        return S.run(None, error=error)
    if kind == 'function':
        addr = simp(z3.Extract(h.PW - 1, 0, func & BVV((1 << 48) - 1, 64)))
        code2 = h.obj('code2', h.size('codelen2', 28), kind='input', align=1)
        start2 = h.size('start2', 28)
        h.assume(z3.And(z3.UGE(addr - 1, start2), z3.ULT(addr - 1, start2 + code2.size), z3.UGE(addr, 1),
                        z3.Or(z3.ULE(S.start + S.len, start2), z3.ULE(start2 + code2.size, S.start))))
        S.mkpart('part2', start2, code2.base, code2.size)

    def post(s, nxt):
        W.arg_stack.check(s, 0, 2)
        if kind == 'function':
            f = W.call_stack.check(s, 5)
            W.stack.check(s, keep=keep)
            h.ensure(s, W.stack.at(s, simp(P - 1)) == und(h), 'the return value defaults to undefined')
            h.ensure(s, f[0] == S.this, "the caller's `this` is saved")
            h.ensure(s, isint(h, s, f[1], simp(S.start + S.pos)), 'the return address is the call')
            h.ensure(s, isint(h, s, f[2], W.scopes.items), 'the number of scopes is saved')
            h.ensure(s, isint(h, s, f[3], W.loops.items), 'the number of loop addresses is saved')
            h.ensure(s, f[4] == posv, 'the place of the return value is saved')
            h.ensure(s, S.m.get(s, 'vals.this_obj') == this, '`this` of the callee')
            S.next(s, nxt, simp(addr - start2), [start2, code2.base, code2.size])
        else:
            W.call_stack.check(s)
            h.ensure(s, S.m.get(s, 'vals.this_obj') == S.this, "the caller's `this` is restored")
            h.ensure(s, W.stack.b.get(s)[1] == P * 8, 'function and arguments are replaced by the result')
            if 'native' not in s.g:
                h.ensure(s, False, 'the native function is called')
                return
            h.ensure(s, W.stack.at(s, simp(P - 1)) == s.g['native'], 'the result of the native function')
            for s1 in h.case(s, z3.ULT(W.stack.k, P - 1)):
                h.ensure(s1, W.stack.at(s1, W.stack.k) == W.stack.old, 'values below are unchanged')
            S.next(s, nxt)
            if kind == 'foreign':
                h.ensure(s, s.g['target'] == z3.Extract(h.PW - 1, 0, func & BVV((1 << 48) - 1, 64)), 'the function called is the one the value points to')
            else:
                h.ensure(s, 'ffi' in s.g, 'a signature is called through the foreign function interface')
        W.scopes.check(s)
        W.loops.check(s)

    def nerror(s):
        h.ensure(s, S.m.error(s) == h.lay.enums['MJS_TYPE_ERROR'] if 'native' in s.g else False, 'an error only if the native function raised it')
    S.run(post, error=None if kind == 'function' else nerror)


for _n in ('function', 'foreign', 'string', 'ffi', 'other'):
    deftask('CALL_' + _n, lambda h, n=_n: t_call(h, n), loops=RLOOPS,
            replace=dict(mjs_ffi_call2=c_native('ffi'), indirect=c_native('indirect')), **NR)


def t_setarg(h):
    P = h.size('P', 26)
    posv = num(h, z3.Extract(31, 0, P))
    sc = anyval(h, 'sc')
    S = Step(h, 'SET_ARG', ['v', 'v', 's'], call=[posv], scopes=[sc])
    W = S.W
    n1, l1 = S.ops[0]
    n2, l2 = S.ops[1]
    at, n = S.ops[2]
    h.assume(z3.And(z3.UGE(P, 1), z3.ULE(P, W.stack.items), z3.ULT(n1, BVV(1 << 16, 64))))
    i = simp(z3.Extract(h.PW - 1, 0, n1))
    arg = W.stack.at(h.st, simp(P + i))
    have = z3.ULT(P + i, W.stack.items)

    def post(s, nxt):
        W.rest(s)
        S.next(s, nxt)
        g, w = rec(h, s, 'mkstr'), rec(h, s, 'set_v')
        if g and w:
            h.ensure(s, z3.And(g[0][0] == S.code.base + S.pos + at, g[0][1] == n, g[0][2] != 0), 'name of the parameter')
            o, k, v = w[0][0]
            h.ensure(s, z3.And(o == sc, k == g[0][3]), 'the parameter is a variable of the innermost scope')
            h.ensure(s, v == z3.If(have, arg, und(h)), 'its value is the argument, or undefined')
    S.run(post)


deftask('SET_ARG', t_setarg, replace=dict(mjs_mk_string=c_mkstr, mjs_set_v=c_rec('set_v', 32)), **NR)


def t_setret(h):
    P = h.size('P', 26)
    posv = num(h, z3.Extract(31, 0, P))
    v = anyval(h, 'v')
    S = Step(h, 'SETRETVAL', call=[posv], stack=[v])
    W = S.W
    h.assume(z3.And(z3.UGE(P, 1), z3.ULT(P, W.stack.items)))

    def post(s, nxt):
        W.stack.check(s, 0, 1, keep=lambda k: k != P - 1)
        h.ensure(s, W.stack.at(s, simp(P - 1)) == v, 'the value is stored as the return value of the function')
        W.rest(s, 'stack')
        S.next(s, nxt)
        h.ensure(s, z3.UGE(W.call_stack.items, 5), 'only inside a function')

    def error(s):
        h.ensure(s, z3.And(z3.ULT(W.call_stack.items, 5), S.m.error(s) == h.lay.enums['MJS_INTERNAL_ERROR']), 'a return outside a function is an error')
    S.run(post, error=error)


deftask('SETRETVAL', t_setret, **NR)


def t_expr(h):
    op = h.sym('op', 8)
    S = Step(h, 'EXPR', [op])

    def called(s):
        g = rec(h, s, 'expr')
        if g:
            h.ensure(s, g[0][0][0] == z3.ZeroExt(24, op), 'the operator of the instruction is applied')

    def post(s, nxt):
        called(s)
        S.W.rest(s)
        S.next(s, nxt)

    def error(s):
        called(s)
    S.run(post, error=error)


deftask('EXPR', t_expr, replace=dict(exec_expr=c_rec('expr', None, True)), **NR)


# ---------------------------------------------------------------- end of a code part
def t_exit(h, op):
    v = anyval(h, 'v')
    S = Step(h, op or 'NOP', stack=[v], atend=op is None)

    def exits(s, r, res):
        h.ensure(s, z3.And(r == 0, res == v), 'the value on top of the stack is the result')
        S.W.stack.check(s, 0, 1)
        S.W.rest(s, 'stack')

    def post(s, nxt):
        S.W.rest(s)
        h.ensure(s, z3.UGE(nxt, S.len), 'execution of the code part ends')
    if op and S.proof:
        S.run(post)
    else:
        S.run(None, exits=exits)


deftask('EXIT', lambda h: t_exit(h, 'EXIT'))
deftask('end_of_code', lambda h: t_exit(h, None), **NR)


def t_header(h):
    n = 4 * (h.lay.enums['MJS_HDR_ITEMS_CNT'] if 'MJS_HDR_ITEMS_CNT' in h.lay.enums else 3)
    S = Step(h, 'BCODE_HEADER', [('raw', n)])
    k = h.lay.enums['MJS_HDR_ITEM_BCODE_OFFSET']
    off = h.ex.peek(h.st, simp(S.code.base + S.pos + 1 + 4 * k), 4)

    def post(s, nxt):
        S.W.rest(s)
        S.next(s, nxt, simp(S.pos + 1 + z3.ZeroExt(h.PW - 32, off)))
    S.run(post)


deftask('BCODE_HEADER', t_header, **NR)

OPS = ('PUSH_NULL PUSH_UNDEF PUSH_FALSE PUSH_TRUE PUSH_OBJ PUSH_ARRAY PUSH_FUNC PUSH_THIS JMP JMP_FALSE JMP_NEUTRAL_TRUE '
       'JMP_NEUTRAL_FALSE FIND_SCOPE CREATE APPEND GET DEL_SCOPE NEW_SCOPE PUSH_SCOPE PUSH_STR PUSH_INT PUSH_DBL FOR_IN_NEXT RETURN '
       'ARGS CALL SET_ARG SETRETVAL EXPR DROP DUP SWAP LOOP CONTINUE BREAK NOP EXIT BCODE_HEADER').split()


def t_unknown(h):
    op = h.sym('op', 8)
    h.assume(z3.And([op != h.lay.enums['OP_' + o] for o in OPS]))
    S = Step(h, op)
    S.run(None, error=lambda s: h.ensure(s, S.m.error(s) == h.lay.enums['MJS_INTERNAL_ERROR'], 'an unknown instruction is an error'))


deftask('unknown', t_unknown, nobounded=True)
