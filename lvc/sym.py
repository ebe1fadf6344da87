"""Verification-condition generator over LLVM IR (see DESIGN.md, "Verifier").

Forward symbolic execution, function by function.  Every load, store, call into
libc, division, assert() and contract clause produces a proof obligation
`path condition ==> goal`, discharged by z3 over bit-vectors, uninterpreted byte
functions and IEEE floats.  Memory is a set of disjoint objects of *symbolic*
(unbounded) size; contents are update chains over uninterpreted byte functions,
so no bound is placed on buffer lengths.  Callees are either inlined or replaced
by their contract; loops are either unrolled completely (with an unwinding
obligation) or cut by an invariant."""
import subprocess
import sys
import time
import z3
from .ir import IRError

sys.setrecursionlimit(20000)

BVV = z3.BitVecVal


class Undecided(Exception):
    """engine limit: not a violation"""


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    """current path ends (infeasible, or an obligation that cannot be assumed)"""


class FPV:
    """a double/float value: z3 FP term and/or its bit pattern"""
    __slots__ = ('_f', 'bits', 'sort')

    def __init__(self, f=None, bits=None, sort=None):
        self._f = f
        self.bits = bits
        self.sort = sort if sort is not None else (f.sort() if f is not None else z3.Float64())

    @property
    def f(self):
        if self._f is None:
            self._f = z3.fpBVToFP(self.bits, self.sort)
            if isval(self.bits):
                self._f = z3.simplify(self._f)
        return self._f

    def is_nan(self):
        if self.bits is not None and self.sort == z3.Float64():
            b = self.bits
            return z3.simplify(z3.And(z3.Extract(62, 52, b) == BVV(0x7ff, 11), z3.Extract(51, 0, b) != BVV(0, 52)))
        return z3.fpIsNaN(self.f)


def isval(e):
    return z3.is_bv_value(e)


def simp(e):
    return z3.simplify(e)


def bconst(b):
    return z3.BoolVal(b)


# ------------------------------------------------------------------ memory chains
class Node:
    __slots__ = ('k', 'prev', 'off', 'n', 'val', 'src', 'soff')

    def __init__(self, k, prev=None, off=None, n=None, val=None, src=None, soff=None):
        self.k = k
        self.prev = prev
        self.off = off
        self.n = n
        self.val = val
        self.src = src
        self.soff = soff


def toint(e):
    """python int if constant else the expr"""
    if isinstance(e, int):
        return e
    if isval(e):
        return e.as_long()
    return e


class Obj:
    __slots__ = ('id', 'name', 'base', 'size', 'kind', 'const', 'sym')

    def __init__(self, id, name, base, size, kind, const, sym):
        self.id = id
        self.name = name
        self.base = base
        self.size = size
        self.kind = kind
        self.const = const
        self.sym = sym

    def __repr__(self):
        return 'Obj(%s)' % self.name


class State:
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.objs = {}
        self.dead = frozenset()
        self.facts = []
        self.points = []
        self.model = None
        self.modelsyms = frozenset()
        self.g = {}
        self.objcons = []  # (syms, cons)
        self.trace = ()
        self.events = ()
        self.depth = 0

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.dead = self.dead
        s.facts = list(self.facts)
        s.points = list(self.points)
        s.model = self.model
        s.modelsyms = self.modelsyms
        s.g = dict(self.g)
        s.objcons = list(self.objcons)
        s.trace = self.trace
        s.events = self.events
        s.depth = self.depth
        return s


class Ob:
    __slots__ = ('name', 'kind', 'loc', 'status', 'model', 'detail', 'st', 'goal')

    def __init__(self, name, kind, loc, status, model=None, detail='', st=None, goal=None):
        self.name = name
        self.kind = kind
        self.loc = loc
        self.status = status
        self.model = model
        self.detail = detail
        self.st = st
        self.goal = goal


class Loopspec:
    """inv(ctx) -> [(name, Bool)], modifies(ctx): havocs memory in ctx.st; dec(ctx) -> BV"""

    def __init__(self, inv, modifies=None, dec=None):
        self.inv = inv
        self.modifies = modifies
        self.dec = dec


class _IntT:
    def __init__(self, w):
        self.k, self.w = 'int', w


class Ctx:
    def __init__(self, ex, st, env, fn):
        self.ex = ex
        self.st = st
        self.env = env
        self.fn = fn

    def var(self, name):
        """value of the loop variable that came from source variable `name`"""
        for k in self.env['phis']:
            if k[1:] == name or (k[1:].startswith(name + '.') and k[1 + len(name) + 1:].replace('.', '').isdigit()):
                return self.env[k]
        k = '%' + name
        if k in self.env:
            return self.env[k]
        raise Undecided('loop variable %s not found in %s' % (name, self.fn.name))

    def phis(self):
        return {k: self.env[k] for k in self.env['phis']}


FN_BASE = 0x7f0000000000
CBASE = 0x100000000000
INLINE = object()


def eval_fp(f):
    """python float of an FP numeral"""
    b = simp(z3.fpToIEEEBV(f))
    import struct
    if b.size() == 64:
        return struct.unpack('<d', b.as_long().to_bytes(8, 'little'))[0]
    return struct.unpack('<f', b.as_long().to_bytes(4, 'little'))[0]


def portfolio(cs, budget, stats):
    """z3 first (short), then cvc5 (bit-vectors as integers) racing z3 tactics.
    budget in ms.  -> ('sat', z3 model) | ('unsat', None) | ('unknown', None)"""
    s = z3.Solver()
    s.set('timeout', min(budget, 400))
    s.add(cs)
    r = z3.unknown
    try:
        r = s.check()
    except z3.Z3Exception:
        pass
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        stats['z3'] = stats.get('z3', 0) + 1
        return 'unsat', None
    if budget <= 400:
        return 'unknown', None
    txt = s.to_smt2()
    procs = []
    for opt in (['--solve-bv-as-int=sum'], []):
        p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=%d' % budget] + opt + ['-'], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            p.stdin.write(txt)
            p.stdin.close()
        except OSError:
            pass
        procs.append(p)

    sat_hint = False

    def poll():
        nonlocal sat_hint
        for p in procs:
            if p.poll() is not None and not getattr(p, 'seen', False):
                p.seen = True
                o = p.stdout.read().strip().split('\n')[0]
                if o == 'unsat':
                    return True
                if o == 'sat':
                    sat_hint = True
        return False
    try:
        t0 = time.time()
        mk = [lambda: z3.Then('simplify', 'solve-eqs', 'fpa2bv', 'smt').solver(), z3.SimpleSolver,
              lambda: z3.Tactic('qfbv').solver(), z3.Solver]
        k = 0
        sl = 300
        while (time.time() - t0) * 1000 < budget:
            if poll():
                stats['cvc5'] = stats.get('cvc5', 0) + 1
                return 'unsat', None
            s = mk[k % len(mk)]()
            k += 1
            s.set('timeout', int(sl))
            sl *= 1.5
            s.add(cs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                stats['z3'] = stats.get('z3', 0) + 1
                return 'unsat', None
        if poll():
            stats['cvc5'] = stats.get('cvc5', 0) + 1
            return 'unsat', None
        return 'unknown', None
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()


class Ex:
    def __init__(self, mod, contracts=None, unroll=40, timeout=20000, opts=None):
        self.mod = mod
        self.PW = mod.ptrbits
        self.PB = self.PW // 8
        self.contracts = dict(contracts or {})
        self.models = {}
        self.loopspecs = {}
        self.unroll = unroll
        self.timeout = timeout
        self.opts = dict(overflow=False, maxpaths=20000, maxdepth=40, deadline=None)
        self.opts.update(opts or {})
        self.obs = []
        self.nobj = 0
        self.nsym = 0
        self.stats = dict(queries=0, solver_s=0.0, unknown=0, paths=0, quick=0)
        self.incomplete = []
        self.inlined = set()
        self.replaced = set()
        self.trusted = set()
        self.fnaddr = {}
        self.cbase = False
        self.addrfn = {}
        self.symcache = {}
        self.basecache = {}
        self.defs = {}
        self.convs = {}
        self.fbdef = {}
        self.keep = []
        self.stopfail = 12
        self.cur = '?'
        self.curline = None
        self.covered = set()
        for i, n in enumerate(mod.funcs):
            a = (FN_BASE if self.PW == 64 else 0x7f000000) + 16 * i
            self.fnaddr[n] = a
            self.addrfn[a] = n

    # ------------------------------------------------------------ symbols
    def fresh(self, name, bits):
        self.nsym += 1
        return z3.BitVec('%s!%d' % (name, self.nsym), bits)

    def freshb(self, name):
        self.nsym += 1
        return z3.Bool('%s!%d' % (name, self.nsym))

    def bv(self, v, bits=None):
        if isinstance(v, int):
            return BVV(v, bits or self.PW)
        return v

    def syms_in(self, e):
        """frozenset of object-base and definition symbol names occurring in e"""
        c = self.symcache
        k = e.get_id()
        r = c.get(k)
        if r is not None:
            return r[1]
        st = [e]
        while st:
            x = st[-1]
            xi = x.get_id()
            if xi in c:
                st.pop()
                continue
            ch = x.children()
            if not ch:
                s = frozenset()
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if nm.startswith('base$') or nm.startswith('def$'):
                        s = frozenset([nm])
                c[xi] = (x, s)
                st.pop()
                continue
            todo = [y for y in ch if y.get_id() not in c]
            if todo:
                st.extend(todo)
                continue
            s = frozenset()
            for y in ch:
                t = c[y.get_id()][1]
                if t and not t <= s:
                    s = s | t
            c[xi] = (x, s)
            st.pop()
        return c[k][1]

    def bases_in(self, e):
        s = self.syms_in(e)
        if not s:
            return s
        r = self.basecache.get(s)
        if r is None:
            r = self.basecache[s] = frozenset(n for n in s if n.startswith('base$'))
        return r

    def define(self, sym, con, heavy):
        """a definitional constraint, added to every query that mentions the symbol (heavy: only when a first query fails)"""
        self.defs[sym.decl().name()] = (con, heavy)

    # ------------------------------------------------------------ solver
    def solve(self, st, extra, timeout=None, light=False):
        """returns ('sat', model) | ('unsat', None) | ('unknown', None)"""
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Undecided('deadline')
        cs, syms, nheavy = self.gather(st, extra, False)
        self.ask = extra
        r = self.solve1(cs, syms, timeout)
        if nheavy and r[0] != 'unsat' and not light:
            cs, syms, _ = self.gather(st, extra, True)
            r = self.solve1(cs, syms, timeout)
        return r

    def callers(self):
        import sys
        f, out = sys._getframe(1), []
        while f and len(out) < 9:
            out.append('%s:%d' % (f.f_code.co_name, f.f_lineno))
            f = f.f_back
        return ' '.join(out[2:])

    def gather(self, st, extra, heavy):
        syms = frozenset()
        cs = list(st.pc) + list(extra)
        for c in cs:
            syms |= self.syms_in(c)
        done = set()
        nheavy = 0
        work = [n for n in syms if n[0] == 'd']
        while work:
            n = work.pop()
            if n in done:
                continue
            done.add(n)
            con, hv = self.defs[n]
            if hv and not heavy:
                nheavy += 1
                continue
            cs.append(con)
            for k in self.syms_in(con):
                if k not in syms:
                    syms |= {k}
                    if k[0] == 'd':
                        work.append(k)
        for sy, c in st.objcons:
            if sy <= syms:
                cs.append(c)
        return cs, syms, nheavy

    def solve1(self, cs, syms, timeout):
        extra = cs[-1:]
        t = time.time()
        budget = timeout or self.timeout
        r, m = portfolio(cs, budget, self.stats)
        self.stats['queries'] += 1
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if dt > 3 and self.opts.get('verbose'):
            print('slow query %.1fs %s' % (dt, r), self.cur, self.curline, [str(x)[:300] for x in self.ask], self.callers())
        if r == 'sat':
            return 'sat', (m, syms)
        if r == 'unsat':
            return 'unsat', None
        self.stats['unknown'] += 1
        return 'unknown', None

    def model_says(self, st, c):
        """True if the cached path model satisfies c (definitely)"""
        if st.model is None:
            return False
        if not self.syms_in(c) <= st.modelsyms:
            return False
        try:
            v = st.model.eval(c, model_completion=True)
        except z3.Z3Exception:
            return False
        return z3.is_true(v)

    def feasible(self, st, c):
        if z3.is_true(c):
            if st.model is not None:
                return True
        if z3.is_false(c):
            return False
        if self.model_says(st, c):
            self.stats['quick'] += 1
            return True
        r, m = self.solve(st, [c], light=True)
        if r == 'unsat':
            return False
        if r == 'sat':
            st.g['_lastmodel'] = (c, m)
            if st.model is None and z3.is_true(c):
                st.model, st.modelsyms = m
        return True

    def must(self, st, c, timeout=None):
        """pc implies c"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = simp(z3.Not(c))
        if self.model_says(st, n):
            return False
        r, m = self.solve(st, [n], timeout or 5000, light=True)
        return r == 'unsat'

    def assume(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(st, x)
            return
        st.pc.append(c)
        if st.model is not None:
            if not self.model_says(st, c):
                st.model = None
                lm = st.g.get('_lastmodel')
                if lm is not None and lm[0].get_id() == c.get_id():
                    st.model, st.modelsyms = lm[1]
        else:
            lm = st.g.get('_lastmodel')
            if lm is not None and lm[0].get_id() == c.get_id():
                st.model, st.modelsyms = lm[1]
        st.g.pop('_lastmodel', None)

    def prove(self, st, goal, name, kind='assert', assume=True, loc=None):
        goal = simp(goal) if not isinstance(goal, bool) else bconst(goal)
        loc = loc or '%s:%s' % (self.cur, self.curline)
        if z3.is_true(goal):
            self.obs.append(Ob(name, kind, loc, 'proved'))
            return True
        n = simp(z3.Not(goal))
        r, m = self.solve(st, [n])
        if r == 'unsat':
            self.obs.append(Ob(name, kind, loc, 'proved'))
            return True
        if r == 'sat':
            self.obs.append(Ob(name, kind, loc, 'failed', m[0], st=st.copy(), goal=goal))
        else:
            self.obs.append(Ob(name, kind, loc, 'unknown', st=st.copy(), goal=goal))
        if sum(1 for o in self.obs if o.status == 'failed') >= self.stopfail:
            raise Undecided('too many failures')
        if assume:
            if z3.is_false(goal) or not self.feasible(st, goal):
                raise PathEnd()
            self.assume(st, goal)
        return False

    # ------------------------------------------------------------ facts (ghost-instantiated universals)
    def fact(self, st, fn):
        """assume forall i. fn(i); instantiated at the ghost points"""
        st.facts.append(fn)
        for p in st.points:
            self.assume(st, fn(p))
        for i in range(self.opts.get('factrange', 0)):
            self.assume(st, fn(self.bv(i)))

    def point(self, st, p):
        p = self.bv(p)
        st.points.append(p)
        for f in st.facts:
            self.assume(st, f(p))

    # ------------------------------------------------------------ objects
    def newobj(self, st, name, size, kind='heap', const=False, content=None, align=1, base=None):
        self.nobj += 1
        oid = self.nobj
        PW = self.PW
        size = self.bv(size)
        sym = 'base$%s$%d' % (name, oid)
        al = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[align]
        if base is None and self.cbase:
            # bounded search: objects live 16 MB apart at fixed addresses
            base = BVV(CBASE + (oid << 24) + 0x400000, PW)
            sym = None
            if isval(size):
                if size.as_long() > 1 << 23:
                    raise PathEnd()
            else:
                self.assume(st, z3.ULE(size, BVV(1 << 23, PW)))
        elif base is None:
            x = z3.BitVec(sym, PW)
            parts = [x]
            aligned = z3.Extract(al - 1, 0, x) == 0 if al else z3.BoolVal(True)
            base = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            top = BVV(0x7e0000000000 if PW == 64 else 0x7e000000, PW)
            end = base + size
            st.objcons.append((frozenset([sym]), z3.And(aligned, z3.UGE(base, BVV(0x10000, PW)), z3.ULE(size, top),
                                                        z3.ULE(base, top), z3.ULE(end, top))))
            for o in st.objs.values():
                if o.id in st.dead or o.sym is None:
                    continue
                # live objects are disjoint, also for zero sizes (distinct addresses)
                st.objcons.append((frozenset([sym, o.sym]),
                                   z3.Or(z3.ULT(end, o.base), z3.ULT(o.base + o.size, base))))
        else:
            sym = None
        o = Obj(oid, name, base, size, kind, const, sym)
        st.objs[oid] = o
        if content is None:
            content = self.ufnode('%s$%d' % (name, oid))
        elif content == 'zero':
            content = Node('zero')
        st.mem[oid] = content
        return o

    def ufnode(self, name):
        return Node('uf', val=z3.Function('mem$' + name, z3.BitVecSort(self.PW), z3.BitVecSort(8)))

    def globobj(self, st, name):
        k = ('glob', name)
        if k in st.g:
            return st.objs[st.g[k]]
        t, init, const = self.mod.globals[name]
        size = self.mod.sizeof(t)
        o = self.newobj(st, name, size, kind='global', const=const, content=Node('zero'), align=16)
        st.g[k] = o.id
        if init is None:
            st.mem[o.id] = self.ufnode('ext$' + name)
        else:
            st.mem[o.id] = self.initnode(st, t, init, size)
        return o

    def initnode(self, st, t, init, size):
        data = bytearray(size)
        rel = []
        self.initval(st, t, init, 0, data, rel)
        node = Node('bytes', val=bytes(data))
        for off, n, e in rel:
            node = Node('w', node, off, n, e)
        return node

    def initval(self, st, t, v, off, data, rel):
        t0 = self.mod.res(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            return
        if k == 'int':
            n = self.mod.sizeof(t)
            data[off:off + n] = (v[2] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif k == 'fp':
            data[off:off + 8] = v[1].to_bytes(8, 'little')
        elif k == 'bytes':
            data[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            if t0.k == 'arr':
                es = self.mod.sizeof(t0.el)
                for i, (et, ev) in enumerate(v[1]):
                    self.initval(st, et, ev, off + i * es, data, rel)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    fo, _ = self.mod.fieldoff(t0, i)
                    self.initval(st, et, ev, off + fo, data, rel)
        else:
            rel.append((off, self.mod.sizeof(t), self.const(st, t, v)))

    # ------------------------------------------------------------ reading
    def diff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        d = simp(self.bv(a) - self.bv(b))
        if isval(d):
            v = d.as_long()
            if v >= 1 << (self.PW - 1):
                v -= 1 << self.PW
            return v
        return d

    def addoff(self, a, j):
        if isinstance(a, int):
            return a + j
        return simp(a + BVV(j, self.PW))

    def bytesread(self, st, node, off, n):
        bs = [self.rd(st, node, self.addoff(off, j), 1) for j in range(n)]
        return simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def rd(self, st, node, off, n):
        """little-endian value of n bytes at off"""
        PW = self.PW
        while True:
            k = node.k
            if k == 'uf':
                f = node.val
                o = self.bv(off)
                bs = [f(simp(o + BVV(j, PW))) for j in range(n)]
                return z3.Concat(*reversed(bs)) if n > 1 else bs[0]
            if k == 'zero':
                return BVV(0, 8 * n)
            if k == 'bytes':
                d = node.val
                if isinstance(off, int):
                    return BVV(int.from_bytes(d[off:off + n].ljust(n, b'\0'), 'little'), 8 * n)
                return self.table(st, d, off, n)
            if k == 'w':
                d = self.diff(off, node.off)
                wn = node.n
                if isinstance(d, int):
                    if d >= 0 and d + n <= wn:
                        if n == wn:
                            return node.val
                        return simp(z3.Extract(8 * (d + n) - 1, 8 * d, node.val))
                    if d + n <= 0 or d >= wn:
                        node = node.prev
                        continue
                    return self.bytesread(st, node, off, n)
                disj = z3.And(z3.UGE(d, BVV(wn, PW)), z3.ULE(d, BVV(-n, PW)))
                if n == wn:
                    if self.must(st, d == 0):
                        return node.val
                if self.must(st, disj):
                    node = node.prev
                    continue
                if n == 1:
                    sh = z3.Extract(8 * wn - 1, 0, z3.ZeroExt(max(0, 8 * wn - PW), d) if 8 * wn > PW else d) * BVV(8, 8 * wn)
                    byte = z3.Extract(7, 0, z3.LShR(node.val, sh)) if wn > 1 else node.val
                    return simp(z3.If(z3.ULT(d, BVV(wn, PW)), byte, self.rd(st, node.prev, off, n)))
                if n == wn and self.must(st, z3.Or(d == 0, disj)):
                    return simp(z3.If(d == 0, node.val, self.rd(st, node.prev, off, n)))
                return self.bytesread(st, node, off, n)
            if k in ('cp', 'fill', 'hv'):
                d = self.diff(off, node.off)
                m = node.n
                if isinstance(d, int) and isinstance(m, int):
                    if d >= 0 and d + n <= m:
                        return self.inside(st, node, d, off, n)
                    if d + n <= 0 or d >= m:
                        node = node.prev
                        continue
                    return self.bytesread(st, node, off, n)
                dd = self.bv(d)
                mm = self.bv(m)
                ins = z3.And(z3.ULE(BVV(n, PW), mm), z3.ULE(dd, mm - BVV(n, PW)))
                disj = z3.Or(mm == 0, z3.And(z3.UGE(dd, mm), z3.ULE(dd, BVV(-n, PW))))
                if self.must(st, ins):
                    return self.inside(st, node, d, off, n)
                if self.must(st, disj):
                    node = node.prev
                    continue
                if n == 1 or self.must(st, z3.Or(ins, disj)):
                    return simp(z3.If(ins, self.inside(st, node, d, off, n), self.rd(st, node.prev, off, n)))
                return self.bytesread(st, node, off, n)
            if k == 'ite':
                if self.must(st, node.val):
                    node = node.prev
                    continue
                if self.must(st, z3.Not(node.val)):
                    node = node.src
                    continue
                return simp(z3.If(node.val, self.rd(st, node.prev, off, n), self.rd(st, node.src, off, n)))
            raise Undecided('node ' + k)

    def inside(self, st, node, d, off, n):
        if node.k == 'cp':
            so = node.soff
            if isinstance(d, int) and isinstance(so, int):
                return self.rd(st, node.src, so + d, n)
            return self.rd(st, node.src, toint(simp(self.bv(so) + self.bv(d))), n)
        if node.k == 'fill':
            return simp(z3.Concat(*([node.val] * n))) if n > 1 else node.val
        f = node.val
        o = self.bv(off)
        bs = [f(simp(o + BVV(j, self.PW))) for j in range(n)]
        return z3.Concat(*reversed(bs)) if n > 1 else bs[0]

    def table(self, st, d, off, n):
        cnt = len(d) // n
        if cnt == 0:
            return self.fresh('tab', 8 * n)
        if cnt > 4096:
            raise Undecided('table too large')
        vals = [int.from_bytes(d[i * n:i * n + n], 'little') for i in range(cnt)]
        if n > 1 and not self.must(st, z3.URem(self.bv(off), BVV(n, self.PW)) == 0):
            return self.bytesread(st, Node('bytes', val=d), off, n)
        # ranges of equal values
        e = BVV(vals[-1], 8 * n)
        i = cnt - 1
        ranges = []
        j = 0
        while j < cnt:
            k = j
            while k + 1 < cnt and vals[k + 1] == vals[j]:
                k += 1
            ranges.append((j, k, vals[j]))
            j = k + 1
        # group by value
        byv = {}
        for a, b, v in ranges:
            byv.setdefault(v, []).append((a, b))
        o = self.bv(off)
        e = None
        for v, rs in sorted(byv.items(), key=lambda x: -len(x[1])):
            if e is None:
                e = BVV(v, 8 * n)
                continue
            c = z3.Or([z3.And(z3.UGE(o, BVV(a * n, self.PW)), z3.ULE(o, BVV(b * n + n - 1, self.PW))) for a, b in rs])
            e = z3.If(c, BVV(v, 8 * n), e)
        return simp(e)

    # ------------------------------------------------------------ pointers
    def resolve(self, st, p, what='access'):
        """-> (obj, off).  May raise Fork / PathEnd; emits memory-safety obligations."""
        p = simp(p)
        r = self.resolve0(st, p)
        if r:
            return r
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = p.children()
            if self.must(st, c):
                return self.resolve(st, a, what)
            if self.must(st, z3.Not(c)):
                return self.resolve(st, b, what)
            raise Fork([c, z3.Not(c)])
        # ite buried under an addition
        c = self.find_ite(p)
        if c is not None and not self.must(st, c) and not self.must(st, z3.Not(c)):
            raise Fork([c, z3.Not(c)])
        cand = []
        bs = self.bases_in(p)
        objs = sorted(st.objs.values(), key=lambda o: (0 if o.sym in bs else 1, o.id))
        for o in objs:
            if o.id in st.dead:
                continue
            off = simp(p - o.base)
            inr = z3.ULT(off, o.size)
            if self.must(st, inr):
                return o, toint(off)
            if self.feasible_strict(st, inr):
                cand.append((o, inr))
        if len(cand) == 0:
            self.prove(st, False, 'pointer does not point into any live object (%s)' % what, 'memory')
            raise PathEnd()
        conds = [c for _, c in cand]
        conds.append(z3.Not(z3.Or(conds)))
        if len(cand) == 1:
            # in range of one object, or invalid
            self.prove(st, cand[0][1], 'pointer valid (%s)' % what, 'memory')
            o = cand[0][0]
            return o, toint(simp(p - o.base))
        raise Fork(conds)

    def feasible_strict(self, st, c):
        if self.model_says(st, c):
            return True
        r, m = self.solve(st, [c], 5000)
        return r != 'unsat'

    def find_ite(self, p, depth=0):
        if depth > 4 or not z3.is_app(p):
            return None
        k = p.decl().kind()
        if k == z3.Z3_OP_ITE:
            return p.arg(0)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
            for x in p.children():
                r = self.find_ite(x, depth + 1)
                if r is not None:
                    return r
        return None

    def resolve0(self, st, p):
        terms = p.children() if (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_BADD) else [p]
        if self.cbase:
            for t in terms:
                if isval(t) and CBASE <= t.as_long() < FN_BASE:
                    o = st.objs.get((t.as_long() - CBASE) >> 24)
                    if o is not None and isval(o.base) and o.base.as_long() == CBASE + (o.id << 24) + 0x400000:
                        return o, toint(simp(p - o.base))
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_CONCAT and isval(p.arg(0)):
                # base plus an offset that only touches low zero bits of the base
                lo = p.size() - p.arg(0).size()
                if lo < 24:
                    o = st.objs.get(((p.arg(0).as_long() << lo) - CBASE) >> 24)
                    if o is not None and isval(o.base):
                        return o, toint(simp(p - o.base))
            return None
        bs = self.bases_in(p)
        if not bs:
            return None
        for t in terms:
            tb = self.bases_in(t)
            if len(tb) != 1:
                continue
            for o in st.objs.values():
                if o.sym in tb and t.eq(simp(o.base)):
                    off = simp(p - o.base)
                    if self.bases_in(off):
                        continue
                    return o, toint(off)
        return None

    def access(self, st, p, n, what):
        o, off = self.resolve(st, p, what)
        if o.id in st.dead:
            self.prove(st, False, 'use after free of %s (%s)' % (o.name, what), 'memory')
            raise PathEnd()
        if isinstance(off, int) and isval(o.size):
            ok = 0 <= off and off + n <= o.size.as_long()
            self.prove(st, ok, '%s in bounds of %s' % (what, o.name), 'memory')
        else:
            of = self.bv(off)
            nn = self.bv(n)
            self.prove(st, z3.And(z3.ULE(nn, o.size), z3.ULE(of, o.size - nn)),
                       '%s in bounds of %s' % (what, o.name), 'memory')
        return o, off

    def load(self, st, p, n):
        o, off = self.access(st, p, n, 'read of %d bytes' % n)
        return self.rd(st, st.mem[o.id], off, n)

    def store(self, st, p, n, val):
        o, off = self.access(st, p, n, 'write of %d bytes' % n)
        if o.const:
            self.prove(st, False, 'write to constant ' + o.name, 'memory')
            raise PathEnd()
        st.mem[o.id] = Node('w', st.mem[o.id], off, n, simp(val))

    # spec-level access (no obligations)
    def peek(self, st, p, n):
        o, off = self.resolve_spec(st, p)
        return self.rd(st, st.mem[o.id], off, n)

    def resolve_spec(self, st, p):
        p = simp(p)
        r = self.resolve0(st, p)
        if r:
            return r
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = p.children()
            if self.must(st, c):
                return self.resolve_spec(st, a)
            if self.must(st, z3.Not(c)):
                return self.resolve_spec(st, b)
        for o in st.objs.values():
            if o.id in st.dead:
                continue
            off = simp(p - o.base)
            if self.must(st, z3.ULE(off, o.size)):
                return o, toint(off)
        raise Undecided('spec pointer unresolved: %s' % str(p)[:200])

    def poke(self, st, o, off, n, val):
        st.mem[o.id] = Node('w', st.mem[o.id], off, n, self.bv(val, 8 * n))

    def memcopy(self, st, d, s, n, move):
        n = self.bv(n)
        n = simp(n)
        if isval(n) and n.as_long() == 0:
            return
        if not isval(n) and not self.must(st, n != 0):
            if self.must(st, n == 0):
                return
            raise Fork([n == 0, n != 0])
        so, soff = self.access(st, s, toint(n), 'memcpy source')
        do, doff = self.access(st, d, toint(n), 'memcpy destination')
        if do.const:
            self.prove(st, False, 'write to constant ' + do.name, 'memory')
            raise PathEnd()
        if not move and so.id == do.id:
            a = self.bv(soff)
            b = self.bv(doff)
            self.prove(st, z3.Or(a == b, z3.ULE(a + n, b), z3.ULE(b + n, a)), 'memcpy regions do not overlap', 'memory')
        st.mem[do.id] = Node('cp', st.mem[do.id], doff, toint(n), None, st.mem[so.id], soff)

    def memfill(self, st, d, byte, n):
        n = simp(self.bv(n))
        if isval(n) and n.as_long() == 0:
            return
        if not isval(n) and not self.must(st, n != 0):
            if self.must(st, n == 0):
                return
            raise Fork([n == 0, n != 0])
        do, doff = self.access(st, d, toint(n), 'memset')
        st.mem[do.id] = Node('fill', st.mem[do.id], doff, toint(n), simp(byte))

    def havoc(self, st, o, off=0, n=None):
        f = self.ufnode('hv%d' % self.nsym)
        self.nsym += 1
        if n is None:
            st.mem[o.id] = f
        else:
            st.mem[o.id] = Node('hv', st.mem[o.id], off, n, f.val)

    # ------------------------------------------------------------ constants / operands
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if v[1] == 1:
                return bconst(v[2] & 1 == 1)
            return BVV(v[2], v[1])
        if k == 'null':
            return BVV(0, self.PW)
        if k == 'glob':
            nm = v[1]
            if nm in self.fnaddr:
                return BVV(self.fnaddr[nm], self.PW)
            return self.globobj(st, nm).base
        if k == 'fp':
            if ty.k == 'float':
                d = z3.fpBVToFP(BVV(v[1], 64), z3.Float64())
                return FPV(simp(z3.fpFPToFP(z3.RNE(), d, z3.Float32())))
            return FPV(None, BVV(v[1], 64))
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            t = self.mod.res(ty)
            if t.k == 'struct':
                return [self.const(st, e, ('zero',)) for e in t.el]
            if t.k == 'int':
                return BVV(0, t.w)
            if t.k == 'ptr':
                return BVV(0, self.PW)
            raise Undecided('zero const')
        if k == 'agg':
            return [self.const(st, t, x) for t, x in v[1]]
        if k == 'cgep':
            base = self.const(st, None, v[2])
            return self.gep(st, {}, v[1], base, v[3])
        if k == 'ccast':
            x = self.const(st, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4], st)
        if k == 'cbin':
            x = self.const(st, v[2], v[3])
            y = self.const(st, v[2], v[4])
            return self.binop(st, v[1], v[2], x, y, set())
        raise Undecided('const ' + k)

    def undef(self, ty):
        t = self.mod.res(ty)
        if t.k == 'int':
            return self.freshb('undef') if t.w == 1 else self.fresh('undef', t.w)
        if t.k == 'ptr':
            return self.fresh('undef', self.PW)
        if t.k == 'double':
            return FPV(None, self.fresh('undef', 64))
        if t.k == 'float':
            return FPV(z3.FP('undef!%d' % self.nsym, z3.Float32()))
        if t.k == 'struct':
            return [self.undef(e) for e in t.el]
        if t.k == 'arr':
            return [self.undef(t.el) for _ in range(t.n)]
        raise Undecided('undef ' + t.k)

    def op(self, st, env, ty, v):
        if v[0] == 'loc':
            return env[v[1]]
        return self.const(st, ty, v)

    def gep(self, st, env, t, base, idx):
        off = BVV(0, self.PW)
        cur = t
        for i, (it, iv) in enumerate(idx):
            x = self.op(st, env, it, iv)
            if i == 0:
                off = off + self.sx(x) * BVV(self.mod.sizeof(cur), self.PW)
            else:
                r = self.mod.res(cur)
                if r.k == 'struct':
                    fo, cur = self.mod.fieldoff(r, simp(x).as_long())
                    off = off + BVV(fo, self.PW)
                else:
                    cur = r.el
                    off = off + self.sx(x) * BVV(self.mod.sizeof(cur), self.PW)
        return simp(base + off)

    def sx(self, x):
        if x.size() < self.PW:
            return z3.SignExt(self.PW - x.size(), x)
        if x.size() > self.PW:
            return z3.Extract(self.PW - 1, 0, x)
        return x

    def fbits(self, st, v):
        """bit pattern of an FPV (NaN payload arbitrary)"""
        if v.bits is None:
            n = 64 if v.sort == z3.Float64() else 32
            k = ('fbits', v.f.get_id())
            if k in self.convs:
                b = self.convs[k][1]
            else:
                b = self.fresh('def$fbits', n)
                self.define(b, z3.fpBVToFP(b, v.sort) == v.f, self.fp_source(v.f) is not None)
                self.convs[k] = (v.f, b)
                self.fbdef[b.get_id()] = (b, v.f)
            v.bits = b
        return v.bits

    def tobits(self, st, ty, v):
        if isinstance(v, FPV):
            return self.fbits(st, v)
        if z3.is_bool(v):
            return z3.If(v, BVV(1, 8), BVV(0, 8))
        if ty.k == 'int' and ty.w % 8:
            return z3.ZeroExt(8 - ty.w % 8, v)
        return v

    def frombits(self, ty, b):
        t = self.mod.res(ty)
        if t.k == 'double':
            d = self.fbdef.get(b.get_id())
            return FPV(d[1] if d else None, b)
        if t.k == 'float':
            return FPV(None, b, z3.Float32())
        if t.k == 'int' and t.w == 1:
            return simp(z3.Extract(0, 0, b) == 1)
        if t.k == 'int' and t.w % 8:
            return simp(z3.Extract(t.w - 1, 0, b))
        return b

    def loadty(self, st, ty, p):
        t = self.mod.res(ty)
        if t.k in ('struct', 'arr'):
            if t.k == 'struct':
                return [self.loadty(st, e, simp(p + BVV(self.mod.fieldoff(t, i)[0], self.PW))) for i, e in enumerate(t.el)]
            es = self.mod.sizeof(t.el)
            return [self.loadty(st, t.el, simp(p + BVV(i * es, self.PW))) for i in range(t.n)]
        n = self.mod.sizeof(t)
        if t.k == 'int' and t.w % 8 == 0:
            n = t.w // 8
        return self.frombits(t, self.load(st, p, n))

    def storety(self, st, ty, v, p):
        t = self.mod.res(ty)
        if t.k in ('struct', 'arr'):
            for i, e in enumerate(v):
                if t.k == 'struct':
                    fo, et = self.mod.fieldoff(t, i)
                else:
                    et = t.el
                    fo = i * self.mod.sizeof(et)
                self.storety(st, et, e, simp(p + BVV(fo, self.PW)))
            return
        b = self.tobits(st, t, v)
        self.store(st, p, b.size() // 8, b)

    # ------------------------------------------------------------ ops
    def binop(self, st, op, ty, x, y, fl):
        if ty.k in ('double', 'float'):
            rm = z3.RNE()
            if op == 'fadd':
                return FPV(z3.fpAdd(rm, x.f, y.f))
            if op == 'fsub':
                return FPV(z3.fpSub(rm, x.f, y.f))
            if op == 'fmul':
                return FPV(z3.fpMul(rm, x.f, y.f))
            if op == 'fdiv':
                return FPV(z3.fpDiv(rm, x.f, y.f))
            raise Undecided(op)
        if z3.is_bool(x):
            if op == 'and':
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            if op == 'xor':
                return simp(z3.Xor(x, y))
            raise Undecided('i1 ' + op)
        w = x.size()
        if op in ('add', 'sub', 'mul') and 'nsw' in fl and self.opts['overflow']:
            if op == 'add':
                g = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                g = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                g = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.prove(st, g, 'no signed overflow in ' + op, 'overflow')
        if op == 'add':
            return simp(x + y)
        if op == 'sub':
            return simp(x - y)
        if op == 'mul':
            return simp(x * y)
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            r = {'shl': x << y, 'lshr': z3.LShR(x, y), 'ashr': x >> y}[op]
            if isval(y):
                if y.as_long() >= w:
                    return self.fresh('shift', w)
                return simp(r)
            inr = simp(z3.ULT(y, BVV(w, w)))
            if z3.is_true(inr):
                return simp(r)
            return simp(z3.If(inr, r, self.fresh('shift', w)))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.prove(st, y != 0, 'division by zero', 'arith')
            if op[0] == 's':
                mn = BVV(1 << (w - 1), w)
                ov = z3.And(x == mn, y == BVV(-1, w))
                self.prove(st, z3.Not(ov), 'signed division overflow', 'arith')
            r = {'udiv': z3.UDiv, 'sdiv': lambda a, b: a / b, 'urem': z3.URem, 'srem': z3.SRem}[op](x, y)
            return simp(r)
        raise Undecided(op)

    def cast(self, op, ty, x, t2, st):
        if op == 'trunc':
            if t2.w == 1:
                return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(t2.w - 1, 0, x))
        if op in ('zext', 'sext'):
            if z3.is_bool(x):
                return simp(z3.If(x, BVV(1 if op == 'zext' else -1, t2.w), BVV(0, t2.w)))
            f = z3.ZeroExt if op == 'zext' else z3.SignExt
            return simp(f(t2.w - x.size(), x))
        if op in ('ptrtoint', 'inttoptr'):
            w = t2.w if t2.k == 'int' else self.PW
            if x.size() == w:
                return x
            if x.size() > w:
                return simp(z3.Extract(w - 1, 0, x))
            return simp(z3.ZeroExt(w - x.size(), x))
        if op == 'bitcast':
            if isinstance(x, FPV) and t2.k == 'int':
                return self.fbits(st, x)
            if t2.k in ('double', 'float') and not isinstance(x, FPV):
                d = self.fbdef.get(x.get_id())
                return FPV(d[1] if d else None, x, z3.Float64() if t2.k == 'double' else z3.Float32())
            return x
        if op in ('sitofp', 'uitofp'):
            so = z3.Float64() if t2.k == 'double' else z3.Float32()
            if z3.is_bool(x):
                x = z3.If(x, BVV(1, 8), BVV(0, 8))
                op = 'uitofp'
            if op == 'sitofp':
                return FPV(simp(z3.fpSignedToFP(z3.RNE(), x, so)))
            return FPV(simp(z3.fpUnsignedToFP(z3.RNE(), x, so)))
        if op in ('fptosi', 'fptoui'):
            w = t2.w
            f = x.f
            so = x.sort
            if op == 'fptosi':
                r = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w))
                lo = z3.fpSignedToFP(z3.RTZ(), BVV(1 << (w - 1), w), so)
                # value truncated must be in [-2^(w-1), 2^(w-1))
                t = z3.fpRoundToIntegral(z3.RTZ(), f)
                inr = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGEQ(t, lo), z3.fpLT(t, z3.fpNeg(lo)))
            else:
                r = z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w))
                hi = z3.FPVal(2.0 ** w, so)
                t = z3.fpRoundToIntegral(z3.RTZ(), f)
                inr = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpGT(f, z3.FPVal(-1.0, so)), z3.fpLT(t, hi))
            inr = simp(inr)
            return self.fptoint(op, f, w, r, inr, st)
        if op == 'fpext':
            return FPV(simp(z3.fpFPToFP(z3.RNE(), x.f, z3.Float64())))
        if op == 'fptrunc':
            return FPV(simp(z3.fpFPToFP(z3.RNE(), x.f, z3.Float32())))
        raise Undecided(op)

    def fptoint(self, op, f, w, r, inr, st):
        d = self.push_ite(f)
        if d is not None:
            c, a, b = d
            ty = _IntT(w)
            return simp(z3.If(c, self.cast(op, None, FPV(a), ty, st), self.cast(op, None, FPV(b), ty, st)))
        neg, g = False, f
        while z3.is_app(g) and g.decl().kind() == z3.Z3_OP_FPA_NEG:
            neg, g = not neg, g.arg(0)
        x = self.int_source(g)
        if x is not None:
            x, signed = x
            n = x.size()
            xx = (z3.SignExt if signed else z3.ZeroExt)(max(w, n) + 1 - n, x)
            exact = bconst(True)
            if n > 53:
                lim = BVV(1 << 53, xx.size())
                exact = z3.And(xx <= lim, xx >= -lim)
            v = -xx if neg else xx
            q = simp(z3.Extract(w - 1, 0, v))
            if op == 'fptosi':
                fits = z3.SignExt(v.size() - w, q) == v
            else:
                fits = z3.ZeroExt(v.size() - w, q) == v
            ok = simp(z3.And(exact, fits))
            if z3.is_true(ok):
                return q
            if st is not None and self.must(st, ok):
                return q
            k = (op, w, f.get_id())
            if k not in self.convs:
                d = self.fresh('def$fpint', w)
                self.define(d, z3.Implies(inr, d == r), True)
                self.convs[k] = (f, d)
            return simp(z3.If(ok, q, self.convs[k][1]))
        e = simp(r)
        if isval(e) and z3.is_true(inr):
            return e
        k = (op, w, f.get_id())
        if k in self.convs:
            v = self.convs[k][1]
        else:
            # named; the definition is kept aside.  Out of range: undefined behaviour, an arbitrary value
            v = self.fresh('def$fpint', w)
            self.define(v, z3.Implies(inr, v == r), True)
            self.convs[k] = (f, v)
        src = self.arith_int(f)
        if src is not None and st is not None and (k not in st.g.get('_fplem', ())):
            # growth computations such as (size_t) (n * 1.5): keep the bounds that can be proved
            x = z3.ZeroExt(w - src.size(), src) if src.size() < w else z3.Extract(w - 1, 0, src)
            for lem in (z3.UGE(v, x), z3.ULE(v, x + x + 8)):
                cs, sy, _ = self.gather(st, [z3.Not(lem)], False)
                if self.solve1([z3.Implies(inr, v == r)] + cs, sy, None)[0] == 'unsat':
                    st.pc.append(lem)
            st.g['_fplem'] = st.g.get('_fplem', ()) + (k,)
        return v

    def push_ite(self, f):
        """(c, a, b) if f is If(c, a, b), possibly under negations"""
        n = 0
        while z3.is_app(f) and f.decl().kind() == z3.Z3_OP_FPA_NEG:
            f = f.arg(0)
            n += 1
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = f.children()
            for _ in range(n):
                a, b = z3.fpNeg(a), z3.fpNeg(b)
            return c, a, b
        return None

    def reduce(self, st, e, n=24):
        """e with if-then-else conditions decided by the path replaced"""
        tried = set()
        for _ in range(n):
            c = self.some_ite(e, tried)
            if c is None:
                return e
            tried.add(c.get_id())
            self.keep.append(c)
            if self.must(st, c):
                e = z3.substitute(e, (c, z3.BoolVal(True)))
            elif self.must(st, z3.Not(c)):
                e = z3.substitute(e, (c, z3.BoolVal(False)))
            else:
                continue
            e = self.drop_ite(e)
        return e

    def drop_ite(self, e):
        cache = {}

        def go(x):
            k = x.get_id()
            if k in cache:
                return cache[k][1]
            if not z3.is_app(x) or not x.children():
                r = x
            elif x.decl().kind() == z3.Z3_OP_ITE and z3.is_true(x.arg(0)):
                r = go(x.arg(1))
            elif x.decl().kind() == z3.Z3_OP_ITE and z3.is_false(x.arg(0)):
                r = go(x.arg(2))
            else:
                ch = [go(y) for y in x.children()]
                r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else z3.substitute(x, *[(b, a) for a, b in zip(ch, x.children())])
            if z3.is_bv(r):
                r = simp(r)
            self.keep.append(x)
            cache[k] = (x, r)
            return r
        return go(e)

    def some_ite(self, e, tried):
        seen = set()
        work = [e]
        while work:
            x = work.pop()
            k = x.get_id()
            if k in seen or not z3.is_app(x):
                continue
            seen.add(k)
            if x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).get_id() not in tried:
                return x.arg(0)
            work.extend(x.children())
        return None

    def int_source(self, f):
        """(x, signed) if f is to_fp(x)"""
        if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED):
            ch = f.children()
            if len(ch) == 2 and z3.is_bv(ch[1]):
                return ch[1], f.decl().kind() == z3.Z3_OP_FPA_TO_FP
        return None

    def arith_int(self, f):
        """the integer x if f is a product or quotient over to_fp(x), else None"""
        if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV):
            for c in f.children():
                x = self.int_source(c)
                if x is not None:
                    return x[0]
        return None

    def fp_source(self, f):
        """f involves FP arithmetic or an integer conversion"""
        if not z3.is_app(f):
            return None
        k = f.decl().kind()
        if k in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
            return f
        if k in (z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS):
            return self.fp_source(f.arg(0))
        if self.int_source(f) is not None and not isval(f.arg(1)):
            return f
        return None

    def icmp(self, pred, x, y):
        if z3.is_bool(x):
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(x != y)
            x = z3.If(x, BVV(1, 1), BVV(0, 1))
            y = z3.If(y, BVV(1, 1), BVV(0, 1))
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]
        return simp(f())

    def fcmp(self, pred, x, y, st=None):
        if pred in ('ord', 'uno'):
            ns = []
            for v in (x, y):
                if self.int_source(v.f) is None:
                    ns.append(v.is_nan())
            if len(ns) < 2:
                r = simp(z3.Or(ns))
                return r if pred == 'uno' else simp(z3.Not(r))
        if pred not in ('true', 'false'):
            r = self.fcmp_int(pred, x.f, y.f)
            if r is not None:
                return r
        r = self.fcmp0(pred, x, y)
        if z3.is_true(r) or z3.is_false(r):
            return r
        if self.fp_source(x.f) is not None or self.fp_source(y.f) is not None:
            # comparison of FP arithmetic: name it, keep the definition aside
            k = ('fcmp', r.get_id())
            if k not in self.convs:
                b = self.freshb('def$fpcmp')
                self.define(b, b == r, True)
                self.convs[k] = (r, b)
            return self.convs[k][1]
        return r

    def fcmp_int(self, pred, a, b):
        """comparison of two exact integers carried in doubles"""
        def val(f):
            neg = False
            while z3.is_app(f) and f.decl().kind() == z3.Z3_OP_FPA_NEG:
                neg, f = not neg, f.arg(0)
            x = self.int_source(f)
            if x is not None and x[0].size() <= 53:
                v = (z3.SignExt if x[1] else z3.ZeroExt)(64 - x[0].size(), x[0])
                return -v if neg else v
            if z3.is_fp_value(f) and not f.isNaN() and not f.isInf():
                try:
                    q = eval_fp(f)
                except ValueError:
                    return None
                if q == int(q) and abs(q) < 2 ** 53:
                    return BVV(-int(q) if neg else int(q), 64)
            return None
        x = val(a)
        if x is None:
            return None
        y = val(b)
        if y is None or (isval(x) and isval(y)):
            return None
        if pred in ('ord', 'uno'):
            return bconst(pred == 'ord')
        return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                     'lt': lambda: x < y, 'le': lambda: x <= y}[pred[1:]]())

    def fcmp0(self, pred, x, y):
        if pred in ('uno', 'ord') and x is y:
            r = x.is_nan()
            return r if pred == 'uno' else simp(z3.Not(r))
        a, b = x.f, y.f
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'true':
            return bconst(True)
        if pred == 'false':
            return bconst(False)
        if pred == 'uno':
            return simp(nan)
        if pred == 'ord':
            return simp(z3.Not(nan))
        core = {'eq': z3.fpEQ(a, b), 'ne': z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b))), 'gt': z3.fpGT(a, b),
                'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b)}[pred[1:]]
        if pred[0] == 'o':
            return simp(core)
        return simp(z3.Or(nan, core))

    # ------------------------------------------------------------ execution
    def call(self, st, name, args):
        """execute / apply contract; -> [(st, ret)]"""
        if name in self.contracts:
            def app(s):
                r = self.contracts[name](self, s, args)
                return [(s, INLINE)] if r is None else r
            r = self.forking(st, app)
            self.replaced.add(name)
            out = []
            for s, v in r:
                if v is INLINE:  # the contract does not cover this call: use the body
                    self.inlined.add(name)
                    out += self.run(self.mod.func(name), args, s)
                else:
                    out.append((s, v))
            return out
        if name in self.models:
            self.trusted.add(name)
            return self.forking(st, lambda s: self.models[name](self, s, args))
        f = self.mod.func(name)
        if f is None:
            raise Undecided('no model for external function ' + name)
        if st.depth > self.opts['maxdepth']:
            raise Undecided('recursion depth in ' + name)
        self.inlined.add(name)
        return self.run(f, args, st)

    def forking(self, st, fn):
        """run fn(state) -> [(st,ret)], restarting on Fork"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            s0 = s.copy()
            try:
                out.extend(fn(s))
            except Fork as e:
                for c in e.conds:
                    if self.feasible(s0, simp(c)):
                        s2 = s0.copy()
                        self.assume(s2, c)
                        work.append(s2)
            except PathEnd:
                pass
        return out

    def run(self, f, args, st):
        """inline execution of function f"""
        env = {}
        st.depth += 1
        for (t, nm, bv), a in zip(f.params, args):
            env[nm] = a
        env['varargs'] = list(args[len(f.params):])
        env['allocas'] = []
        entry = f.order[0]
        out = []
        prevcur = (self.cur, self.curline)
        work = [(entry, None, -1, env, st, {})]
        while work:
            bn, prev, idx, env, st, lc = work.pop()
            try:
                self.step(f, bn, prev, idx, env, st, lc, work, out)
            except PathEnd:
                self.stats['paths'] += 1
            if len(out) > self.opts['maxpaths']:
                raise Undecided('too many paths in ' + f.name)
        for s, r in out:
            s.depth -= 1
        self.cur, self.curline = prevcur
        return out

    def step(self, f, bn, prev, idx, env, st, lc, work, out):
        while True:
            blk = f.blocks[bn]
            self.covered.add((f.name, bn))
            if idx < 0:
                idx = 0
                # loop bookkeeping
                L = f.loops.get(bn)
                # phis evaluated simultaneously
                newv = [(ph.res, self.op(st, env, ph.ty, ph.a[prev])) for ph in blk.phis]
                if newv:
                    env = dict(env)
                    for k, v in newv:
                        env[k] = v
                if L is not None:
                    sp = self.loopspecs.get((f.name, L.idx))
                    inside = prev in L.body
                    if inside and isinstance(lc.get(bn), walk.Rec):
                        self.cur, self.curline = f.name, blk.term.line
                        walk.back(self, lc[bn], f, bn, env, st)
                        return
                    if not inside and sp is None and 'walks' in st.g:
                        w = walk.find(self, st, env, blk)
                        if w is not None:
                            walk.enter(self, w, f, L, bn, prev, env, st, lc, work)
                            return
                    if sp is not None:
                        env['phis'] = [ph.res for ph in blk.phis]
                        if not inside:
                            env.pop('_loopold', None)
                            env.pop('_entry', None)
                        ctx = Ctx(self, st, env, f)
                        self.cur, self.curline = f.name, blk.term.line
                        if inside and lc.get(bn) is not None:
                            rec = lc[bn]
                            env['_loopold'] = rec
                            if getattr(sp, 'step', None):
                                sp.step(ctx, rec)
                                self.stats['paths'] += 1
                                return
                            for nm, c in sp.inv(ctx):
                                self.prove(st, c, 'loop invariant preserved: ' + nm, 'invariant')
                            if sp.dec:
                                d = sp.dec(ctx)
                                self.prove(st, z3.And(z3.ULT(d, rec['dec'])), 'loop variant decreases', 'termination')
                            for oid, nd in st.mem.items():
                                if oid in rec['mem'] and rec['mem'][oid] is not nd and oid not in rec['mod']:
                                    self.prove(st, False, 'loop frame: %s not in modifies' % st.objs[oid].name, 'frame')
                            self.stats['paths'] += 1
                            return
                        for nm, c in sp.inv(ctx):
                            self.prove(st, c, 'loop invariant on entry: ' + nm, 'invariant')
                        entry = dict(env)
                        env = dict(env)
                        for ph in blk.phis:
                            env[ph.res] = self.undef_named(ph.ty, ph.res)
                        env['_entry'] = entry
                        ctx = Ctx(self, st, env, f)
                        before = dict(st.mem)
                        if sp.modifies:
                            sp.modifies(ctx)
                        mod = {o for o in st.mem if before.get(o) is not st.mem[o]}
                        rec = dict(mem=dict(st.mem), mod=mod, env=env)
                        lc = dict(lc)
                        lc[bn] = rec
                        env['_loopold'] = rec
                        for nm, c in sp.inv(ctx):
                            self.assume(st, c)
                        if sp.dec:
                            rec['dec'] = sp.dec(ctx)
                        if not self.feasible(st, bconst(True)):
                            return
                    else:
                        n = lc.get(bn, 0) + 1 if inside else 1
                        lc = dict(lc)
                        lc[bn] = n
                        if not inside:
                            for h in list(lc):
                                if h != bn and h in L.body:
                                    del lc[h]
                        if n > self.unroll_for(f.name, L.idx):
                            self.incomplete.append('%s: loop %d exceeds unroll bound %d' % (f.name, L.idx, n - 1))
                            self.stats['paths'] += 1
                            return
            ins = blk.ins
            self.cur = f.name
            while idx < len(ins):
                I = ins[idx]
                if I.line is not None:
                    self.curline = I.line
                self.cur = f.name
                if I.op == 'call':
                    s0 = st.copy()
                    try:
                        rs = self.docall(f, I, env, st)
                    except Fork as e:
                        self.dofork(e, s0, bn, prev, idx, env, lc, work)
                        return
                    if rs is None:
                        idx += 1
                        continue
                    if len(rs) == 1:
                        st, r = rs[0]
                        if I.res:
                            env = dict(env)
                            env[I.res] = r
                        idx += 1
                        continue
                    for s, r in rs:
                        e2 = dict(env)
                        if I.res:
                            e2[I.res] = r
                        work.append((bn, prev, idx + 1, e2, s, lc))
                    return
                try:
                    r = self.exec(f, I, env, st)
                except Fork as e:
                    self.dofork(e, st, bn, prev, idx, env, lc, work)
                    return
                if I.res:
                    env = dict(env)
                    env[I.res] = r
                idx += 1
            T = blk.term
            if T.line is not None:
                self.curline = T.line
            if T.op == 'ret':
                r = None
                if T.a[0] is not None:
                    r = self.op(st, env, T.ty, T.a[0])
                for oid in env['allocas']:
                    st.dead = st.dead | {oid}
                out.append((st, r))
                return
            if T.op == 'unreachable':
                self.stats['paths'] += 1
                return
            if T.op == 'br':
                if len(T.a) == 1:
                    prev, bn, idx = bn, T.a[0], -1
                    continue
                c = self.op(st, env, None, T.a[0])
                c = simp(c)
                if z3.is_true(c):
                    prev, bn, idx = bn, T.a[1], -1
                    continue
                if z3.is_false(c):
                    prev, bn, idx = bn, T.a[2], -1
                    continue
                nc = simp(z3.Not(c))
                ft = self.feasible(st, c)
                lm = st.g.pop('_lastmodel', None)
                if not ft:
                    # pc implies not c
                    prev, bn, idx = bn, T.a[2], -1
                    continue
                ff = self.feasible(st, nc)
                lm2 = st.g.pop('_lastmodel', None)
                if not ff:
                    if st.model is None and lm:
                        st.model, st.modelsyms = lm[1]
                    prev, bn, idx = bn, T.a[1], -1
                    continue
                s2 = st.copy()
                if lm2:
                    s2.g['_lastmodel'] = lm2
                self.assume(s2, nc)
                work.append((T.a[2], bn, -1, env, s2, lc))
                if lm:
                    st.g['_lastmodel'] = lm
                self.assume(st, c)
                prev, bn, idx = bn, T.a[1], -1
                continue
            if T.op == 'switch':
                v = simp(self.op(st, env, T.ty, T.a[0]))
                if isval(v):
                    tgt = T.a[1]
                    for cv, b in T.a[2]:
                        if (cv & ((1 << v.size()) - 1)) == v.as_long():
                            tgt = b
                    prev, bn, idx = bn, tgt, -1
                    continue
                groups = {}
                for cv, b in T.a[2]:
                    groups.setdefault(b, []).append(v == BVV(cv, v.size()))
                allc = [c for cs in groups.values() for c in cs]
                opts = [(b, simp(z3.Or(cs)) if len(cs) > 1 else simp(cs[0])) for b, cs in groups.items() if b != T.a[1]]
                dcs = groups.get(T.a[1], [])
                opts.append((T.a[1], simp(z3.Or([z3.Not(z3.Or(allc))] + dcs))))
                for b, c in opts:
                    if self.feasible(st, c):
                        lm = st.g.pop('_lastmodel', None)
                        s2 = st.copy()
                        if lm:
                            s2.g['_lastmodel'] = lm
                        self.assume(s2, c)
                        work.append((b, bn, -1, env, s2, lc))
                return
            raise Undecided('term ' + T.op)

    def unroll_for(self, fname, idx):
        u = self.opts.get('unrolls', {})
        return u.get((fname, idx), u.get(fname, self.unroll))

    def undef_named(self, ty, nm):
        t = self.mod.res(ty)
        nm = nm[1:]
        if t.k == 'int':
            return self.freshb(nm) if t.w == 1 else self.fresh(nm, t.w)
        if t.k == 'ptr':
            return self.fresh(nm, self.PW)
        return self.undef(ty)

    def dofork(self, e, st, bn, prev, idx, env, lc, work):
        for c in e.conds:
            c = simp(c)
            if self.feasible(st, c):
                s2 = st.copy()
                self.assume(s2, c)
                work.append((bn, prev, idx, env, s2, lc))

    def exec(self, f, I, env, st):
        op = I.op
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.binop(st, op, I.ty, self.op(st, env, I.ty, I.a[0]), self.op(st, env, I.ty, I.a[1]), I.a[2])
        if op == 'icmp':
            return self.icmp(I.a[0], self.op(st, env, I.ty, I.a[1]), self.op(st, env, I.ty, I.a[2]))
        if op == 'fcmp':
            return self.fcmp(I.a[0], self.op(st, env, I.ty, I.a[1]), self.op(st, env, I.ty, I.a[2]), st)
        if op == 'load':
            return self.loadty(st, I.ty, self.op(st, env, None, I.a[0]))
        if op == 'store':
            self.storety(st, I.ty, self.op(st, env, I.ty, I.a[0]), self.op(st, env, None, I.a[1]))
            return None
        if op == 'getelementptr':
            return self.gep(st, env, I.ty, self.op(st, env, None, I.a[0]), I.a[1])
        if op == 'alloca':
            n = self.mod.sizeof(I.ty)
            if I.a[0] is not None:
                c = self.op(st, env, I.a[0][0], I.a[0][1])
                c = simp(self.sx(c) * BVV(n, self.PW))
                o = self.newobj(st, 'alloca', c, 'stack', align=16)
            else:
                o = self.newobj(st, (I.res or '%a')[1:], n, 'stack', align=16)
            env['allocas'] = env['allocas'] + [o.id]
            return o.base
        if op == 'select':
            c = simp(self.op(st, env, None, I.a[0]))
            x = self.op(st, env, I.ty, I.a[1])
            y = self.op(st, env, I.ty, I.a[2])
            if z3.is_true(c):
                return x
            if z3.is_false(c):
                return y
            if isinstance(x, FPV):
                if x.bits is not None and y.bits is not None:
                    return FPV(z3.If(c, x.f, y.f), simp(z3.If(c, x.bits, y.bits)), x.sort)
                return FPV(z3.If(c, x.f, y.f))
            return simp(z3.If(c, x, y))
        if op == 'fneg':
            x = self.op(st, env, I.ty, I.a[0])
            if x.bits is not None:
                n = x.bits.size()
                return FPV(z3.fpNeg(x.f), simp(x.bits ^ BVV(1 << (n - 1), n)), x.sort)
            return FPV(z3.fpNeg(x.f))
        if op == 'freeze':
            return self.op(st, env, I.ty, I.a[0])
        if op == 'extractvalue':
            v = self.op(st, env, I.ty, I.a[0])
            for i in I.a[1]:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.op(st, env, I.ty, I.a[0])
            return self.insval(v, I.a[3], self.op(st, env, I.a[1], I.a[2]))
        return self.cast(op, I.a[0], self.op(st, env, I.a[0], I.a[1]), I.ty, st)

    def insval(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], x)
        return v

    def docall(self, f, I, env, st):
        cal, args = I.a
        vals = []
        for t, v, bv in args:
            if v is None:
                vals.append(None)
            else:
                vals.append(self.op(st, env, t, v))
        if cal[0] == 'glob':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(name, vals, args, env, st, I)
        else:
            p = simp(self.op(st, env, None, cal))
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
                raise Fork([p.arg(0), z3.Not(p.arg(0))])
            if not isval(p):
                if 'indirect' in self.contracts:
                    self.replaced.add('indirect')
                    return self.contracts['indirect'](self, st, [p] + vals)
                raise Undecided('indirect call through unknown pointer')
            name = self.addrfn.get(p.as_long())
            if name is None:
                self.prove(st, False, 'call through invalid function pointer', 'memory')
                raise PathEnd()
        # byval arguments are copied
        fn = self.mod.funcs.get(name)
        for i, (t, v, bv) in enumerate(args):
            if bv is not None:
                n = self.mod.sizeof(bv)
                o = self.newobj(st, 'byval', n, 'stack', align=16)
                self.memcopy(st, o.base, vals[i], n, True)
                vals[i] = o.base
        st.g['_callargs'] = [t for t, v, bv in args]
        st.g['_rty'] = I.ty
        return self.call(st, name, vals)

    def intrinsic(self, name, v, args, env, st, I):
        r = None
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcopy(st, v[0], v[1], self.szx(v[2]), name.startswith('llvm.memmove'))
        elif name.startswith('llvm.memset'):
            self.memfill(st, v[0], v[1], self.szx(v[2]))
        elif name.startswith('llvm.is.fpclass'):
            m = simp(v[1]).as_long()
            r = self.fpclass(v[0], m)
        elif name.startswith('llvm.fshl'):
            w = v[0].size()
            sh = z3.URem(v[2], BVV(w, w))
            r = simp(z3.Extract(2 * w - 1, w, z3.Concat(v[0], v[1]) << z3.ZeroExt(w, sh)))
        elif name.startswith('llvm.stacksave'):
            r = BVV(0, self.PW)
        elif name.startswith('llvm.stackrestore'):
            return None
        elif name.startswith('llvm.va_start'):
            # x86-64 va_list with both register areas used up: every argument is taken from the overflow area, an object of
            # 8-byte slots (32-bit targets: a plain cursor into that object)
            va = env['varargs']
            o = self.newobj(st, 'varargs', max(1, 8 * len(va)), 'stack', align=16)
            for i, a in enumerate(va):
                b = self.tobits(st, _T64, a) if isinstance(a, FPV) else a
                if z3.is_bool(b):
                    b = z3.If(b, BVV(1, 64), BVV(0, 64))
                if b.size() < 64:
                    b = z3.SignExt(64 - b.size(), b)
                self.poke(st, o, 8 * i, 8, b)
            if self.PB == 8:
                self.store(st, v[0], 4, BVV(48, 32))
                self.store(st, simp(v[0] + 4), 4, BVV(176, 32))
                self.store(st, simp(v[0] + 8), 8, o.base)
            else:
                self.store(st, v[0], self.PB, o.base)
        elif name.startswith('llvm.va_copy'):
            for i in range(0, 24 if self.PB == 8 else 4, self.PB):
                x = self.load(st, simp(v[1] + i), self.PB)
                self.store(st, simp(v[0] + i), self.PB, x)
        elif name.startswith('llvm.va_end'):
            return None
        elif name.startswith('llvm.fabs'):
            x = v[0]
            r = FPV(None, simp(x.bits & BVV((1 << 63) - 1, 64))) if x.bits is not None else FPV(z3.fpAbs(x.f))
        elif name.startswith('llvm.bswap'):
            n = v[0].size() // 8
            r = simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v[0]) for i in range(n)]))
        elif name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            k = name[5:9]
            c = {'umin': z3.ULT(v[0], v[1]), 'umax': z3.UGT(v[0], v[1]), 'smin': v[0] < v[1], 'smax': v[0] > v[1]}[k]
            r = simp(z3.If(c, v[0], v[1]))
        elif name.startswith('llvm.abs'):
            r = simp(z3.If(v[0] < 0, -v[0], v[0]))
        elif name.startswith('llvm.trap'):
            self.prove(st, False, 'trap reached', 'assert')
            raise PathEnd()
        else:
            raise Undecided(name)
        return [(st, r)]

    def szx(self, n):
        if n.size() < self.PW:
            return z3.ZeroExt(self.PW - n.size(), n)
        if n.size() > self.PW:
            return z3.Extract(self.PW - 1, 0, n)
        return n

    def fpclass(self, x, m):
        if x._f is not None and self.int_source(x._f) is not None:
            # a converted integer (at most 64 bits into a double): neither NaN nor infinite
            if x.sort == z3.Float64() and self.int_source(x._f)[0].size() <= 64:
                m &= ~0x207
                if not m:
                    return bconst(False)
        b = x.bits if (x.bits is not None and x.sort == z3.Float64()) else None
        cs = []
        if m & 3 == 3:
            cs.append(x.is_nan())
        elif m & 3:
            raise Undecided('fpclass nan kind')
        f = x.f if (b is None or m & ~(3 | 0x204)) else None
        if b is not None:
            if m & 0x200:
                cs.append(b == BVV(0x7ff << 52, 64))
            if m & 4:
                cs.append(b == BVV(0xfff << 52, 64))
            m &= ~0x204
        else:
            if m & 0x200:
                cs.append(z3.And(z3.fpIsInf(f), z3.fpIsPositive(f)))
            if m & 4:
                cs.append(z3.And(z3.fpIsInf(f), z3.fpIsNegative(f)))
        if m & ~0x207:
            pos, neg = z3.fpIsPositive(f), z3.fpIsNegative(f)
            for bit, pr, sg in ((8, z3.fpIsNormal, neg), (16, z3.fpIsSubnormal, neg), (32, z3.fpIsZero, neg),
                                (64, z3.fpIsZero, pos), (128, z3.fpIsSubnormal, pos), (256, z3.fpIsNormal, pos)):
                if m & bit:
                    cs.append(z3.And(pr(f), sg))
        return simp(z3.Or(cs)) if cs else bconst(False)


class _T:
    k = 'double'
    w = 64


_T64 = _T()

from . import walk  # noqa: E402  (walk needs the definitions above)
