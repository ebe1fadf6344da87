"""Harness/contract runtime: the same specification text runs symbolically (proof, bounded search) and
concretely against the compiled real code (counterexample replay)."""
import ctypes
import json
import time
import z3
from . import libc
from .ir import IRError
from .sym import BVV, FPV, Ex, Fork, Node, Ob, Obj, PathEnd, State, Undecided, bconst, isval, simp, toint

TASKS = {}


class Task:
    def __init__(self, prop, name, fn, funcs, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.funcs = funcs
        self.opts = opts


def task(prop, name, funcs, **opts):
    """register a harness.  funcs: real functions whose contract this task discharges."""
    def deco(fn):
        TASKS.setdefault(prop, []).append(Task(prop, name, fn, funcs, opts))
        return fn
    return deco


class H:
    def __init__(self, repo, ex, mode, task):
        self.repo = repo
        self.ex = ex
        self.mode = mode
        self.task = task
        self.st = State()
        self.syms = {}
        self.ufs = {}
        self.sizes = []
        self.reached = 0
        self.PW = ex.PW
        self.PB = ex.PB
        self.k = repo.k
        self.lay = repo.lay
        self.bounded = mode == 'bounded'

    # ---- inputs
    def sym(self, name, bits):
        if self.mode == 'replay':
            v = BVV(self.ex.vals.get(name, 0), bits)
        else:
            v = z3.BitVec(name, bits)
        assert name not in self.syms, name
        self.syms[name] = v
        return v

    def boolean(self, name):
        return self.sym(name, 1) == 1

    def size(self, name, maxbits=31, bound=None):
        """a non-negative size symbol (pointer-width), < 2^maxbits; `bound` limits it in bounded mode"""
        v = self.sym(name, maxbits)
        self.sizes.append(v)
        e = simp(z3.ZeroExt(self.PW - maxbits, v)) if maxbits < self.PW else v
        if bound is not None and self.bounded:
            self.ex.assume(self.st, z3.ULE(e, BVV(bound, self.PW)))
        return e

    def obj(self, name, size, kind='heap', align=16, zero=False, st=None, const=False):
        st = st or self.st
        if zero:
            c = 'zero'
        else:
            c = Node('uf', val=z3.Function('mem$' + name, z3.BitVecSort(self.PW), z3.BitVecSort(8)))
        o = self.ex.newobj(st, name, size, kind, content=c, align=align, const=const)
        if not zero:
            assert name not in self.ufs, name
            self.ufs[name] = o
        return o

    def structobj(self, name, struct, kind='heap', zero=False):
        return self.obj(name, self.lay.size(struct), kind=kind, zero=zero)

    def assume(self, c, st=None):
        self.ex.assume(st or self.st, c)

    # ---- typed access
    def off(self, struct, path):
        return self.lay.off(struct, path)

    def get(self, st, p, struct, path):
        o, n = self.lay.off(struct, path)
        base = p.base if isinstance(p, Obj) else p
        return self.ex.peek(st, simp(base + BVV(o, self.PW)), n)

    def put(self, st, o, struct, path, val):
        f, n = self.lay.off(struct, path)
        if isinstance(o, Obj):
            self.ex.poke(st, o, f, n, val)
        else:
            ob, off = self.ex.resolve_spec(st, o)
            self.ex.poke(st, ob, self.ex.addoff(off, f), n, val)

    def byte(self, st, p, i=0):
        base = p.base if isinstance(p, Obj) else p
        return self.ex.peek(st, simp(base + self.ex.bv(i)), 1)

    def snap(self, st):
        return self.ex.snapshot(st)

    def c(self, v, bits=None):
        return BVV(v, bits or self.PW)

    # ---- calls and obligations
    def call(self, st, name, *args):
        args = [a.base if isinstance(a, Obj) else a for a in args]
        args = [BVV(a, 32) if isinstance(a, int) and not isinstance(a, bool) else a for a in args]
        outs = self.ex.call(st, name, args)
        return outs

    def ensure(self, st, cond, name):
        self.reached += 1
        self.ex.prove(st, cond, name, 'ensures', loc=self.task.name)

    def case(self, st, cond):
        return self.ex.case(st, cond)


def sym_case(self, st, cond):
    cond = simp(cond)
    if z3.is_false(cond) or not self.feasible(st, cond):
        return []
    s = st.copy()
    self.assume(s, cond)
    return [s]


Ex.case = sym_case
Ex.snapshot = lambda self, st: st.copy()


# ---------------------------------------------------------------- concrete replay
class Mismatch(Exception):
    pass


class RState(State):
    def copy(self):
        s = State.copy(self)
        s.__class__ = RState
        return s


class ReplayEx(Ex):
    """the harness run concretely against the compiled real code"""

    def __init__(self, repo, lib, data):
        Ex.__init__(self, repo.mod)
        self.lib = lib
        self.vals = data['vals']
        self.bytes = data['bytes']
        self.keep = []
        self.failures = []
        self.calls = 0
        self.fail_sched = data.get('allocfail', [])
        self.rep = ctypes.c_int.in_dll(lib, 'vf_nblk')
        lib.vf_register.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        f = (ctypes.c_ubyte * 4096).in_dll(lib, 'vf_fail')
        for i, b in enumerate(self.fail_sched):
            f[i] = 1 if b else 0
        self.libc = ctypes.CDLL(None)
        self.libc.malloc.restype = ctypes.c_void_p
        self.libc.malloc.argtypes = [ctypes.c_size_t]

    def cv(self, e):
        e = simp(e)
        if not isval(e):
            raise Mismatch('non-concrete value %s' % str(e)[:100])
        return e.as_long()

    def newobj(self, st, name, size, kind='heap', const=False, content=None, align=1, base=None):
        self.nobj += 1
        n = self.cv(self.bv(size))
        if n > 1 << 26:
            raise Mismatch('object too large')
        a = self.libc.malloc(max(n, 1)) if kind != 'heap' else self.libc.malloc(n)
        data = b'\0' * n
        if content != 'zero' and name in self.bytes:
            data = bytes.fromhex(self.bytes[name]).ljust(n, b'\0')[:n]
        ctypes.memmove(a, data, n)
        if kind == 'heap':
            self.lib.vf_register(a, n)
        o = Obj(self.nobj, name, BVV(a, self.PW), BVV(n, self.PW), kind, False, None)
        st.objs[o.id] = o
        st.mem[o.id] = Node('native', val=a)
        return o

    def rd(self, st, node, off, n):
        if node.k == 'native':
            off = self.cv(self.bv(off))
            return BVV(int.from_bytes(ctypes.string_at(node.val + off, n), 'little'), 8 * n)
        return Ex.rd(self, st, node, off if isinstance(off, int) else toint(simp(off)), n)

    def poke(self, st, o, off, n, val):
        v = self.cv(self.bv(val, 8 * n))
        ctypes.memmove(self.cv(o.base) + self.cv(self.bv(off)), v.to_bytes(n, 'little'), n)

    def snapshot(self, st):
        s = st.copy()
        for oid, nd in st.mem.items():
            if nd.k == 'native' and oid not in st.dead:
                s.mem[oid] = Node('bytes', val=ctypes.string_at(nd.val, self.cv(st.objs[oid].size)))
        return s

    lenient = False

    def peek(self, st, p, n):
        # a specification may name bytes beyond an object under a false guard
        self.lenient = True
        o, off = self.resolve_spec(st, p)
        self.lenient = False
        if o is None:
            return BVV(0, 8 * n)
        if off + n > self.cv(o.size):
            return BVV(0, 8 * n)
        return self.rd(st, st.mem[o.id], off, n)

    def resolve_spec(self, st, p):
        a = self.cv(p)
        for o in list(st.objs.values())[::-1]:
            if o.id in st.dead:
                continue
            b = self.cv(o.base)
            if b <= a <= b + self.cv(o.size):
                return o, a - b
        if self.lenient:
            return None, 0
        raise Mismatch('pointer %x into no object' % a)

    def assume(self, st, c):
        if not z3.is_true(simp(c)):
            raise Mismatch('assumption does not hold: %s' % str(simp(c))[:200])

    def fact(self, st, fn):
        for i in range(40):
            self.assume(st, fn(self.bv(i)))

    def point(self, st, p):
        pass

    def feasible(self, st, c):
        return z3.is_true(simp(c))

    def must(self, st, c, timeout=None):
        return z3.is_true(simp(c))

    def case(self, st, cond):
        c = simp(cond)
        if z3.is_true(c):
            return [st]
        if z3.is_false(c):
            return []
        raise Mismatch('non-concrete case')

    def prove(self, st, goal, name, kind='assert', assume=True, loc=None):
        g = simp(goal) if not isinstance(goal, bool) else bconst(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            self.failures.append(name)
            print('REPLAY-FAIL %s' % name, flush=True)
            return False
        raise Mismatch('non-concrete goal %s' % name)

    def havoc(self, st, o, off=0, n=None):
        raise Mismatch('havoc in replay')

    def ctype(self, t):
        t = self.mod.res(t)
        if t.k == 'void':
            return None
        if t.k == 'ptr':
            return ctypes.c_void_p
        if t.k == 'double':
            return ctypes.c_double
        if t.k == 'float':
            return ctypes.c_float
        if t.k == 'int':
            return {1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[t.w]
        if t.k == 'struct':
            class S(ctypes.Structure):
                _fields_ = [('f%d' % i, self.ctype(e)) for i, e in enumerate(t.el)]
            return S
        raise Mismatch('type %r' % t)

    def call(self, st, name, args):
        f = self.mod.func(name)
        try:
            ptr = ctypes.c_void_p.in_dll(self.lib, 'vf_fn_' + name).value
        except ValueError:
            raise Mismatch('function %s not exported' % name)
        at = [self.ctype(t) for t, nm, bv in f.params]
        rt = self.ctype(f.ret)
        fn = ctypes.CFUNCTYPE(rt, *at)(ptr)
        vals = []
        for a, (t, nm, bv) in zip(args, f.params):
            if isinstance(a, FPV):
                import struct
                vals.append(struct.unpack('<d', self.cv(a.bits).to_bytes(8, 'little'))[0])
            elif z3.is_bool(a):
                vals.append(z3.is_true(simp(a)))
            else:
                vals.append(self.cv(a))
        print('REPLAY-CALL %s(%s)' % (name, ', '.join(str(v) for v in vals)), flush=True)
        r = fn(*vals)
        self.calls += 1
        self.refresh(st)
        t = self.mod.res(f.ret)
        if t.k == 'void':
            rv = None
        elif t.k == 'double':
            import struct
            rv = FPV(None, BVV(int.from_bytes(struct.pack('<d', r), 'little'), 64))
        elif t.k == 'int' and t.w == 1:
            rv = bconst(bool(r))
        elif t.k == 'struct':
            rv = [BVV(getattr(r, 'f%d' % i) or 0, self.PW if self.mod.res(e).k == 'ptr' else e.w) for i, e in enumerate(t.el)]
        else:
            rv = BVV(r or 0, self.PW if t.k == 'ptr' else t.w)
        return [(st, rv)]

    def refresh(self, st):
        class B(ctypes.Structure):
            _fields_ = [('p', ctypes.c_void_p), ('n', ctypes.c_size_t)]
        n = self.rep.value
        blks = (B * 65536).in_dll(self.lib, 'vf_blks')
        live = {blks[i].p: blks[i].n for i in range(n)}
        for o in list(st.objs.values()):
            if o.kind == 'heap' and o.id not in st.dead:
                b = self.cv(o.base)
                if b not in live or live[b] != self.cv(o.size):
                    st.dead = st.dead | {o.id}
                else:
                    del live[b]
        for p, n in live.items():
            self.nobj += 1
            o = Obj(self.nobj, 'heap', BVV(p, self.PW), BVV(n, self.PW), 'heap', False, None)
            st.objs[o.id] = o
            st.mem[o.id] = Node('native', val=p)


# ---------------------------------------------------------------- running one task
def make_ex(repo, task, mode, deadline, verbose=False):
    o = task.opts
    ex = Ex(repo.mod, unroll=o.get('bunroll', 24) if mode == 'bounded' else o.get('unroll', 24),
            timeout=o.get('timeout', 20000), opts=dict(deadline=deadline, verbose=verbose, factrange=o.get('factrange', 20) if mode == 'bounded' else 0))
    for k in ('malloc_may_fail', 'overflow', 'unrolls', 'maxpaths', 'maxdepth'):
        if k in o:
            ex.opts[k] = o[k]
    ex.cbase = mode == 'bounded' and ex.PW == 64 and not o.get('nocbase')
    ex.repo = repo
    ex.lay = repo.lay
    ex.k = repo.k
    libc.install(ex)
    ex.models.update(o.get('models', {}))
    if mode != 'bounded':
        ex.contracts.update(o.get('replace', {}))
        for k, v in o.get('loops', {}).items():
            ex.loopspecs[k] = v
    else:
        ex.contracts.update(o.get('breplace', {}))
    ex.contracts.update(o.get('always', {}))
    return ex


def dump_model(h, ob, m):
    vals = {}
    for n, s in h.syms.items():
        v = m.eval(s, model_completion=True)
        vals[n] = v.as_long() if isval(v) else 0
    by = {}
    for n, o in h.ufs.items():
        sz = m.eval(o.size, model_completion=True)
        sz = sz.as_long() if isval(sz) else 0
        f = z3.Function('mem$' + n, z3.BitVecSort(h.PW), z3.BitVecSort(8))
        b = bytearray()
        for i in range(min(sz, 4096)):
            x = m.eval(f(BVV(i, h.PW)), model_completion=True)
            b.append(x.as_long() if isval(x) else 0)
        by[n] = bytes(b).hex()
    sched = []
    if ob.st is not None:
        for e in ob.st.events:
            if e[0] == 'alloc':
                sched.append(0)
            elif e[0] == 'malloc-fail':
                sched.append(1)
    return dict(vals=vals, bytes=by, allocfail=sched)


def shrink(h, ex, ob):
    """prefer a counterexample with small sizes"""
    for lim in (8, 16, 64, 1024):
        cons = [z3.ULE(s, BVV(lim, s.size())) for s in h.sizes if s.size() > lim.bit_length()]
        try:
            r, m = ex.solve(ob.st, cons + [simp(z3.Not(ob.goal))], 4000)
        except Undecided:
            break
        if r == 'sat':
            return m[0]
    return ob.model


def run_task(repo, task, mode, deadline, verbose=False):
    t0 = time.time()
    ex = make_ex(repo, task, mode, deadline, verbose)
    h = H(repo, ex, mode, task)
    res = dict(task=task.name, prop=task.prop, mode=mode, funcs=task.funcs, error=None)
    missing = [f for f in task.funcs if repo.mod.func(f) is None]
    res['missing'] = missing
    try:
        if missing:
            raise Undecided('functions not found: ' + ', '.join(missing))
        try:
            task.fn(h)
        except PathEnd:
            pass
    except Undecided as e:
        res['error'] = 'undecided: ' + str(e)
    except (IRError, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, AssertionError, Fork,
            RecursionError) as e:
        import traceback
        res['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        if verbose:
            traceback.print_exc()
    fails = [o for o in ex.obs if o.status == 'failed']
    unk = [o for o in ex.obs if o.status == 'unknown']
    res['obligations'] = len(ex.obs)
    res['discharged'] = sum(1 for o in ex.obs if o.status == 'proved')
    res['failed'] = [dict(name=o.name, kind=o.kind, loc=o.loc) for o in fails]
    res['unknown'] = [dict(name=o.name, kind=o.kind, loc=o.loc) for o in unk]
    res['incomplete'] = sorted(set(ex.incomplete))
    res['reached'] = h.reached
    res['cex'] = []
    for o in fails[:3]:
        try:
            m = shrink(h, ex, o)
            if m is not None:
                d = dump_model(h, o, m)
                d['obligation'] = o.name
                d['loc'] = o.loc
                res['cex'].append(d)
        except Exception as e:  # a model that cannot be dumped is not replayed
            res.setdefault('notes', []).append('model dump: %s' % e)
    res['stats'] = ex.stats
    res['inlined'] = sorted(ex.inlined)
    res['replaced'] = sorted(ex.replaced)
    res['trusted'] = sorted(ex.trusted)
    res['wall'] = time.time() - t0
    return res


def replay_task(repo, task, lib, data):
    """in the replay child.  -> list of failed checks; raises Mismatch"""
    ex = ReplayEx(repo, lib, data)
    h = H(repo, ex, 'replay', task)
    h.st = RState()
    task.fn(h)
    return ex.failures, ex.calls
