"""Parser for the textual LLVM IR that clang emits from /repo's sources.

Only the subset clang produces for C at -O0 followed by `opt` sroa /
simplifycfg / loop-simplify is accepted; anything else raises IRError, which the
driver treats as "function out of reach", never as a violation."""
import re
import struct


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<flt>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<int>-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[\[\](){}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        if s[i] == ';':
            break
        g = m(s, i)
        if not g:
            raise IRError('tok: ' + s[i:i + 40])
        k = g.lastgroup
        if k != 'ws':
            out.append((k, g.group()))
        i = g.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'name', 'packed')

    def __init__(self, k, w=0, n=0, el=None, name=None, packed=False):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.name = name
        self.packed = packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{' + ','.join(map(repr, self.el)) + '}'
        if self.k == 'named':
            return self.name
        return self.k


INT = {}


def ity(w):
    if w not in INT:
        INT[w] = Ty('int', w)
    return INT[w]


PTR = Ty('ptr')
DBL = Ty('double')
FLT = Ty('float')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('metadata')


class Instr:
    __slots__ = ('op', 'res', 'a', 'line', 'ty', 'txt', 'scope')

    def __init__(self, op, res, ty=None, a=None, line=None, txt=''):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line
        self.txt = txt


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'succ', 'loop')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []
        self.loop = None


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params  # [(ty, name, byval_ty|None)]
        self.vararg = vararg
        self.blocks = {}
        self.order = []
        self.decl = True
        self.loops = None
        self.nslots = 0


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
               'dead_on_unwind', 'writable', 'nounwind', 'noreturn', 'returned', 'immarg', 'inreg', 'nofree', 'allocptr', 'allocalign', 'nest', 'swiftself', 'inalloca'}
FN_FLAGS = {'dso_local', 'internal', 'weak', 'private', 'external', 'linkonce_odr', 'weak_odr', 'hidden',
            'local_unnamed_addr', 'unnamed_addr', 'available_externally', 'extern_weak', 'common', 'fastcc', 'ccc',
            'tail', 'notail', 'musttail', 'constant', 'global', 'thread_local', 'nnan', 'ninf', 'nsz', 'arcp',
            'contract', 'afn', 'reassoc', 'fast', 'noreturn', 'linkonce', 'dllimport', 'appending'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %s got %s in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ity(int(v[1:]))
            elif v == 'ptr':
                t = PTR
            elif v == 'double':
                t = DBL
            elif v == 'float':
                t = FLT
            elif v == 'void':
                t = VOID
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'x86_fp80':
                t = Ty('x86_fp80')
            elif v == 'opaque':
                t = Ty('opaque')
            else:
                raise IRError('type ' + v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = Ty('arr', n=n, el=e)
        elif v == '{' or v == '<':
            packed = v == '<'
            if packed and self.peek()[1] != '{':
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                return Ty('vec', n=n, el=e)
            if packed:
                self.exp('{')
            els = []
            if not self.acc('}'):
                while True:
                    els.append(self.type())
                    if self.acc('}'):
                        break
                    self.exp(',')
            if packed:
                self.exp('>')
            t = Ty('struct', el=els, packed=packed)
        elif k == 'loc':
            t = Ty('named', name=v)
        else:
            raise IRError('type tok %r' % v)
        if t.k == 'ptr' and self.peek()[1] == 'addrspace':
            raise IRError('addrspace')
        return t

    def attrs(self):
        """skip parameter attributes, return byval type if any"""
        bv = None
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'memory'):
                self.i += 1
                if self.acc('('):
                    while not self.acc(')'):
                        self.i += 1
                else:
                    self.i += 1
            elif k == 'word' and v in ('byval', 'sret', 'elementtype', 'byref'):
                self.i += 1
                self.exp('(')
                t = self.type()
                self.exp(')')
                if v == 'byval':
                    bv = t
            else:
                return bv

    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'int':
            if ty.k in ('double', 'float'):
                return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            return ('int', ty.w, int(v))
        if k == 'flt':
            return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
        if k == 'hex':
            if v[2] in 'HKLMR':
                return ('undef',)
            return ('fp', int(v, 16))
        if k == 'cstr':
            return ('bytes', decode_cstr(v))
        if v == 'true':
            return ('int', 1, 1)
        if v == 'false':
            return ('int', 1, 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.acc('{'):
                close = '}'
            out = []
            if not self.acc(close):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.acc(close):
                        break
                    self.exp(',')
            if v == '<' and close == '}':
                self.exp('>')
            return ('agg', out)
        if v == 'getelementptr':
            self.acc('inbounds')
            self.exp('(')
            st = self.type()
            self.exp(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.acc(','):
                t = self.type()
                idx.append((t, self.value(t)))
            self.exp(')')
            return ('cgep', st, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext'):
            self.exp('(')
            t = self.type()
            x = self.value(t)
            self.exp('to')
            t2 = self.type()
            self.exp(')')
            return ('ccast', v, t, x, t2)
        if v in ('sub', 'add', 'mul', 'and', 'or', 'xor'):
            self.acc('nuw')
            self.acc('nsw')
            self.exp('(')
            t = self.type()
            x = self.value(t)
            self.exp(',')
            self.type()
            y = self.value(t)
            self.exp(')')
            return ('cbin', v, t, x, y)
        raise IRError('value %r' % v)


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def decode_cstr(v):
    b = bytearray()
    s = v[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                b.append(92)
                i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            b.append(ord(s[i]))
            i += 1
    return bytes(b)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.dbg = {}
        self.ptrbits = 64
        self.parse(text)

    # ------------------------------------------------------------ layout
    def sizeof(self, t):
        return self.layout(t)[0]

    def alignof(self, t):
        return self.layout(t)[1]

    def layout(self, t):
        k = t.k
        if k == 'int':
            b = (t.w + 7) // 8
            s = 1
            while s < b:
                s *= 2
            al = s
            if self.ptrbits == 32 and s == 8:
                al = 4
            return s, min(al, 16)
        if k == 'ptr':
            return self.ptrbits // 8, self.ptrbits // 8
        if k == 'double':
            return 8, (4 if self.ptrbits == 32 else 8)
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return (16, 16) if self.ptrbits == 64 else (12, 4)
        if k == 'arr':
            s, a = self.layout(t.el)
            return s * t.n, a
        if k == 'vec':
            s, a = self.layout(t.el)
            return s * t.n, s * t.n
        if k == 'named':
            return self.layout(self.types[t.name])
        if k == 'struct':
            o = 0
            ma = 1
            for e in t.el:
                s, a = self.layout(e)
                if t.packed:
                    a = 1
                o = (o + a - 1) // a * a + s
                ma = max(ma, a)
            return (o + ma - 1) // ma * ma, ma
        if k == 'opaque':
            return 0, 1
        raise IRError('layout ' + k)

    def res(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def fieldoff(self, t, i):
        t = self.res(t)
        o = 0
        for j, e in enumerate(t.el):
            s, a = self.layout(e)
            if t.packed:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += s
        raise IRError('field')

    # ------------------------------------------------------------ parse
    def parse(self, text):
        lines = text.split('\n')
        m = re.search(r'target datalayout = "([^"]*)"', text)
        if m and re.search(r'(^|-)p:32:32', m.group(1)):
            self.ptrbits = 32
        i = 0
        n = len(lines)
        bodies = []
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                bodies.append((l, i + 1, j))
                i = j + 1
                continue
            if l.startswith('declare'):
                f = self.header(l)
                self.funcs.setdefault(f.name, f)
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = P(tokenize(rest), self).type()
            elif l.startswith('@'):
                self.glob(l)
            elif l.startswith('!') and 'DILocation(' in l:
                mm = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if mm:
                    self.dbg[mm.group(1)] = int(mm.group(2))
            i += 1
        for h, a, b in bodies:
            f = self.header(h)
            f.decl = False
            f.src = (lines, a, b)
            self.funcs[f.name] = f

    def glob(self, l):
        toks = tokenize(l)
        p = P(toks, self)
        name = unq(p.next()[1])
        p.exp('=')
        isconst = False
        ext = False
        while True:
            k, v = p.peek()
            if v == 'constant':
                isconst = True
                p.i += 1
                break
            if v == 'global':
                p.i += 1
                break
            if v == 'external':
                ext = True
            if v in FN_FLAGS:
                p.i += 1
                continue
            if v in ('thread_local', 'alias'):
                raise IRError('global ' + l)
            p.i += 1
        t = p.type()
        init = None
        if p.peek()[0] != 'eof' and p.peek()[1] != ',':
            try:
                init = p.value(t)
            except IRError:
                if not ext:
                    raise
        self.globals[name] = (t, init, isconst)

    def header(self, l):
        toks = tokenize(l.rstrip(' {') if l.startswith('define') else l)
        p = P(toks, self)
        p.next()
        while True:
            k, v = p.peek()
            if k == 'word' and (v in FN_FLAGS or v in PARAM_ATTRS):
                p.i += 1
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                p.attrs()
            else:
                break
        rt = p.type()
        name = unq(p.next()[1])
        p.exp('(')
        params = []
        va = False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    va = True
                    p.exp(')')
                    break
                t = p.type()
                bv = p.attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                params.append((t, nm, bv))
                if p.acc(')'):
                    break
                p.exp(',')
        return Func(name, rt, params, va)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl:
            return None
        if f.blocks:
            return f
        lines, a, b = f.src
        # unnamed params
        cnt = 0
        for k, (t, nm, bv) in enumerate(f.params):
            if nm is None:
                f.params[k] = (t, '%%%d' % cnt, bv)
                cnt += 1
        cur = None
        i = a
        while i < b:
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            if l[0] != ' ':
                nm = l.split(':', 1)[0]
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block('%' + nm)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if l.strip().startswith(';'):
                continue
            if cur is None:
                cur = Block('%%%d' % cnt)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if ' switch ' in l and l.rstrip().endswith('['):
                parts = [l]
                while lines[i].strip()[0] != ']':
                    parts.append(lines[i])
                    i += 1
                parts.append(lines[i])
                i += 1
                l = ' '.join(parts)
            ins = self.instr(l)
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'ret', 'switch', 'unreachable'):
                cur.term = ins
                if ins.op == 'br':
                    cur.succ = ins.a[1:] if len(ins.a) == 3 else [ins.a[0]]
                elif ins.op == 'switch':
                    cur.succ = list(dict.fromkeys([ins.a[1]] + [x[1] for x in ins.a[2]]))
            else:
                cur.ins.append(ins)
        find_loops(f)
        return f

    def instr(self, l):
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            dbg = self.dbg.get(m.group(1))
        # cut metadata attachments
        k = l.find(', !')
        while k >= 0 and l[k:k + 3] == ', !':
            # string constants never contain ', !' in call operands here
            l = l[:k]
            break
        toks = tokenize(l)
        p = P(toks, self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        op = p.next()[1]
        while op in ('tail', 'notail', 'musttail'):
            op = p.next()[1]
        I = Instr(op, res, line=dbg, txt=l.strip())
        if op in BIN:
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FN_FLAGS:
                fl.add(p.next()[1])
            t = p.type()
            x = p.value(t)
            p.exp(',')
            y = p.value(t)
            I.ty = t
            I.a = (x, y, fl)
        elif op == 'fneg':
            t = p.type()
            I.ty = t
            I.a = (p.value(t),)
        elif op in CAST:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            x = p.value(t)
            p.exp('to')
            I.ty = p.type()
            I.a = (t, x)
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in FN_FLAGS:
                p.next()
            pred = p.next()[1]
            t = p.type()
            x = p.value(t)
            p.exp(',')
            y = p.value(t)
            I.ty = t
            I.a = (pred, x, y)
        elif op == 'alloca':
            t = p.type()
            cnt = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    ct = p.type()
                    cnt = (ct, p.value(ct))
            I.ty = t
            I.a = (cnt,)
        elif op == 'load':
            p.acc('volatile')
            t = p.type()
            p.exp(',')
            p.type()
            I.ty = t
            I.a = (p.value(PTR),)
        elif op == 'store':
            p.acc('volatile')
            t = p.type()
            v = p.value(t)
            p.exp(',')
            p.type()
            I.ty = t
            I.a = (v, p.value(PTR))
        elif op == 'getelementptr':
            p.acc('inbounds')
            st = p.type()
            p.exp(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.acc(','):
                t = p.type()
                idx.append((t, p.value(t)))
            I.ty = st
            I.a = (base, idx)
        elif op == 'select':
            while p.peek()[1] in FN_FLAGS:
                p.next()
            p.type()
            c = p.value(ity(1))
            p.exp(',')
            t = p.type()
            x = p.value(t)
            p.exp(',')
            p.type()
            y = p.value(t)
            I.ty = t
            I.a = (c, x, y)
        elif op == 'phi':
            while p.peek()[1] in FN_FLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(t)
                p.exp(',')
                b = p.next()[1]
                p.exp(']')
                inc.append((b, v))
                if not p.acc(','):
                    break
            I.ty = t
            I.a = dict(inc)
        elif op == 'br':
            t = p.type()
            if t.k == 'label':
                I.a = (p.next()[1],)
            else:
                c = p.value(t)
                p.exp(',')
                p.type()
                b1 = p.next()[1]
                p.exp(',')
                p.type()
                b2 = p.next()[1]
                I.a = [c, b1, b2]
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.exp(',')
            p.type()
            d = p.next()[1]
            p.exp('[')
            cs = []
            while not p.acc(']'):
                t2 = p.type()
                c = p.value(t2)
                p.exp(',')
                p.type()
                cs.append((c[2], p.next()[1]))
            I.ty = t
            I.a = (v, d, cs)
        elif op == 'ret':
            t = p.type()
            I.ty = t
            I.a = (p.value(t),) if t.k != 'void' else (None,)
        elif op == 'unreachable':
            I.a = ()
        elif op == 'call':
            while p.peek()[1] in FN_FLAGS or p.peek()[1] in PARAM_ATTRS:
                p.next()
            p.attrs()
            while p.peek()[1] in FN_FLAGS or p.peek()[1] in PARAM_ATTRS:
                p.next()
            rt = p.type()
            if p.acc('('):  # function type
                while not p.acc(')'):
                    p.i += 1
            cal = p.value(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    t = p.type()
                    bv = p.attrs()
                    if t.k == 'metadata':
                        p.i += 1
                        args.append((t, None, None))
                    else:
                        args.append((t, p.value(t), bv))
                    if p.acc(')'):
                        break
                    p.exp(',')
            I.ty = rt
            I.a = (cal, args)
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            I.ty = t
            I.a = (v, idx)
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.exp(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            I.ty = t
            I.a = (v, t2, v2, idx)
        elif op == 'freeze':
            t = p.type()
            I.ty = t
            I.a = (p.value(t),)
        else:
            raise IRError('instr ' + l)
        return I


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = {header}
        self.latches = []
        self.idx = -1


def find_loops(f):
    """natural loops from dominator back edges, in block order of headers"""
    order = f.order
    entry = order[0]
    succ = {b: f.blocks[b].succ for b in order}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    # reverse post order
    seen = set()
    post = []
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x not in L.body:
                        L.body.add(x)
                        w.extend(pred[x])
    f.loops = {}
    for k, h in enumerate([b for b in order if b in loops]):
        loops[h].idx = k
        f.loops[h] = loops[h]
    f.pred = pred
