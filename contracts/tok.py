"""C20: splitting a source text into tokens.

The text is a block of n non-zero bytes and a NUL, of any length.  Three relations over its positions say what lies between tokens;
they are defined by Horn clauses (so what the proof derives holds of the least relations, i.e. of the language), instantiated at the
positions the code visits:  G(i) between tokens, LC(i) inside a line comment, BC(i) inside a block comment.  Q(i) likewise is a position
inside a string literal.  NL(i) is the number of newlines before position i (mod 2^32)."""
import z3
from lvc.spec import task
from lvc.sym import BVV, Loopspec, Undecided, bconst, simp

B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
G, LC, BC, Q = [z3.Function('tok.' + n, B64, z3.BoolSort()) for n in ('G', 'LC', 'BC', 'Q')]
NL = z3.Function('tok.NL', B64, B32)
ASSUME = ['strtod and strtoul stop inside the text and consume at least one digit']


def ch(c):
    return BVV(ord(c), 8)


def isin(b, s):
    return z3.Or([b == ch(c) for c in s])


def space(b):
    return isin(b, ' \r\n\t\f\v')


def digit(b):
    return z3.And(z3.UGE(b, ch('0')), z3.ULE(b, ch('9')))


def ident(b):
    return z3.Or(isin(b, '_$'), z3.And(z3.UGE(b, ch('a')), z3.ULE(b, ch('z'))), z3.And(z3.UGE(b, ch('A')), z3.ULE(b, ch('Z'))))


class T:
    """a source text and a tokeniser at position P0 of it"""

    def __init__(self, h, bound=5):
        self.h = h
        self.bound = bound
        self.n = h.size('n', 20, bound=bound)
        self.buf = h.obj('text', simp(self.n + 1), kind='input', align=1)
        h.assume(self.b(self.n) == 0)
        if h.mode == 'proof':
            h.ex.fact(h.st, lambda i: z3.Implies(z3.ULT(i, self.n), self.b(i) != 0))
        else:
            for i in range(bound):
                h.assume(z3.Implies(z3.UGT(self.n, i), self.b(h.c(i)) != 0))
        self.p = h.structobj('pstate', 'pstate', kind='input')
        self.P0 = h.size('pos', 20)
        h.assume(z3.ULE(self.P0, self.n))
        if h.mode != 'proof':
            h.assume(self.P0 == 0)
        self.line0 = h.sym('line', 32)
        self.put(h.st, 'pos', simp(self.buf.base + self.P0))
        self.put(h.st, 'line_no', self.line0)
        self.k = h.size('k', 20)
        h.assume(z3.ULT(self.k, h.lay.size('pstate')))
        self.snap = h.snap(h.st)
        h.st.g['tok'] = self
        h.st.g['quote'] = None

    def b(self, i):
        """byte i (the text never changes)"""
        return self.h.ex.peek(self.h.st, simp(self.buf.base + self.h.ex.bv(i)), 1)

    def get(self, st, f):
        return self.h.get(st, self.p, 'pstate', f)

    def put(self, st, f, v):
        self.h.put(st, self.p, 'pstate', f, v)

    def pos(self, st):
        return simp(self.get(st, 'pos') - self.buf.base)

    def kept(self, st, fields):
        """every other byte of the tokeniser is as it was"""
        c = []
        for f in fields:
            o, n = self.h.lay.off('pstate', f)
            c.append(z3.And(z3.UGE(self.k, o), z3.ULT(self.k, o + n)))
        return z3.Or(c + [self.h.byte(st, self.p, self.k) == self.h.byte(self.snap, self.p, self.k)])

    def nl(self, i):
        """newlines before position i"""
        if self.h.mode == 'proof':
            return NL(i)
        r = BVV(0, 32)
        for j in range(self.bound):
            r = r + z3.If(z3.And(z3.UGT(i, j), self.at(self.h.c(j)) == 10), BVV(1, 32), BVV(0, 32))
        return r

    def ax(self, st, *idx):
        """the defining clauses at the given positions"""
        if self.h.mode != 'proof':
            return
        A = lambda c: self.h.assume(c, st)
        n = self.n
        for i in idx:
            i = simp(i)
            b, c = self.at(i), self.at(i + 1)
            A(z3.Implies(z3.ULT(i, n), b != 0))
            A(NL(i + 1) == NL(i) + z3.If(b == 10, BVV(1, 32), BVV(0, 32)))
            A(z3.Implies(z3.ULE(i, n), z3.And(
                z3.Implies(z3.And(G(i), space(b)), G(i + 1)),
                z3.Implies(z3.And(G(i), b == ch('/'), c == ch('/')), LC(i)),
                z3.Implies(z3.And(LC(i), b != 0, b != 10), LC(i + 1)),
                z3.Implies(z3.And(LC(i), z3.Or(b == 0, b == 10)), G(i)),
                z3.Implies(z3.And(G(i), b == ch('/'), c == ch('*')), BC(i + 2)),
                z3.Implies(z3.And(BC(i), b == 0), G(i)),
                z3.Implies(z3.And(BC(i), b == ch('*'), c == ch('/')), G(i + 2)),
                z3.Implies(z3.And(BC(i), b != 0, z3.Not(z3.And(b == ch('*'), c == ch('/')))), BC(i + 1)))))
            q = st.g.get('quote')
            if q is not None:
                esc = z3.And(b == ch('\\'), z3.Or(c == q, isin(c, 'bfnrtv\\')))
                A(z3.Implies(z3.And(z3.ULT(i, n), Q(i), b != q), z3.If(esc, Q(i + 2), Q(i + 1))))

    def at(self, i):
        """byte i, 0 outside of the text"""
        i = simp(i)
        m = self.snap.mem[self.buf.id]
        return z3.If(z3.ULE(i, self.n), self.h.ex.rd(self.snap, m, i, 1), BVV(0, 8))


def cursor(c):
    """where the loop keeps its position: None (in the tokeniser) or the loop variable"""
    ph = [k for k in c.env['phis']]
    if not ph:
        return None
    v = c.env[ph[0]]
    if len(ph) > 1 or not z3.is_bv(v) or v.size() != c.ex.PW:
        raise Undecided('the loop keeps more than its position')
    return v


def position(c):
    t = c.st.g['tok']
    v = cursor(c)
    return t.pos(c.st) if v is None else simp(v - t.buf.base)


def position0(c):
    """the position on entry of the loop"""
    e = c.env['_entry']
    t = c.st.g['tok']
    return t.pos(c.st) if cursor(c) is None else simp(e[c.env['phis'][0]] - t.buf.base)


def forget(c):
    """the position becomes arbitrary"""
    t = c.st.g['tok']
    if cursor(c) is None:
        t.put(c.st, 'pos', simp(t.buf.base + z3.ZeroExt(c.ex.PW - 21, c.ex.fresh('pos', 21))))


# ---------------------------------------------------------------- white space and comments
class Skip(Loopspec):
    def __init__(self, rel):
        Loopspec.__init__(self, self.check, self.mod, self.left)
        self.rel = rel

    def left(self, c):
        t = c.st.g['tok']
        return simp(t.n - position(c))

    def check(self, c):
        t = c.st.g['tok']
        i = position(c)
        t.ax(c.st, i, simp(i + 1))
        e = c.st.g.get(('entry', self)) if '_entry' in c.env else None
        return [('inside the text, forward', z3.And(z3.ULE(i, t.n), z3.UGE(i, t.P0 if e is None else e))), ('what lies before is skipped', self.rel(i)),
                ('line number', t.get(c.st, 'line_no') == t.line0 + NL(i) - NL(t.P0)), ('rest of the tokeniser', t.kept(c.st, ['pos', 'line_no']))]

    def mod(self, c):
        t = c.st.g['tok']
        c.st.g['entry', self] = position0(c)
        forget(c)
        t.put(c.st, 'line_no', c.ex.fresh('line', 32))


def between(t, e):
    """no white space and no comment starts at e"""
    return z3.Not(z3.Or(space(t.at(e)), z3.And(t.at(e) == ch('/'), isin(t.at(e + 1), '/*'))))


def ref_skip(t, bound):
    """reference for small texts: (end, newlines) from position 0"""
    h = t.h
    b = lambda i: t.b(h.c(i)) if i <= bound else BVV(0, 8)
    memo = {}

    def go(i, state):
        if i > bound:
            return h.c(bound), BVV(0, 32)
        if (i, state) in memo:
            return memo[i, state]
        stop = (h.c(i), BVV(0, 32))
        nl = z3.If(b(i) == 10, BVV(1, 32), BVV(0, 32))
        ite = lambda c, x, y: (z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1]))
        add = lambda x: (x[0], x[1] + nl)
        if state == 'G':
            r = ite(space(b(i)), add(go(i + 1, 'G')), ite(z3.And(b(i) == ch('/'), b(i + 1) == ch('/')), go(i + 2, 'L'), ite(z3.And(b(i) == ch('/'), b(i + 1) == ch('*')), go(i + 2, 'B'), stop)))
        elif state == 'L':
            r = ite(b(i) == 0, stop, ite(b(i) == 10, go(i, 'G'), go(i + 1, 'L')))
        else:
            r = ite(b(i) == 0, stop, ite(z3.And(b(i) == ch('*'), b(i + 1) == ch('/')), go(i + 2, 'G'), add(go(i + 1, 'B'))))
        memo[i, state] = r
        return r
    return go(0, 'G')


def t_skip(h):
    t = T(h)
    if h.mode == 'proof':
        h.assume(G(t.P0))
    for s, _ in h.call(h.st, 'skip_spaces_and_comments', t.p):
        e = t.pos(s)
        if h.mode != 'proof':
            w, nl = ref_skip(t, 5)
            h.ensure(s, e == w, 'all white space and comments are skipped, nothing else')
            h.ensure(s, t.get(s, 'line_no') == t.line0 + nl, 'the newlines passed are counted')
        else:
            t.ax(s, e)
            h.ensure(s, z3.And(z3.ULE(e, t.n), z3.UGE(e, t.P0)), 'the position stays inside the text')
            h.ensure(s, G(e), 'nothing but white space and comments is skipped')
            h.ensure(s, between(t, e), 'all white space and comments are skipped')
            h.ensure(s, t.get(s, 'line_no') == t.line0 + NL(e) - NL(t.P0), 'the newlines passed are counted')
        h.ensure(s, t.kept(s, ['pos', 'line_no']), 'nothing else changes')


SKIP = {('skip_spaces_and_comments', i): Skip(r) for i, r in enumerate((G, G, LC, BC))}
task('C20', 'skip', ['skip_spaces_and_comments'], loops=SKIP, bound='texts up to 5 bytes', bunroll=9, assumes=ASSUME)(t_skip)


# ---------------------------------------------------------------- tokens
def c_skip(ex, st, a):
    """discharged by skip"""
    t = st.g['tok']
    ex.prove(st, a[0] == t.p.base, 'the tokeniser', 'requires')
    p0 = t.pos(st)
    ex.prove(st, z3.ULE(p0, t.n), 'the position lies inside the text', 'requires')
    e = z3.ZeroExt(ex.PW - 21, ex.fresh('skipped', 21))
    line = t.get(st, 'line_no')
    t.put(st, 'pos', simp(t.buf.base + e))
    t.put(st, 'line_no', simp(line + NL(e) - NL(p0)))
    ex.assume(st, z3.And(z3.ULE(e, t.n), z3.UGE(e, p0)))
    ex.assume(st, between(t, e))
    t.ax(st, e)
    for cls in t.classes:
        ex.assume(st, cls(t, e))
    if st.g.get('quote') is not None:
        ex.assume(st, Q(e + 1))
    st.g['start'] = e
    return [(st, None)]


def identc(b):
    return z3.Or(ident(b), digit(b))


class Ident(Loopspec):
    def __init__(self):
        Loopspec.__init__(self, self.check, self.mod, lambda c: simp(c.st.g['tok'].n - position(c)))

    def check(self, c):
        t = c.st.g['tok']
        S = c.st.g['start']
        i = position(c)
        if '_entry' not in c.env:
            c.st.g['begun'] = c.st.copy()
        t.ax(c.st, i, simp(i - 1))
        return [('inside the text, forward', z3.And(z3.ULE(i, t.n), z3.UGE(i, S))), ('all of it belongs to the name', z3.Implies(z3.And(z3.UGE(t.w, S), z3.ULT(t.w, i)), identc(t.at(t.w)))),
                ('no newline', NL(i) == NL(S)), ('rest of the tokeniser', same_after(t, c.st))]

    def mod(self, c):
        t = c.st.g['tok']
        forget(c)


def same_after(t, st, fields=()):
    """everything but the position is as it was when the token was begun"""
    s0 = st.g['begun']
    c = []
    for f in ('pos',) + tuple(fields):
        o, n = t.h.lay.off('pstate', f)
        c.append(z3.And(z3.UGE(t.k, o), z3.ULT(t.k, o + n)))
    return z3.Or(c + [t.h.byte(st, t.p, t.k) == t.h.byte(s0, t.p, t.k)])


class Literal(Loopspec):
    def __init__(self):
        Loopspec.__init__(self, self.check, self.mod, lambda c: simp(c.st.g['tok'].n - position(c)))

    def check(self, c):
        t = c.st.g['tok']
        S = c.st.g['start']
        i = position(c)
        if '_entry' not in c.env:
            c.st.g['begun'] = c.st.copy()
        t.ax(c.st, i, simp(i + 1))
        return [('inside the text, forward', z3.And(z3.ULE(i, t.n), z3.UGT(i, S))), ('inside the literal', Q(i)),
                ('line number', t.get(c.st, 'line_no') == t.get(c.st.g['begun'], 'line_no') + NL(i) - NL(S)), ('rest of the tokeniser', same_after(t, c.st, ['line_no', 'tok.ptr']))]

    def mod(self, c):
        t = c.st.g['tok']
        forget(c)
        t.put(c.st, 'line_no', c.ex.fresh('line', 32))


def c_number(hexa):
    def f(ex, st, a):
        """ASSUMED: conversion stops inside the text, behind at least one digit, and does not pass a newline"""
        t = st.g['tok']
        p, endp = a[:2]
        S = st.g['start']
        ex.prove(st, p == t.buf.base + S + (2 if hexa else 0), 'conversion starts at the digits', 'requires')
        ex.prove(st, bconst(hexa) == z3.And(t.at(S) == ch('0'), t.at(S + 1) == ch('x')), '0x starts a hexadecimal number', 'requires')
        if hexa:
            ex.prove(st, a[2] == 16, 'base 16', 'requires')
        e = z3.ZeroExt(ex.PW - 21, ex.fresh('numend', 21))
        ex.assume(st, z3.And(z3.UGT(e, S + (2 if hexa else 0)), z3.ULE(e, t.n), NL(e) == NL(S)))
        t.ax(st, simp(e - 1))
        st.g['numend'] = e
        ex.store(st, endp, ex.PB, simp(t.buf.base + e))
        from lvc.sym import FPV
        return [(st, BVV(0, ex.PW) if hexa else FPV(None, BVV(0, 64)))]
    return f


def c_digits(hexa):
    def f(ex, st, a):
        """bounded mode: the digits from the start on (the texts of t_number hold no other number characters)"""
        from lvc.sym import FPV
        t = st.g['tok']
        o = simp(a[0] - t.buf.base)
        e = simp(t.h.c(t.bound))
        for i in reversed(range(t.bound)):
            e = z3.If(z3.Or(z3.ULT(t.h.c(i), o), digit(t.at(t.h.c(i)))), e, t.h.c(i))
        ex.store(st, a[1], ex.PB, simp(t.buf.base + e))
        return [(st, BVV(0, ex.PW) if hexa else FPV(None, BVV(0, 64)))]
    return f


def c_reserved(ex, st, a):
    """discharged by reserved"""
    t = st.g['tok']
    kw = ex.fresh('keyword', 32)
    ex.assume(st, z3.And(z3.ULE(kw, 31)))
    st.g['kw'] = st.g.get('kw', ()) + ((a[0], a[1], kw),)
    return [(st, kw)]


def enum(h, n):
    return BVV(h.lay.enums[n], 32)


def result(h, s, t, r, tok, ptr, ln, pos, what):
    S = s.g['start']
    t.ax(s, simp(S + 1), simp(S + 2), simp(S + 3), pos)
    h.ensure(s, r == tok, what + ': the kind of the token')
    h.ensure(s, t.get(s, 'tok.tok') == tok, what + ': the kind is kept')
    h.ensure(s, t.get(s, 'tok.ptr') == t.buf.base + ptr, what + ': where its text starts')
    h.ensure(s, t.get(s, 'tok.len') == z3.Extract(31, 0, simp(ln)), what + ': the length of its text')
    h.ensure(s, t.pos(s) == pos, what + ': scanning continues behind it')
    h.ensure(s, t.get(s, 'line_no') == t.line0 + t.nl(pos) - t.nl(t.P0), what + ': the newlines passed are counted')
    h.ensure(s, t.get(s, 'prev_tok') == t.get(t.snap, 'tok.tok'), what + ': the previous kind is kept')
    h.ensure(s, t.kept(s, ['pos', 'line_no', 'tok.ptr', 'tok.len', 'tok.tok', 'prev_tok']), what + ': nothing else changes')


def setup(h, cls, bound=4):
    t = T(h, bound)
    t.classes = [cls]
    t.w = h.size('w', 20)
    if h.mode != 'proof':
        h.st.g['start'] = h.c(0)
        h.assume(between(t, h.c(0)))
        h.assume(cls(t, h.c(0)))
    return t


def run(h, t):
    return h.call(h.st, 'pnext', t.p)


def t_end(h):
    t = setup(h, lambda t, e: t.at(e) == 0)
    for s, r in run(h, t):
        S = s.g['start']
        result(h, s, t, r, enum(h, 'TOK_EOF'), S, h.c(1), S, 'end of the text')


def t_ident(h):
    t = setup(h, lambda t, e: ident(t.at(e)), 3)
    for s, r in run(h, t):
        S = s.g['start']
        if h.mode != 'proof':
            e = h.c(t.bound)
            for i in reversed(range(t.bound)):
                e = z3.If(identc(t.at(h.c(i))), e, h.c(i))
            kw = word(h, lambda i: t.at(h.c(i)), e)
            result(h, s, t, r, enum(h, 'TOK_IDENT') + kw, S, e, e, 'name')
            continue
        e = t.pos(s)
        K = s.g.get('kw', ())
        h.ensure(s, z3.Or([z3.And(p == t.buf.base + S, n == z3.Extract(31, 0, simp(e - S)), r == enum(h, 'TOK_IDENT') + k) for p, n, k in K] or [bconst(False)]), 'name: reserved words are told from names')
        result(h, s, t, r, r, S, simp(e - S), e, 'name')
        h.ensure(s, z3.And(z3.UGT(e, S), z3.ULE(e, t.n), z3.Implies(z3.And(z3.UGE(t.w, S), z3.ULT(t.w, e)), identc(t.at(t.w)))), 'name: all of it belongs to the name')
        h.ensure(s, z3.Not(identc(t.at(e))), 'name: the name ends there')


def t_string(h):
    t = setup(h, lambda t, e: isin(t.at(e), '\'"'))
    for q in '\'"':
        t.classes = [lambda t, e, q=q: t.at(e) == ch(q)]
        st = h.st.copy()
        st.g['quote'] = ch(q)
        if h.mode != 'proof':
            h.assume(t.at(h.c(0)) == ch(q), st)
        for s, r in h.call(st, 'pnext', t.p):
            S = s.g['start']
            p = t.pos(s)
            if h.mode != 'proof':
                e = litend(h, t, ch(q))
            else:
                ln = t.get(s, 'tok.len')
                e = simp(S + 1 + z3.SignExt(32, ln))
                h.ensure(s, z3.And(z3.ULE(e, t.n), z3.UGT(e, S)), 'string: ends inside the text')
                h.ensure(s, Q(e), 'string: only the text up to the closing quote belongs to it')
                h.ensure(s, z3.Or(t.at(e) == 0, t.at(e) == ch(q)), 'string: it ends at the closing quote or at the end of the text')
                t.ax(s, e)
            result(h, s, t, r, enum(h, 'TOK_STR'), S + 1, e - S - 1, simp(z3.If(t.at(e) == 0, e, e + 1)), 'string')


def litend(h, t, q):
    """reference: index of the closing quote (or of the NUL)"""
    n = t.bound
    e = {n: h.c(n), n + 1: h.c(n)}
    for i in reversed(range(1, n)):
        b, c = t.at(h.c(i)), t.at(h.c(i + 1))
        esc = z3.And(b == ch('\\'), z3.Or(c == q, isin(c, 'bfnrtv\\')))
        e[i] = z3.If(z3.Or(b == 0, b == q), h.c(i), z3.If(esc, e[i + 2], e[i + 1]))
    return e[1]


def t_number(h):
    t = setup(h, lambda t, e: z3.And(digit(t.at(e)), z3.Implies(z3.And(t.at(e) == ch('0'), t.at(e + 1) == ch('x')), digit(t.at(e + 2)))))
    if h.mode != 'proof':
        for i in range(1, t.bound):
            h.assume(z3.Or(digit(t.at(h.c(i))), isin(t.at(h.c(i)), ' ;)'), t.at(h.c(i)) == 0, z3.And(bconst(i == 1), t.at(h.c(i)) == ch('x'), t.at(h.c(0)) == ch('0'))))
    for s, r in run(h, t):
        S = s.g['start']
        if h.mode != 'proof':
            e = h.c(t.bound)
            for i in reversed(range(1, t.bound)):
                e = z3.If(z3.Or(digit(t.at(h.c(i))), t.at(h.c(i)) == ch('x')), e, h.c(i))
        else:
            e = s.g.get('numend')
            h.ensure(s, bconst(e is not None), 'number: converted')
            if e is None:
                continue
        result(h, s, t, r, enum(h, 'TOK_NUM'), S, e - S, e, 'number')


OPS = {':': 'COLON', ';': 'SEMICOLON', ',': 'COMMA', '=': 'ASSIGN', '{': 'OPEN_CURLY', '}': 'CLOSE_CURLY', '(': 'OPEN_PAREN', ')': 'CLOSE_PAREN', '[': 'OPEN_BRACKET',
       ']': 'CLOSE_BRACKET', '*': 'MUL', '+': 'PLUS', '-': 'MINUS', '/': 'DIV', '%': 'REM', '&': 'AND', '|': 'OR', '^': 'XOR', '.': 'DOT', '?': 'QUESTION', '!': 'NOT', '~': 'TILDA',
       '<': 'LT', '>': 'GT', '<<': 'LSHIFT', '>>': 'RSHIFT', '--': 'MINUS_MINUS', '++': 'PLUS_PLUS', '+=': 'PLUS_ASSIGN', '-=': 'MINUS_ASSIGN', '*=': 'MUL_ASSIGN', '/=': 'DIV_ASSIGN',
       '&=': 'AND_ASSIGN', '|=': 'OR_ASSIGN', '%=': 'REM_ASSIGN', '^=': 'XOR_ASSIGN', '==': 'EQ', '!=': 'NE', '<=': 'LE', '>=': 'GE', '&&': 'LOGICAL_AND', '||': 'LOGICAL_OR',
       '===': 'EQ_EQ', '!==': 'NE_NE', '<<=': 'LSHIFT_ASSIGN', '>>=': 'RSHIFT_ASSIGN', '>>>': 'URSHIFT', '>>>=': 'URSHIFT_ASSIGN'}


def t_op(h, first):
    """operators and punctuation starting with `first`: the longest one"""
    t = setup(h, lambda t, e: t.at(e) == ch(first))
    mine = sorted([o for o in OPS if o[0] == first], key=len)
    for s, r in run(h, t):
        S = s.g['start']
        tok, ln = enum(h, 'TOK_INVALID'), h.c(1)
        for o in mine:                       # longer ones override
            c = z3.And([t.at(S + i) == ch(x) for i, x in enumerate(o)])
            tok, ln = z3.If(c, enum(h, 'TOK_' + OPS[o]), tok), z3.If(c, h.c(len(o)), ln)
        if first == '~':                     # no such operator: not specified
            h.assume(t.at(S + 1) != ch('='), s)
            if not h.ex.feasible(s, bconst(True)):
                continue
        result(h, s, t, r, simp(tok), S, ln, simp(S + ln), 'operator')


def t_invalid(h):
    used = ''.join({o[0] for o in OPS}) + '_$\'"'
    t = setup(h, lambda t, e: z3.And(t.at(e) != 0, z3.Not(identc(t.at(e))), z3.Not(isin(t.at(e), used)), z3.Not(space(t.at(e)))))
    for s, r in run(h, t):
        S = s.g['start']
        result(h, s, t, r, enum(h, 'TOK_INVALID'), S, h.c(1), simp(S + 1), 'any other character')


WORDS = ['break', 'case', 'catch', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'false', 'finally', 'for', 'function', 'if', 'in', 'instanceof', 'new', 'null', 'return',
         'switch', 'this', 'throw', 'true', 'try', 'typeof', 'var', 'void', 'while', 'with', 'let', 'undefined']


def word(h, at, n):
    """offset of the keyword's token from TOK_IDENT, 0 for none"""
    r = BVV(0, 32)
    for w in WORDS:
        d = h.lay.enums['TOK_KEYWORD_' + w.upper()] - h.lay.enums['TOK_IDENT']
        r = z3.If(z3.And([n == len(w)] + [at(i) == ch(c) for i, c in enumerate(w)]), BVV(d, 32), r)
    return r


def t_reserved(h, L):
    """L: the length of the name, or None for any longer one"""
    n = h.size('n', 20, bound=13)
    h.assume(n == L if L else z3.UGT(n, 10))
    h.assume(z3.ULT(n, 1 << 20))
    o = h.obj('name', simp(n + 1), kind='input', align=1)
    b = [h.byte(h.st, o, i) for i in range(L or 11)]
    for x in b:
        h.assume(identc(x))
    h.assume(ident(b[0]))
    for s, r in h.call(h.st, 'is_reserved_word_token', o, z3.Extract(31, 0, n)):
        if L is None:
            h.ensure(s, r == 0, 'no reserved word is that long')
        else:
            h.ensure(s, r == word(h, lambda i: b[i] if i < L else BVV(0, 8), n), 'exactly the reserved words are recognised')


REPL = dict(skip_spaces_and_comments=c_skip, is_reserved_word_token=c_reserved, strtod=c_number(False), strtoul=c_number(True), __isoc23_strtoul=c_number(True))
NEXT = dict(replace=REPL, breplace=dict(strtod=c_digits(False), strtoul=c_digits(True), __isoc23_strtoul=c_digits(True)), loops={('getident', 0): Ident(), ('getstr', 0): Literal()}, bound='texts up to 4 bytes', bunroll=32, assumes=ASSUME)
task('C20', 'end', ['pnext'], **NEXT)(t_end)
task('C20', 'name', ['pnext', 'getident'], **NEXT)(t_ident)
task('C20', 'string', ['pnext', 'getstr'], **NEXT)(t_string)
task('C20', 'number', ['pnext', 'getnum'], **NEXT)(t_number)
for _c in sorted({o[0] for o in OPS}):
    task('C20', 'operator_%02x' % ord(_c), ['pnext', 'longtok', 'longtok3', 'longtok4', 'ptranslate'], **NEXT)(lambda h, c=_c: t_op(h, c))
task('C20', 'other', ['pnext'], **NEXT)(t_invalid)
for _L in list(range(1, 11)) + [None]:
    task('C20', 'reserved_%s' % (_L or 'long'), ['is_reserved_word_token'], unrolls=dict(is_reserved_word_token=40), bunroll=40, bound='names up to 12 bytes', assumes=ASSUME)(lambda h, L=_L: t_reserved(h, L))
