"""C03: every script value has exactly one type; constructors and accessors are inverse."""
import z3
from lvc.spec import task
from lvc.sym import BVV, FPV, bconst, simp
from .mjs import ERR, M

TAGS = ['OBJECT', 'FOREIGN', 'UNDEFINED', 'BOOLEAN', 'NAN', 'STRING_I', 'STRING_5', 'STRING_O', 'STRING_F', 'STRING_D',
        'ARRAY', 'FUNCTION', 'FUNCTION_FFI', 'NULL']
STR = ['STRING_I', 'STRING_5', 'STRING_O', 'STRING_F', 'STRING_D']


def tag(h, v, *names):
    hi = z3.Extract(63, 48, v)
    return z3.Or([hi == BVV(h.k['MJS_TAG_' + n] >> 48, 16) for n in names])


def isnan(v):
    return z3.And(z3.Extract(62, 52, v) == BVV(0x7ff, 11), z3.Extract(51, 0, v) != 0)


def spec(h, v):
    """value type name -> condition"""
    return dict(number=z3.Or(z3.Not(isnan(v)), v == BVV(h.k['MJS_TAG_NAN'], 64)),
                boolean=tag(h, v, 'BOOLEAN'), null=v == BVV(h.k['MJS_NULL'], 64), undefined=v == BVV(h.k['MJS_UNDEFINED'], 64),
                string=tag(h, v, *STR), foreign=tag(h, v, 'FOREIGN'), object=tag(h, v, 'OBJECT'), array=tag(h, v, 'ARRAY'),
                function=tag(h, v, 'FUNCTION'), ffi=tag(h, v, 'FUNCTION_FFI'))


def wf(h, v):
    return z3.Or(list(spec(h, v).values()))


def anyval(h, name, kinds=None):
    """an arbitrary well-formed script value"""
    v = h.sym(name, 64)
    s = spec(h, v)
    h.assume(z3.Or([s[k] for k in (kinds or s)]))
    return v


def mk(h):
    return M(h).addr


PRED = dict(mjs_is_number=['number'], mjs_is_boolean=['boolean'], mjs_is_null=['null'], mjs_is_undefined=['undefined'],
            mjs_is_string=['string'], mjs_is_foreign=['foreign'], mjs_is_object=['object', 'array'], mjs_is_array=['array'],
            mjs_is_function=['function'], mjs_is_ffi_sig=['ffi'])
ENUM = dict(number='NUMBER', boolean='BOOLEAN', null='NULL', undefined='UNDEFINED', string='STRING', foreign='FOREIGN',
            object='OBJECT_GENERIC', array='OBJECT_ARRAY', function='OBJECT_FUNCTION', ffi='OBJECT_FUNCTION')
NAME = dict(number='number', boolean='boolean', null='null', undefined='undefined', string='string', foreign='foreign_ptr',
            object='object', array='array', function='function', ffi='function')


@task('C03', 'predicates', sorted(PRED))
def t_pred(h):
    v = anyval(h, 'v')
    s = spec(h, v)
    ks = list(s)
    h.ensure(h.st, z3.And([z3.Not(z3.And(s[a], s[b])) for i, a in enumerate(ks) for b in ks[i + 1:]]), 'types are disjoint')
    for f, kinds in PRED.items():
        for st, r in h.call(h.st, f, v):
            h.ensure(st, (r != 0) == z3.Or([s[k] for k in kinds]), '%s holds exactly for its type' % f)


@task('C03', 'get_type', ['mjs_get_type'])
def t_type(h):
    v = anyval(h, 'v')
    s = spec(h, v)
    for st, r in h.call(h.st, 'mjs_get_type', v):
        for k in s:
            h.ensure(st, z3.Implies(s[k], r == BVV(h.lay.enums['MJS_TYPE_' + ENUM[k]], 32)), 'type of a %s value' % k)


@task('C03', 'typeof', ['mjs_typeof', 'mjs_stringify_type'])
def t_typeof(h):
    v = anyval(h, 'v')
    s = spec(h, v)
    for st, r in h.call(h.st, 'mjs_typeof', v):
        for k in s:
            for st1 in h.case(st, s[k]):
                want = NAME[k].encode() + b'\0'
                h.ensure(st1, z3.And([h.ex.peek(st1, simp(r + i), 1) == c for i, c in enumerate(want)]), 'typeof of a %s value' % k)


@task('C03', 'number', ['mjs_mk_number', 'mjs_get_double', 'mjs_is_number'])
def t_num(h):
    b = h.sym('bits', 64)
    m = mk(h)
    for st, v in h.call(h.st, 'mjs_mk_number', m, FPV(None, b)):
        h.ensure(st, wf(h, v), 'result is a well-formed value')
        for s2, r in h.call(st, 'mjs_is_number', v):
            h.ensure(s2, r != 0, 'result is a number')
        for s2, d in h.call(st, 'mjs_get_double', m, v):
            rb = d.bits if d.bits is not None else None
            h.ensure(s2, z3.Implies(z3.Not(isnan(b)), (rb == b) if rb is not None else d.f == z3.fpBVToFP(b, z3.Float64())), 'number read back')
            h.ensure(s2, z3.Implies(isnan(b), isnan(rb) if rb is not None else z3.fpIsNaN(d.f)), 'NaN read back')


@task('C03', 'number_none', ['mjs_get_double', 'mjs_is_number'])
def t_numnone(h):
    v = anyval(h, 'v')
    for s2, d in h.call(h.st, 'mjs_get_double', mk(h), v):
        h.ensure(s2, z3.Implies(z3.Not(spec(h, v)['number']), isnan(d.bits)), 'a non-number reads as NaN')


@task('C03', 'boolean', ['mjs_mk_boolean', 'mjs_get_bool', 'mjs_is_boolean'])
def t_bool(h):
    x = h.sym('x', 32)
    m = mk(h)
    for st, v in h.call(h.st, 'mjs_mk_boolean', m, x):
        for s2, r in h.call(st, 'mjs_is_boolean', v):
            h.ensure(s2, r != 0, 'result is a boolean')
        for s2, r in h.call(st, 'mjs_get_bool', m, v):
            h.ensure(s2, r == z3.If(x != 0, BVV(1, 32), BVV(0, 32)), 'boolean read back')


@task('C03', 'bool_other', ['mjs_get_bool'])
def t_bool2(h):
    v = anyval(h, 'v')
    h.assume(z3.Not(spec(h, v)['boolean']))
    for s2, r in h.call(h.st, 'mjs_get_bool', mk(h), v):
        h.ensure(s2, r == 0, 'a non-boolean reads as false')


@task('C03', 'constants', ['mjs_mk_null', 'mjs_mk_undefined'])
def t_const(h):
    for st, v in h.call(h.st, 'mjs_mk_null'):
        h.ensure(st, spec(h, v)['null'], 'null')
    for st, v in h.call(h.st, 'mjs_mk_undefined'):
        h.ensure(st, spec(h, v)['undefined'], 'undefined')


@task('C03', 'foreign', ['mjs_mk_foreign', 'mjs_get_ptr', 'mjs_is_foreign', 'mjs_mk_foreign_func', 'mjs_pointer_to_value', 'get_ptr'],
      always=ERR, noreplay=False)
def t_foreign(h):
    p = h.sym('p', 64)
    h.assume(z3.Extract(63, 48, p) == 0)
    m = M(h)
    for f in ('mjs_mk_foreign', 'mjs_mk_foreign_func'):
        for st, v in h.call(h.st.copy() if h.mode != 'replay' else h.st, f, m.addr, p):
            for s2, r in h.call(st, 'mjs_is_foreign', v):
                h.ensure(s2, r != 0, '%s makes a foreign pointer' % f)
            for s2, r in h.call(st, 'mjs_get_ptr', m.addr, v):
                h.ensure(s2, r == p, 'the pointer is read back (%s)' % f)
                h.ensure(s2, m.error(s2) == 0, 'no error')


@task('C03', 'foreign_bad', ['mjs_mk_foreign'], always=ERR)
def t_foreign_bad(h):
    p = h.sym('p', 64)
    hi = z3.Extract(63, 48, p)
    h.assume(z3.And(hi != 0, hi != 0xffff))
    m = M(h)
    for st, v in h.call(h.st, 'mjs_mk_foreign', m.addr, p):
        h.ensure(st, m.error(st) != 0, 'a pointer that does not fit is reported as an error')
        h.ensure(st, spec(h, v)['foreign'], 'still a foreign value')


@task('C03', 'ptr_other', ['mjs_get_ptr'])
def t_ptr2(h):
    v = anyval(h, 'v')
    h.assume(z3.Not(spec(h, v)['foreign']))
    for s2, r in h.call(h.st, 'mjs_get_ptr', mk(h), v):
        h.ensure(s2, r == 0, 'a value that is no foreign pointer reads as NULL')


@task('C03', 'function', ['mjs_mk_function', 'mjs_is_function', 'mjs_get_func_addr'])
def t_func(h):
    off = h.sym('off', 64)
    h.assume(z3.Extract(63, 48, off) == 0)
    for st, v in h.call(h.st, 'mjs_mk_function', mk(h), off):
        for s2, r in h.call(st, 'mjs_is_function', v):
            h.ensure(s2, r != 0, 'result is a function')
        for s2, r in h.call(st, 'mjs_get_func_addr', v):
            h.ensure(s2, r == off, 'code offset read back')


@task('C03', 'object', ['mjs_object_to_value', 'get_object_struct', 'mjs_is_object', 'mjs_legit_pointer_to_value'])
def t_obj(h):
    o = h.structobj('o', 'mjs_object')
    for st, v in h.call(h.st, 'mjs_object_to_value', o):
        h.ensure(st, spec(h, v)['object'], 'an object value')
        for s2, r in h.call(st, 'get_object_struct', v):
            h.ensure(s2, r == o.base, 'object read back')


@task('C03', 'object_null', ['mjs_object_to_value', 'get_object_struct'])
def t_objn(h):
    for st, v in h.call(h.st, 'mjs_object_to_value', BVV(0, h.PW)):
        h.ensure(st, spec(h, v)['null'], 'no object is null')
        for s2, r in h.call(st, 'get_object_struct', v):
            h.ensure(s2, r == 0, 'null has no object')


@task('C03', 'array_value', ['get_object_struct', 'mjs_is_array'])
def t_arrv(h):
    o = h.structobj('o', 'mjs_object')
    v = simp(o.base | BVV(h.k['MJS_TAG_ARRAY'], 64))
    for s2, r in h.call(h.st, 'get_object_struct', v):
        h.ensure(s2, r == o.base, 'array storage read back')


@task('C03', 'ffi_sig', ['mjs_ffi_sig_to_value', 'mjs_get_ffi_sig_struct', 'mjs_is_ffi_sig'])
def t_ffi(h):
    o = h.structobj('o', 'mjs_ffi_sig')
    for st, v in h.call(h.st, 'mjs_ffi_sig_to_value', o):
        h.ensure(st, spec(h, v)['ffi'], 'an ffi function value')
        for s2, r in h.call(st, 'mjs_get_ffi_sig_struct', v):
            h.ensure(s2, r == o.base, 'signature read back')
    for st, v in h.call(h.st, 'mjs_ffi_sig_to_value', BVV(0, h.PW)):
        h.ensure(st, spec(h, v)['null'], 'no signature is null')


def int_in(b, lo, hi):
    d = z3.fpBVToFP(b, z3.Float64())
    return z3.And(z3.fpGEQ(d, z3.FPVal(float(lo), z3.Float64())), z3.fpLEQ(d, z3.FPVal(float(hi), z3.Float64())))


@task('C03', 'get_int', ['mjs_get_int'])
def t_int(h):
    n = h.sym('n', 33)  # -2^32 .. 2^32-1
    h.assume(n >= BVV(-(1 << 31), 33))
    b = z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), z3.SignExt(31, n), z3.Float64()))
    for st, r in h.call(h.st, 'mjs_get_int', mk(h), simp(b)):
        h.ensure(st, r == z3.Extract(31, 0, n), 'integral numbers between -2^31 and 2^32-1 convert exactly modulo 2^32')


@task('C03', 'get_int32', ['mjs_get_int32'])
def t_int32(h):
    n = h.sym('n', 32)
    b = z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), n, z3.Float64()))
    for st, r in h.call(h.st, 'mjs_get_int32', mk(h), simp(b)):
        h.ensure(st, r == n, 'every 32-bit integer converts exactly')
