"""Mechanical extraction: /repo/src -> LLVM IR (proof), shared library (replay), struct layouts, macro values."""
import hashlib
import os
import re
import subprocess
import tempfile
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DMJS_ENABLE_DEBUG', '-DCS_MMAP', '-DMJS_MODULE_LINES',
         '-DMJS_MEMORY_STATS', '-w', '-std=gnu99']
PASSES = 'function(sroa,simplifycfg,loop-simplify)'


class BuildError(Exception):
    pass


def sources():
    t = open(REPO + '/src/mjs_sources.mk').read().replace('\\\n', ' ')
    out = []
    for k in ('COMMON_SOURCES', 'MJS_SOURCES'):
        m = re.search(r'^' + k + r'\s*=\s*(.*)$', t, re.M)
        if m:
            out += m.group(1).split()
    return [s for s in out if not s.endswith('mjs_main.c')]


def unity():
    return ''.join('#include "%s"\n' % s for s in sources())


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ': ' + p.stderr[-3000:])
    return p.stdout


def inc():
    return ['-I' + REPO + '/src', '-I' + REPO + '/src/frozen', '-I' + REPO]


CONSTS = '''
#define K(x) const unsigned long long vfk_##x = (unsigned long long)(x);
K(MJS_TAG_OBJECT) K(MJS_TAG_FOREIGN) K(MJS_TAG_UNDEFINED) K(MJS_TAG_BOOLEAN) K(MJS_TAG_NAN) K(MJS_TAG_STRING_I)
K(MJS_TAG_STRING_5) K(MJS_TAG_STRING_O) K(MJS_TAG_STRING_F) K(MJS_TAG_STRING_C) K(MJS_TAG_STRING_D) K(MJS_TAG_ARRAY)
K(MJS_TAG_FUNCTION) K(MJS_TAG_FUNCTION_FFI) K(MJS_TAG_NULL) K(MJS_TAG_MASK) K(MJS_UNDEFINED) K(MJS_NULL)
'''


class Repo:
    """everything extracted from the current tree, in a scratch directory"""

    def __init__(self, m32=False, extra=()):
        self.dir = tempfile.mkdtemp(prefix='vf_')
        self.m32 = m32
        self.extra = list(extra) + (['-m32'] if m32 else [])
        self.src = os.path.join(self.dir, 'u.c')
        open(self.src, 'w').write(unity() + CONSTS)
        ll = os.path.join(self.dir, 'u.ll')
        ol = os.path.join(self.dir, 'o.ll')
        gl = os.path.join(self.dir, 'g.ll')
        base = ['clang', '-O0', '-S', '-emit-llvm'] + FLAGS + self.extra + inc()
        p2 = subprocess.Popen(base + ['-g', self.src, '-o', gl], stderr=subprocess.DEVNULL)
        run(base + ['-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only', self.src, '-o', ll])
        run(['opt', '-S', '-passes=' + PASSES, ll, '-o', ol])
        p2.wait()
        self.ll = ol
        txt = open(ol).read()
        self.sha = hashlib.sha256(re.sub(r'![0-9]+', '', txt).encode()).hexdigest()[:16]
        self.mod = ir.Module(txt)
        self.lay = Layouts(open(gl).read())
        self.k = {}
        for n, (t, init, c) in self.mod.globals.items():
            if n.startswith('vfk_'):
                self.k[n[4:]] = (init[2] if init[0] == 'int' else 0) & ((1 << 64) - 1)
        self._so = {}

    def so(self, fns, asan=True):
        """shared library of the real code for replay, exporting pointers to fns"""
        key = (tuple(sorted(fns)), asan)
        if key in self._so:
            return self._so[key]
        shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.h')
        src = os.path.join(self.dir, 'r%d.c' % len(self._so))
        out = os.path.join(self.dir, 'r%d.so' % len(self._so))
        body = '#include "%s"\n#include "%s.c"\n' % (shim, shim[:-2]) + unity()
        have = set(n for n, f in self.mod.funcs.items() if not f.decl)
        for f in fns:
            if f in have:
                body += 'void *vf_fn_%s = (void *) %s;\n' % (f, f)
        open(src, 'w').write(body)
        run(['clang', '-O0', '-g', '-shared', '-fPIC'] + (['-fsanitize=address', '-shared-libasan'] if asan else []) +
            FLAGS + self.extra + inc() + [src, '-o', out, '-lm', '-ldl'])
        self._so[key] = out
        return out

    def cleanup(self):
        subprocess.run(['rm', '-rf', self.dir])


class Layouts:
    def __init__(self, txt):
        self.n = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!(DICompositeType|DIDerivedType|DIBasicType)\((.*)\)$', txt, re.M):
            d = {}
            for a in re.finditer(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|!(\d+)|([\w|]+))', m.group(3)):
                d[a.group(1)] = a.group(2) if a.group(2) is not None else (('!', a.group(3)) if a.group(3) else a.group(4))
            d['_k'] = m.group(2)
            self.n[m.group(1)] = d
        for m in re.finditer(r'^!(\d+) = !\{((?:!\d+|null)?(?:, (?:!\d+|null))*)\}$', txt, re.M):
            self.n[m.group(1)] = [x.strip()[1:] for x in m.group(2).split(',') if x.strip().startswith('!')]
        self.byname = {}
        for k, d in self.n.items():
            if isinstance(d, dict) and d['_k'] == 'DICompositeType' and 'name' in d and 'elements' in d and \
                    d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                self.byname[d['name']] = k
        self.enums = {}
        for m in re.finditer(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', txt):
            self.enums[m.group(1)] = int(m.group(2))
        for k, d in self.n.items():
            if isinstance(d, dict) and d.get('tag') == 'DW_TAG_typedef' and 'name' in d:
                self.byname.setdefault(d['name'], k)
        self.cache = {}

    def strip(self, k):
        while True:
            d = self.n[k]
            if isinstance(d, dict) and d['_k'] == 'DIDerivedType' and d['tag'] in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                k = d['baseType'][1]
            else:
                return k

    def size(self, name):
        return int(self.n[self.strip(self.byname[name])]['size']) // 8

    def bit(self, name, field):
        """-> (byte offset, bit position, width) of a bit field"""
        k = self.strip(self.byname[name])
        for e in self.n[self.n[k]['elements'][1]]:
            m = self.n[e]
            if m.get('name') == field:
                o = int(m.get('offset', 0))
                return o // 8, o % 8, int(m['size'])
        raise BuildError('no field %s in %s' % (field, name))

    def off(self, name, path):
        """-> (byte offset, byte size)"""
        key = (name, path)
        if key in self.cache:
            return self.cache[key]
        k = self.strip(self.byname[name])
        o = 0
        sz = 0
        for part in path.split('.'):
            idx = None
            if '[' in part:
                part, idx = part[:-1].split('[')
            d = self.n[k]
            for e in self.n[d['elements'][1]]:
                m = self.n[e]
                if m.get('name') == part and m.get('tag') == 'DW_TAG_member':
                    o += int(m.get('offset', 0)) // 8
                    sz = int(m['size']) // 8
                    k = self.strip(m['baseType'][1])
                    if idx is not None:
                        a = self.n[k]
                        k = self.strip(a['baseType'][1])
                        sz = int(self.n[k]['size']) // 8
                        o += int(idx) * sz
                    break
            else:
                raise BuildError('no field %s in %s' % (part, name))
        self.cache[key] = (o, sz)
        return o, sz
