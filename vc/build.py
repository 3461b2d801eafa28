"""Compiles /repo's current source (through a generated translation unit that only includes the repository's files and
asks for the instantiations) to LLVM IR, and loads it."""
import hashlib
import os
import shutil
import subprocess
import tempfile
from . import ir

REPO = os.environ.get('VC_REPO', '/repo')
SRC = REPO + '/boofcpp/src'
INC = [SRC + '/boofcv', SRC]
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/bin/opt-18'
PIPES = ['function(sroa,simplifycfg,loop-simplify)',
         'function(sroa,early-cse,simplifycfg,loop-simplify)',
         'function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)']

FIELDS = {
    'Gray': ['width', 'height', 'offset', 'stride', 'subimage', 'data', 'data_length'],
    'Interleaved': ['width', 'height', 'offset', 'stride', 'subimage', 'data', 'data_length', 'num_bands'],
    'Kernel1D': ['width', 'offset', 'data'], 'Kernel2D': ['width', 'offset', 'data'],
    'GrowArray': ['data', 'size', 'array_length', 'default_value', 'can_resize'],
    'PackedSet': ['blocks', '_number_of_blocks', '_size_of_block', '_total_element', 'set_info'],
    'Planar': ['width', 'height', 'offset', 'stride', 'subimage', 'bands', 'num_bands'],
    'ImageBorder': ['image'],
    'ImageBorderValue': ['image', 'value'],
}


def offsets(cls, *fields):
    """consts entries for the field offsets of a class"""
    return [('%s.%s' % (cls, f), '__builtin_offsetof(boofcv::%s, %s)' % (cls, f)) for f in fields]


class BuildError(Exception):
    pass


def all_sources(work):
    """a header that includes every source file of the library"""
    import glob
    d = SRC + '/boofcv'
    with open(os.path.join(work, 'all_sources.h'), 'w') as f:
        for h in sorted(glob.glob(d + '/*.h')):
            if os.path.basename(h) not in ('testing_utils.h', 'print_structures.h', 'pixel_math.h'):
                f.write('#include "%s"\n' % os.path.basename(h))
        for c in sorted(glob.glob(d + '/*.cpp')):
            f.write('#include "%s"\n' % c)


def sh(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


class Spec:
    """what a property needs from the repository: headers, instantiations, layouts, virtual tables"""

    def __init__(self, inst='', layouts=(), vtables=(), extra='', defines='', consts=()):
        self.inst, self.layouts, self.vtables, self.extra = inst, list(layouts), list(vtables), extra
        self.consts = list(consts)      # (name, C++ expression)

    def source(self):
        o = ['#include <cstddef>', '#include <cmath>']
        o.append('#include "all_sources.h"')
        o.append('namespace boofcv {')
        o.append('typedef uint32_t U32; typedef int8_t S8;')
        for c, t in self.layouts:
            o.append('template class %s<%s>;' % (c, t))
        o.append(self.inst)
        o.append('}')
        o.append(self.extra)
        o.append('using namespace boofcv;')
        for i, (c, t) in enumerate(self.layouts):
            ty = '%s<%s>' % (c, t)
            o.append('extern "C" __attribute__((used)) const unsigned long vcl_%d[] = {sizeof(%s)%s};' % (
                i, ty, ''.join(',offsetof(%s,%s)' % (ty, f) for f in FIELDS[c])))
        for i, (n, e) in enumerate(self.consts):
            o.append('extern "C" __attribute__((used)) const unsigned long vcc_%d[] = {(unsigned long)(%s)};' % (i, e))
        return '\n'.join(o) + '\n'


VT = {'Gray': '_ZTVN6boofcv4GrayI%sEE', 'Interleaved': '_ZTVN6boofcv11InterleavedI%sEE',
      'Kernel1D': '_ZTVN6boofcv8Kernel1DI%sEE', 'Kernel2D': '_ZTVN6boofcv8Kernel2DI%sEE',
      'Planar': '_ZTVN6boofcv6PlanarINS_4GrayI%sEEEE',
      'ImageBorderValue': '_ZTVN6boofcv16ImageBorderValueI%sEE',
      'ImageBorderExtend': '_ZTVN6boofcv17ImageBorderExtendI%sEE',
      'ImageBorderReflect': '_ZTVN6boofcv18ImageBorderReflectI%sEE',
      'ImageBorderWrap': '_ZTVN6boofcv15ImageBorderWrapI%sEE'}
MANG = {'U8': 'h', 'U16': 't', 'S16': 's', 'S32': 'i', 'U32': 'j', 'F32': 'f', 'F64': 'd', 'S64': 'l', 'S8': 'a'}


def compile_ir(spec, work, pipe=0):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, 'h.cpp')
    all_sources(work)
    with open(src, 'w') as f:
        f.write(spec.source())
    ll = os.path.join(work, 'h.ll')
    out = os.path.join(work, 'h%d.ll' % pipe)
    if not os.path.exists(ll):
        sh([CLANG, '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-strict-aliasing',
            '-ffp-contract=off', '-fno-access-control', '-Wno-invalid-offsetof', '-w', '-I', os.path.dirname(src)] +
           ['-I' + i for i in INC] + ['-S', '-emit-llvm', src, '-o', ll])
    sh([OPT, '-S', '-passes=' + PIPES[pipe], ll, '-o', out])
    return out


def load(spec, path):
    m = ir.Module(path)
    m.layout = {}
    u64 = ir.Ty()
    u64.kind, u64.w, u64.size = 'int', 64, 8
    for i, (c, t) in enumerate(spec.layouts):
        for j, f in enumerate(['sizeof'] + FIELDS[c]):
            v = m.global_read('vcl_%d' % i, 8 * j, u64)
            m.layout[(c, t, f)] = v.v if v.kind == 'const' else 0
    m.consts = {}
    for i, (n, e) in enumerate(spec.consts):
        v = m.global_read('vcc_%d' % i, 0, u64)
        m.consts[n] = v.v
    m.vtables = {}
    for c, fm in VT.items():
        for t, mc in MANG.items():
            s = fm % mc
            if s in m.globals:
                m.vtables[(c, t)] = s
    return m
