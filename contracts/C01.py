"""C01 Pixel addressing of gray images and their sub-image views"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
KEEP = '''typedef uint32_t (ImageBase::*KeepU)() const; typedef bool (ImageBase::*KeepB)(uint32_t, uint32_t) const;
__attribute__((used)) KeepU keep_u[] = {&ImageBase::getWidth, &ImageBase::getHeight, &ImageBase::total_pixels};
__attribute__((used)) KeepB keep_b[] = {&ImageBase::isInBounds};'''
SPEC = Spec(inst=KEEP, layouts=[('Gray', t) for t in TS])


def access(mk, T, fn):
    e = mk()
    a = e.gray('a', T)
    x, y = e.int('x'), e.int('y')
    out = or_(ge(x, a.w), ge(y, a.h))
    if fn != 'at':
        e.assume(not_(out))
    e.run('boofcv::Gray<%s>::%s' % (CXX[T], fn), [a, x, y])
    e.normal_exit(throws=out if fn == 'at' else FALSE)
    e.frame()
    e.reach()
    if fn == 'index_of':
        e.ensure('index', e.retval('U32'), a.addr(x, y))
    else:
        e.pointer('element', e.ret, a.data, a.addr(x, y), TYPES[T][0])


def subimage(mk, T):
    e = mk()
    a = e.gray('a', T)
    s = e.blank('s', 'Gray', T)
    x0, y0, x1, y1 = [e.int(n) for n in ('x0', 'y0', 'x1', 'y1')]
    bad = or_(gt(x1, a.w), gt(y1, a.h), lt(x1, x0), lt(y1, y0))
    e.run('boofcv::Gray<%s>::makeSubimage' % CXX[T], [s, a, x0, y0, x1, y1])
    e.normal_exit(throws=bad)
    e.frame()
    n = e.shape(s, sub(x1, x0), sub(y1, y0))
    e.require('is-a-view', eq(n.sub, 1))
    e.require('shares-storage', bool_(n.data is a.data and n.doff is ZERO))
    e.require('storage-length', eq(n.L, a.L))
    e.invariant(s, n)
    X, Y = e.vars(('X', 0, n.w), ('Y', 0, n.h))
    e.reach()
    e.ensure('pixel-is-parent-pixel', n.addr(X, Y), a.addr(add(x0, X), add(y0, Y)))


def scalar(mk, fn):
    e = mk()
    a = e.gray('a', 'U8')
    args = [a]
    if fn == 'isInBounds':
        x, y = e.int('x'), e.int('y')
        args += [x, y]
    e.run('boofcv::ImageBase::' + fn, args)
    e.normal_exit()
    e.frame()
    e.reach()
    if fn == 'isInBounds':
        e.ensure('value', e.ret if e.ret.sort == 'B' else not_(eq(e.ret, 0)), and_(lt(x, a.w), lt(y, a.h)))
    else:
        e.ensure('value', e.retval('U32'), {'getWidth': a.w, 'getHeight': a.h, 'total_pixels': mul(a.w, a.h)}[fn])


def construct(mk, T):
    e = mk()
    s = e.blank('s', 'Gray', T)
    w, h = e.int('w', hi=M31 - 1), e.int('h', hi=M31 - 1)
    e.assume(le(mul(w, h), M31))
    e.run('boofcv::Gray<%s>::Gray(unsigned int, unsigned int)' % CXX[T], [s, w, h])
    e.normal_exit()
    e.frame()
    n = e.shape(s, w, h)
    e.invariant(s, n)
    e.require('owned', eq(n.sub, 0))
    X, Y = e.vars(('X', 0, w), ('Y', 0, h))
    e.reach()
    e.ensure('pixel-zero', e.pixel(s, X, Y), fzero(T) if is_f(T) else ZERO)


def view(mk, T):
    e = mk()
    s = e.blank('s', 'Gray', T)
    L = e.int('L', hi=M31)
    d = e.array('storage', T, L)
    w, h, off, st = [e.int(n) for n in ('w', 'h', 'off', 'stride')]
    e.run('boofcv::Gray<%s>::Gray(%s*, unsigned int, unsigned int, unsigned int, unsigned int, unsigned int)' % (CXX[T], CXX[T]),
          [s, ptr(d), L, w, h, off, st])
    e.normal_exit()
    e.frame()
    n = e.shape(s, w, h)
    e.require('fields', and_(eq(n.off, off), eq(n.stride, st), eq(n.L, L), eq(n.sub, 1)))
    e.require('storage', bool_(n.data is d and n.doff is ZERO))


JOBS = []
for t in TS:
    JOBS += [('%s<%s>' % (f, t), access, dict(T=t, fn=f)) for f in ('at', 'unsafe_at', 'index_of')]
    JOBS += [('makeSubimage<%s>' % t, subimage, dict(T=t)), ('Gray<%s>(w,h)' % t, construct, dict(T=t)),
             ('Gray<%s>(data,...)' % t, view, dict(T=t))]
JOBS += [(f, scalar, dict(fn=f)) for f in ('getWidth', 'getHeight', 'total_pixels', 'isInBounds')]
PROP = Prop('C01', SPEC, JOBS, driver='C01.cpp')
