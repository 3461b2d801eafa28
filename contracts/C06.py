"""C06 Border policies give the documented pixel outside the image"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'F32', 'F64']
POL = ['Value', 'Extend', 'Reflect', 'Wrap']
SPEC = Spec(layouts=[(c, t) for c in ('Gray', 'ImageBorder', 'ImageBorderValue') for t in TS],
            inst='\n'.join('template class ImageBorder%s<%s>;' % (p, t) for p in POL[1:] for t in TS))


def index(pol, x, n):
    """documented index for coordinate x of a row of n pixels"""
    if pol == 'Extend':
        return ite(lt(x, 0), ZERO, ite(ge(x, n), sub(n, 1), x))
    if pol == 'Wrap':
        return mod(x, n)
    m = mod(x, mul(2, sub(n, 1)))       # f(-1)=f(1), f(n)=f(n-2): period 2(n-1)
    return ite(le(n, 1), ZERO, ite(lt(m, n), m, sub(mul(2, sub(n, 1)), m)))


def border(e, T, pol, img):
    """a border object of the policy for the image"""
    b = e.ex.region('border', 'obj')
    e.vtable(b, 'ImageBorder' + pol, T)
    e.setf(b, e.lay[('ImageBorder', T, 'image')], 8, img.ptr)
    v = None
    if pol == 'Value':
        v = e.scalar('value', T)
        e.setf(b, e.lay[('ImageBorderValue', T, 'value')], TYPES[T][0], v)
    e.keep[b] = dict(e.ex.mem.obj[b])
    return ptr(b), v


def get(mk, T, pol, where, fn='get'):
    """where: inside / x / y: the coordinate that is outside. outside_get() is the same for coordinates outside"""
    e = mk()
    a = e.gray('a', T)
    b, v = border(e, T, pol, a)
    e.assume(gt(a.w, 0), gt(a.h, 0))
    x, y = e.int('x', 'S32'), e.int('y', 'S32')
    inx, iny = and_(ge(x, 0), lt(x, a.w)), and_(ge(y, 0), lt(y, a.h))
    e.assume({'inside': and_(inx, iny), 'x': and_(not_(inx), iny), 'y': and_(inx, not_(iny)), 'xy': and_(not_(inx), not_(iny))}[where])
    if fn == 'get':
        e.run('boofcv::ImageBorder<%s>::get' % CXX[T], [b, x, y])
    else:
        e.run('boofcv::ImageBorder%s<%s>::outside_get' % (pol if pol == 'Value' else 'Index', CXX[T]), [b, x, y])
    e.normal_exit()
    e.frame()
    e.reach()
    r = e.retval(T)
    if where == 'inside':
        e.ensure('own-pixel', r, a.pix(x, y))
    elif pol == 'Value':
        e.ensure('constant', r, v)
    else:
        X, Y = index(pol, x, a.w), index(pol, y, a.h)
        e.require('documented-pixel-is-inside', and_(ge(X, 0), lt(X, a.w), ge(Y, 0), lt(Y, a.h)))
        e.ensure('documented-pixel', r, a.pix(X, Y))


def set_image(mk, T, pol):
    e = mk()
    a = e.gray('a', T)
    c = e.gray('c', T)
    b, v = border(e, T, pol, a)
    e.run('boofcv::ImageBorder<%s>::setImage' % CXX[T], [b, c])
    e.normal_exit()
    o = e.lay[('ImageBorder', T, 'image')]
    r = b.alts[0][1]
    e.frame(fields=[(r, o)])
    e.require('image', e.ex.ptr_cmp('eq', e.ex.mem.obj[r][o][1], c.ptr, TRUE))


def dims(mk, T, fn):
    e = mk()
    a = e.gray('a', T)
    b, v = border(e, T, 'Value', a)
    e.run('boofcv::ImageBorder<%s>::%s' % (CXX[T], fn), [b])
    e.normal_exit()
    e.frame()
    e.ensure('value', e.retval('U32'), a.w if fn == 'getWidth' else a.h)


def construct(mk, T, kind):
    e = mk()
    a = e.gray('a', T)
    b = e.ex.region('border', 'obj')
    e.ex.mem.obj[b] = {}
    v = e.scalar('value', T)
    if kind == 'value':
        e.run('boofcv::ImageBorderValue<%s>::ImageBorderValue(%s)' % (CXX[T], CXX[T]), [ptr(b), v])
    else:
        e.run('boofcv::ImageBorderValue<%s>::ImageBorderValue(boofcv::Gray<%s> const&, %s)' % (CXX[T], CXX[T], CXX[T]), [ptr(b), a, v])
    e.normal_exit()
    e.frame()
    r = e.ex.mem.obj[b][e.lay[('ImageBorderValue', T, 'value')]][1]
    e.ensure('value', r if is_f(T) else (e.ex.canon_u if TYPES[T][2] == 0 else e.ex.canon_s)(r, TYPES[T][0] * 8, e.guard), v)
    e.require('image', e.ex.ptr_cmp('eq', e.ex.mem.obj[b][e.lay[('ImageBorder', T, 'image')]][1], NULL if kind == 'value' else a.ptr, TRUE))


JOBS = [('ImageBorder%s<%s>::get[%s]' % (p, t, w), get, dict(T=t, pol=p, where=w)) for t in TS for p in POL for w in ('inside', 'x', 'y', 'xy')]
JOBS += [('ImageBorder<%s>::setImage' % t, set_image, dict(T=t, pol='Value')) for t in TS]
JOBS += [('ImageBorder<%s>::%s' % (t, f), dims, dict(T=t, fn=f)) for t in TS for f in ('getWidth', 'getHeight')]
JOBS += [('ImageBorder%s<%s>::outside_get[%s]' % (p, t, w), get, dict(T=t, pol=p, where=w, fn='outside_get')) for t in TS for p in POL for w in ('x', 'y', 'xy')]
JOBS += [('ImageBorderValue<%s>(%s)' % (t, k), construct, dict(T=t, kind=k)) for t in TS for k in ('value', 'image,value')]
PROP = Prop('C06', SPEC, JOBS, driver='C06.cpp', assumptions=['the image is not empty'],
            not_proved=['FactoryImageBorder::create_SB/value_SB (std::shared_ptr): bounded driver only'])
