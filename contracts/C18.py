"""C18 Filling an image or its frame sets exactly those pixels"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
US = ['U8', 'S16', 'U16', 'S32', 'F32', 'F64']
SPEC = Spec(inst='\n'.join('template void ImageMiscOps::fill<%s>(Gray<%s>&,%s);template void ImageMiscOps::fill<%s>(Interleaved<%s>&,%s);'
                           'template void ImageMiscOps::fill_border<%s>(Gray<%s>&,%s,uint32_t);' % ((t,) * 9) for t in TS) +
            '\n'.join('template void ImageMiscOps::fill_uniform<%s,std::mt19937>(Gray<%s>&,%s,%s,std::mt19937&,void*);' % ((t,) * 4) for t in US),
            layouts=[('Gray', t) for t in TS] + [('Interleaved', t) for t in TS])


def fill(mk, T):
    e = mk()
    a = e.gray('a', T)
    v = e.scalar('value', T)
    e.run('boofcv::ImageMiscOps::fill<%s>(boofcv::Gray' % CXX[T], [a, v])
    finish(e, a, lambda X, Y: v)


def fill_inter(mk, T):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    v = e.scalar('value', T)
    e.run('boofcv::ImageMiscOps::fill<%s>(boofcv::Interleaved' % CXX[T], [a, v])
    e.normal_exit()
    e.require('shape', and_(eq(a.now().w, a.w), eq(a.now().h, a.h), eq(a.now().nb, a.nb)))
    e.invariant(a)
    e.frame(a)
    X, Y, B = e.vars(('X', 0, a.w), ('Y', 0, a.h), ('B', 0, a.nb))
    e.reach()
    e.ensure('pixel', e.pixel(a, X, Y, B), v)


def finish(e, a, f):
    e.normal_exit()
    o = e.shape(a, a.w, a.h)
    e.invariant(a, o)
    e.frame(a)
    X, Y = e.vars(('X', 0, a.w), ('Y', 0, a.h))
    e.reach()
    p = e.pixel(a, X, Y)
    g = f(X, Y)
    if g is not None:
        e.ensure('pixel', p, g)
    return p


def border(mk, T):
    e = mk()
    a = e.gray('a', T)
    v = e.scalar('value', T)
    r = e.int('radius')
    e.run('boofcv::ImageMiscOps::fill_border<%s>' % CXX[T], [a, v, r])
    finish(e, a, lambda X, Y: ite(or_(lt(X, r), lt(Y, r), ge(X, sub(a.w, r)), ge(Y, sub(a.h, r))), v, a.pix(X, Y)))


def uniform(mk, T):
    e = mk()
    a = e.gray('a', T)
    mn, mx = e.scalar('min', T), e.scalar('max', T)
    es, s, lo, hi = TYPES[T]
    if s == 'I':
        e.assume(lt(mn, mx))
    rng = e.ex.region('rng', 'obj')
    e.ex.mem.obj[rng] = {}
    e.run(lambda d: 'ImageMiscOps::fill_uniform<%s,' % CXX[T] in d, [a, mn, mx, ptr(rng), NULL])
    p = finish(e, a, lambda X, Y: None)
    if s == 'I':
        e.require('pixel-in-range', and_(ge(p, mn), lt(p, mx)))
    else:
        ok = p.op == 'uf' and p.args[0].startswith('uniform_real') and p.args[1][0] is mn and p.args[1][1] is mx
        e.ok('pixel-drawn-from[min,max)') if ok else e.fail('pixel-drawn-from[min,max)', show(p))


JOBS = []
for t in TS:
    JOBS += [('fill<%s>' % t, fill, dict(T=t)), ('fill interleaved<%s>' % t, fill_inter, dict(T=t)),
             ('fill_border<%s>' % t, border, dict(T=t))]
JOBS += [('fill_uniform<%s>' % t, uniform, dict(T=t)) for t in US]
PROP = Prop('C18', SPEC, JOBS, driver='C18.cpp',
            assumptions=['std::uniform_int_distribution(a,b) draws from [a,b], std::uniform_real_distribution(a,b) from [a,b); '
                         'the generator writes nothing but itself'])
