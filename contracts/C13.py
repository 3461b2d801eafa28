"""C13 Image statistics are those of the pixels of the image"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
HS = ['U8', 'U16', 'S16', 'S32']
SPEC = Spec(inst='\n'.join('template %s ImageStatistics::min<%s>(const Gray<%s>&);template %s ImageStatistics::max<%s>(const Gray<%s>&);'
                           'template %s ImageStatistics::mean<%s>(const Gray<%s>&);'
                           'template TypeInfo<%s>::sum_type ImageStatistics::sum<%s>(const Gray<%s>&);' % ((t,) * 12) for t in TS) +
            '\n'.join('template void ImageStatistics::histogram<%s>(const Gray<%s>&,%s,GrowArray<uint32_t>&);' % (t, t, t) for t in HS),
            layouts=[('Gray', t) for t in TS] + [('GrowArray', 'U32')])

FMAX = {'F32': 3.4028234663852886e38, 'F64': 1.7976931348623157e308}


def minmax(mk, T, which):
    e = mk()
    a = e.gray('a', T)
    e.run('boofcv::ImageStatistics::%s<%s>' % (which, CXX[T]), [a])
    e.normal_exit()
    e.frame()
    es, s, lo, hi = TYPES[T]
    if s == 'I':
        init = const(hi if which == 'min' else lo)
        step = lambda acc, x, y: (min_ if which == 'min' else max_)(acc, a.pix(x, y))
    else:
        init = fconst(FMAX[T] if which == 'min' else -FMAX[T], s)
        step = lambda acc, x, y: ite(fcmp('olt' if which == 'min' else 'ogt', a.pix(x, y), acc), a.pix(x, y), acc)
    e.reach()
    e.ensure('result', e.ret, fold2(a.w, a.h, init, step))


def total(a, T):
    if is_f(T):
        return fold2(a.w, a.h, fzero(T), lambda acc, x, y: fop('fadd', (acc, a.pix(x, y)), T))
    return wrap(sum2(a.w, a.h, lambda x, y: a.pix(x, y)), SUM[T])


def summ(mk, T):
    e = mk()
    a = e.gray('a', T)
    e.run('boofcv::ImageStatistics::sum<%s>' % CXX[T], [a])
    e.normal_exit()
    e.frame()
    e.reach()
    e.ensure('result', e.retval(SUM[T]), total(a, T))


def mean(mk, T):
    e = mk()
    a = e.gray('a', T)
    e.assume(ge(a.w, 1), ge(a.h, 1), lt(mul(a.w, a.h), M31))
    e.run('boofcv::ImageStatistics::mean<%s>' % CXX[T], [a])
    e.normal_exit()
    e.frame()
    n = mul(a.w, a.h)
    t = total(a, T)
    e.reach()
    if is_f(T):
        e.ensure('result', e.ret, fop('fdiv', (t, i2f(n, T)), T))
    else:
        e.ensure('result', e.retval(T), wrap(sdivt(t, n), T))


def histogram(mk, T):
    e = mk()
    a = e.gray('a', T)
    mn = e.scalar('minValue', T)
    h = e.grow('hist', 'U32')
    # every pixel lies in [minValue, minValue + size)
    es, s, lo, hi = TYPES[T]
    a.data.ftypes[0] = ('I', mn, sub(add(mn, h.size), 1))
    a.data.lo, a.data.hi = mn, sub(add(mn, h.size), 1)
    e.assume(le(h.size, hi - lo + 1), le(sub(add(mn, h.size), 1), hi))
    e.run('boofcv::ImageStatistics::histogram<%s>' % CXX[T], [a, mn, h])
    e.normal_exit()
    e.frame(h)
    e.require('size-kept', eq(h.now().size, h.size))
    V, = e.vars(('V', 0, h.size))
    e.reach()
    e.ensure('count', e.elem(h, V), wrap(sum2(a.w, a.h, lambda x, y: b2i(eq(sub(a.pix(x, y), mn), V))), 'U32'))


JOBS = [('histogram<%s>' % t, histogram, dict(T=t)) for t in HS]
for t in TS:
    JOBS += [('min<%s>' % t, minmax, dict(T=t, which='min')), ('max<%s>' % t, minmax, dict(T=t, which='max')),
             ('sum<%s>' % t, summ, dict(T=t)), ('mean<%s>' % t, mean, dict(T=t))]
PROP = Prop('C13', SPEC, JOBS, driver='C13.cpp')
