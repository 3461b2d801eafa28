"""C10 Global threshold classifies every pixel"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'F32', 'F64']
SPEC = Spec(inst='\n'.join('template void ThresholdOps::threshold<%s>(const Gray<%s>&,%s,bool,Gray<U8>&);'
                           'template class GlobalFixedBinaryFilter<%s>;' % (t, t, t, t) for t in TS),
            layouts=[('Gray', t) for t in TS])


def classify(p, thr, down):
    if p.sort == 'I':
        return ite(down, b2i(le(p, thr)), b2i(gt(p, thr)))
    return ite(down, b2i(fcmp('ole', p, thr)), b2i(fcmp('ogt', p, thr)))


def threshold(mk, T, case, via='op'):
    e = mk()
    inp = e.gray('input', T)
    out = e.out_gray('output', 'U8', inp.w, inp.h, case)
    thr = e.scalar('threshold', T)
    down = e.bool('down')
    if via == 'op':
        e.run('boofcv::ThresholdOps::threshold<%s>' % CXX[T], [inp, thr, down, out])
    else:
        f = e.ex.region('filter', 'obj')
        e.setf(f, e.mod.consts['thr_%s' % T], TYPES[T][0], thr)
        e.setf(f, e.mod.consts['down_%s' % T], 1, b2i(down))
        e.keep[f] = dict(e.ex.mem.obj[f])
        e.run('boofcv::GlobalFixedBinaryFilter<%s>::process' % CXX[T], [ptr(f), inp, out])
    if case == 'view':
        e.always_throws()
        return
    e.normal_exit()
    o = e.shape(out, inp.w, inp.h)
    e.invariant(out, o)
    e.frame(out)
    X, Y = e.vars(('X', 0, inp.w), ('Y', 0, inp.h))
    e.reach()
    e.ensure('pixel', e.pixel(out, X, Y), classify(inp.pix(X, Y), thr, down))


SPEC.consts = [('thr_' + t, 'offsetof(GlobalFixedBinaryFilter<%s>,threshold)' % t) for t in TS] + \
              [('down_' + t, 'offsetof(GlobalFixedBinaryFilter<%s>,down)' % t) for t in TS]
JOBS = [('threshold<%s>[%s]' % (t, c), threshold, dict(T=t, case=c)) for t in TS for c in Env.OUT_CASES]
JOBS += [('GlobalFixedBinaryFilter<%s>::process[%s]' % (t, c), threshold, dict(T=t, case=c, via='filter'))
         for t in ('U8', 'F32') for c in Env.OUT_CASES]
PROP = Prop('C10', SPEC, JOBS, driver='C10.cpp')
