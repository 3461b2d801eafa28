"""C19 Averaging an interleaved image to gray"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
SPEC = Spec(inst='\n'.join('template void convert_average<%s>(const Interleaved<%s>&,Gray<%s>&);' % (t, t, t) for t in TS),
            layouts=[('Gray', t) for t in TS] + [('Interleaved', t) for t in TS])


def average(a, X, Y, T):
    if is_f(T):
        k, acc = fresh('fk'), fresh('fa', T)
        s = fold(k, acc, fzero(T), fop('fadd', (acc, a.pix(X, Y, k)), T), a.nb)
        return fop('fdiv', (s, i2f(a.nb, T)), T)
    k = fresh('k')
    S = SUM[T]
    s = wrap(sum_(k, 0, a.nb, a.pix(X, Y, k)), S)
    return wrap(sdivt(s, a.nb), T)


def avg(mk, T, case):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    e.assume(ge(a.nb, 1))
    out = e.out_gray('out', T, a.w, a.h, case)
    e.run('boofcv::convert_average<%s>' % CXX[T], [a, out])
    if case == 'view':
        e.always_throws()
        return
    e.normal_exit()
    o = e.shape(out, a.w, a.h)
    e.invariant(out, o)
    e.frame(out)
    X, Y = e.vars(('X', 0, a.w), ('Y', 0, a.h))
    e.reach()
    e.ensure('pixel', e.pixel(out, X, Y), average(a, X, Y, T))


JOBS = [('convert_average<%s>[%s]' % (t, c), avg, dict(T=t, case=c)) for t in TS for c in Env.OUT_CASES]
PROP = Prop('C19', SPEC, JOBS, driver='C19.cpp')
