"""C11 Pixelwise logic on binary images"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

SPEC = Spec(layouts=[('Gray', 'U8')])


def value(op, a, b):
    x, y = not_(eq(a, 0)), not_(eq(b, 0))
    return b2i(and_(x, y) if op == 'And' else or_(x, y))


def logic(mk, op, case, alias=''):
    e = mk()
    a = e.gray('a', 'U8')
    b = a if alias in ('AB', 'ABO') else e.gray('b', 'U8', dims=(a.w, a.h) if case != 'mismatch' else None)
    if case == 'mismatch':
        e.assume(or_(not_(eq(a.w, b.w)), not_(eq(a.h, b.h))))
        out = e.gray('out', 'U8')
    elif alias in ('AO', 'ABO'):
        out = a
    elif alias == 'BO':
        out = b
    else:
        out = e.out_gray('out', 'U8', a.w, a.h, case)
    e.run('boofcv::BinaryImageOps::logic' + op, [a, b, out])
    if case in ('mismatch', 'view'):
        e.always_throws()
        return
    e.normal_exit()
    o = e.shape(out, a.w, a.h)
    e.invariant(out, o)
    e.frame(out)
    X, Y = e.vars(('X', 0, a.w), ('Y', 0, a.h))
    e.reach()
    e.ensure('pixel', e.pixel(out, X, Y), value(op, a.pix(X, Y), b.pix(X, Y)))


JOBS = []
for op in ('And', 'Or'):
    for c in Env.OUT_CASES + ('mismatch',):
        JOBS.append(('logic%s[%s]' % (op, c), logic, dict(op=op, case=c)))
    for al in ('AO', 'BO', 'AB', 'ABO'):
        JOBS.append(('logic%s[match,alias %s]' % (op, al), logic, dict(op=op, case='match', alias=al)))
PROP = Prop('C11', SPEC, JOBS, driver='C11.cpp')
