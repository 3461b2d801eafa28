"""C12 Erosion and dilation with the 4-neighbourhood"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

SPEC = Spec(layouts=[('Gray', 'U8')])


def morph(mk, op, case):
    e = mk()
    a = e.gray('a', 'U8')
    # binary image
    a.data.ftypes[0] = ('I', 0, 1)
    a.data.lo, a.data.hi = 0, 1
    out = e.out_gray('out', 'U8', a.w, a.h, case)
    e.run('boofcv::BinaryImageOps::' + op, [a, out])
    if case == 'view':
        e.always_throws()
        return
    e.normal_exit()
    o = e.shape(out, a.w, a.h)
    e.invariant(out, o)
    e.frame(out)
    X, Y = e.vars(('X', 1, sub(a.w, 1)), ('Y', 1, sub(a.h, 1)))
    e.reach()
    n = [eq(a.pix(add(X, dx), add(Y, dy)), 1) for dx, dy in ((0, 0), (-1, 0), (1, 0), (0, -1), (0, 1))]
    e.ensure('pixel', e.pixel(out, X, Y), b2i(and_(*n) if op == 'erode4' else or_(*n)))


JOBS = [('%s[%s]' % (op, c), morph, dict(op=op, case=c)) for op in ('erode4', 'dilate4') for c in Env.OUT_CASES]
PROP = Prop('C12', SPEC, JOBS, driver='C12.cpp',
            assumptions=['the image is binary: every element of the input storage is 0 or 1'])
