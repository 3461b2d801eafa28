"""C02 Reshape, copy and assignment of gray images"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
SPEC = Spec(layouts=[('Gray', t) for t in TS])


def reshape(mk, T):
    e = mk()
    a = e.gray('a', T)
    w, h = e.int('w', hi=M31 - 1), e.int('h', hi=M31 - 1)
    e.assume(le(mul(w, h), M31))
    same = and_(eq(a.w, w), eq(a.h, h))
    e.run('boofcv::Gray<%s>::reshape' % CXX[T], [a, w, h])
    e.normal_exit(throws=and_(eq(a.sub, 1), not_(same)))
    n = a.field('width'), a.field('height')
    e.require('shape', and_(eq(n[0], w), eq(n[1], h)))
    e.require('ownership-kept', eq(a.field('subimage'), a.sub))
    e.require('dense', or_(same, and_(eq(a.field('offset'), 0), eq(a.field('stride'), w))))
    e.require('view-untouched', or_(eq(a.sub, 0), and_(eq(a.field('offset'), a.off), eq(a.field('stride'), a.stride))))
    # the storage, old or new
    d = a.field('data')
    L = a.field('data_length')
    for i, (g, r, o) in enumerate(d.alts):
        typed(r, T)
        e.require('storage[%d]' % i, and_(eq(o, 0), eq(r.length(), L), not_(r.freed)), facts=[g])
    e.require('enough-storage', or_(same, le(mul(w, h), L)))
    e.require('capacity-never-shrinks', ge(L, a.L))
    # old storage is either still in use or released, and released once (double deletes are obligations of their own)
    keep = or_(*[g for g, r, o in d.alts if r is a.data])
    e.require('old-storage-released-exactly-when-replaced', iff(a.data.freed, not_(keep)))
    e.frame(objs=[a])
    e.reach()


def release(mk, T):
    e = mk()
    a = e.gray('a', T)
    e.run('boofcv::Gray<%s>::~Gray' % CXX[T], [a])
    e.normal_exit()
    e.require('owned-storage-released-views-not', iff(a.data.freed, eq(a.sub, 0)))
    e.reach()


def post_copy(e, a, s, T, objs=()):
    """a is pixelwise equal to s and satisfies the invariant"""
    n = e.shape(a, s.w, s.h)
    e.invariant(a, n)
    X, Y = e.vars(('X', 0, s.w), ('Y', 0, s.h))
    e.reach()
    e.ensure('pixel', e.pixel(a, X, Y), s.pix(X, Y))
    return n


def copy(mk, T, case, fn):
    e = mk()
    s = e.gray('s', T, owned=True if fn == 'operator=' else None)
    a = e.out_gray('a', T, s.w, s.h, case)
    e.run('boofcv::Gray<%s>::%s(boofcv::Gray' % (CXX[T], fn), [a, s])
    if case == 'view':
        e.always_throws()
        return
    e.normal_exit()
    e.frame(a)
    n = post_copy(e, a, s, T)
    e.require('independent-storage', bool_(n.data is not s.data))
    e.require('ownership-kept', eq(n.sub, a.sub))


def assign_view(mk, T):
    e = mk()
    s = e.gray('s', T, owned=False)
    a = e.gray('a', T)
    e.run('boofcv::Gray<%s>::operator=' % CXX[T], [a, s])
    e.normal_exit()
    e.frame(objs=[a])
    view_of(e, a, s)


def view_of(e, a, s):
    n = e.shape(a, s.w, s.h)
    e.require('is-a-view', eq(n.sub, 1))
    e.require('same-storage', bool_(n.data is s.data and n.doff is ZERO))
    e.require('same-pixels', and_(eq(n.off, s.off), eq(n.stride, s.stride), eq(n.L, s.L)))
    e.reach()


def assign_self(mk, T):
    e = mk()
    a = e.gray('a', T)
    e.run('boofcv::Gray<%s>::operator=' % CXX[T], [a, a])
    e.normal_exit()
    e.frame()
    e.reach()


def copy_construct(mk, T, owned):
    e = mk()
    s = e.gray('s', T, owned=owned)
    a = e.blank('a', 'Gray', T)
    e.run('boofcv::Gray<%s>::Gray(boofcv::Gray<%s> const&)' % (CXX[T], CXX[T]), [a, s])
    e.normal_exit()
    e.frame()
    if not owned:
        view_of(e, a, s)
        return
    n = post_copy(e, a, s, T)
    e.require('independent-storage', bool_(n.data is not s.data))
    e.require('owned', eq(n.sub, 0))


JOBS = []
for t in TS:
    JOBS += [('reshape<%s>' % t, reshape, dict(T=t)), ('~Gray<%s>' % t, release, dict(T=t)),
             ('operator=<%s>[source is a view]' % t, assign_view, dict(T=t)), ('operator=<%s>[self]' % t, assign_self, dict(T=t)),
             ('Gray<%s>(Gray)[full]' % t, copy_construct, dict(T=t, owned=True)),
             ('Gray<%s>(Gray)[view]' % t, copy_construct, dict(T=t, owned=False))]
    JOBS += [('%s<%s>[%s]' % (f, t, c), copy, dict(T=t, case=c, fn=f)) for f in ('copy', 'operator=') for c in Env.OUT_CASES]
PROP = Prop('C02', SPEC, JOBS, driver='C02.cpp',
            assumptions=['source and destination of a copy do not overlap (one is not a view into the other)',
                         'assigning a full image to a view writes through the view (copy semantics), as the code documents'])
