"""C03 Interleaved images: addressing, bands, reshape and copy"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'S64', 'F32', 'F64']
SPEC = Spec(layouts=[('Interleaved', t) for t in TS])


def access(mk, T, fn):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    x, y, b = e.int('x'), e.int('y'), e.int('band')
    out = or_(ge(x, a.w), ge(y, a.h), ge(b, a.nb))
    if fn != 'at':
        e.assume(not_(out))
    e.run('boofcv::Interleaved<%s>::%s' % (CXX[T], fn), [a, x, y, b])
    e.normal_exit(throws=out if fn == 'at' else FALSE)
    e.frame()
    e.reach()
    if fn == 'index_of':
        e.ensure('index', e.retval('U32'), a.addr(x, y, b))
    else:
        e.pointer('element', e.ret, a.data, a.addr(x, y, b), TYPES[T][0])


def subimage(mk, T):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    s = e.blank('s', 'Interleaved', T)
    x0, y0, x1, y1 = [e.int(n) for n in ('x0', 'y0', 'x1', 'y1')]
    bad = or_(gt(x1, a.w), gt(y1, a.h), lt(x1, x0), lt(y1, y0))
    e.run('boofcv::Interleaved<%s>::makeSubimage' % CXX[T], [s, a, x0, y0, x1, y1])
    e.normal_exit(throws=bad)
    e.frame()
    n = e.shape(s, sub(x1, x0), sub(y1, y0))
    e.require('bands', eq(n.nb, a.nb))
    view_of(e, s, a, n)
    e.invariant(s, n)
    X, Y, B = e.vars(('X', 0, n.w), ('Y', 0, n.h), ('B', 0, n.nb))
    e.reach()
    e.ensure('pixel-is-parent-pixel', n.addr(X, Y, B), a.addr(add(x0, X), add(y0, Y), B))


def view_of(e, s, a, n):
    e.require('is-a-view', eq(n.sub, 1))
    e.require('shares-storage', bool_(n.data is a.data and n.doff is ZERO))
    e.require('storage-length', eq(n.L, a.L))


def construct(mk, T):
    e = mk()
    s = e.blank('s', 'Interleaved', T)
    w, h, b = [e.int(x, hi=M31 - 1) for x in ('w', 'h', 'bands')]
    e.assume(le(mul(mul(w, h), b), M31), le(mul(w, b), M31), le(mul(w, h), M31))
    e.run('boofcv::Interleaved<%s>::Interleaved(unsigned int, unsigned int, unsigned int)' % CXX[T], [s, w, h, b])
    e.normal_exit()
    e.frame()
    n = e.shape(s, w, h)
    e.require('bands', eq(n.nb, b))
    e.invariant(s, n)
    e.require('owned', eq(n.sub, 0))
    X, Y, B = e.vars(('X', 0, w), ('Y', 0, h), ('B', 0, b))
    e.reach()
    e.ensure('pixel-zero', e.pixel(s, X, Y, B), fzero(T) if is_f(T) else ZERO)


def view(mk, T):
    e = mk()
    s = e.blank('s', 'Interleaved', T)
    L = e.int('L', hi=M31)
    d = e.array('storage', T, L)
    w, h, b, off, st = [e.int(n) for n in ('w', 'h', 'bands', 'off', 'stride')]
    e.run('boofcv::Interleaved<%s>::Interleaved(%s*, unsigned int, unsigned int, unsigned int, unsigned int, unsigned int, unsigned int)'
          % (CXX[T], CXX[T]), [s, ptr(d), L, w, h, b, off, st])
    e.normal_exit()
    e.frame()
    n = e.shape(s, w, h)
    e.require('fields', and_(eq(n.off, off), eq(n.stride, st), eq(n.L, L), eq(n.sub, 1), eq(n.nb, b)))
    e.require('storage', bool_(n.data is d and n.doff is ZERO))


def reshape(mk, T, fn):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    w, h, b = [e.int(x, hi=M31 - 1) for x in ('w', 'h', 'bands')]
    if fn == 'reshape2':
        b = a.nb
    elif fn == 'setNumberOfBands':
        w, h = a.w, a.h
    e.assume(le(mul(mul(w, h), b), M31), le(mul(w, b), M31))
    e.assume(le(mul(w, h), M31))
    same = and_(eq(a.w, w), eq(a.h, h), eq(a.nb, b))
    cl = 'boofcv::Interleaved<%s>::' % CXX[T]
    if fn == 'reshape3':
        e.run(cl + 'reshape(unsigned int, unsigned int, unsigned int)', [a, w, h, b])
    elif fn == 'reshape2':
        e.run(cl + 'reshape(unsigned int, unsigned int)', [a, w, h])
    else:
        e.run(cl + 'setNumberOfBands', [a, b])
    e.normal_exit(throws=and_(eq(a.sub, 1), not_(same)))
    f = lambda n: a.field(n)
    e.require('shape', and_(eq(f('width'), w), eq(f('height'), h), eq(f('num_bands'), b)))
    e.require('ownership-kept', eq(f('subimage'), a.sub))
    e.require('dense', or_(same, and_(eq(f('offset'), 0), eq(f('stride'), mul(w, b)))))
    e.require('view-untouched', or_(eq(a.sub, 0), and_(eq(f('offset'), a.off), eq(f('stride'), a.stride))))
    d, L = f('data'), f('data_length')
    for i, (g, r, o) in enumerate(d.alts):
        typed(r, T)
        e.require('storage[%d]' % i, and_(eq(o, 0), eq(r.length(), L), not_(r.freed)), facts=[g])
    e.require('enough-storage', or_(same, le(mul(mul(w, h), b), L)))
    e.require('capacity-never-shrinks', ge(L, a.L))
    keep = or_(*[g for g, r, o in d.alts if r is a.data])
    e.require('old-storage-released-exactly-when-replaced', iff(a.data.freed, not_(keep)))
    e.frame(objs=[a])
    e.reach()


def release(mk, T):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    e.run('boofcv::Interleaved<%s>::~Interleaved' % CXX[T], [a])
    e.normal_exit()
    e.require('owned-storage-released-views-not', iff(a.data.freed, eq(a.sub, 0)))
    e.reach()


def target(e, name, T, s, case):
    """destination: same layout (any kind of image), owned of another layout (storage too small / large enough at either step),
    view of another layout"""
    if case == 'match':
        return e.gray(name, T, cls='Interleaved', dims=(s.w, s.h), nb=s.nb)
    what, st = case.split(',')
    owned = False if st == 'view' else True
    if what == 'shape':
        a = e.gray(name, T, owned=owned, cls='Interleaved', nb=s.nb)
    elif what == 'bands':
        a = e.gray(name, T, owned=owned, cls='Interleaved', dims=(s.w, s.h))
    else:
        a = e.gray(name, T, owned=owned, cls='Interleaved')
    if what != 'shape':
        e.assume(not_(eq(a.nb, s.nb)))
    if what != 'bands':
        e.assume(or_(not_(eq(a.w, s.w)), not_(eq(a.h, s.h))))
    mid = mul(mul(a.w, a.h), s.nb)
    fin = mul(mul(s.w, s.h), s.nb)
    if st != 'view':
        # the intermediate layout (old shape with the new number of bands) is within the size limits too
        e.assume(le(mid, M31), le(mul(a.w, s.nb), M31))
        if st == 'reuse':
            e.assume(le(fin, a.L), le(mid, a.L))
        elif st == 'grow':
            e.assume(gt(fin, a.L))
            e.assume(le(mid, a.L) if what != 'bands' else TRUE)
        elif st == 'grow bands':
            e.assume(gt(mid, a.L), le(fin, mid))
        elif st == 'grow twice':
            e.assume(gt(mid, a.L), gt(fin, mid))
    return a


CASES = ('match', 'shape,grow', 'shape,reuse', 'shape,view', 'bands,grow', 'bands,reuse', 'bands,view', 'both,grow',
         'both,grow bands', 'both,grow twice', 'both,reuse', 'both,view')


def post_copy(e, a, s, T):
    n = e.shape(a, s.w, s.h)
    e.require('bands', eq(n.nb, s.nb))
    e.invariant(a, n)
    X, Y, B = e.vars(('X', 0, s.w), ('Y', 0, s.h), ('B', 0, s.nb))
    e.reach()
    e.ensure('pixel', e.pixel(a, X, Y, B), s.pix(X, Y, B))
    return n


def copy(mk, T, case, fn):
    e = mk()
    s = e.gray('s', T, owned=True if fn == 'operator=' else None, cls='Interleaved')
    a = target(e, 'a', T, s, case)
    e.run('boofcv::Interleaved<%s>::%s(boofcv::Interleaved' % (CXX[T], fn), [a, s])
    if case.endswith('view'):
        e.always_throws()
        return
    e.normal_exit()
    e.frame(a)
    n = post_copy(e, a, s, T)
    e.require('independent-storage', bool_(n.data is not s.data))
    e.require('ownership-kept', eq(n.sub, a.sub))


def assign_view(mk, T):
    e = mk()
    s = e.gray('s', T, owned=False, cls='Interleaved')
    a = e.gray('a', T, cls='Interleaved')
    e.run('boofcv::Interleaved<%s>::operator=' % CXX[T], [a, s])
    e.normal_exit()
    e.frame(objs=[a])
    same_view(e, a, s)


def same_view(e, a, s):
    n = e.shape(a, s.w, s.h)
    view_of(e, a, s, n)
    e.require('same-pixels', and_(eq(n.off, s.off), eq(n.stride, s.stride), eq(n.nb, s.nb)))
    e.reach()


def assign_self(mk, T):
    e = mk()
    a = e.gray('a', T, cls='Interleaved')
    e.run('boofcv::Interleaved<%s>::operator=' % CXX[T], [a, a])
    e.normal_exit()
    e.frame()
    e.reach()


def copy_construct(mk, T, owned):
    e = mk()
    s = e.gray('s', T, owned=owned, cls='Interleaved')
    a = e.blank('a', 'Interleaved', T)
    e.run('boofcv::Interleaved<%s>::Interleaved(boofcv::Interleaved<%s> const&)' % (CXX[T], CXX[T]), [a, s])
    e.normal_exit()
    e.frame()
    if not owned:
        same_view(e, a, s)
        return
    n = post_copy(e, a, s, T)
    e.require('independent-storage', bool_(n.data is not s.data))
    e.require('owned', eq(n.sub, 0))


JOBS = []
for t in TS:
    JOBS += [('%s<%s>' % (f, t), access, dict(T=t, fn=f)) for f in ('at', 'unsafe_at', 'index_of')]
    JOBS += [('%s<%s>' % (f, t), reshape, dict(T=t, fn=f)) for f in ('reshape2', 'reshape3', 'setNumberOfBands')]
    JOBS += [('makeSubimage<%s>' % t, subimage, dict(T=t)), ('Interleaved<%s>(w,h,bands)' % t, construct, dict(T=t)),
             ('Interleaved<%s>(data,...)' % t, view, dict(T=t)), ('~Interleaved<%s>' % t, release, dict(T=t)),
             ('operator=<%s>[source is a view]' % t, assign_view, dict(T=t)), ('operator=<%s>[self]' % t, assign_self, dict(T=t)),
             ('Interleaved<%s>(Interleaved)[full]' % t, copy_construct, dict(T=t, owned=True)),
             ('Interleaved<%s>(Interleaved)[view]' % t, copy_construct, dict(T=t, owned=False))]
    JOBS += [('%s<%s>[%s]' % (f, t, c), copy, dict(T=t, case=c, fn=f)) for f in ('setTo', 'operator=') for c in CASES]
PROP = Prop('C03', SPEC, JOBS, driver='C03.cpp',
            assumptions=['source and destination of a copy do not overlap (one is not a view into the other)',
                         'assigning a full image to a view writes through the view (copy semantics), as the code documents',
                         'the intermediate layout of setTo (old shape with the new number of bands) has at most 2^31 elements'])
