"""C04 Growable arrays keep their contents and initialise new elements"""
from vc.build import Spec
from vc.prop import Prop
from vc.spec import *

TS = ['U8', 'S16', 'U16', 'S32', 'U32', 'S64', 'F32', 'F64']
SPEC = Spec(layouts=[('GrowArray', t) for t in TS])
cl = lambda T: 'boofcv::GrowArray<%s>::' % CXX[T]


def wellformed(e, a, own=None):
    """class invariant afterwards: size <= owned storage, the storage is alive"""
    n = a.now()
    e.require('size-within-storage', and_(ge(n.size, 0), le(n.size, n.L)))
    e.require('storage-length', eq(n.data.length(), n.L))
    e.require('storage-alive', not_(n.data.freed))
    e.require('ownership-kept', eq(n.can, a.can if own is None else own))
    return n


def check_elems(e, a, size, f, what='element'):
    I, = e.vars(('I', 0, size))
    e.reach()
    e.ensure(what, e.elem(a, I), f(I))


def wrapped(mk, T, fn):
    """an array around somebody else's storage refuses and changes nothing, and is never freed"""
    e = mk()
    a = e.grow('a', T, can=False)
    if fn == 'operator=':
        b = e.grow('b', T)
        args = [a, b]
    elif fn == 'set':
        L = e.int('L', hi=M31)
        src = e.array('src', T, L)
        n = e.int('n', hi=M31)
        e.assume(le(n, L))
        args = [a, ptr(src), n]
    else:
        args = [a, e.int('n')]
    e.run(cl(T) + fn, args)
    # operator= may have copied the default value before it refuses
    for g, t, w, mem in e.ex.throws:
        e.unchanged('refused-before-writing', mem, g, skip=(a.obj,) if fn == 'operator=' else ())
        if fn == 'operator=':
            for f in ('data', 'size', 'array_length', 'can_resize'):
                o = e.lay[('GrowArray', T, f)]
                if not e.same(mem.obj[a.obj][o][1], e.keep[a.obj][o][1]):
                    e.require('refused-unchanged-' + f, e.eqv(mem.obj[a.obj][o][1], e.keep[a.obj][o][1]), facts=[g])
    e.require('always-refused', e.throwc)
    e.require('not-freed', not_(a.data.freed))


def resize(mk, T, case):
    e = mk()
    a = e.grow('a', T, can=True)
    n = e.int('n', hi=M31)
    e.assume(le(n, a.L) if case == 'fits' else gt(n, a.L))
    e.run(cl(T) + 'resize', [a, n])
    e.normal_exit()
    e.frame(a)
    m = wellformed(e, a)
    e.require('size', eq(m.size, n))
    e.require('capacity-never-shrinks', ge(m.L, a.L))
    e.require('default-kept', eq(m.dv, a.dv))
    e.require('old-storage-released-exactly-when-replaced', iff(a.data.freed, bool_(m.data is not a.data)))
    check_elems(e, a, n, lambda i: ite(lt(i, a.size), a.elem(i), a.dv))


def grow_array(mk, T, case):
    e = mk()
    a = e.grow('a', T, can=True)
    n = e.int('n', hi=M31)
    e.assume(le(n, a.L) if case == 'fits' else gt(n, a.L))
    e.run(cl(T) + 'grow_array', [a, n])
    e.normal_exit()
    e.frame(a)
    m = wellformed(e, a)
    e.require('size', eq(m.size, 0))
    e.require('capacity', ge(m.L, max_(n, a.L)))
    e.require('old-storage-released-exactly-when-replaced', iff(a.data.freed, bool_(m.data is not a.data)))
    if case == 'grows':
        check_elems(e, a, n, lambda i: a.dv, 'fresh-storage-initialised')


def fill(mk, T):
    e = mk()
    a = e.grow('a', T)
    v = e.scalar('value', T)
    e.run(cl(T) + 'fill', [a, v])
    e.normal_exit()
    e.frame((a.data, ZERO, a.size))
    wellformed(e, a)
    check_elems(e, a, a.size, lambda i: v)


def access(mk, T, fn):
    e = mk()
    a = e.grow('a', T)
    i = e.int('i')
    if fn == 'operator[]':
        e.assume(lt(i, a.size))
    e.run(cl(T) + fn, [a, i])
    e.normal_exit(throws=ge(i, a.size) if fn == 'at' else FALSE)
    e.frame()
    e.reach()
    e.pointer('element', e.ret, a.data, i, TYPES[T][0])


def assign(mk, T, case):
    e = mk()
    a = e.grow('a', T, can=True)
    b = e.grow('b', T)
    e.assume(le(b.size, a.L) if case == 'fits' else gt(b.size, a.L))
    e.run(cl(T) + 'operator=', [a, b])
    e.normal_exit()
    e.frame(a)
    m = wellformed(e, a)
    e.require('size', eq(m.size, b.size))
    e.require('independent-storage', bool_(m.data is not b.data))
    check_elems(e, a, b.size, lambda i: b.elem(i))


def assign_self(mk, T):
    e = mk()
    a = e.grow('a', T)
    e.run(cl(T) + 'operator=', [a, a])
    e.normal_exit()
    e.frame()
    e.reach()


def copy_construct(mk, T):
    e = mk()
    b = e.grow('b', T)
    a = e.blank('a', 'GrowArray', T)
    e.run(cl(T) + 'GrowArray(boofcv::GrowArray<%s> const&)' % CXX[T], [a, b])
    e.normal_exit()
    e.frame()
    m = wellformed(e, a, ONE)
    e.require('size', eq(m.size, b.size))
    e.require('independent-storage', bool_(m.data is not b.data))
    check_elems(e, a, b.size, lambda i: b.elem(i))


def construct(mk, T):
    e = mk()
    n = e.int('n', hi=M31)
    a = e.blank('a', 'GrowArray', T)
    e.run(cl(T) + 'GrowArray(unsigned int)', [a, n])
    e.normal_exit()
    e.frame()
    m = wellformed(e, a, ONE)
    e.require('size', eq(m.size, n))
    z = fzero(T) if is_f(T) else ZERO
    e.require('default-zero', eq(m.dv, z))
    check_elems(e, a, n, lambda i: z)


def construct0(mk, T):
    e = mk()
    a = e.blank('a', 'GrowArray', T)
    e.run(cl(T) + 'GrowArray()', [a])
    e.normal_exit()
    e.frame()
    m = wellformed(e, a, ONE)
    check_elems(e, a, m.size, lambda i: fzero(T) if is_f(T) else ZERO)


def construct_wrap(mk, T):
    e = mk()
    L, n = e.int('L', hi=M31), e.int('n', hi=M31)
    e.assume(le(n, L))
    d = e.array('storage', T, L)
    a = e.blank('a', 'GrowArray', T)
    e.run(cl(T) + 'GrowArray(%s*, unsigned int, unsigned int)' % CXX[T], [a, ptr(d), L, n])
    e.normal_exit()
    e.frame()
    m = wellformed(e, a, ZERO)
    e.require('size', eq(m.size, n))
    e.require('storage', bool_(m.data is d))


def set_(mk, T, case):
    e = mk()
    a = e.grow('a', T, can=True)
    L, n = e.int('L', hi=M31), e.int('n', hi=M31)
    src = e.array('src', T, L)
    e.assume(le(n, L), le(n, a.L) if case == 'fits' else gt(n, a.L))
    e.run(cl(T) + 'set', [a, ptr(src), n])
    e.normal_exit()
    e.frame(a)
    m = wellformed(e, a)
    e.require('size', eq(m.size, n))
    check_elems(e, a, n, lambda i: e.ex.initread(src, 0, i))


def init_list(mk, T, fn, case=None):
    """std::initializer_list: pointer and length"""
    e = mk()
    L = e.int('L', hi=M31)
    src = e.array('src', T, L)
    if fn == 'setTo':
        a = e.grow('a', T, can=True)
        e.assume(le(L, a.L) if case == 'fits' else gt(L, a.L))
        e.run(cl(T) + 'setTo', [a, ptr(src), L])
        own = None
    else:
        a = e.blank('a', 'GrowArray', T)
        e.run(cl(T) + 'GrowArray(std::initializer_list<%s>)' % CXX[T], [a, ptr(src), L])
        own = ONE
    e.normal_exit()
    if fn == 'setTo':
        e.frame(a)
    else:
        e.frame()
    m = wellformed(e, a, own)
    e.require('size', eq(m.size, L))
    check_elems(e, a, L, lambda i: e.ex.initread(src, 0, i))


def release(mk, T):
    e = mk()
    a = e.grow('a', T)
    e.run(cl(T) + '~GrowArray', [a])
    e.normal_exit()
    e.require('owned-storage-released-wrapped-not', iff(a.data.freed, not_(eq(a.can, 0))))


JOBS = []
for t in TS:
    for c in ('fits', 'grows'):
        JOBS += [('resize<%s>[%s]' % (t, c), resize, dict(T=t, case=c)), ('grow_array<%s>[%s]' % (t, c), grow_array, dict(T=t, case=c)),
                 ('operator=<%s>[%s]' % (t, c), assign, dict(T=t, case=c)), ('set<%s>[%s]' % (t, c), set_, dict(T=t, case=c)),
                 ('setTo<%s>[%s]' % (t, c), init_list, dict(T=t, fn='setTo', case=c))]
    JOBS += [('%s<%s>[wrapped]' % (f, t), wrapped, dict(T=t, fn=f)) for f in ('resize', 'grow_array', 'operator=', 'set')]
    JOBS += [('fill<%s>' % t, fill, dict(T=t)), ('at<%s>' % t, access, dict(T=t, fn='at')),
             ('operator[]<%s>' % t, access, dict(T=t, fn='operator[]')), ('operator=<%s>[self]' % t, assign_self, dict(T=t)),
             ('GrowArray<%s>(GrowArray)' % t, copy_construct, dict(T=t)), ('GrowArray<%s>(n)' % t, construct, dict(T=t)),
             ('GrowArray<%s>()' % t, construct0, dict(T=t)), ('GrowArray<%s>(data,...)' % t, construct_wrap, dict(T=t)),
             ('GrowArray<%s>{list}' % t, init_list, dict(T=t, fn='ctor')), ('~GrowArray<%s>' % t, release, dict(T=t))]
PROP = Prop('C04', SPEC, JOBS, driver='C04.cpp',
            assumptions=['the source of set() and the source of an assignment are not the array\'s own storage (except self-assignment)'])
