"""C05 Packed sets return exactly what was stored"""
from vc.build import Spec, offsets
from vc.prop import Prop
from vc.spec import *
from vc.packed import Packed, Blocks, Vec, BIG

ELEM = {'U8': 'U8', 'S16': 'S16', 'S32': 'S32', 'F32': 'F32', 'F64': 'F64', 'Point2D<S32>': ((0, 'S32'), (4, 'S32'))}
CX = dict(CXX)
CX['Point2D<S32>'] = 'boofcv::Point2D<int>'
FIELDS = ('blocks', '_number_of_blocks', '_size_of_block', '_total_element', 'set_info')
SPEC = Spec(inst='\n'.join('template class PackedSet<%s>;' % t for t in ELEM),
            consts=[('PackedSet.' + f, '__builtin_offsetof(boofcv::PackedSet<boofcv::S32>, %s)' % f) for f in FIELDS])


def comp(T):
    return [(0, ELEM[T])] if isinstance(ELEM[T], str) else list(ELEM[T])


def setup(mk, T, empty=False, full=False):
    e = mk()
    return e, Packed(e, 's', ELEM[T], CX[T], empty, full)


def cl(T):
    return 'boofcv::PackedSet<%s>::' % CX[T]


def element(e, T, name='element'):
    """const T& argument"""
    r = e.ex.region(name, 'obj')
    vs = []
    for o, t in comp(T):
        v = e.scalar('%s%d' % (name, o), t)
        e.setf(r, o, TYPES[t][0], v)
        vs.append((o, v))
    e.keep[r] = dict(e.ex.mem.obj[r])
    return ptr(r), vs


def invariant(e, s, total, n):
    """class invariant and size afterwards; blocks[i] is block i for every block"""
    e.require('number-of-sets', eq(s.nsets(), n))
    e.require('total', eq(s.now('_total_element'), total))
    e.require('block-size-kept', eq(s.now('_size_of_block'), s.S))
    nb = s.now('_number_of_blocks')
    e.require('capacity', and_(le(total, mul(nb, s.S)), ge(nb, s.nb)))
    p = s.now('blocks')
    if len(p.alts) != 1:
        raise Unsupported('ambiguous blocks')
    B, = e.vars(('B', 0, nb))
    r = p.alts[0][1]
    e.require('block-table-alive', and_(not_(r.freed), eq(r.length(), nb)))
    e.ensure('block-table', e.ex.read(r, 0, B, e.guard), B)
    return nb


def infos(e, s, n, start, size):
    """every set k in [0,n) starts at start(k) and has size(k) elements"""
    K, = e.vars(('K', 0, n))
    a = start(K)
    e.require('set-start', and_(ge(a, 0), eq(add(mul(s.info(K, 0), s.S), s.info(K, 4)), a), lt(s.info(K, 4), s.S)))
    e.ensure('set-size', s.info(K, 8), size(K))


def contents(e, s, T, total, new=None):
    """linear element i=B*S+R, i<total, keeps its value except for the new one"""
    B, R = e.vars(('EB', 0, M31), ('ER', 0, s.S))
    e.assume(lt(add(mul(B, s.S), R), total))
    e.reach()
    for o, t in comp(T):
        was = s.blocks.initial(B, R, o)
        if new is not None:
            was = ite(eq(add(mul(B, s.S), R), s.total), dict(new)[o], was)
        e.ensure('element+%d' % o, s.blocks.now(B, R, o), was)


def old_size(s):
    return lambda k: sub(s.start(add(k, 1)), s.start(k))


def starts(e, s, k):
    """instance of the class invariant"""
    s.vinit(0, k)
    return s.start(k)


def start_new_set(mk, T, empty):
    e, s = setup(mk, T, empty)
    e.run(cl(T) + 'start_new_set', [s])
    e.normal_exit()
    e.frame((s.V, 'all'), objs=[s])
    invariant(e, s, s.total, add(s.n, 1))
    if not empty:
        contents(e, s, T, s.total)
    infos(e, s, add(s.n, 1), lambda k: ite(eq(k, s.n), s.total, starts(e, s, k)), lambda k: ite(eq(k, s.n), ZERO, old_size(s)(k)))


def push_tail(mk, T, empty, full):
    e, s = setup(mk, T, empty, full)
    p, v = element(e, T)
    cap = mul(s.nb, s.S)
    if not full:
        e.assume(lt(s.total, cap))
    if full:
        e.assume(le(mul(add(s.nb, 1), s.S), M31))
    e.run(cl(T) + 'push_tail', [s, p])
    e.normal_exit()
    e.frame((s.blocks.D, 'all'), (s.V, 'all'), objs=[s])
    n = ONE if empty else s.n
    nb = invariant(e, s, add(s.total, 1), n)
    contents(e, s, T, add(s.total, 1), v)
    infos(e, s, n, lambda k: ZERO if empty else starts(e, s, k),
          lambda k: ONE if empty else add(old_size(s)(k), ite(eq(k, sub(n, 1)), ONE, ZERO)))


def remove_tail(mk, T, empty):
    e, s = setup(mk, T, empty)
    e.run(cl(T) + 'remove_tail', [s])
    e.normal_exit()
    e.frame(objs=[s])
    n = ZERO if empty else sub(s.n, 1)
    invariant(e, s, starts(e, s, n) if not empty else ZERO, n)
    if not empty:
        contents(e, s, T, s.start(n))
        infos(e, s, n, lambda k: starts(e, s, k), old_size(s))


def clear(mk, T):
    e, s = setup(mk, T, None)
    e.run(cl(T) + 'clear', [s])
    e.normal_exit()
    e.frame(objs=[s])
    invariant(e, s, ZERO, ZERO)


def size_of_tail(mk, T, empty):
    e, s = setup(mk, T, empty)
    e.run(cl(T) + 'size_of_tail', [s])
    e.normal_exit()
    e.frame()
    e.ensure('size', e.retval('U32'), ZERO if empty else old_size(s)(sub(s.n, 1)))


def number_of_sets(mk, T):
    e, s = setup(mk, T, None)
    e.run(cl(T) + 'number_of_sets', [s])
    e.normal_exit()
    e.frame()
    e.ensure('count', e.retval('U32'), s.n)


def at(mk, T):
    e, s = setup(mk, T, None)
    i, j = e.int('set'), e.int('element')
    starts(e, s, i)
    e.run(cl(T) + 'at', [s, i, j])
    e.normal_exit(throws=or_(ge(i, s.n), ge(j, old_size(s)(i))))
    e.frame()
    e.reach()
    lin = add(s.start(i), j)
    g = e.ex.ptr_cmp('eq', e.ret, ptr(s.blocks.D, mul(s.blocks.es, s.blocks.index(lin))), TRUE)
    e.require('is-the-element', g)
    e.require('element-exists', and_(lt(fdiv(lin, s.S), s.nb), lt(mod(lin, s.S), s.S)))


def load_set(mk, T):
    e, s = setup(mk, T, None)
    i = e.int('set')
    m = e.int('m', hi=M31)
    v = Vec(e, 'output', ELEM[T], m)
    starts(e, s, i)
    e.run(cl(T) + 'load_set', [s, i, v])
    e.normal_exit(throws=ge(i, s.n))
    e.frame((v.data, m, const(1 << 40)), objs=[type('o', (), dict(obj=v.obj, data=None))])
    size = old_size(s)(i)
    e.require('appended', eq(v.size(), add(m, size)))
    K, = e.vars(('K', 0, add(m, size)))
    e.reach()
    lin = add(s.start(i), sub(K, m))
    for o, t in comp(T):
        e.ensure('element+%d' % o, v.now(K, o), ite(lt(K, m), v.elem(K, o), e.ex.initread(s.blocks.D, o, s.blocks.index(lin))))


def write_set(mk, T):
    e, s = setup(mk, T, None)
    i = e.int('set')
    m = e.int('m', hi=M31)
    v = Vec(e, 'input', ELEM[T], m)
    starts(e, s, i)
    size = old_size(s)(i)
    e.run(cl(T) + 'write_set', [s, i, v])
    e.normal_exit(throws=or_(ge(i, s.n), not_(eq(m, size))))
    e.frame((s.blocks.D, 'all'))
    B, R = e.vars(('EB', 0, M31), ('ER', 0, s.S))
    lin = add(mul(B, s.S), R)
    e.assume(lt(lin, s.total))
    e.reach()
    for o, t in comp(T):
        k = sub(lin, s.start(i))
        e.ensure('element+%d' % o, s.blocks.now(B, R, o), ite(and_(ge(k, 0), lt(k, size)), v.elem(k, o), s.blocks.initial(B, R, o)))


def construct(mk, T, default):
    e = mk()
    S = const(2000) if default else e.int('S', lo=1, hi=M31)
    b = Blocks(e, 's.elem', ELEM[T], S, ZERO)
    r = e.ex.region('s', 'obj')
    e.ex.mem.obj[r] = {}
    r.vecat = const(e.mod.consts['PackedSet.set_info'])
    e.run(cl(T) + ('PackedSet()' if default else 'PackedSet(unsigned int)'), [ptr(r)] + ([] if default else [S]))
    e.normal_exit()
    f = lambda n: e.ex.simp(e.ex.mem.obj[r][e.mod.consts['PackedSet.' + n]][1], e.guard)
    e.require('one-block', eq(f('_number_of_blocks'), 1))
    e.require('block-size', eq(f('_size_of_block'), S))
    e.require('empty', eq(f('_total_element'), 0))
    p = f('blocks')
    e.require('block-table', bool_(len(p.alts) == 1 and p.alts[0][1].kind == 'arr'))
    t = p.alts[0][1]
    e.require('block-table-length', eq(t.length(), 1))
    e.ensure('block-0', e.ex.read(t, 0, ZERO, e.guard), ZERO)


def release(mk, T):
    e, s = setup(mk, T, None)
    e.run(cl(T) + '~PackedSet', [s])
    e.normal_exit()
    e.require('table-released', s.blocks.P.freed)
    B, = e.vars(('B', 0, s.nb))
    e.ensure('every-block-released-once', e.ex.read(s.blocks.F, 0, B, e.guard), ONE)


JOBS = []
for t in ELEM:
    JOBS += [('PackedSet<%s>(%s)' % (t, 'default' if d else 'n'), construct, dict(T=t, default=d)) for d in (True, False)]
    JOBS += [('~PackedSet<%s>' % t, release, dict(T=t))]
for t in ELEM:
    for em in (True, False):
        s = 'empty' if em else 'non-empty'
        JOBS += [('start_new_set<%s>[%s]' % (t, s), start_new_set, dict(T=t, empty=em)),
                 ('remove_tail<%s>[%s]' % (t, s), remove_tail, dict(T=t, empty=em)),
                 ('size_of_tail<%s>[%s]' % (t, s), size_of_tail, dict(T=t, empty=em)),
                 ('push_tail<%s>[%s,room]' % (t, s), push_tail, dict(T=t, empty=em, full=False))]
    JOBS += [('push_tail<%s>[non-empty,new block]' % t, push_tail, dict(T=t, empty=False, full=True)),
             ('clear<%s>' % t, clear, dict(T=t)), ('number_of_sets<%s>' % t, number_of_sets, dict(T=t)),
             ('at<%s>' % t, at, dict(T=t)), ('load_set<%s>' % t, load_set, dict(T=t)), ('write_set<%s>' % t, write_set, dict(T=t))]
PROP = Prop('C05', SPEC, JOBS, driver='C05.cpp',
            assumptions=['std::vector is a sequence with its documented operations (trusted model)',
                         'blocks are disjoint allocations; the blocks of a set together hold at most 2^31 elements',
                         'the block size is positive'])
