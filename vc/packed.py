"""Symbolic PackedSet: the blocks are slices of one ghost address space, spaced BIG elements apart, so that a pointer to
element r of block b is index b*BIG+r. std::vector is modelled as a sequence (trusted)."""
from .term import *
from . import term as tm
from .externs import hook, ret
from .exec import Ptr, ptr, NULL, Region, Unsupported, FieldTy
from .spec import TYPES, M31

BIG = 1 << 40
U64 = FieldTy(8, 'I')
U32T = FieldTy(4, 'I')
PTRT = FieldTy(8, 'ptr')


def split_block(q):
    """index -> (block, index inside of the block); sound for any syntactic split because the bounds are obliged"""
    b, r = ZERO, ZERO
    for m, c in P(q).args:
        t = tm._poly({m: 1})
        h = (c + BIG // 2) // BIG
        if h:
            b = add(b, scale(t, h))
        if c - h * BIG:
            r = add(r, scale(t, c - h * BIG))
    return b, r


class Blocks:
    def __init__(self, env, name, typ, S, nb):
        """typ: name of a scalar type or a tuple of (offset, scalar type)"""
        ex = self.ex = env.ex
        self.env, self.typ, self.S, self.nb = env, typ, S, nb
        self.fields = [(0, typ)] if isinstance(typ, str) else list(typ)
        self.es = sum(TYPES[t][0] for o, t in self.fields)
        t0 = TYPES[self.fields[0][1]]
        D = self.D = ex.region(name, 'arr', es=self.es, sort=t0[1], lo=t0[2], hi=t0[3], nbytes=None)
        D.fsizes = {}
        for o, t in self.fields:
            s = TYPES[t]
            D.ftypes[o] = (s[1], s[2], s[3])
            D.fsizes[o] = s[0]
        D.heap = '_Znam'
        D.boundsfn = self.bounds
        D.deallocator = self.dealloc
        self.fresh = []             # (id, guard)
        self.F = ex.region(name + '.released', 'arr', es=1, sort='I', nbytes=None)
        self.F.ftypes[0] = ('I', None, None)        # how often block i was released
        self.F.init = lambda f, p: ZERO
        self.F.boundsfn = lambda *a: None
        self.P = self.parray(name + '.blocks', nb)
        self.P.init = lambda f, p: p
        ex.allocator = self.alloc

    def parray(self, name, n):
        r = self.ex.region(name, 'arr', es=8, sort='I', nbytes=mul(8, n))
        r.heap = '_Znam'
        self.pconf(r)
        return r

    def pconf(self, r):
        r.ftypes[0] = ('I', None, None)
        r.ptrload = lambda ex, idx, f, guard: ptr(self.D, mul(self.es * BIG, ex.read(r, 0, idx, guard)))

        def st(ex, idx, f, v, guard):
            v = ex.simp(v, guard)
            if len(v.alts) != 1 or v.alts[0][1] is not self.D:
                raise Unsupported('block pointer')
            b, k = split_block(div_exact(v.alts[0][2], P(self.es)))
            if k is not ZERO:
                raise Unsupported('block pointer into the middle')
            ex.mem.arr[(r, 0)] = ('store', guard, idx, b, ex.node(r, 0), self.inst)
            if ex.written is not None:
                ex.written.add((r, 0, 'arr'))
        r.ptrstore = st

    inst = None

    def live(self, b):
        return or_(and_(ge(b, 0), lt(b, self.nb)), *[and_(eq(b, i), g) for i, g in self.fresh])

    def bounds(self, ex, off, size, guard, inst, what):
        q = div_exact(off, P(self.es))
        if q is None:
            k = dict(off.args).get((), 0) % self.es
            q = div_exact(sub(off, k), P(self.es))
            if q is None:
                q = ex.div_ite(off, self.es)
            if q is None:
                raise Unsupported('misaligned element')
        b, r = split_block(q)
        ex.oblige(what + '-block-exists', guard, self.live(b), inst)
        ex.oblige(what + '-inside-of-block', guard, and_(ge(r, 0), lt(r, self.S)), inst)

    def alloc(self, ex, name, n, inst, guard):
        if name != '_Znam':
            return None
        n = ex.simp(n, guard)
        if sub(n, mul(self.es, self.S)) is ZERO and self.S is not ONE:
            i = self.nextid(ex)
            if not ex.probe:
                self.fresh.append((i, guard))
            return ptr(self.D, mul(self.es * BIG, i))
        r = ex.newregion('new@%d' % inst.line, 'arr', nbytes=n)
        r.heap = name
        r.born_in = getattr(ex, 'loopdepth', 0)
        r.alloc_guard = guard
        if div_exact(n, P(8)) is None:
            raise Unsupported('allocation')
        r.es, r.sort = 8, 'I'
        self.pconf(r)
        return ptr(r)

    def nextid(self, ex):
        if ex.loopvars:             # one block per iteration
            return ex.loopvars[-1]
        return add(self.nb, len(self.fresh))

    def dealloc(self, ex, off, guard, inst, name):
        q = div_exact(off, P(self.es))
        b, r = split_block(q)
        ex.oblige('delete-of-allocated-start', guard, eq(r, ZERO), inst)
        ex.oblige('delete-of-existing-block', guard, self.live(b), inst)
        ex.oblige('delete-matches-new', guard, bool_(name.startswith('_Zda')), inst)
        ex.mem.arr[(self.F, 0)] = ('store', guard, b, add(ex.read(self.F, 0, b, guard), 1), ex.node(self.F, 0), inst)
        if ex.written is not None:
            ex.written.add((self.F, 0, 'arr'))

    # content
    def index(self, i):
        """ghost index of linear element i"""
        return add(scale(fdiv(i, self.S), BIG), mod(i, self.S))

    def initial(self, b, r, f=0):
        return self.ex.initread(self.D, f, add(scale(b, BIG), r))

    def now(self, b, r, f=0):
        return self.ex.read(self.D, f, add(scale(b, BIG), r), self.env.guard)


class Packed:
    """PackedSet satisfying its class invariant: set k starts at linear element start(k) and ends at start(k+1)"""

    def __init__(self, env, name, typ, cxx, empty=False, full=False):
        ex = env.ex
        self.env, self.typ = env, typ
        S = self.S = env.int(name + '.S', lo=1, hi=M31)
        nb = self.nb = env.int(name + '.nb', lo=1, hi=M31)
        total = self.total = mul(nb, S) if full else env.int(name + '.total', lo=0, hi=M31 - 1)
        n = self.n = ZERO if empty else env.int(name + '.n', lo=0 if empty is None else 1, hi=M31 - 1)
        env.assume(le(mul(nb, S), M31), le(total, mul(nb, S)))
        # a block index / remainder as the code computes them
        self.blocks = Blocks(env, name + '.elem', typ, S, nb)
        sn = name + '.start'
        self.sname = sn
        env.assume(eq(self.start(ZERO), 0), eq(self.start(n), total))
        V = self.V = ex.region(name + '.set_info', 'arr', es=12, sort='I', lo=0, hi=2 ** 32 - 1, nbytes=None)
        V.fsizes = {0: 4, 4: 4, 8: 4}
        for f in (0, 4, 8):
            V.ftypes[f] = ('I', 0, 2 ** 32 - 1)
        V.init = self.vinit
        V.sizeof = None
        r = self.obj = ex.region(name, 'obj')
        c = env.mod.consts
        o = lambda f: c['PackedSet.' + f]
        env.setf(r, o('blocks'), 8, ptr(self.blocks.P))
        env.setf(r, o('_number_of_blocks'), 4, nb)
        env.setf(r, o('_size_of_block'), 4, S)
        env.setf(r, o('_total_element'), 4, total)
        vo = self.vo = o('set_info')
        env.setf(r, vo, 8, n)
        env.setf(r, vo + 8, 8, ptr(V))
        V.boundsfn = self.vbounds
        V.esize = 12
        env.keep[r] = dict(ex.mem.obj[r])
        self.owned = (self.blocks.P,)       # replaced by a larger table when a block is added
        # lemma: total < nb*S  =>  total div S < nb
        env.assume(implies(lt(total, mul(nb, S)), lt(fdiv(total, S), nb)))

    @property
    def ptr(self):
        return ptr(self.obj)

    def start(self, k):
        return uf(self.sname, (P(k),), 'I', 0, M31)

    def vinit(self, f, p):
        """initial set_info[p]; only meaningful for 0<=p<n, where the invariant is instantiated"""
        ex = self.env.ex
        a, b = self.start(p), self.start(add(p, 1))
        fact = implies(and_(ge(p, 0), lt(p, self.n)), and_(ge(a, 0), le(a, b), le(b, self.total)))
        if fact not in ex.facts:
            ex.facts.append(fact)
        self.env.assume_late = getattr(self.env, 'assume_late', []) + [fact]
        return fdiv(a, self.S) if f == 0 else mod(a, self.S) if f == 4 else sub(b, a)

    def vbounds(self, ex, off, size, guard, inst, what):
        n = ex.mem.obj[self.obj][self.vo][1]
        k = dict(off.args).get((), 0) % 12
        q = div_exact(sub(off, k), P(12))
        if q is None:
            raise Unsupported('set_info index')
        ex.oblige(what + '-set-exists', guard, and_(ge(q, 0), lt(q, n)), inst)

    def now(self, f):
        env = self.env
        v = env.ex.simp(env.ex.mem.obj[self.obj][env.mod.consts['PackedSet.' + f]][1], env.guard)
        return v if isinstance(v, Ptr) else env.ex.canon_u(v, 32, env.guard)

    def nsets(self):
        env = self.env
        return env.ex.simp(env.ex.mem.obj[self.obj][self.vo][1], env.guard)

    def info(self, k, f):
        env = self.env
        return env.ex.canon_u(env.ex.read(self.V, f, P(k), env.guard), 32, env.guard)


# ---------------------------------------------------------------- std::vector as a sequence: {size, data}
VEC = r'std::vector<[^()]*>::'


def fld(p, o):
    return Ptr([(g, r, add(x, o)) for g, r, x in p.alts])


def vsize(ex, p, guard, inst):
    return ex.load(p, U64, guard, inst)


def vdata(ex, p, guard, inst):
    d = ex.load(fld(p, 8), PTRT, guard, inst)
    if len(d.alts) != 1:
        raise Unsupported('vector data')
    return d.alts[0][1]


def isvec(ex, p):
    if isinstance(p, Ptr) and len(p.alts) == 1 and getattr(p.alts[0][1], 'vecat', None) == p.alts[0][2]:
        return True
    return isinstance(p, Ptr) and all(r is not None and r.kind == 'obj' for g, r, o in p.alts) and \
        all(any(s == 8 and isinstance(v, Ptr) and getattr(v.alts[0][1], 'esize', None) for o2, (s, v) in ex.mem.obj.get(r, {}).items()
                if o2 == cval(o) + 8) for g, r, o in p.alts)


def vhook(rx):
    def d(f):
        @hook(VEC + rx)
        def h(ex, name, dn, inst, args, guard):
            if not args or not isvec(ex, args[0]):
                return None
            ex.trusted.add('std::vector (modelled as a sequence: size, back, push_back, pop_back, clear, at, operator[])')
            return f(ex, inst, args, guard)
        return h
    return d


@vhook(r'size\(\)')
def v_size(ex, inst, args, guard):
    return ret(vsize(ex, args[0], guard, inst), guard)


@vhook(r'~?vector\(\)')
def v_dtor(ex, inst, args, guard):
    return ret(None, guard)


@vhook(r'empty\(\)')
def v_empty(ex, inst, args, guard):
    return ret(eq(vsize(ex, args[0], guard, inst), 0), guard)


@vhook(r'clear\(\)')
def v_clear(ex, inst, args, guard):
    ex.store(args[0], ZERO, U64, guard, inst)
    return ret(None, guard)


@vhook(r'back\(\)')
def v_back(ex, inst, args, guard):
    n, d = vsize(ex, args[0], guard, inst), vdata(ex, args[0], guard, inst)
    ex.oblige('back-of-non-empty-vector', guard, ge(n, 1), inst)
    return ret(ptr(d, mul(d.esize, sub(n, 1))), guard)


@vhook(r'pop_back\(\)')
def v_pop(ex, inst, args, guard):
    n = vsize(ex, args[0], guard, inst)
    ex.oblige('pop_back-of-non-empty-vector', guard, ge(n, 1), inst)
    ex.store(args[0], sub(n, 1), U64, guard, inst)
    return ret(None, guard)


@vhook(r'(at|operator\[\])\(unsigned long\)')
def v_at(ex, inst, args, guard):
    n, d = vsize(ex, args[0], guard, inst), vdata(ex, args[0], guard, inst)
    i = ex.canon_u(args[1], 64, guard)
    if 'at(' in ex.mod.dn.get(inst.x.v, ''):
        bad = ge(i, n)
        if not ex.in_range(sub(n, i), 1, 1 << 64, guard):
            ex.throw(and_(guard, bad), inst, 'std')
            guard = and_(guard, not_(bad))
    else:
        ex.oblige('vector-index', guard, lt(i, n), inst)
    return ret(ptr(d, mul(d.esize, i)), guard)


@vhook(r'push_back\(')
def v_push(ex, inst, args, guard):
    n, d = vsize(ex, args[0], guard, inst), vdata(ex, args[0], guard, inst)
    ex.store(args[0], add(n, 1), U64, guard, inst)
    src = ex.simp(args[1], guard)
    if len(src.alts) != 1:
        raise Unsupported('push_back source')
    _, r, off = src.alts[0]
    for f in sorted(d.ftypes):
        so = d.ftypes[f][0]
        ty = FieldTy(d.fsizes[f], so)
        v = ex.load1(r, add(off, f), ty, guard, inst)
        ex.store1(d, add(mul(d.esize, n), f), v, ty, guard, inst)
    return ret(None, guard)


class Vec:
    """std::vector<T> of scalars or records"""

    def __init__(self, env, name, typ, n):
        ex = env.ex
        self.env, self.n = env, n
        fields = [(0, typ)] if isinstance(typ, str) else list(typ)
        t0 = TYPES[fields[0][1]]
        es = sum(TYPES[t][0] for o, t in fields)
        d = self.data = ex.region(name + '.data', 'arr', es=es, sort=t0[1], lo=t0[2], hi=t0[3], nbytes=None)
        d.fsizes = {}
        for o, t in fields:
            s = TYPES[t]
            d.ftypes[o] = (s[1], s[2], s[3])
            d.fsizes[o] = s[0]
        d.esize = es
        r = self.obj = ex.region(name, 'obj')
        env.setf(r, 0, 8, n)
        env.setf(r, 8, 8, ptr(d))
        env.keep[r] = dict(ex.mem.obj[r])

        def bounds(ex, off, size, guard, inst, what):
            k = dict(off.args).get((), 0) % es
            q = div_exact(sub(off, k), P(es))
            ex.oblige(what + '-vector-element-exists', guard, and_(ge(q, 0), lt(q, ex.mem.obj[r][0][1])), inst)
        d.boundsfn = bounds

    @property
    def ptr(self):
        return ptr(self.obj)

    def size(self):
        return self.env.ex.simp(self.env.ex.mem.obj[self.obj][0][1], self.env.guard)

    def elem(self, i, f=0):
        return self.env.ex.initread(self.data, f, P(i))

    def now(self, i, f=0):
        return self.env.ex.read(self.data, f, P(i), self.env.guard)
