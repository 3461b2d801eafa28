"""Contract vocabulary: objects of the real classes in a symbolic state, preconditions, postconditions, frames."""
import time
from .term import *
from . import term as tm
from .term import _byid
from . import solver
from .solver import check, satisfiable
from .exec import Exec, Region, Ptr, NULL, ptr, Unsupported, Obl, short, vite

TYPES = {
    'U8': (1, 'I', 0, 255), 'S8': (1, 'I', -128, 127), 'U16': (2, 'I', 0, 65535), 'S16': (2, 'I', -32768, 32767),
    'S32': (4, 'I', -2 ** 31, 2 ** 31 - 1), 'U32': (4, 'I', 0, 2 ** 32 - 1),
    'S64': (8, 'I', -2 ** 63, 2 ** 63 - 1), 'F32': (4, 'F32', None, None), 'F64': (8, 'F64', None, None)}
CXX = {'U8': 'unsigned char', 'S8': 'signed char', 'U16': 'unsigned short', 'S16': 'short', 'S32': 'int',
       'U32': 'unsigned int', 'S64': 'long', 'F32': 'float', 'F64': 'double'}
SUM = {'U8': 'U32', 'S16': 'S32', 'U16': 'U32', 'S32': 'S32', 'S64': 'S64', 'F32': 'F32', 'F64': 'F64'}
M31 = 2 ** 31


def typed(r, typ):
    """gives storage that was never accessed element by element its element type"""
    if r is not None and r.kind == 'arr' and r.es is None:
        es, so, lo, hi = TYPES[typ]
        r.es, r.sort = es, so
    return r


class Failed(Exception):
    pass


def is_f(t):
    return t in ('F32', 'F64')


def wrap(x, t):
    """value of the mathematical integer x stored in integer type t"""
    es, s, lo, hi = TYPES[t]
    m = hi - lo + 1
    if lo == 0:
        return mod(x, m)
    return sub(mod(add(x, -lo), m), -lo)


class Gray:
    """view of a Gray<T> (or Interleaved<T>) object"""

    def __init__(self, env, name, typ, obj, data, w, h, off, stride, sub_, L, cls='Gray', nb=None):
        self.env, self.name, self.typ, self.obj, self.data = env, name, typ, obj, data
        self.w, self.h, self.off, self.stride, self.sub, self.L = w, h, off, stride, sub_, L
        self.cls, self.nb = cls, nb

    def key(self, f):
        return self.env.lay[(self.cls, self.typ, f)]

    @property
    def ptr(self):
        return ptr(self.obj)

    def addr(self, x, y, b=None):
        """index in the data array, initial shape"""
        if self.nb is not None:
            return add(self.off, mul(y, self.stride), mul(x, self.nb), b or ZERO)
        return add(self.off, mul(y, self.stride), x)

    def pix(self, x, y, b=None):
        """initial pixel value"""
        es, s, lo, hi = TYPES[self.typ]
        return self.env.ex.initread(self.data, 0, self.addr(P(x), P(y), b))

    # ---- final state
    def field(self, f, mem=None):
        mem = mem or self.env.ex.mem
        v = mem.obj[self.obj][self.key(f)][1]
        v = self.env.ex.simp(v, self.env.guard)
        if isinstance(v, T) and v.sort == 'I' and f in ('width', 'height', 'offset', 'stride', 'data_length', 'num_bands'):
            v = self.env.ex.canon_u(v, 32, self.env.guard)
        return v

    def now(self):
        """the view after the call"""
        d = self.field('data')
        if len(d.alts) != 1:
            raise Unsupported('ambiguous data pointer of %s' % self.name)
        g = Gray(self.env, self.name, self.typ, self.obj, typed(d.alts[0][1], self.typ), self.field('width'), self.field('height'),
                 self.field('offset'), self.field('stride'), self.field('subimage'), self.field('data_length'),
                 self.cls, self.field('num_bands') if self.nb is not None else None)
        g.doff = d.alts[0][2]
        return g


class Grow:
    """view of a GrowArray<T> object"""

    def __init__(self, env, name, typ, obj, data, size, L, dv, can):
        self.env, self.name, self.typ, self.obj, self.data = env, name, typ, obj, data
        self.size, self.L, self.dv, self.can = size, L, dv, can

    @property
    def ptr(self):
        return ptr(self.obj)

    def elem(self, i):
        return self.env.ex.initread(self.data, 0, P(i))

    def field(self, f, mem=None):
        env = self.env
        v = env.ex.simp((mem or env.ex.mem).obj[self.obj][env.lay[('GrowArray', self.typ, f)]][1], env.guard)
        if f in ('size', 'array_length'):
            v = env.ex.canon_u(v, 32, env.guard)
        return v

    def now(self):
        d = self.field('data')
        if len(d.alts) != 1 or d.alts[0][2] is not ZERO:
            raise Unsupported('ambiguous data pointer of %s' % self.name)
        return Grow(self.env, self.name, self.typ, self.obj, typed(d.alts[0][1], self.typ), self.field('size'), self.field('array_length'),
                    self.field('default_value'), self.field('can_resize'))


class Env:
    """one contract case: symbolic state, execution, obligations"""

    def __init__(self, module, name, contracts=(), budget=400):
        self.ex = Exec(module, contracts, budget=budget)
        self.mod = module
        self.name = name
        self.ex.prefix = name + '/'
        self.lay = module.layout
        self.guard = TRUE
        self.ret = None
        self.pre = []
        self.keep = {}          # obj regions -> initial fields
        self.vacuity = []
        self.normal = None

    # ---------------- state
    def assume(self, *fs):
        for f in fs:
            if f is not TRUE:
                self.ex.facts.append(f)

    def int(self, name, typ='U32', lo=None, hi=None):
        es, s, l, h = TYPES[typ]
        return var(name, l if lo is None else lo, h if hi is None else hi)

    def scalar(self, name, typ):
        es, s, l, h = TYPES[typ]
        if s != 'I':
            return fvar(name, s)
        return var(name, l, h)

    def bool(self, name):
        return bvar(name)

    def array(self, name, typ, n, heap=None):
        es, s, lo, hi = TYPES[typ]
        r = self.ex.region(name, 'arr', es=es, sort=s, lo=lo, hi=hi, nbytes=mul(es, n))
        r.ftypes[0] = (s, lo, hi)
        r.heap = heap
        return r

    def setf(self, r, off, size, v):
        self.ex.mem.obj.setdefault(r, {})[off] = (size, v)

    def vtable(self, r, cls, typ):
        sym = self.mod.vtables.get((cls, typ))
        if sym:
            g = self.ex.regions.get('g:' + sym)
            if g is None:
                g = Region(sym, 'global')
                self.ex.regions['g:' + sym] = g
            self.setf(r, 0, 8, ptr(g, 16))

    def gray(self, name, typ, owned=None, data=None, cls='Gray', dims=None, nb=None):
        """image satisfying the class invariant. owned: None = unknown, True, False"""
        w, h = dims or (var(name + '.w', 0, M31 - 1), var(name + '.h', 0, M31 - 1))
        L = var(name + '.len', 0, M31)
        row = w
        if cls == 'Interleaved':
            nb = var(name + '.nb', 0, M31 - 1) if nb is None else nb
            row = mul(w, nb)
            self.assume(le(row, M31))
        if owned is True:
            off, st = ZERO, row
            sub_ = ZERO
            self.assume(le(mul(h, row), L))
        else:
            off, st = var(name + '.off', 0, M31), var(name + '.stride', 0, M31)
            if owned is False:
                sub_ = ONE
            else:
                sub_ = var(name + '.sub', 0, 1)
                self.assume(implies(eq(sub_, 0), and_(eq(off, 0), eq(st, row))))
            self.assume(ge(st, row), le(add(off, mul(sub(h, 1), st), row), L), le(mul(h, row), M31))
            self.assume(le(mul(h, st), 2 * M31))
        r = self.ex.region(name, 'obj')
        if data is None:
            data = self.array(name + '.data', typ, L, heap=None if owned is False else '_Znam')
        self.vtable(r, cls, typ)
        ly = lambda f: self.lay[(cls, typ, f)]
        for f, v, s in (('width', w, 4), ('height', h, 4), ('offset', off, 4), ('stride', st, 4),
                        ('subimage', sub_, 1), ('data', ptr(data), 8), ('data_length', L, 4)):
            self.setf(r, ly(f), s, v)
        if nb is not None:
            self.setf(r, ly('num_bands'), 4, nb)
        g = Gray(self, name, typ, r, data, w, h, off, st, sub_, L, cls, nb)
        self.keep[r] = dict(self.ex.mem.obj[r])
        return g

    def blank(self, name, cls, typ):
        """storage for an object that a constructor is going to build"""
        r = self.ex.region(name, 'obj')
        self.ex.mem.obj[r] = {}
        if cls == 'GrowArray':
            return Grow(self, name, typ, r, None, None, None, None, None)
        return Gray(self, name, typ, r, None, None, None, None, None, None, None, cls, True if cls == 'Interleaved' else None)

    def pointer(self, name, p, region, index, es):
        """p points to element 'index' of the region, which lies inside of its storage"""
        g = self.ex.ptr_cmp('eq', p, ptr(region, mul(es, index)), TRUE)
        self.require(name, g)
        self.require(name + '-in-storage', and_(ge(index, 0), lt(index, region.length())))

    def grow(self, name, typ, can=None, size=None):
        """GrowArray satisfying the class invariant. can: can_resize (None: unknown)"""
        es, so, lo, hi = TYPES[typ]
        L = var(name + '.array_length', 0, M31)
        n = var(name + '.size', 0, M31) if size is None else size
        self.assume(le(n, L))
        r = self.ex.region(name, 'obj')
        data = self.array(name + '.data', typ, L, heap=None if can is False else '_Znam')
        dv = self.scalar(name + '.default', typ)
        c = b2i(self.bool(name + '.can_resize')) if can is None else const(int(can))
        ly = lambda f: self.lay[('GrowArray', typ, f)]
        for f, v, s in (('data', ptr(data), 8), ('size', n, 4), ('array_length', L, 4), ('default_value', dv, es),
                        ('can_resize', c, 1)):
            self.setf(r, ly(f), s, v)
        g = Grow(self, name, typ, r, data, n, L, dv, c)
        self.keep[r] = dict(self.ex.mem.obj[r])
        return g

    def object(self, name, cls, **fields):
        """object of a class without a view of its own: fields name=(offset constant, size, value)"""
        r = self.ex.region(name, 'obj')
        self.ex.mem.obj.setdefault(r, {})
        for f, (size, v) in fields.items():
            self.setf(r, self.mod.consts['%s.%s' % (cls, f)], size, v)
        self.keep[r] = dict(self.ex.mem.obj[r])
        return ptr(r)

    def objfield(self, p, cls, f):
        return self.ex.simp(self.ex.mem.obj[p.alts[0][1]][self.mod.consts['%s.%s' % (cls, f)]][1], self.guard)

    def elem(self, g, i):
        """final element of a GrowArray; obliges that it lies inside of the storage"""
        n = g.now()
        self.require('%s-element-in-storage' % g.name, and_(ge(i, 0), lt(i, n.data.length())))
        return self.ex.read(n.data, 0, P(i), self.guard)

    OUT_CASES = ('match', 'grow', 'reuse', 'view')

    def out_gray(self, name, typ, w, h, case, cls='Gray'):
        """an output image in one of the cases: same shape (any kind of image), owned of a different shape (storage too
        small / large enough), view of a different shape"""
        if case == 'match':
            return self.gray(name, typ, None, dims=(w, h), cls=cls)
        if case == 'view':
            g = self.gray(name, typ, False, cls=cls)
        else:
            g = self.gray(name, typ, True, cls=cls)
            self.assume(gt(mul(w, h), g.L) if case == 'grow' else le(mul(w, h), g.L))
        self.assume(or_(not_(eq(g.w, w)), not_(eq(g.h, h))))
        return g

    # ---------------- run
    def find(self, key):
        """function whose demangled name starts with / matches the key"""
        fs = [self.mod.func(n) for n in self.mod.find(lambda d: self._match(d, key))]
        if not fs:
            raise Unsupported('function not found: %s' % key)
        if len(fs) > 1:
            # constructors and destructors have several identical variants
            names = sorted(f.name for f in fs)
            dn = set(f.dname for f in fs)
            if len(dn) > 1:
                raise Unsupported('ambiguous: %s %s' % (key, names))
        return fs[0]

    @staticmethod
    def _match(d, key):
        if callable(key):
            return key(d)
        i = d.find(key)
        return i >= 0 and (i == 0 or d[i - 1] == ' ') and (key.endswith(')') or key.endswith('(') or d[i + len(key):i + len(key) + 1] in ('(', '<'))

    def run(self, key, args, contract=None):
        fn = key if not isinstance(key, str) and not callable(key) else self.find(key)
        self.fn = fn
        self.pre = list(self.ex.facts)
        v = satisfiable(self.ex.facts)
        self.vacuity.append(('precondition', v))
        if v == 'unsat':
            raise Failed('contradictory precondition in ' + self.name)
        a = [x.ptr if hasattr(x, 'ptr') else x for x in args]
        self.ex.top = contract
        self.ret, self.normal = self.ex.call_function(fn, a, TRUE)
        self.throwc = or_(*[t[0] for t in self.ex.throws])
        return self.ret

    def retval(self, typ):
        """returned value as a value of the (integer) type"""
        es, s, lo, hi = TYPES[typ]
        if s != 'I':
            return self.ret
        return (self.ex.canon_u if lo == 0 else self.ex.canon_s)(self.ex.simp(self.ret, self.guard), es * 8, self.guard)

    def normal_exit(self, throws=FALSE):
        """the call returns normally exactly when not 'throws'. Continues in the normal-return state."""
        self.require('throws-exactly-when', iff(self.throwc, throws), where='exception')
        self.assume(not_(throws))
        if self.normal is FALSE:
            self.fail('returns', 'no normal return')
        self.guard = TRUE
        if self.normal is not TRUE:
            self.assume(self.normal)

    def always_throws(self, nothing_written=True, typ=None):
        self.require('always-throws', self.throwc)
        if nothing_written:
            for g, t, w, mem in self.ex.throws:
                self.unchanged('refused-before-writing', mem, g)

    def unchanged(self, what, mem, guard=TRUE, skip=()):
        """all memory that existed before is as it was"""
        for r, d in self.keep.items():
            if r in skip:
                continue
            for o, (s, v) in d.items():
                cur = mem.obj[r].get(o)
                if cur is None:
                    self.fail(what + '(%s)' % r.name, 'layout')
                elif not self.same(cur[1], v):
                    self.require('%s(%s+%d)' % (what, r.name, o), self.eqv(cur[1], v), facts=[guard])
                else:
                    self.ok('%s(%s+%d)' % (what, r.name, o))
        for (r, f), node in mem.arr.items():
            if r.fresh or r in skip:
                continue
            if node[0] != 'init':
                self.frame1(what, r, f, node, [], [guard])

    @staticmethod
    def same(a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.alts == b.alts
        return a is b

    def eqv(self, a, b):
        if isinstance(a, Ptr):
            return self.ex.ptr_cmp('eq', a, b, TRUE)
        return eq(a, b)

    # ---------------- obligations
    def ok(self, name):
        self.ex.obls.append(Obl('%s%s' % (self.ex.prefix, name), name, True, 'proved', 'syntactic', 0.0, None, None, ''))

    def fail(self, name, why, status='failed', model=None):
        self.ex.obls.append(Obl('%s%s' % (self.ex.prefix, name), name, False, status, 'spec', 0.0, why, model, ''))

    def require(self, name, goal, facts=(), where=None, hard=True):
        F = self.ex.facts + list(facts)
        if self.guard is not TRUE:
            F.append(self.guard)
        if goal is TRUE:
            r = solver.Result(True, 'proved', 'syntactic')
        else:
            r = check(F, goal)
            if not r and hard:
                r = check(F, goal, hard=True)
        self.ex.obls.append(Obl('%s%s' % (self.ex.prefix, name), name, r.ok, r.status, r.by, r.secs,
                                None if r.ok else show(goal), r.model, where or ''))
        return r.ok

    def ensure(self, name, a, b, facts=()):
        """a == b for all values of the free variables"""
        t0 = time.time()
        pr = Prover(self.ex, time.time() + 120)
        ok = pr.prove(a, b, self.ex.facts + list(facts))
        by = 'syntactic' if ok and not pr.used else '+'.join(sorted(pr.used)) if ok else 'eq'
        st = 'proved' if ok else pr.status
        self.ex.obls.append(Obl('%s%s' % (self.ex.prefix, name), name, ok, st, by, time.time() - t0,
                                None if ok else pr.why, pr.model, ''))
        return ok

    def vars(self, *rng):
        """fresh universally quantified variables: (name, lo, hi) lo<=v<hi"""
        out = []
        for nm, lo, hi in rng:
            v = fresh(nm)
            self.assume(ge(v, lo), lt(v, hi))
            out.append(v)
        return out

    def reach(self, what=''):
        v = satisfiable(self.ex.facts)
        self.vacuity.append((what or 'post', v))

    def pixel(self, img, x, y, b=None):
        """final pixel value; obliges that the address lies inside the storage"""
        n = img.now()
        a = n.addr(x, y, b)
        self.require('%s-address-in-storage' % img.name, and_(ge(a, 0), lt(a, n.data.length())))
        if getattr(n, 'doff', ZERO) is not ZERO:
            raise Unsupported('data pointer into the middle')
        v = self.ex.read(n.data, 0, a, self.guard)
        es, so, lo, hi = TYPES[img.typ]
        if so == 'I':       # the stored bits as a value of the pixel type
            v = (self.ex.canon_u if lo == 0 else self.ex.canon_s)(v, 8 * es, self.guard)
        return v

    def shape(self, img, w, h):
        n = img.now()
        self.require(img.name + '-shape', and_(eq(n.w, w), eq(n.h, h)))
        return n

    def invariant(self, img, g=None):
        n = g or img.now()
        row = n.w if n.nb is None else mul(n.w, n.nb)
        self.require(img.name + '-invariant', and_(ge(n.stride, row), ge(n.off, 0),
                     or_(le(mul(n.h, row), 0), le(add(n.off, mul(sub(n.h, 1), n.stride), row), n.L))))
        self.require(img.name + '-storage-length', eq(n.data.length(), n.L))
        self.require(img.name + '-owned-offset', or_(eq(n.sub, 1), and_(eq(n.off, 0), eq(n.stride, row))))

    # ---------------- frames
    def frame(self, *writes, fields=(), objs=()):
        """only pixels of the images in 'writes' (inside their final shape) and fresh storage may change;
        object fields may change only for objects in writes / listed (obj region, offset)"""
        foot = {}
        skip = set(x.obj for x in objs)
        for img in writes:
            if isinstance(img, tuple):              # (region, lo, hi) elements or (region, 'all')
                foot.setdefault(img[0], []).append(img[1:])
                continue
            n = img.now()
            foot.setdefault(n.data, []).append((ZERO, n.L) if isinstance(n, Grow) else n)
            skip.add(img.obj)
        mem = self.ex.mem
        for r, d in self.keep.items():
            if r in skip:
                continue
            for o, (s, v) in d.items():
                if (r, o) in fields:
                    continue
                cur = mem.obj[r].get(o)
                if cur is None:
                    self.fail('frame(%s+%d)' % (r.name, o), 'layout')
                elif self.same(cur[1], v):
                    self.ok('frame(%s+%d)' % (r.name, o))
                else:
                    self.require('frame(%s+%d)' % (r.name, o), self.eqv(cur[1], v))
        for (r, f), node in list(mem.arr.items()):
            if r.fresh or node[0] == 'init' or ('all',) in foot.get(r, []):
                continue
            self.frame1('frame', r, f, node, foot.get(r, []), [])
        for r in self.ex.regions.values():
            if not r.fresh and r.freed is not FALSE:
                owners = [img for img in list(writes) + list(objs) if not isinstance(img, tuple) and getattr(img, 'data', None) is r]
                if not owners and any(r in getattr(o, 'owned', ()) for o in objs):
                    continue
                if not owners:
                    self.require('not-freed(%s)' % r.name, not_(r.freed))
                else:
                    o = owners[0]
                    own = eq(o.sub, 0) if isinstance(o, Gray) else not_(eq(o.can, 0))
                    self.require('not-freed-unless-owned(%s)' % r.name, or_(not_(r.freed), own))

    def frame1(self, what, r, f, node, foot, facts):
        nm = '%s(%s)' % (what, r.name)
        bad = self.walk(r, f, node, foot, self.ex.facts + facts)
        if bad is None:
            self.ok(nm)
        else:
            self.fail(nm, bad[0], bad[1], bad[2])

    def walk(self, r, f, node, foot, F):
        while True:
            k = node[0]
            if k in ('init', 'lm'):
                return None
            if k == 'store':
                _, guard, idx, val, below, inst = node
                if not self.inside(idx, foot, F + [guard]):
                    res = check(F + [guard], FALSE)
                    if not res:
                        return ('write outside the footprint: %s[%s] at %s' % (r.name, show(idx), self.loc(inst)),
                                'refuted' if not foot else 'unknown', res.model)
                node = below
            elif k in ('fill', 'copy'):
                guard, lo, hi, below, inst = node[1], node[2], node[3], node[-2], node[-1]
                p = fresh('$p')
                G = F + [guard, ge(p, lo), lt(p, hi)]
                if not self.inside_range(lo, hi, foot, F + [guard]) and not self.inside(p, foot, G):
                    res = check(G, FALSE)
                    if not res:
                        return ('block write outside the footprint: %s[%s..%s)' % (r.name, show(lo), show(hi)),
                                'refuted' if not foot else 'unknown', res.model)
                node = below
            elif k == 'loop':
                _, li, upto, below = node
                np = P(li.n)
                b = self.walk(r, f, li.body[(r, f)], foot, F + [ge(np, 0), lt(np, upto)] + li.facts)
                if b is not None:
                    return b
                node = below
            else:
                raise Unsupported('frame ' + k)

    @staticmethod
    def loc(inst):
        return '%s:%d' % (short(inst.blk.fn.dname), inst.line) if inst is not None else '?'

    def inside(self, idx, foot, F):
        for n in foot:
            if isinstance(n, tuple):      # (lo, hi) element range
                if check(F, and_(ge(idx, n[0]), lt(idx, n[1]))):
                    return True
                continue
            row = n.w if n.nb is None else mul(n.w, n.nb)
            if check(F, and_(eq(n.off, 0), eq(n.stride, row), ge(idx, 0), lt(idx, mul(n.h, row)))):
                return True         # densely packed
            for Q, R in self.decompose(sub(idx, n.off), n.stride):
                if check(F, and_(ge(Q, 0), lt(Q, n.h), ge(R, 0), lt(R, row))):
                    return True
            if check(F, and_(ge(sub(idx, n.off), 0), lt(sub(idx, n.off), row), ge(n.h, 1))):
                return True
        return False

    def inside_range(self, lo, hi, foot, F):
        for n in foot:
            if isinstance(n, tuple):
                if check(F, or_(le(hi, lo), and_(ge(lo, n[0]), le(hi, n[1])))):
                    return True
                continue
            row = n.w if n.nb is None else mul(n.w, n.nb)
            cnt = sub(hi, lo)
            if check(F, and_(eq(n.off, 0), eq(n.stride, row), ge(lo, 0), le(hi, mul(n.h, row)))):
                return True         # densely packed
            for Q, R in self.decompose(sub(lo, n.off), n.stride):
                if check(F, or_(le(cnt, 0), and_(ge(Q, 0), lt(Q, n.h), ge(R, 0), le(add(R, cnt), row)))):
                    return True
        return False

    def decompose(self, d, stride):
        """candidates d = stride*Q + R"""
        out = []
        at = as_atom(stride)
        cands = []
        if at is not None:
            cands.append(at)
        else:
            for m, c in stride.args:
                for x in m:
                    cands.append(_byid[x])
        for a in cands:
            if at is not None:
                Q, R = div_by_atom(d, a)
            else:
                # stride is a product: exact division of the divisible part
                q = div_exact(sub(d, self.rest(d, stride)), stride)
                if q is None:
                    continue
                Q, R = q, self.rest(d, stride)
            for k in (0, 1, -1):
                out.append((add(Q, k), sub(R, scale(stride, k))))
        if not out:
            out.append((ZERO, d))
        return out

    @staticmethod
    def rest(d, stride):
        """monomials of d not divisible by the leading monomial of the stride"""
        if len(stride.args) != 1:
            return d
        (sm, sc), = stride.args
        r = ZERO
        for m, c in d.args:
            l = list(m)
            ok = True
            for x in sm:
                if x in l:
                    l.remove(x)
                else:
                    ok = False
            if not ok or c % sc:
                r = add(r, tm._poly({m: c}))
        return r


def iff(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


class Prover:
    """equality of two terms under facts: case splits, substitution of equalities, congruence, extensionality of sums
    and folds. Every leaf is decided by the solver."""

    def __init__(self, ex, deadline):
        self.ex, self.deadline = ex, deadline
        self.used = set()
        self.status = 'unknown'
        self.why = None
        self.model = None
        self.splits = 0

    def note(self, r):
        if r.by:
            self.used.add(r.by)

    def chk(self, F, g, timeout=3000, hard=False):
        r = check(F, g, timeout=timeout, hard=hard)
        if r:
            self.note(r)
        return r

    def prove(self, a, b, F, depth=0):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return bool(self.chk(F, self.ex.ptr_cmp('eq', a, b, TRUE)))
        if a is b:
            return True
        if time.time() > self.deadline:
            self.status = 'timeout'
            self.why = self.why or 'time budget: %s == %s' % (show(a), show(b))
            return False
        a, b = self.simp(a, b, F)
        if a is b:
            return True
        c = self.pick(a, b)
        if c is None:
            return self.leaf(a, b, F, depth)
        # is the condition decided?
        if self.chk(F, c, timeout=1200):
            return self.prove(*self.assign(a, b, c, True, F), F, depth)
        nc = not_(c)
        if self.chk(F, nc, timeout=1200):
            return self.prove(*self.assign(a, b, c, False, F), F, depth)
        self.splits += 1
        if self.splits > 400:
            self.status = 'timeout'
            self.why = 'too many cases'
            return False
        for val in (True, False):
            f = c if val else nc
            a2, b2 = self.assign(a, b, c, val, F)
            F2 = F + [f]
            m = self.eqsub(f)
            if m:
                a2, b2 = subst(a2, m), subst(b2, m)
                F2 = F2 + [subst(x, m) for x in F]
            if not self.prove(a2, b2, F2, depth):
                return False
        return True

    def simp(self, a, b, F):
        return a, b

    def eqsub(self, f):
        """{atom: term} from an equality with a unit coefficient variable"""
        for x in conj(f):
            if x.op == 'eq0':
                p = x.args[0]
                for m, c in p.args:
                    if len(m) == 1 and abs(c) == 1:
                        at = _byid[m[0]]
                        if at.op == 'var':
                            rest = sub(p, scale(P(at), c))
                            if at not in rest.fv:
                                return {at: scale(rest, -c)}
        return None

    def pick(self, a, b):
        """condition of an ite that is not under a binder"""
        best = None
        for t in (a, b):
            c = self.find_ite(t, set())
            if c is not None:
                return c
        return None

    def find_ite(self, t, seen):
        if not isinstance(t, T) or t in seen:
            return None
        seen.add(t)
        if t.op == 'ite':
            c = t.args[0]
            # innermost first for conditions containing ites
            x = self.find_ite(c, seen)
            if x is not None:
                return x
            l = conj(c)
            return l[0] if l else c
        if t.op == 'poly':
            for m, c in t.args:
                for x in m:
                    r = self.find_ite(_byid[x], seen)
                    if r is not None:
                        return r
            return None
        if t.op in ('psum',):
            return self.find_ite(t.args[2], seen)
        if t.op == 'fold':
            return self.find_ite(t.args[2], seen) or self.find_ite(t.args[3], seen)
        if t.op in ('rd', 'uf', 'lm', 'fop'):
            for x in t.args:
                if isinstance(x, tuple):
                    for y in x:
                        r = self.find_ite(y, seen)
                        if r is not None:
                            return r
                elif isinstance(x, T):
                    r = self.find_ite(x, seen)
                    if r is not None:
                        return r
            return None
        for x in t.args:
            if isinstance(x, T):
                r = self.find_ite(x, seen)
                if r is not None:
                    return r
            elif isinstance(x, tuple):
                for y in x:
                    r = self.find_ite(y, seen)
                    if r is not None:
                        return r
        return None

    def assign(self, a, b, c, val, F):
        m = {}
        memo = {}

        def go(t):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            if not isinstance(t, T):
                return t
            if t in memo:
                return memo[t]
            if t is c:
                r = TRUE if val else FALSE
            elif t is nc:
                r = FALSE if val else TRUE
            elif t.op == 'poly':
                r = ZERO
                for mo, k in t.args:
                    p = const(k)
                    for x in mo:
                        p = mul(p, P(go(_byid[x])))
                    r = add(r, p)
            elif t.op in ('var', 'bvar', 'fvar', 'true', 'false', 'fconst'):
                r = t
            elif t.op == 'and' or t.op == 'or':
                r = (and_ if t.op == 'and' else or_)(*[go(x) for x in t.args])
            elif t.op == 'psum':
                r = t if c not in sub_of(t) else tm.rebuild(t, go)
            elif t.op == 'fold':
                r = t if c not in sub_of(t) and nc not in sub_of(t) else tm.rebuild(t, go)
            else:
                r = tm.rebuild(t, go)
            memo[t] = r
            return r
        nc = not_(c)

        def sub_of(t):
            return set(subterms(t))
        return go(a), go(b)

    def leaf(self, a, b, F, depth):
        if a.sort == 'I':
            d = sub(a, b)
            if d is ZERO:
                return True
            d2 = self.match_sums(d, F, depth)
            if d2 is ZERO:
                return True
            r = self.chk(F, eq(d2, ZERO), timeout=4000)
            if r:
                return True
            # single atoms with the same head: congruence
            x, y = as_atom(a), as_atom(b)
            if x is None and len(atoms_of(d2)) == 2 and all(len(m) <= 1 for m, c in d2.args):
                ps = [(m, c) for m, c in d2.args]
                if len(ps) == 2 and ps[0][1] == -ps[1][1]:
                    x, y = _byid[ps[0][0][0]], _byid[ps[1][0][0]]
            if x is not None and y is not None and self.congr(x, y, F, depth):
                return True
            if self.atom_pairs(d2, F, depth):
                return True
            r = self.chk(F, eq(d2, ZERO), timeout=8000, hard=True)
            if r:
                return True
            self.report(a, b, F, r)
            return False
        if a.sort == 'B':
            r = self.chk(F, iff(a, b), hard=True)
            if not r:
                if a.op == 'fcmp' and b.op == 'fcmp' and self.congr(a, b, F, depth):
                    return True
                self.report(a, b, F, r)
            return bool(r)
        if self.congr(a, b, F, depth):
            return True
        r = self.chk(F, eq(a, b), timeout=4000, hard=True)
        if r:
            return True
        self.report(a, b, F, r)
        return False

    def report(self, a, b, F, r):
        if self.why is None or depth_of(self.why) < 0:
            self.why = '%s\n     ==  %s' % (show(a), show(b))
            self.status = r.status
            self.model = r.model

    def quiet(self, f):
        w, s, m = self.why, self.status, self.model
        r = f()
        if not r:
            self.why, self.status, self.model = w, s, m
        return r

    def congr(self, x, y, F, depth):
        if x is y:
            return True
        if depth > 8 or x.op != y.op:
            return False
        if x.op == 'fop':
            if x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]):
                return False
            if self.quiet(lambda: all(self.prove(p, q, F, depth + 1) for p, q in zip(x.args[1], y.args[1]))):
                return True
            if x.args[0] in ('fadd', 'fmul') and len(x.args[1]) == 2:
                return self.quiet(lambda: all(self.prove(p, q, F, depth + 1) for p, q in zip(x.args[1], reversed(y.args[1]))))
            return False
        if x.op == 'i2f':
            return self.quiet(lambda: self.prove(x.args[0], y.args[0], F, depth + 1))
        if x.op == 'f2i':
            return x.args[1:] == y.args[1:] and self.quiet(lambda: self.prove(x.args[0], y.args[0], F, depth + 1))
        if x.op == 'rd':
            return x.args[0] == y.args[0] and bool(self.chk(F, eq(x.args[1], y.args[1])))
        if x.op == 'fcmp':
            return x.args[0] == y.args[0] and self.quiet(lambda: all(self.prove(p, q, F, depth + 1) for p, q in zip(x.args[1:], y.args[1:])))
        if x.op in ('div', 'mod', 'sdiv'):
            return self.quiet(lambda: all(self.prove(p, q, F, depth + 1) for p, q in zip(x.args, y.args)))
        if x.op == 'uf':
            if x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]):
                return False
            return self.quiet(lambda: all(self.prove(p, q, F, depth + 1) for p, q in zip(x.args[1], y.args[1])))
        if x.op == 'fold':
            return self.fold_eq(x, y, F, depth)
        return False

    def fold_eq(self, x, y, F, depth):
        d1, b1, i1, n1, r1 = x.args
        d2, b2, i2, n2, r2 = y.args
        if n1 is not n2 and not self.chk(F, eq(n1, n2)):
            return False
        if not self.quiet(lambda: self.prove(i1, i2, F, depth + 1)):
            return False
        k = fresh('$fk')
        acc = fresh('$fa', x.sort)
        ats = lambda t: as_atom(t) if t.sort == 'I' else t
        s1 = subst(b1, {as_atom(bound_k(d1)): k, ats(bound_acc(d1, x.sort)): acc})
        s2 = subst(b2, {as_atom(bound_k(d2)): k, ats(bound_acc(d2, x.sort)): acc})
        F = F + [ge(k, 0), lt(k, n1)]
        if r1 or r2:
            if r1 and r2 and r1 != r2:
                return False
            lo, hi = r1 or r2
            F = F + [ge(acc, lo), le(acc, hi)]
            if r1 != r2:
                for v in (s1, i1):
                    if not self.chk(F, and_(ge(v, lo), le(v, hi))):
                        return False
        return self.quiet(lambda: self.prove(s1, s2, F, depth + 1))

    def atom_pairs(self, d, F, depth):
        """proves d=0 by matching atoms of opposite coefficient with equal heads"""
        if depth > 4:
            return False
        pos, neg_ = [], []
        rest = ZERO
        for m, c in d.args:
            if len(m) == 1 and _byid[m[0]].op in ('div', 'mod', 'sdiv', 'fold', 'rd', 'f2i', 'uf'):
                (pos if c > 0 else neg_).append((_byid[m[0]], abs(c), m))
            else:
                rest = add(rest, tm._poly({m: c}))
        if not pos or len(pos) != len(neg_):
            return False
        neg2 = list(neg_)
        for x, c, m in pos:
            for y in neg2:
                if y[1] == c and self.congr(x, y[0], F, depth + 1):
                    neg2.remove(y)
                    break
            else:
                return False
        return rest is ZERO or bool(self.chk(F, eq(rest, ZERO)))

    def match_sums(self, d, F, depth):
        """cancels pairs of sums with provably equal bodies"""
        if depth > 6:
            return d
        for _ in range(12):
            groups = {}
            for m, c in d.args:
                ps = [x for x in m if _byid[x].op == 'psum']
                if len(ps) == 1:
                    l = list(m)
                    l.remove(ps[0])
                    at = _byid[ps[0]]
                    groups.setdefault((at.args[0], at.args[1], tuple(l)), []).append((c, at.args[2], m))
            gs = [(k, v) for k, v in groups.items() if len(v) == 2]
            done = False
            for i in range(len(gs)):
                for j in range(i + 1, len(gs)):
                    (d1, b1, l1), v1 = gs[i]
                    (d2, b2, l2), v2 = gs[j]
                    if l1 != l2 or b1.sort != b2.sort:
                        continue
                    r = self.pair(d1, b1, v1, d2, b2, v2, F, depth)
                    if r:
                        for c, idx, m in v1 + v2:
                            d = sub(d, tm._poly({m: c}))
                        done = True
                        break
                if done:
                    break
            if not done:
                return d
        return d

    def pair(self, d1, b1, v1, d2, b2, v2, F, depth):
        p1 = {c: idx for c, idx, m in v1}
        p2 = {c: idx for c, idx, m in v2}
        cs = sorted(p1)
        if len(cs) != 2 or cs[0] != -cs[1] or sorted(p2) != cs:
            return False
        c = cs[1]
        hi1, lo1 = p1[c], p1[-c]
        hi2, lo2 = p2[-c], p2[c]       # opposite sign
        if not (lo1 is lo2 or self.chk(F, eq(lo1, lo2), timeout=1500)):
            # the shift normalisation may have moved the index: align
            s = sub(lo2, lo1)
            if not self.chk(F, eq(sub(hi2, hi1), s), timeout=1500):
                return False
        else:
            s = ZERO
            if not (hi1 is hi2 or self.chk(F, eq(hi1, hi2), timeout=1500)):
                return False
        k = fresh('$sk')
        x = subst(P(b1), {as_atom(bound_k(d1)): k})
        y = subst(P(b2), {as_atom(bound_k(d2)): add(k, s)})
        return self.quiet(lambda: self.prove(x, y, F + [ge(k, lo1), lt(k, hi1)], depth + 1))


def depth_of(x):
    return 0


def fold2(w, h, init, step):
    """acc <- step(acc, x, y) over all pixels, row by row"""
    x, y = fresh('fx'), fresh('fy')
    a, b = fresh('fa', init.sort), fresh('fb', init.sort)
    inner = fold(x, a, b, step(a, x, y), w)
    return fold(y, b, init, inner, h)


def sum2(w, h, f):
    x, y = fresh('sx'), fresh('sy')
    return sum_(y, 0, h, sum_(x, 0, w, f(x, y)))


def fzero(sort):
    return fconst(0.0, sort)
