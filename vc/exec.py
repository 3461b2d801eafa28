"""Symbolic execution of LLVM IR for all inputs and all loop iterations.

Path conditions are merged at joins (guards), loops are replaced by closed forms / folds / write comprehensions that are
derived from the body and checked as inductive, calls use contracts or are inlined."""
import sys
import time
from .term import *
from . import term as tm
from .term import _byid
from . import solver
from .solver import check

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Region:
    """kind: obj (fields at constant byte offsets), arr (array of records of es bytes), func, global"""
    _n = 0

    def __init__(self, name, kind, es=None, sort='I', lo=None, hi=None, nbytes=None, fresh=False, init=None):
        self.name, self.kind, self.es, self.sort, self.lo, self.hi = name, kind, es, sort, lo, hi
        self.nbytes = nbytes          # poly or None (obj)
        self.fresh = fresh            # allocated during the run
        self.freed = FALSE
        self.init = init              # optional function idx -> term for the initial content
        self.heap = None              # 'new', 'new[]' or None
        self.ftypes = {}              # field offset -> (size, sort, lo, hi) for records
        self.dead = False
        self.vec = None
        Region._n += 1
        self.id = Region._n

    def __repr__(self):
        return 'R(%s)' % self.name

    def length(self):
        return div_exact(self.nbytes, P(self.es))


class Ptr:
    """guarded pointer: [(cond, region|None, byte offset)]"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr' + repr([(c, r, o) for c, r, o in self.alts])


def ptr(region, off=0):
    return Ptr([(TRUE, region, P(off))])


NULL = Ptr([(TRUE, None, ZERO)])


class FieldTy:
    """type of a field of a record"""

    def __init__(self, size, v):
        s = v if isinstance(v, str) else ('ptr' if isinstance(v, Ptr) else v.sort)
        self.kind = s if s in ('F32', 'F64', 'ptr') else 'int'
        self.size, self.w = size, 8 * size


class PtrPhi:
    """placeholder for an unsolved pointer phi"""

    def __init__(self, region, off):
        self.region, self.off = region, off


def ptr_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 and \
            a.alts[0][1] is b.alts[0][1]:
        return Ptr([(TRUE, a.alts[0][1], ite(c, a.alts[0][2], b.alts[0][2]))])
    out = []
    for g, r, o in a.alts:
        out.append((and_(c, g), r, o))
    for g, r, o in b.alts:
        out.append((and_(not_(c), g), r, o))
    # merge equal targets
    m = {}
    order = []
    for g, r, o in out:
        if g is FALSE:
            continue
        k = (r, o)
        if k in m:
            m[k] = or_(m[k], g)
        else:
            m[k] = g
            order.append(k)
    return Ptr([(m[k], k[0], k[1]) for k in order])


def vite(c, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a is None or b is None:
            return a or b
        return ptr_ite(c, a, b)
    if isinstance(a, tuple):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if a is None:
        return b
    if b is None:
        return a
    return ite(c, a, b)


def veq(a, b):
    """structural equality of values"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.alts == b.alts
    return a is b


class LoopInfo:
    def __init__(self, lid, n):
        self.id, self.n = lid, n      # n: the var atom
        self.body = {}                # (region,f) -> node after one generic iteration (base ('lm',..))
        self.below = {}               # (region,f) -> node before the loop
        self.facts = []
        self.T = None


class LState:
    """contents of memory; copied at loop boundaries"""

    def __init__(self):
        self.obj = {}                 # region -> {off: (size, value)}
        self.arr = {}                 # (region,f) -> node

    def copy(self):
        s = LState()
        s.obj = {r: dict(d) for r, d in self.obj.items()}
        s.arr = dict(self.arr)
        return s


class Obl:
    __slots__ = ('name', 'kind', 'ok', 'status', 'by', 'secs', 'goal', 'model', 'where')

    def __init__(self, name, kind, ok, status, by, secs, goal, model, where):
        self.name, self.kind, self.ok, self.status, self.by, self.secs = name, kind, ok, status, by, secs
        self.goal, self.model, self.where = goal, model, where


def natural_loops(fn):
    if fn.loops is not None:
        return fn.loops
    blocks = fn.blocks
    preds = {b: [] for b in blocks}
    for b in blocks:
        for s in b.succs:
            preds[s].append(b)
    # reverse post order
    seen = set()
    order = []
    st = [(blocks[0], iter(blocks[0].succs))]
    seen.add(blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    # dominators
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a, c = p, new
                while a is not c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                new = a
            if idom.get(b) is not new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]

    loops = {}
    for b in order:
        for s in b.succs:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(p for p in preds[x] if p in idx)
            elif s in idx and idx[s] <= idx[b]:
                raise Unsupported('irreducible control flow')
    fn.loops = (order, idx, preds, loops)
    return fn.loops


class Frame:
    def __init__(self, fn, args, uid, depth):
        self.fn, self.args, self.uid, self.depth = fn, args, uid, depth
        self.env = {}
        self.rets = []


class Exec:
    def __init__(self, module, contracts=(), log=None, budget=600):
        self.mod = module
        self.loopvars = []
        self.contracts = list(contracts)   # objects with match(dname) and apply(ex, fn, args, guard)
        self.top = None
        self.facts = []                    # global facts (preconditions) and facts of enclosing loops
        self.mem = LState()
        self.obls = []
        self.throws = []
        self.probe = 0
        self.prefix = ''
        self.uid = 0
        self.nreg = 0
        self.regions = {}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted = set()
        self.assumptions = set()
        self.deadline = time.time() + budget
        self.loopstack = []
        self.canon_cache = {}
        self.strict_alloc = True
        self.written = None
        self.uidpath = ()

    # ------------------------------------------------------------------ helpers
    def region(self, *a, **k):
        r = Region(*a, **k)
        self.regions[r.name] = r
        return r

    def newregion(self, base, kind, **k):
        if base in self.regions:
            self.nreg += 1
            base = '%s#%d' % (base, self.nreg)
        r = self.region(base, kind, fresh=True, **k)
        r.born_in = getattr(self, 'loopdepth', 0)
        return r

    def oblige(self, kind, guard, goal, inst=None, where=None, hard=True, facts=()):
        if self.probe:
            return True
        if goal is TRUE:
            r = solver.Result(True, 'proved', 'syntactic')
        else:
            r = check(self.facts + list(facts) + [guard], goal)
            if not r and hard:
                r = check(self.facts + list(facts) + [guard], goal, hard=True)
        w = where or ''
        if inst is not None:
            w = '%s:%d' % (short(inst.blk.fn.dname), inst.line)
        self.obls.append(Obl('%s%s@%s' % (self.prefix, kind, w), kind, r.ok, r.status, r.by, r.secs,
                             None if r.ok else '%s  |-  %s' % (show(guard), show(goal)), r.model, w))
        return r.ok

    def decide(self, c, guard, facts=()):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        F = self.facts + list(facts) + [guard]
        q = solver.quick(c)
        if q is not None:
            return q
        if check(F, c, timeout=1500):
            return True
        if check(F, not_(c), timeout=1500):
            return False
        return None

    def in_range(self, x, lo, hi, guard):
        """is lo<=x<=hi provable"""
        l, h = solver.interval(x)
        if l is not None and h is not None and l >= lo and h <= hi:
            return True
        F = self.facts + [guard]
        if not (h is not None and h <= hi) and not check(F, le(x, hi), timeout=1500):
            return False
        if not (l is not None and l >= lo) and not check(F, ge(x, lo), timeout=1500):
            return False
        return True

    def canon_u(self, x, w, guard):
        x = P(x)
        m = 1 << w
        if is_const(x):
            return const(cval(x) % m)
        if self.in_range(x, 0, m - 1, guard):
            return x
        y = self.push_ite(x, lambda b, g: self.canon_u(b, w, g), guard)
        if y is not None:
            return y
        # try x + k*2^w, common after signed/unsigned conversions
        for k in (m, -m):
            z = add(x, k)
            if self.in_range(z, 0, m - 1, guard):
                return z
        return mod(x, m)

    def canon_s(self, x, w, guard):
        x = P(x)
        m = 1 << w
        h = m >> 1
        if is_const(x):
            v = cval(x) % m
            return const(v - m if v >= h else v)
        if self.in_range(x, -h, h - 1, guard):
            return x
        y = self.push_ite(x, lambda b, g: self.canon_s(b, w, g), guard)
        if y is not None:
            return y
        for k in (m, -m):
            z = add(x, k)
            if self.in_range(z, -h, h - 1, guard):
                return z
        return sub(mod(add(x, h), m), h)

    def push_ite(self, x, f, guard):
        """x = s*ite(c,a,b)+rest: canonicalise per branch"""
        ites = [a for a in atoms_of(x) if a.op == 'ite']
        if len(ites) != 1 or len(x.args) > 6:
            return None
        a = ites[0]
        c = coeff_of(x, a)
        if c is None:
            return None
        A, B = c
        if not is_const(A):
            return None
        p = f(add(mul(A, a.args[1]), B), and_(guard, a.args[0]))
        q = f(add(mul(A, a.args[2]), B), and_(guard, not_(a.args[0])))
        return ite(a.args[0], p, q)

    def simp(self, v, guard):
        """decides the conditions of top-level ites / guarded pointers under the current facts"""
        if isinstance(v, Ptr):
            if len(v.alts) == 1:
                g, r, o = v.alts[0]
                return Ptr([(TRUE, r, o)]) if g is not TRUE else v
            out = []
            for g, r, o in v.alts:
                d = self.decide(g, guard)
                if d is True:
                    return Ptr([(TRUE, r, o)])
                if d is False:
                    continue
                out.append((g, r, o))
            if len(out) == 1:
                return Ptr([(TRUE, out[0][1], out[0][2])])
            return Ptr(out)
        if not isinstance(v, T):
            return v
        if v.sort == 'I':
            at = as_atom(v)
            if at is not None and at.op == 'ite':
                d = self.decide(at.args[0], guard)
                if d is not None:
                    return self.simp(at.args[1 if d else 2], guard)
            elif v.op == 'poly' and any(a.op == 'ite' for a in atoms_of(v)):
                m = {}
                for a in atoms_of(v):
                    if a.op == 'ite':
                        d = self.decide(a.args[0], guard)
                        if d is not None:
                            m[a] = a.args[1 if d else 2]
                if m:
                    return self.simp(subst(v, m), guard)
        elif v.op == 'ite':
            d = self.decide(v.args[0], guard)
            if d is not None:
                return self.simp(v.args[1 if d else 2], guard)
        return v

    # ------------------------------------------------------------------ memory
    def split(self, region, off, size):
        """byte offset -> (record index, field offset)"""
        es = region.es
        if es is None:
            es = region.es = size
        off = P(off)
        k = dict(off.args).get((), 0)
        f = k % es
        if f + size > es:
            raise Unsupported('access across elements of %s' % region.name)
        if f != 0 and region.ftypes == {} and size != es:
            pass
        q = div_exact(sub(off, f), P(es))
        if q is None:
            q = self.div_ite(sub(off, f), es)
        if q is None and self.probe and any(a.args[0].startswith('$phi') for a in off.fv if a.op == 'var'):
            return fresh('$pi'), f
        if q is None:
            raise Unsupported('offset %s not divisible by %d in %s' % (show(off), es, region.name))
        return q, f

    def div_ite(self, p, es):
        """division of a polynomial with ite atoms by a constant"""
        for a in atoms_of(p):
            if a.op == 'ite':
                c = coeff_of(p, a)
                if c is None or not is_const(c[0]):
                    continue
                x = add(mul(c[0], a.args[1]), c[1])
                y = add(mul(c[0], a.args[2]), c[1])
                qx = div_exact(x, P(es)) or self.div_ite(x, es)
                qy = div_exact(y, P(es)) or self.div_ite(y, es)
                if qx is None or qy is None:
                    return None
                return ite(a.args[0], qx, qy)
        return None

    def bounds(self, region, off, size, guard, inst, what):
        if region.freed is not FALSE:
            self.oblige('use-after-free', guard, not_(region.freed), inst)
        if getattr(region, 'boundsfn', None):
            region.boundsfn(self, P(off), size, guard, inst, what)
        elif region.nbytes is not None:
            self.oblige(what + '-lower-bound', guard, ge(off, 0), inst)
            es = region.es or size
            n = div_exact(region.nbytes, P(es))
            if n is not None and size == es:
                q = div_exact(P(off), P(es))
                if q is None:
                    q = self.div_ite(P(off), es)
                if q is not None:
                    self.oblige(what + '-upper-bound', guard, lt(q, n), inst)
                    return
            self.oblige(what + '-upper-bound', guard, le(add(off, size), region.nbytes), inst)

    def load(self, p, ty, guard, inst):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        p = self.simp(p, guard) if len(p.alts) > 1 else p
        res = None
        for g, r, o in reversed(p.alts):
            if r is None:
                self.oblige('null-dereference', and_(guard, g), FALSE, inst)
                continue
            v = self.load1(r, o, ty, and_(guard, g), inst)
            res = v if res is None else vite(g, v, res)
        if res is None:
            raise Unsupported('load of null')
        return res

    def load1(self, r, off, ty, guard, inst):
        size = ty.size
        if r.kind == 'global':
            if not is_const(off):
                raise Unsupported('global indexed')
            c = self.mod.global_read(r.name, cval(off), ty)
            if c is None:
                raise Unsupported('global ' + r.name)
            return self.cval(c)
        if r.kind == 'obj':
            if r.freed is not FALSE:
                self.oblige('use-after-free', guard, not_(r.freed), inst)
            if not is_const(off):
                raise Unsupported('indexed object %s' % r.name)
            d = self.mem.obj.get(r)
            if d is None:
                d = self.mem.obj[r] = {}
            f = d.get(cval(off))
            if f is None or f[0] != size:
                if f is None and not any(o < cval(off) + size and cval(off) < o + s for o, (s, v) in d.items()):
                    # uninitialised
                    v = self.undef(ty, '%s.%d' % (r.name, cval(off)))
                    d[cval(off)] = (size, v)
                    return v
                raise Unsupported('field %s+%s size %d' % (r.name, show(off), size))
            return f[1]
        if r.kind == 'arr':
            self.bounds(r, off, size, guard, inst, 'read')
            idx, f = self.split(r, off, size)
            if ty.kind == 'ptr':
                h = getattr(r, 'ptrload', None)
                if h:
                    return h(self, idx, f, guard)
                raise Unsupported('pointer array %s' % r.name)
            self.sortfix(r, f, ty)
            return self.read(r, f, idx, guard)
        raise Unsupported('load from %s' % r.kind)

    def sortfix(self, r, f, ty):
        if f not in r.ftypes:
            if ty.kind in ('F32', 'F64'):
                r.ftypes[f] = (ty.kind, None, None)
            else:
                if r.lo is None and r.sort == 'I':
                    r.ftypes[f] = ('I', None, None)
                else:
                    r.ftypes[f] = (r.sort, r.lo, r.hi)
        s = r.ftypes[f][0]
        want = ty.kind if ty.kind in ('F32', 'F64') else 'I'
        if s != want:
            raise Unsupported('type punning in %s' % r.name)

    def node(self, r, f):
        n = self.mem.arr.get((r, f))
        if n is None:
            n = ('init', r, f)
        return n

    def read(self, r, f, idx, guard):
        return self.readfull(self.node(r, f), idx, [guard], r, f)

    def undef(self, ty, name):
        if ty.kind == 'ptr':
            rr = self.newregion('undef.' + name, 'obj')
            return ptr(rr)
        if ty.kind in ('F32', 'F64'):
            return fresh('undef.' + name, ty.kind)
        if ty.kind == 'int':
            if ty.w == 1:
                return fresh('undef.' + name, 'B')
            return fresh('undef.' + name)
        raise Unsupported('undef ' + ty.kind)

    def store(self, p, v, ty, guard, inst):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        p = self.simp(p, guard) if len(p.alts) > 1 else p
        for g, r, o in p.alts:
            if r is None:
                self.oblige('null-dereference', and_(guard, g), FALSE, inst)
                continue
            self.store1(r, o, v, ty, and_(guard, g), inst)

    def store1(self, r, off, v, ty, guard, inst):
        size = ty.size
        if r.kind == 'obj':
            if r.freed is not FALSE:
                self.oblige('use-after-free', guard, not_(r.freed), inst)
            if not is_const(off):
                raise Unsupported('indexed object store %s' % r.name)
            d = self.mem.obj.setdefault(r, {})
            k = cval(off)
            old = d.get(k)
            if old is None or old[0] != size:
                for o, (s, x) in list(d.items()):
                    if o < k + size and k < o + s:
                        del d[o]
                d[k] = (size, v)
            else:
                d[k] = (size, v if self.full(guard) else vite(guard, v, old[1]))
            if self.written is not None:
                self.written.add((r, k))
            return
        if r.kind == 'arr':
            self.bounds(r, off, size, guard, inst, 'write')
            idx, f = self.split(r, off, size)
            if ty.kind == 'ptr':
                h = getattr(r, 'ptrstore', None)
                if h:
                    return h(self, idx, f, v, guard)
                raise Unsupported('pointer array store %s' % r.name)
            self.sortfix(r, f, ty)
            if ty.kind == 'int' and ty.w == 1:
                v = b2i(v)
            v = self.canon_elem(r, f, v, size, guard)
            self.mem.arr[(r, f)] = ('store', guard, idx, v, self.node(r, f), inst)
            if self.written is not None:
                self.written.add((r, f, 'arr'))
            return
        raise Unsupported('store to %s' % r.kind)

    def canon_elem(self, r, f, v, size, guard):
        """elements with a declared range hold canonical values (reads inside of loops rely on the range)"""
        lo, hi = r.ftypes.get(f, (r.sort, r.lo, r.hi))[1:]
        if lo is None or not isinstance(v, T) or v.sort != 'I':
            return v
        if isinstance(lo, T) or isinstance(hi, T):
            self.oblige('stored-value-in-declared-range', guard, and_(ge(v, lo), le(v, hi)))
            return v
        return (self.canon_u if lo >= 0 else self.canon_s)(v, 8 * size, guard)

    def full(self, guard):
        """the guard is implied by the current facts (unconditional store)"""
        if guard is TRUE:
            return True
        fs = set(solver.flatten(self.facts))
        return all(c in fs for c in conj(guard))

    # ---- reading through write layers
    def solve_eq(self, d, facts):
        """d == 0 as a conjunction of simpler equations (unique decomposition off + S*row + column)"""
        d = P(d)
        if is_const(d):
            return bool_(cval(d) == 0)
        for m, c in d.args:
            # c*div(x,S) + mod(x,S) == c*Q + R with 0<=R<S<=c  <=>  x == S*Q+R
            if abs(c) > 1 << 35 and len(m) == 1 and _byid[m[0]].op == 'div':
                x, S = _byid[m[0]].args
                s = 1 if c > 0 else -1
                rest = sub(scale(d, s), add(scale(P(_byid[m[0]]), s * c), mod(x, S)))
                Q, R = ZERO, ZERO
                for m2, c2 in rest.args:
                    (h, l) = divmod(c2 + abs(c) // 2, abs(c))
                    Q = sub(Q, scale(tm._poly({m2: 1}), h))
                    R = sub(R, scale(tm._poly({m2: 1}), l - abs(c) // 2))
                if check(facts, and_(ge(R, 0), lt(R, S), le(S, abs(c))), timeout=2000):
                    return eq(x, add(mul(S, Q), R))
        cands = []
        for m, c in d.args:
            if len(m) > 1:
                for a in m:
                    if a not in cands:
                        cands.append(a)
        if not cands:
            return eq0(d)
        cands.sort(key=lambda a: (_byid[a].op != 'var', -sum(1 for m, c in d.args if a in m), a))
        for a in cands:
            S = _byid[a]
            A, B = div_by_atom(d, S)
            if S in A.fv:
                continue
            Sp = P(S)
            if is_const(B) and cval(B) == 0:
                if check(facts, ge(Sp, 1)):
                    return self.solve_eq(A, facts)
                continue
            if check(facts, lt(B, Sp), timeout=2000) and check(facts, gt(add(B, Sp), 0), timeout=2000):
                return and_(self.solve_eq(A, facts), self.solve_eq(B, facts))
            # off by one row
            for k in (1, -1):
                B2 = add(B, scale(Sp, k))
                A2 = sub(A, k)
                if check(facts, lt(B2, Sp), timeout=1000) and check(facts, gt(add(B2, Sp), 0), timeout=1000):
                    return and_(self.solve_eq(A2, facts), self.solve_eq(B2, facts))
        return eq0(d)

    def readfull(self, node, p, facts, r, f):
        ents, base = self.readlist(node, p, facts, r, f)
        v = base
        for c, x in reversed(ents):
            v = vite(c, x, v)
        return v

    def initread(self, r, f, p):
        if r.init is not None:
            return r.init(f, p)
        sort, lo, hi = r.ftypes.get(f, (r.sort, r.lo, r.hi))
        nm = r.name if f == 0 else '%s.f%d' % (r.name, f)
        return rd(nm, p, sort, lo, hi)

    def readlist(self, node, p, facts, r, f):
        """[(cond, value)...] in order of priority, base value"""
        ents = []
        while True:
            if time.time() > self.deadline:
                raise Unsupported('time budget')
            k = node[0]
            if k == 'init':
                return ents, self.initread(r, f, p)
            if k == 'lm':
                sort, lo, hi = r.ftypes.get(f, (r.sort, r.lo, r.hi))
                nm = r.name if f == 0 else '%s.f%d' % (r.name, f)
                t = mk('lm', (node[1].id, nm, P(p), lo, hi), sort)
                self.lmreg[(node[1].id, nm)] = (node[1], r, f)
                return ents, (P(t) if sort == 'I' else t)
            if k == 'store':
                _, guard, idx, val, below, inst = node
                F = self.facts + facts
                c = self.cond_eq(p, idx, guard, F)
                if c is not FALSE:
                    if c is TRUE:
                        return ents, val
                    ents.append((c, val))
                node = below
                continue
            if k == 'fill':       # ('fill', guard, lo, hi, fn(idx)->val, below)
                _, guard, lo, hi, fn, below, inst = node
                F = self.facts + facts
                c = and_(le(lo, p), lt(p, hi))
                c = self.prune(and_(guard, c), F)
                if c is not FALSE:
                    v = fn(p, F)
                    if c is TRUE:
                        return ents, v
                    ents.append((c, v))
                node = below
                continue
            if k == 'copy':
                _, guard, lo, hi, (r2, f2, snode, sh), below, inst = node
                F = self.facts + facts
                c = self.prune(and_(guard, le(lo, p), lt(p, hi)), F)
                c2 = c
                if c is not TRUE and c is not FALSE:
                    # membership in a row: decompose relative to the row start
                    c2 = self.row_cond(guard, lo, hi, p, F)
                    c = c2 if c2 is not None else c
                if c is not FALSE:
                    v = self.readfull(snode, add(p, sh), facts + [c], r2, f2)
                    if c is TRUE:
                        return ents, v
                    ents.append((c, v))
                node = below
                continue
            if k == 'loop':
                _, li, upto, below = node
                es = self.readloop(li, r, f, upto, p, facts, below)
                if es[0] == 'total':
                    return ents, es[1]
                for c, v in es[1]:
                    if c is TRUE:
                        return ents, v
                    if c is not FALSE:
                        ents.append((c, v))
                node = below
                continue
            raise Exception(k)

    lmreg = {}

    def row_cond(self, guard, lo, hi, p, F):
        """lo<=p<hi as row and column conditions: p-lo = S*A+B with hi-lo<=S"""
        d = sub(p, lo)
        n = sub(hi, lo)
        cands = []
        for m, c in d.args:
            if len(m) > 1:
                for a in m:
                    if a not in cands:
                        cands.append(a)
        cands.sort(key=lambda a: (_byid[a].op != 'var', a))
        G = F + [guard]
        for a in cands:
            S = _byid[a]
            A, B = div_by_atom(d, S)
            if S in A.fv:
                continue
            Sp = P(S)
            if check(G, le(n, Sp)) and check(G, ge(B, 0)) and check(G, lt(B, Sp)):
                # S*A+B in [0,n), n<=S, 0<=B<S   <=>  A==0 and B<n
                return self.prune(and_(guard, self.solve_eq(A, G), lt(B, n)), F)
        # strides that are products
        monos = []
        for m, c in d.args:
            if len(m) > 2:
                for i in range(len(m)):
                    s = m[:i] + m[i + 1:]
                    if s not in monos:
                        monos.append(s)
        for s in monos:
            A, B = ZERO, ZERO
            for m, c in d.args:
                l = list(m)
                for a in s:
                    if a in l:
                        l.remove(a)
                    else:
                        l = None
                        break
                if l is None:
                    B = add(B, tm._poly({m: c}))
                else:
                    A = add(A, tm._poly({tuple(l): c}))
            Sp = tm._poly({s: 1})
            if check(G, le(n, Sp)) and check(G, ge(B, 0)) and check(G, lt(B, Sp)):
                return self.prune(and_(guard, self.solve_eq(A, G), lt(B, n)), F)
        return None

    def cond_eq(self, p, idx, guard, F):
        d = sub(p, idx)
        c = self.solve_eq(d, F + [guard]) if not is_const(d) else bool_(cval(d) == 0)
        if c is FALSE:
            return FALSE
        return self.prune(and_(c, guard), F)

    def prune(self, c, F):
        """drops conjuncts implied by the facts, FALSE when contradictory"""
        if c is TRUE or c is FALSE:
            return c
        fs = set(solver.flatten(F))
        cs = [x for x in conj(c) if x not in fs]
        if any(not_(x) in fs for x in cs):
            return FALSE
        out = []
        for x in cs:
            q = solver.quick(x)
            if q is True:
                continue
            if q is False:
                return FALSE
            if check(F, x, timeout=1000):
                continue
            out.append(x)
        if not out:
            return TRUE
        c2 = and_(*out)
        if c2 is FALSE or check(F, not_(c2), timeout=1000):
            return FALSE
        return c2

    def readloop(self, li, r, f, upto, p, facts, below):
        n = li.n
        if n in p.fv or n in upto.fv or any(n in x.fv for x in facts):
            t = fresh('$r')
            m = {n: t}
            ta = as_atom(t)
            sv = self.facts
            self.facts = [subst(x, m) for x in self.facts]
            try:
                res = self.readloop(li, r, f, subst(upto, m), subst(p, m), [subst(x, m) for x in facts],
                                    self.subst_node(below, m))
            finally:
                self.facts = sv
            back = {ta: P(n)}
            if res[0] == 'total':
                return ('total', subst(res[1], back))
            return ('entries', [(subst(c, back), subst(v, back)) for c, v in res[1]])
        np = P(n)
        body = li.body[(r, f)]
        F2 = facts + [ge(np, 0), lt(np, upto)] + li.facts
        ents, base = self.readlist(body, p, F2, r, f)
        lmself = base
        nm = r.name if f == 0 else '%s.f%d' % (r.name, f)
        istotal = not (base.fv is not None and self.is_lm(base, li, nm, p))
        if not ents and not istotal:
            return ('entries', [])
        if istotal:
            ents = ents + [(TRUE, base)]
        wit = []
        for c, v in ents:
            e = None
            for x in conj(c):
                if x.op == 'eq0':
                    ca = coeff_of(x.args[0], n)
                    if ca is None or n in ca[1].fv or not is_const(ca[0]) or cval(ca[0]) == 0:
                        continue
                    k = cval(ca[0])
                    if abs(k) == 1:
                        e = (scale(ca[1], -k), TRUE)
                        break
                    num = scale(ca[1], -1 if k > 0 else 1)
                    e = (fdiv(num, abs(k)), eq0(mod(num, abs(k))))
                    break
            wit.append(e)
        if all(w is not None for w in wit):
            out = []
            for (c, v), (e, ex) in zip(ents, wit):
                m = {n: e}
                rngc = and_(ge(e, 0), lt(e, upto), ex)
                F = self.facts + facts
                rc = self.prune(rngc, F)
                if rc is FALSE:
                    out.append((FALSE, v, e))
                    continue
                c2 = subst(c, m)
                v2 = subst(v, m) if not isinstance(v, Ptr) else v
                ff = facts + [rc]
                c2 = self.resolve(c2, li, e, ff)
                c2 = self.prune(and_(rc, c2), F)
                if c2 is FALSE:
                    out.append((FALSE, v, e))
                    continue
                v2 = self.resolve(v2, li, e, facts + [c2])
                out.append((c2, v2, e))
            es = [x for x in out if x[0] is not FALSE]
            if len(set(x[2] for x in es)) <= 1:
                return ('entries', [(c, v) for c, v, e in es])
            res = []
            for i, (c, v, e) in enumerate(es):
                cc = c
                for j, (c2, v2, e2) in enumerate(es):
                    if j == i:
                        continue
                    win = gt(e, e2) if j < i else ge(e, e2)
                    cc = and_(cc, or_(not_(c2), win))
                res.append((self.prune(cc, self.facts + facts), v))
            return ('entries', res)
        # the same element may be written by several iterations: fold over the iterations
        sort = base.sort
        acc = fresh('$acc', sort)
        aa = as_atom(acc) if sort == 'I' else acc
        step = acc
        rng = r.ftypes.get(f, (r.sort, r.lo, r.hi))[1:]
        lmt = mk('lm', (li.id, nm, p, *rng), sort)
        F3 = facts + [ge(np, 0), lt(np, upto)] + li.facts
        for c, v in reversed(ents):
            if isinstance(v, T):
                # an index that equals p under the condition: the same element
                own = {}
                for x in subterms(v):
                    if x.op == 'lm' and x.args[0] == li.id and x.args[1] == nm and x is not lmt and \
                            check(self.facts + F3 + [c], eq(x.args[2], p), timeout=1500):
                        own[x] = acc
                if own:
                    v = subst(v, own)
            step = ite(c, v, step)
        step = subst(step, {lmt: acc})
        step = self.resolve(step, li, np, F3, own=(nm, p, acc))
        init = self.readfull(below, p, facts, r, f)
        if n not in step.fv and aa not in step.fv:
            return ('total', self.fold_simple(init, step, upto, facts))
        return ('total', self.mkfold(np, acc, init, step, upto, facts, rng if rng[0] is not None else None))

    def fold_simple(self, init, step, upto, facts):
        d = self.decide(ge(upto, 1), and_(*facts) if facts else TRUE)
        if d is True:
            return step
        if d is False:
            return init
        return ite(ge(upto, 1), step, init)

    def mkfold(self, np, acc, init, step, upto, facts, rng=None):
        """closed form of upto iterations of step"""
        n = as_atom(np)
        sort = step.sort
        aa = as_atom(acc) if sort == 'I' else acc
        if sort == 'I':
            dl = delta(step, acc)
            if dl is not None and aa not in dl.fv:
                if n not in dl.fv:
                    u = self.nonneg(upto, facts)
                    return add(init, mul(dl, u))
                return add(init, sum_(np, ZERO, self.nonneg(upto, facts), dl))
            if rng is not None and not isinstance(rng[0], T) and not isinstance(rng[1], T):
                # accumulation modulo the width of the element
                W = rng[1] - rng[0] + 1
                dl = delta_mod(step, acc, rng[0], W)
                if dl is not None and aa not in dl.fv:
                    u = self.nonneg(upto, facts)
                    s = mul(dl, u) if n not in dl.fv else sum_(np, ZERO, u, dl)
                    return add(mod(sub(add(init, s), rng[0]), W), rng[0])
        if aa not in step.fv:
            # last iteration wins
            d = self.decide(ge(upto, 1), and_(*facts) if facts else TRUE)
            v = subst(step, {n: sub(upto, 1)})
            if d is True:
                return v
            return ite(ge(upto, 1), v, init)
        return fold(np, acc, init, step, self.nonneg(upto, facts), rng)

    def nonneg(self, u, facts):
        q = solver.interval(u)
        if q[0] is not None and q[0] >= 0:
            return u
        if check(self.facts + list(facts), ge(u, 0)):
            return u
        return max_(u, ZERO)

    def is_lm(self, t, li, nm, p):
        a = as_atom(t) if t.sort == 'I' else t
        return a is not None and a.op == 'lm' and a.args[0] == li.id and a.args[1] == nm and a.args[2] is p

    def resolve(self, t, li, upto, facts, own=None, depth=0):
        """replaces reads of loop memory (state at iteration upto) by their closed form"""
        if isinstance(t, Ptr):
            return t
        lms = [x for x in subterms(t) if x.op == 'lm' and x.args[0] == li.id]
        if not lms:
            return t
        if depth > 6:
            raise Unsupported('loop carried array dependence')
        self.rdepth = getattr(self, 'rdepth', 0) + 1
        try:
            if self.rdepth > 24:
                raise Unsupported('loop carried array dependence')
            m = {}
            # innermost first: indices without lm of this loop
            lms.sort(key=lambda x: x.id)
            for x in lms:
                if any(y.op == 'lm' and y.args[0] == li.id for y in subterms(x.args[2])):
                    continue
                bound = [v for v in x.fv if v.op == 'var' and v.args[0].startswith('$k')]
                info = self.lmreg[(x.args[0], x.args[1])]
                _, r, f = info
                q = x.args[2]
                if own is not None and own[0] == x.args[1]:
                    if sub(q, own[1]) is ZERO or check(self.facts + facts, eq(q, own[1])):
                        m[x] = own[2]
                        continue
                    # another element of the same array in a read-modify-write loop
                    raise Unsupported('array recurrence between different elements')
                if bound:
                    # bound variable of an inner sum/fold: its range is unknown here
                    pass
                node = ('loop', li, upto, li.below[(r, f)])
                m[x] = self.readfull(node, q, facts, r, f)
            t2 = subst(t, m)
            return self.resolve(t2, li, upto, facts, own, depth + 1)
        finally:
            self.rdepth -= 1

    def subst_node(self, node, m):
        """substitution in a write layer list"""
        keys = set(m)
        out = []
        while True:
            k = node[0]
            if k in ('init', 'lm'):
                res = node
                break
            if k == 'store':
                out.append(('store', subst(node[1], m), subst(node[2], m),
                            node[3] if isinstance(node[3], Ptr) else subst(node[3], m), node[5]))
                node = node[4]
            elif k == 'fill':
                fn = node[4]
                out.append(('fill', subst(node[1], m), subst(node[2], m), subst(node[3], m),
                            (lambda p, F, fn=fn: subst(fn(p, F), m)), node[6]))
                node = node[5]
            elif k == 'copy':
                r2, f2, sn, sh = node[4]
                out.append(('copy', subst(node[1], m), subst(node[2], m), subst(node[3], m),
                            (r2, f2, self.subst_node(sn, m), subst(sh, m)), node[6]))
                node = node[5]
            elif k == 'loop':
                li = node[1]
                li2 = LoopInfo(li.id, li.n)
                li2.T = li.T
                li2.facts = [subst(x, m) for x in li.facts]
                li2.body = {kk: self.subst_node(b, m) for kk, b in li.body.items()}
                li2.below = {kk: self.subst_node(b, m) for kk, b in li.below.items()}
                out.append(('loop', li2, subst(node[2], m)))
                node = node[3]
        for o in reversed(out):
            if o[0] == 'store':
                res = ('store', o[1], o[2], o[3], res, o[4])
            elif o[0] in ('fill', 'copy'):
                res = (o[0], o[1], o[2], o[3], o[4], res, o[5])
            else:
                res = ('loop', o[1], o[2], res)
        return res

    # ------------------------------------------------------------------ values
    def cval(self, o):
        k = o.kind
        if k == 'const':
            v = o.v
            w = o.ty.w
            if w == 1:
                return bool_(v & 1)
            v &= (1 << w) - 1
            if v >= 1 << (w - 1):
                v -= 1 << w
            return const(v)
        if k == 'fconst':
            return fconst(o.v, o.ty.kind)
        if k == 'null':
            return NULL
        if k == 'undef':
            if o.ty.kind in ('struct',):
                return tuple(None for _ in o.ty.fields)
            return self.undef(o.ty, 'u')
        if k == 'func':
            r = self.regions.get('fn:' + o.v)
            if r is None:
                r = self.region('fn:' + o.v, 'func')
                r.fn = o.v
            return ptr(r)
        if k == 'global':
            r = self.regions.get('g:' + o.v)
            if r is None:
                r = Region(o.v, 'global')
                self.regions['g:' + o.v] = r
            return ptr(r)
        if k == 'gepconst':
            b = self.cval(o.v)
            g, r, off = b.alts[0]
            return ptr(r, add(off, o.extra))
        if k == 'constagg':
            raise Unsupported('aggregate constant')
        raise Unsupported('constant ' + str(o.v))

    def val(self, fr, o):
        if o.kind == 'inst':
            try:
                return fr.env[o.v]
            except KeyError:
                raise Unsupported('value not available: %s %s:%d' % (o.v.op, o.v.blk.fn.dname, o.v.line))
        if o.kind == 'arg':
            return fr.args[o.v]
        return self.cval(o)

    # ------------------------------------------------------------------ functions
    def call_function(self, fn, args, guard, depth=0):
        """inline execution. returns (value, guard of normal return)"""
        if depth > 40:
            raise Unsupported('recursion')
        self.uid += 1
        fr = Frame(fn, args, '%d' % self.uid, depth)
        order, idx, preds, loops = natural_loops(fn)
        self.run(fr, set(order), fn.blocks[0], [(None, guard)], None)
        if not fr.rets:
            return None, FALSE
        val = None
        g = FALSE
        for gg, v in reversed(fr.rets):
            val = v if g is FALSE else vite(gg, v, val)
            g = or_(gg, g)
        return val, g

    def run(self, fr, body, entry, edges, loop_header):
        """executes the acyclic part of a region (nested loops collapsed).
        returns list of (from, to, guard) edges leaving the region or going back to its header"""
        order, idx, preds, loops = natural_loops(fr.fn)
        inc = {entry: list(edges)}
        out = []
        done = set()
        for b in order:
            if b not in body or b not in inc or b in done:
                continue
            es = [(p, g) for p, g in inc[b] if g is not FALSE]
            if not es:
                continue
            g = or_(*[x for _, x in es])
            if g is FALSE:
                continue
            if b in loops and b is not loop_header:
                exits = self.exec_loop(fr, b, loops[b], es, g)
                done |= loops[b]
                for s, d, gg in exits:
                    if d is loop_header or d not in body:
                        out.append((s, d, gg))
                    else:
                        inc.setdefault(d, []).append((s, gg))
                continue
            if not (b is entry and loop_header is b):
                self.phis(fr, b, es)
            for s, gg in self.block(fr, b, g):
                if s is loop_header or s not in body:
                    out.append((b, s, gg))
                else:
                    inc.setdefault(s, []).append((b, gg))
        return out

    def phis(self, fr, b, es):
        new = {}
        for i in b.insts:
            if i.op != 'phi':
                break
            m = {blk: v for v, blk in i.ops}
            val = None
            for p, g in reversed(es):
                v = self.val(fr, m[p])
                if isinstance(v, Ptr) or isinstance(v, (T, tuple)):
                    val = v if val is None else vite(g, v, val)
            new[i] = val
        fr.env.update(new)

    def block(self, fr, b, guard):
        """returns successor edges [(succ, guard)]"""
        if time.time() > self.deadline:
            raise Unsupported('time budget')
        for i in b.insts:
            op = i.op
            if op == 'phi':
                continue
            if op == 'br':
                if not i.ops:
                    return [(b.succs[0], guard)]
                c = self.val(fr, i.ops[0])
                d = self.decide(c, guard)
                if d is True:
                    return [(b.succs[0], guard)]
                if d is False:
                    return [(b.succs[1], guard)]
                return [(b.succs[0], and_(guard, c)), (b.succs[1], and_(guard, not_(c)))]
            if op == 'switch':
                v = self.val(fr, i.ops[0])
                w = i.ops[0].ty.w
                v = self.canon_u(v, w, guard)
                out = []
                rest = TRUE
                for k, s in zip(i.x, b.succs[1:]):
                    c = eq(v, const(k))
                    d = self.decide(c, and_(guard, rest))
                    if d is False:
                        continue
                    if d is True:
                        out.append((s, and_(guard, rest)))
                        rest = FALSE
                        break
                    out.append((s, and_(guard, rest, c)))
                    rest = and_(rest, not_(c))
                if rest is not FALSE:
                    out.append((b.succs[0], and_(guard, rest)))
                # several cases may share a successor
                mg = {}
                for s, g in out:
                    mg[s] = or_(mg[s], g) if s in mg else g
                return list(mg.items())
            if op == 'ret':
                v = self.val(fr, i.ops[0]) if i.ops else None
                fr.rets.append((guard, v))
                return []
            if op == 'unreachable':
                return []
            if op in ('call', 'invoke'):
                v, guard = self.call(fr, i, guard)
                if v is not None:
                    fr.env[i] = v
                if guard is FALSE:
                    return []
                if op == 'invoke':
                    return [(b.succs[0], guard)]
                continue
            if op == 'resume':
                return []
            fr.env[i] = self.inst(fr, i, guard)
        return []

    def boolish(self, x):
        a = as_atom(P(x)) if isinstance(x, T) and x.sort == 'I' else None
        if a is not None and a.op == 'ite' and a.args[1] is ONE and a.args[2] is ZERO:
            return a.args[0]
        if a is not None and a.op == 'ite' and a.args[1] is ZERO and a.args[2] is ONE:
            return not_(a.args[0])
        if isinstance(x, T) and x is ONE:
            return TRUE
        if isinstance(x, T) and x is ZERO:
            return FALSE
        return None

    def inst(self, fr, i, guard):
        op = i.op
        V = lambda k: self.val(fr, i.ops[k])
        w = i.ty.w
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if w == 1:
                raise Unsupported('i1 arithmetic')
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptr_arith(op, a, b)
            return {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
        if op in ('udiv', 'urem'):
            a, b = self.canon_u(V(0), w, guard), self.canon_u(V(1), w, guard)
            self.oblige('division-by-zero', guard, ge(b, 1), i)
            return self.udiv(a, b, op == 'urem', guard)
        if op in ('sdiv', 'srem'):
            a, b = self.canon_s(V(0), w, guard), self.canon_s(V(1), w, guard)
            self.oblige('division-by-zero', guard, not_(eq0(b)), i)
            if self.in_range(a, 0, 1 << w, guard) and self.in_range(b, 0, 1 << w, guard):
                return self.udiv(a, b, op == 'srem', guard)
            if op == 'srem' and self.in_range(b, 1, 1 << w, guard):
                m = mod(a, b)       # euclidean remainder, shifted down for negative dividends
                return ite(or_(ge(a, 0), eq(m, 0)), m, sub(m, b))
            q = sdivt(a, b)
            return q if op == 'sdiv' else sub(a, mul(q, b))
        if op in ('shl', 'lshr', 'ashr'):
            a, b = V(0), V(1)
            b = P(b)
            if is_const(b):
                k = 1 << (cval(b) % w)
                if op == 'shl':
                    return mul(a, k)
                if op == 'lshr':
                    return fdiv(self.canon_u(a, w, guard), k)
                return fdiv(self.canon_s(a, w, guard), k)
            if op == 'shl':
                return uf('shl%d' % w, [P(a), b])
            return uf('%s%d' % (op, w), [self.canon_u(a, w, guard), b], 'I', 0 if op == 'lshr' else None)
        if op in ('and', 'or', 'xor'):
            a, b = V(0), V(1)
            if w == 1:
                if op == 'and':
                    return and_(a, b)
                if op == 'or':
                    return or_(a, b)
                return or_(and_(a, not_(b)), and_(not_(a), b))
            return self.bitop(op, a, b, w, guard)
        if op == 'icmp':
            return self.icmp(i.x, V(0), V(1), i.ops[0].ty, guard)
        if op == 'fcmp':
            if i.x in ('true', 'false'):
                return bool_(i.x == 'true')
            return fcmp(i.x, V(0), V(1))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return fop(op, (V(0), V(1)), i.ty.kind)
        if op == 'fneg':
            return fop('fneg', (V(0),), i.ty.kind)
        if op in ('fpext', 'fptrunc'):
            x = V(0)
            if op == 'fpext':
                if x.op == 'fconst':
                    return fconst(x.args[0], i.ty.kind)
                if x.op == 'i2f' and solver.interval(x.args[0])[0] is not None and solver.interval(x.args[0])[1] is not None \
                        and solver.interval(x.args[0])[0] >= -2 ** 24 and solver.interval(x.args[0])[1] <= 2 ** 24:
                    return i2f(x.args[0], i.ty.kind)
            return fop(op, (x,), i.ty.kind)
        if op == 'uitofp':
            sw = i.ops[0].ty.w
            return i2f(b2i(V(0)) if sw == 1 else self.canon_u(V(0), sw, guard), i.ty.kind)
        if op == 'sitofp':
            sw = i.ops[0].ty.w
            return i2f(self.canon_s(V(0), sw, guard), i.ty.kind)
        if op in ('fptosi', 'fptoui'):
            return f2i(V(0), w, op == 'fptosi')
        if op == 'zext':
            sw = i.ops[0].ty.w
            return b2i(V(0)) if sw == 1 else self.canon_u(V(0), sw, guard)
        if op == 'sext':
            sw = i.ops[0].ty.w
            return neg(b2i(V(0))) if sw == 1 else self.canon_s(V(0), sw, guard)
        if op == 'trunc':
            x = V(0)
            if isinstance(x, Ptr):
                raise Unsupported('pointer truncation')
            if w == 1:
                b = self.boolish(x)
                if b is not None:
                    return b
                return eq(mod(x, 2), ONE)
            return x
        if op == 'select':
            c = V(0)
            d = self.decide(c, guard)
            a, b = V(1), V(2)
            if d is not None:
                return a if d else b
            return vite(c, a, b)
        if op == 'gep':
            return self.gep(fr, i, guard)
        if op == 'load':
            v = self.load(V(0), i.ty, guard, i)
            if i.ty.kind == 'int' and w == 1 and v.sort == 'I':
                v = eq(mod(v, 2), ONE)
            return v
        if op == 'store':
            self.store(V(1), V(0), i.ops[0].ty, guard, i)
            return None
        if op == 'alloca':
            return self.alloca(fr, i, guard)
        if op == 'bitcast' or op == 'freeze':
            return V(0)
        if op == 'ptrtoint':
            return V(0)
        if op == 'inttoptr':
            return V(0)
        if op == 'extractvalue':
            x = V(0)
            for k in i.x:
                x = x[k]
            return x
        if op == 'insertvalue':
            x = list(V(0)) if V(0) is not None else [None] * len(i.ty.fields)
            if len(i.x) != 1:
                raise Unsupported('nested insertvalue')
            x[i.x[0]] = V(1)
            return tuple(x)
        raise Unsupported('instruction %s at %s:%d' % (op, short(fr.fn.dname), i.line))

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 \
                and a.alts[0][1] is b.alts[0][1]:
            return sub(a.alts[0][2], b.alts[0][2])
        raise Unsupported('pointer arithmetic')

    def udiv(self, a, b, rem, guard):
        if rem:
            if check(self.facts + [guard], lt(a, b), timeout=800) if not is_const(b) else False:
                return a
            return mod(a, b)
        q = div_exact(a, b)
        if q is not None and not is_const(b):
            return q
        return fdiv(a, b)

    def bitop(self, op, a, b, w, guard):
        a, b = P(a), P(b)
        if is_const(a):
            a, b = b, a
        ba, bb = self.boolish(a), self.boolish(b)
        if ba is not None and bb is not None:
            if op == 'and':
                return b2i(and_(ba, bb))
            if op == 'or':
                return b2i(or_(ba, bb))
            return b2i(or_(and_(ba, not_(bb)), and_(not_(ba), bb)))
        if is_const(b):
            k = cval(b) % (1 << w)
            if op == 'and':
                if k == 0:
                    return ZERO
                if (k & (k + 1)) == 0:
                    return mod(a, k + 1)
                inv = (1 << w) - 1 - k      # ~k = 2^j-1: clear low bits
                if (inv & (inv + 1)) == 0:
                    ca = self.canon_u(a, w, guard)
                    return sub(ca, mod(ca, inv + 1))
            if op == 'xor':
                if k == (1 << w) - 1:
                    return sub(-1, a)
                if k == 1 and self.in_range(a, 0, 1, guard):
                    return sub(1, a)
            if op == 'or' and k == 0:
                return a
        x, y = self.canon_u(a, w, guard), self.canon_u(b, w, guard)
        if x.id > y.id:
            x, y = y, x
        if is_const(x) and is_const(y):
            return const({'and': cval(x) & cval(y), 'or': cval(x) | cval(y), 'xor': cval(x) ^ cval(y)}[op])
        if self.in_range(x, 0, 1, guard) and self.in_range(y, 0, 1, guard):
            bx, by = eq(x, ONE), eq(y, ONE)
            return b2i({'and': and_(bx, by), 'or': or_(bx, by), 'xor': not_(eq(x, y))}[op])
        return uf('%s%d' % (op, w), [x, y], 'I', 0, (1 << w) - 1)

    def icmp(self, pred, a, b, ty, guard):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(pred, a, b, guard)
        if isinstance(a, T) and a.sort == 'B':
            e = eq(a, b)
            return e if pred == 'eq' else not_(e)
        w = ty.w
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            if is_const(d):
                e = bool_(cval(d) % (1 << w) == 0)
            elif self.in_range(d, -(1 << w) + 1, (1 << w) - 1, guard):
                e = eq0(d)
            else:
                e = eq(self.canon_u(a, w, guard), self.canon_u(b, w, guard))
            return e if pred == 'eq' else not_(e)
        f = self.canon_u if pred[0] == 'u' else self.canon_s
        x, y = f(a, w, guard), f(b, w, guard)
        return {'gt': gt, 'ge': ge, 'lt': lt, 'le': le}[pred[1:]](x, y)

    def ptr_cmp(self, pred, a, b, guard):
        if not isinstance(a, Ptr):
            a, b = b, a
        if not isinstance(b, Ptr):
            if isinstance(b, T) and b is ZERO:
                b = NULL
            else:
                raise Unsupported('pointer/integer comparison')
        res = FALSE
        tot = []
        for g1, r1, o1 in a.alts:
            for g2, r2, o2 in b.alts:
                if r1 is r2:
                    if pred in ('eq', 'ne'):
                        c = eq(o1, o2)
                    else:
                        c = {'gt': gt, 'ge': ge, 'lt': lt, 'le': le}[pred[1:]](o1, o2)
                else:
                    if pred not in ('eq', 'ne'):
                        raise Unsupported('ordering of pointers to different objects')
                    c = FALSE
                tot.append((and_(g1, g2), c))
        res = or_(*[and_(g, c) for g, c in tot])
        if pred == 'ne':
            res = not_(res) if len(tot) == 1 else or_(*[and_(g, not_(c)) for g, c in tot])
        return res

    def gep(self, fr, i, guard):
        base = self.val(fr, i.ops[0])
        if not isinstance(base, Ptr):
            raise Unsupported('gep base')
        cur = i.x
        off = ZERO
        for k, o in enumerate(i.ops[1:]):
            v = self.val(fr, o)
            if k == 0:
                off = add(off, mul(self.canon_s(v, o.ty.w, guard), cur.size))
            elif cur.kind == 'struct':
                fo, ft = cur.fields[cval(v)]
                off = add(off, fo)
                cur = ft
            else:
                cur = cur.elem
                off = add(off, mul(self.canon_s(v, o.ty.w, guard), cur.size))
        return Ptr([(g, r, add(x, off)) for g, r, x in base.alts])

    def alloca(self, fr, i, guard):
        t = i.x
        nm = 'alloca.%s.%d' % (fr.fn.name[-24:], i.id)
        n = self.val(fr, i.ops[0]) if i.ops else ONE
        if t.kind == 'array' or not (is_const(P(n)) and cval(P(n)) == 1):
            el = t
            cnt = self.canon_u(n, i.ops[0].ty.w, guard)
            while el.kind == 'array':
                cnt = mul(cnt, el.n)
                el = el.elem
            if el.kind in ('struct', 'ptr'):
                r = self.newregion(nm, 'obj')
                return ptr(r)
            r = self.newregion(nm, 'arr', es=el.size, sort=el.kind if el.kind in ('F32', 'F64') else 'I',
                               nbytes=mul(cnt, el.size))
            return ptr(r)
        r = self.newregion(nm, 'obj')
        self.mem.obj[r] = {}
        return ptr(r)

    # ------------------------------------------------------------------ calls
    def call(self, fr, i, guard):
        from . import externs
        cv = i.x
        args = [self.val(fr, o) if not (o.kind == 'unknownconst') else None for o in i.ops]
        if cv.kind == 'func':
            name = cv.v
        else:
            p = self.val(fr, cv)
            if not isinstance(p, Ptr):
                raise Unsupported('indirect call')
            p = self.simp(p, guard)
            if len(p.alts) != 1 or p.alts[0][1] is None or p.alts[0][1].kind != 'func':
                raise Unsupported('indirect call to unknown target')
            name = p.alts[0][1].fn
        dn = self.mod.dn.get(name, name)
        r = externs.call(self, name, dn, i, args, guard)
        if r is not None:
            return r
        fn = self.mod.func(name)
        for c in self.contracts:
            if c.match(dn) and not (self.top is c):
                self.used_contracts.add(c.name)
                return c.apply(self, fn, args, guard, i)
        if fn.decl:
            raise Unsupported('external function %s' % dn)
        self.inlined.add(short(dn))
        return self.call_function(fn, args, guard, fr.depth + 1)

    def throw(self, guard, inst, typ=None):
        self.throws.append((guard, typ, '%s:%d' % (short(inst.blk.fn.dname), inst.line) if inst else '', self.mem.copy()))

    # ------------------------------------------------------------------ loops
    def exec_loop(self, fr, header, body, edges, g):
        self.loopdepth = getattr(self, 'loopdepth', 0) + 1
        if self.loopdepth > 8:
            raise Unsupported('loop nesting')
        try:
            return self._exec_loop(fr, header, body, edges, g)
        finally:
            self.loopdepth -= 1

    def _exec_loop(self, fr, header, body, edges, g):
        lid = '%s.%d.%s' % (fr.fn.name[-12:], header.id, '_'.join(map(str, self.uidpath)))
        self.modeq = getattr(self, 'modeq', {})
        self.uidpath = self.uidpath + (header.id,)
        lid = '%s/%d' % (lid, next(tm._cnt))
        n = var('n@' + lid, 0, None)
        self.loopvars = self.loopvars + [n]
        na = as_atom(n)
        phis = [i for i in header.insts if i.op == 'phi']
        latch_preds = [b for b in natural_loops(fr.fn)[2][header] if b in body]
        self.phis(fr, header, [(p, gg) for p, gg in edges])
        init = {i: fr.env[i] for i in phis}
        mem0 = self.mem
        facts0 = self.facts
        throws0 = len(self.throws)
        fields = []           # (obj region, off) written in the loop
        arrs = []             # (region,f) written in the loop
        closed = {}           # slot -> closed form in n
        cands_T = None
        ret0 = len(fr.rets)

        def setup(li, unsolved_ph, Tc):
            self.mem = mem0.copy()
            for s in fields:
                r, o = s
                sz = mem0.obj[r][o][0] if o in mem0.obj.get(r, {}) else fsize[s]
                self.mem.obj.setdefault(r, {})[o] = (sz, closed[s] if s in closed else unsolved_ph[s])
            for k in arrs:
                self.mem.arr[k] = ('lm', li)
            for ph in phis:
                fr.env[ph] = closed[ph] if ph in closed else unsolved_ph[ph]
            self.facts = facts0 + [ge(n, 0)] + list(conj(g)) + ([lt(n, Tc)] if Tc is not None else [])

        def once(li, ph, Tc):
            setup(li, ph, Tc)
            self.written = set()
            out = self.run(fr, body, header, [(None, g)], header)
            return out

        fsize = {}
        inits = dict(init)
        saved_written = self.written
        modes = {}
        heavy = set()
        stalled = False
        Tc = None
        self.probe += 1
        try:
            for attempt in range(24):
                li = LoopInfo(lid, na)
                ph = {}
                for s in phis + fields:
                    if s not in closed:
                        rg = self.range_of(s, modes, inits, fsize, mem0) if Tc is not None else None
                        ph[s] = self.placeholder(s, inits[s], lid, rg)
                nr0 = self.nreg
                out = once(li, ph, Tc)
                back = [(s, gg) for s, d, gg in out if d is header]
                # discover written memory
                new = False
                for wkey in self.written:
                    if len(wkey) == 3:
                        k = (wkey[0], wkey[1])
                        if k not in arrs and not self.local_to_loop(wkey[0], mem0, k):
                            arrs.append(k)
                            new = True
                    else:
                        r, o = wkey
                        if wkey not in fields and r in mem0.obj:
                            if o not in mem0.obj[r]:
                                # written first in the loop: scratch unless read before written
                                fsize[wkey] = self.mem.obj[r][o][0]
                                continue
                            v0 = mem0.obj[r][o][1]
                            v1 = self.mem.obj[r].get(o)
                            if v1 is None:
                                raise Unsupported('object layout changes in a loop')
                            if veq(v0, v1[1]):
                                continue
                            fields.append(wkey)
                            inits[wkey] = v0
                            new = True
                if new:
                    continue
                if not back:
                    # never comes back: body executed at most once
                    Tc = ZERO
                    nxt = {}
                    cont = FALSE
                    break
                cont = or_(*[gg for _, gg in back])
                nxt = self.nexts(fr, phis, fields, back)
                # solve
                progress = False
                unsol = [s for s in phis + fields if s not in closed]
                pats = {s: self.ph_atoms(ph[s]) for s in unsol}
                allph = set()
                for s in unsol:
                    allph |= pats[s]
                for s in unsol:
                    rng = modes.get(s)
                    if Tc is not None and rng and isinstance(nxt[s], T):
                        self.facts = facts0 + [ge(n, 0), lt(n, Tc)] + list(conj(g))
                        ok = self.in_range(nxt[s], rng[0], rng[1], cont)
                        if not ok:
                            self.next_mode(s, modes, inits)
                            progress = True
                            continue
                    c = self.solve_phi(s, ph[s], inits[s], nxt[s], n, allph, li, facts0 + list(conj(g)),
                                       light=Tc is None and not stalled, rng=rng if Tc is not None else None)
                    if c is not None:
                        if Tc is None and self.solve_phi(s, ph[s], inits[s], nxt[s], n, allph, li, facts0 + list(conj(g)),
                                                         light=True) is None:
                            heavy.add(s)
                        closed[s] = c
                        progress = True
                if Tc is None:
                    Tc = self.trip(out, header, body, n, allph, g, facts0)
                    if Tc is not None:
                        progress = True
                        if Tc.op != 'poly':
                            Tc = P(Tc)
                        # the other closed forms once more, now that the range of the iteration is known
                        for s in heavy:
                            closed.pop(s, None)
                        heavy = set()
                        continue
                if not progress:
                    if not stalled:
                        stalled = True
                        continue
                    break
                if Tc is not None and all(s in closed for s in phis + fields):
                    # one more probe so that nxt/body are expressed with closed forms
                    break
            unsol = [s for s in phis + fields if s not in closed]
            if Tc is None or unsol:
                self.mem = mem0
                r = self.loop_hook(fr, header, body, n, Tc, unsol, nxt if unsol else None)
                raise Unsupported('loop at %s:%d: %s' % (short(fr.fn.dname), header.insts[-1].line,
                                  'no trip count' if Tc is None else 'no closed form for %s' % [getattr(s, 'id', s) for s in unsol]))
        finally:
            self.probe -= 1
            self.mem = mem0
            self.facts = facts0
            self.written = saved_written
            del fr.rets[ret0:]
            del self.throws[throws0:]
        # ---- final pass, obligations recorded
        Tn = self.nonneg(Tc, conj(g))
        li = LoopInfo(lid, na)
        li.T = Tn
        hline = header.insts[-1]
        for k in arrs:
            li.below[k] = mem0.arr.get(k, ('init',) + k)
        saved = self.written
        li.facts = []
        # register body skeleton so that reads of loop memory can be resolved lazily
        out = once(li, {}, Tn)
        w1 = self.written
        self.written = saved
        stay = [(s, gg) for s, d, gg in out if d is header]
        exits = [(s, d, gg) for s, d, gg in out if d is not header]
        bad = or_(*[gg for s, d, gg in exits] + [t[0] for t in self.throws[throws0:]] + [x[0] for x in fr.rets[ret0:]])
        self.oblige('loop-continues-before-trip-count', and_(g, ge(n, 0), lt(n, Tn)), not_(bad), hline)
        if len(self.throws) > throws0 and not self.probe:
            # a throw inside the loop that could not be excluded
            pass
        del self.throws[throws0:]
        del fr.rets[ret0:]
        for k in arrs:
            li.body[k] = self.mem.arr[k]
        if stay and not self.probe:
            nxt = self.nexts(fr, phis, fields, stay)
            for s in phis + fields:
                self.inductive(s, inits[s], closed[s], nxt[s], n, Tn, g, hline, li)
        for a in self.mem.arr:
            if a not in mem0.arr and a not in li.body and not a[0].fresh:
                raise Unsupported('region %s written in loop but not summarised' % a[0].name)
        # resolve loop memory in scalars
        # ---- state after the loop
        m = {na: Tn}
        self.mem = mem0.copy()
        self.facts = facts0
        for k in arrs:
            self.mem.arr[k] = ('loop', li, Tn, li.below[k])
        for s in fields:
            self.mem.obj[s[0]][s[1]] = (self.mem.obj[s[0]][s[1]][0], self.sub_val(closed[s], m))
        for key, sz in fsize.items():
            # scratch fields written in the loop and not initialised before: unspecified afterwards
            self.mem.obj[key[0]].pop(key[1], None)
        for p in phis:
            fr.env[p] = self.sub_val(closed[p], m)
        for p in phis + fields:
            v = self.sub_val(closed[p], m)
            if isinstance(v, T) and any(x.op == 'lm' and x.args[0] == lid for x in subterms(v)):
                v = self.resolve(v, li, Tn, list(conj(g)))
                if p in phis:
                    fr.env[p] = v
                else:
                    self.mem.obj[p[0]][p[1]] = (self.mem.obj[p[0]][p[1]][0], v)
        # last evaluation: header (and what precedes the exit) at n = Tc
        out = self.run(fr, body, header, [(None, g)], header)
        backg = or_(*[gg for s, d, gg in out if d is header])
        self.oblige('loop-exits-at-trip-count', g, not_(backg), hline)
        self.uidpath = self.uidpath[:-1]
        self.loopvars = self.loopvars[:-1]
        if saved is not None:
            saved |= (w1 or set())
        return [(s, d, gg) for s, d, gg in out if d is not header]

    def loop_hook(self, fr, header, body, n, T, unsol, nxt):
        return None

    def local_to_loop(self, r, mem0, k):
        return bool(r.fresh and getattr(r, 'born_in', 0) >= self.loopdepth)

    def sub_val(self, v, m):
        if isinstance(v, Ptr):
            return Ptr([(subst(g, m), r, subst(o, m)) for g, r, o in v.alts])
        return subst(v, m)

    def range_of(self, s, modes, inits, fsize, mem0):
        """value range assumed (and then checked to be inductive) for an integer slot whose closed form is a fold"""
        if s in modes:
            return modes[s]
        modes[s] = None
        init = inits[s]
        if not isinstance(init, T) or init.sort != 'I':
            return None
        if isinstance(s, tuple):
            w = 8 * (mem0.obj[s[0]][s[1]][0] if s[1] in mem0.obj.get(s[0], {}) else fsize[s])
        else:
            w = getattr(s.ty, 'w', 0) or 0
        if w not in (8, 16, 32, 64):
            return None
        c = []
        for r in ((0, 2 ** w - 1), (-2 ** (w - 1), 2 ** (w - 1) - 1)):
            v = const((cval(init) - r[0]) % 2 ** w + r[0]) if is_const(init) else init
            if self.in_range(v, r[0], r[1], TRUE):
                c.append((r, v))
        self.modeq[s] = c
        self.next_mode(s, modes, inits)
        return modes[s]

    def next_mode(self, s, modes, inits):
        q = self.modeq.get(s)
        modes[s] = None
        if q:
            modes[s], inits[s] = q.pop(0)

    def placeholder(self, s, init, lid, rng=None):
        nm = '$phi%d' % next(tm._cnt)
        if isinstance(init, Ptr):
            if len(init.alts) == 1 and init.alts[0][1] is not None:
                return Ptr([(TRUE, init.alts[0][1], scale(var(nm), init.alts[0][1].es or 1))])
            return Ptr([(c, r, add(o, scale(var(nm), (r.es or 1) if r is not None else 1))) for c, r, o in init.alts])
        if init is None:
            raise Unsupported('phi without initial value')
        if init.sort == 'I':
            return var(nm, *(rng or (None, None)))
        if init.sort == 'B':
            return bvar(nm)
        return fvar(nm, init.sort)

    def ph_atoms(self, v):
        if isinstance(v, Ptr):
            s = set()
            for g, r, o in v.alts:
                s |= {a for a in o.fv if a.args[0].startswith('$phi')}
            return s
        return set(v.fv)

    def nexts(self, fr, phis, fields, back):
        nxt = {}
        for i in phis:
            m = {blk: v for v, blk in i.ops}
            val = None
            for p, gg in reversed(back):
                v = self.val(fr, m[p])
                val = v if val is None else vite(gg, v, val)
            nxt[i] = val
        for r, o in fields:
            nxt[(r, o)] = self.mem.obj[r][o][1]
        return nxt

    def fv_of(self, v):
        if isinstance(v, Ptr):
            s = set()
            for g, r, o in v.alts:
                s |= g.fv | o.fv
            return s
        return v.fv

    def has_lm(self, v, li):
        if isinstance(v, Ptr):
            return any(self.has_lm(o, li) for g, r, o in v.alts)
        return any(x.op == 'lm' and x.args[0] == li.id for x in subterms(v))

    def solve_phi(self, s, ph, init, nx, n, allph, li, facts, light=False, rng=None):
        na = as_atom(n)
        if isinstance(ph, Ptr):
            if not isinstance(nx, Ptr):
                return None
            if len(ph.alts) != len(nx.alts):
                return None
            out = []
            base = None
            for (g0, r0, o0), (g1, r1, o1), (gi, ri, oi) in zip(ph.alts, nx.alts, init.alts):
                if r0 is not r1:
                    return None
                d = sub(o1, o0)
                if d.fv & allph or self.has_lm(d, li):
                    return None
                if na in d.fv:
                    if light:
                        return None
                    out.append((gi, r0, add(oi, sum_(n, ZERO, n, d))))
                else:
                    out.append((gi, r0, add(oi, mul(n, d))))
            return Ptr(out)
        own = self.ph_atoms(ph)
        others = allph - own
        if nx.fv & others:
            return None
        if self.has_lm(nx, li):
            return None
        if nx is ph:
            return init
        if nx.sort == 'I':
            dl = delta(nx, ph)
            if dl is not None and not (dl.fv & own):
                if na not in dl.fv:
                    return add(init, mul(n, dl))
                if light:
                    return None
                k = fresh('$j')
                return add(init, sum_(k, ZERO, n, subst(dl, {na: k})))
        if light:
            return None
        if not (nx.fv & own):
            # value of the previous iteration: init at 0, nx(n-1) later
            v = subst(nx, {na: sub(n, 1)})
            if subst(v, {na: ZERO}) is init:
                return v
            return ite(eq(n, 0), init, v)
        k = fresh('$j')
        return fold(k, ph, init, subst(nx, {na: k}), n, rng)

    def inductive(self, s, init, cl, nx, n, Tn, g, inst, li):
        """initiation and preservation of  slot(n) = closed form(n)"""
        na = as_atom(n)
        nm = 'phi%s' % getattr(s, 'id', '') if not isinstance(s, tuple) else 'field'
        c0 = self.sub_val(cl, {na: ZERO})
        c1 = self.sub_val(cl, {na: add(n, 1)})
        G = and_(g, ge(n, 0), lt(n, Tn))
        for kind, a, b, gd in (('loop-invariant-init', init, c0, g), ('loop-invariant-preserved', nx, c1, G)):
            if isinstance(a, Ptr):
                ok = len(a.alts) == len(b.alts) and all(x[1] is y[1] for x, y in zip(a.alts, b.alts))
                goal = and_(*[eq(x[2], y[2]) for x, y in zip(a.alts, b.alts)]) if ok else FALSE
                self.oblige('%s(%s)' % (kind, nm), gd, goal, inst)
                continue
            if a is b:
                self.oblige('%s(%s)' % (kind, nm), gd, TRUE, inst)
                continue
            e = eq(a, b)
            if kind.endswith('init'):
                e = eq(a, unfold0(b))
            else:
                e = eq(a, unfold1(b, n))
            self.oblige('%s(%s)' % (kind, nm), gd, e, inst)

    def trip(self, out, header, body, n, allph, g, facts0):
        """candidate trip count from the exit conditions that are affine in the iteration"""
        na = as_atom(n)
        stay = [gg for s, d, gg in out if d is header]
        exits = [(s, d, gg) for s, d, gg in out if d is not header]
        if not exits:
            return None
        cont = or_(*stay)
        lits = [c for c in conj(cont) if c not in conj(g)]
        cands = []
        for c in lits:
            if c.fv & allph:
                continue
            if na not in c.fv:
                continue
            t = self.trip_of(c, n, na, facts0 + list(conj(g)))
            if t is not None:
                cands.append(t)
        if not cands:
            return None
        T = cands[0]
        for t in cands[1:]:
            if t is not T:
                T = min_(T, t)
        return T

    def trip_of(self, c, n, na, facts):
        c = strip_mod(c)
        if c.op == 'le0':
            p = c.args[0]        # stay while p(n) <= 0
            ca = coeff_of(p, na)
            if ca is None or na in ca[1].fv:
                return None
            k, r = ca            # k*n + r <= 0
            if is_const(k):
                kk = cval(k)
                if kk <= 0:
                    return None
                # largest n with kk*n <= -r  -> T = floor(-r/kk)+1
                T = add(fdiv(neg(r), kk), 1)
            else:
                # k symbolic (stride): r = 1 - k*Q  -> n < Q
                q = div_exact(sub(1, r), k)
                if q is not None and check(facts, ge(k, 1)):
                    T = q
                else:
                    return None
            if check(facts, ge(T, 0), timeout=1500):
                return T
            if check(facts, le(T, 0), timeout=1500):
                return ZERO
            return max_(T, ZERO)
        if c.op == 'not' and c.args[0].op == 'eq0':
            p = c.args[0].args[0]
            ca = coeff_of(p, na)
            if ca is None or na in ca[1].fv:
                return None
            k, r = ca
            q = div_exact(neg(r), k)
            if q is None:
                return None
            return q
        return None


def short(d):
    """demangled name without return type, parameters abbreviated"""
    s = d
    i = s.find('boofcv::')
    if i > 0 and '(' in s and i < s.find('('):
        s = s[i:]
    j = s.find('(')
    if j > 0:
        s = s[:j]
    return s


def strip_mod(t):
    """removes wrap-around (checked afterwards by the trip count obligations)"""
    m = {}
    for x in subterms(t):
        if x.op == 'mod' and is_const(x.args[1]) and cval(x.args[1]) in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            k = cval(x.args[1])
            a = x.args[0]
            m[x] = a
    if not m:
        return t
    r = subst(t, m)
    # signed canonicalisation is (x+h mod 2h) - h: nothing left to fix after removing the mod
    return r


def delta(step, acc):
    """step - acc when step = acc + something, through ites; None otherwise"""
    aa = as_atom(acc)
    ca = None
    d = sub(step, acc)
    if aa not in d.fv:
        return d
    at = as_atom(step)
    if at is not None and at.op == 'ite' and aa not in at.args[0].fv:
        x, y = delta(at.args[1], acc), delta(at.args[2], acc)
        if x is None or y is None:
            return None
        return ite(at.args[0], x, y)
    # poly with ite atoms containing acc: acc-free part + ite
    its = [a for a in atoms_of(step) if a.op == 'ite' and aa in a.fv]
    if len(its) == 1:
        c = coeff_of(step, its[0])
        if c is not None and is_const(c[0]) and cval(c[0]) == 1 and aa not in c[1].fv and aa not in its[0].args[0].fv:
            x, y = delta(add(its[0].args[1], c[1]), acc), delta(add(its[0].args[2], c[1]), acc)
            if x is not None and y is not None:
                return ite(its[0].args[0], x, y)
    return None


def delta_mod(step, acc, lo, W):
    """step - acc modulo W when every branch is acc + something taken modulo W into [lo, lo+W)"""
    aa = as_atom(acc)
    if aa not in step.fv:
        return None
    if step is acc:
        return ZERO
    at = as_atom(step)
    if at is not None and at.op == 'ite' and aa not in at.args[0].fv:
        x, y = delta_mod(at.args[1], acc, lo, W), delta_mod(at.args[2], acc, lo, W)
        return None if x is None or y is None else ite(at.args[0], x, y)
    at = as_atom(sub(step, lo))
    if at is not None and at.op == 'mod' and at.args[1] is const(W):
        x = add(at.args[0], lo)
        while True:
            d = delta(x, acc)
            if d is not None:
                return d
            # nested modulus
            ms = [a for a in atoms_of(x) if a.op == 'mod' and a.args[1] is const(W) and aa in a.fv]
            if len(ms) != 1:
                return None
            x = subst(x, {ms[0]: ms[0].args[0]})
    return None


def unfold0(t):
    """fold/prefix forms at count 0: fold(...,0)=init"""
    m = {}
    for x in subterms(t):
        if x.op == 'fold' and x.args[3] is ZERO:
            m[x] = x.args[2]
    return subst(t, m) if m else t


def unfold1(t, n):
    """unfolds one iteration of folds with count n+1 and prefix sums at idx containing n"""
    na = as_atom(n)
    m = {}
    for x in subterms(t):
        if x.op == 'fold' and sub(x.args[3], 1) is n:
            d, body, init, cnt, rng = x.args
            k, acc = bound_k(d), bound_acc(d, x.sort)
            ac = as_atom(acc) if x.sort == 'I' else acc
            prev = mk('fold', (d, body, init, n, rng), x.sort, frozenset(x.fv))
            prev = P(prev) if x.sort == 'I' else prev
            m[x] = subst(body, {as_atom(k): n, ac: prev})
        elif x.op == 'psum':
            d, body, idx = x.args
            ca = coeff_of(idx, na)
            if ca is not None and is_const(ca[0]) and abs(cval(ca[0])) == 1 and na not in ca[1].fv:
                k = as_atom(bound_k(d))
                if cval(ca[0]) == 1:
                    i1 = sub(idx, 1)
                    pv = P(mk('psum', (d, body, i1), 'I', frozenset(x.fv)))
                    m[x] = add(pv, subst(P(body), {k: i1}))
                else:
                    i1 = add(idx, 1)
                    pv = P(mk('psum', (d, body, i1), 'I', frozenset(x.fv)))
                    m[x] = sub(pv, subst(P(body), {k: idx}))
    return subst(t, m) if m else t
