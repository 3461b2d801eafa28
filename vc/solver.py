"""Discharges obligations: linear integer arithmetic + uninterpreted functions in z3, products linearised with
monotonicity lemmas (A>=0, B>=0 |- A*B>=0); z3 non-linear and cvc5 as fall-backs."""
import time
import z3
from .term import *
from . import term as _t
from .term import _byid

STAT = dict(queries=0, z3=0, z3nl=0, cvc5=0, trivial=0, cached=0, time=0.0)

_S = {}


def fsort(s):
    """floating point values without NaN, +0 and -0 identified: ordered like the reals; operations stay uninterpreted"""
    return z3.RealSort()


EXACT = {'F32': 1 << 24, 'F64': 1 << 53}


class Trans:
    """terms -> z3; collects monomials and side facts about atoms"""

    def __init__(self, nl=False):
        self.memo = {}
        self.nl = nl
        self.fns = {}
        self.deps = {}          # term or monomial -> frozenset of collected items (side fact index, monomial)
        self.cur = set()        # items of the term under translation
        self.sides = []

    @property
    def side(self):
        return self

    def append(self, z):
        self.sides.append(z)
        self.cur.add(len(self.sides) - 1)

    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.fns.get(k)
        if f is None:
            f = self.fns[k] = z3.Function(name, *sorts)
        return f

    def srt(self, s):
        return z3.IntSort() if s == 'I' else z3.BoolSort() if s == 'B' else fsort(s)

    def mono(self, m):
        if len(m) == 1:
            return self.tr(_byid[m[0]])
        if self.nl:
            r = self.tr(_byid[m[0]])
            for a in m[1:]:
                r = r * self.tr(_byid[a])
            return r
        r = self.memo.get(m)
        if r is None:
            for a in m:
                self.tr(_byid[a])
            r = z3.Int('m' + '_'.join(map(str, m)))
            self.memo[m] = r
        else:
            for a in m:
                self.cur |= self.deps.get(_byid[a], ())
        self.cur.add(m)
        return r

    def poly(self, p):
        if not p.args:
            return z3.IntVal(0)
        out = []
        for m, c in p.args:
            if m == ():
                out.append(z3.IntVal(c))
            else:
                x = self.mono(m)
                out.append(x if c == 1 else c * x)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def rng(self, z, lo, hi):
        if lo is not None:
            self.side.append(z >= (self.tr(lo) if isinstance(lo, T) else lo))
        if hi is not None:
            self.side.append(z <= (self.tr(hi) if isinstance(hi, T) else hi))

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            saved = self.cur
            self.cur = set()
            r = self._tr(t)
            self.memo[t] = r
            self.deps[t] = frozenset(self.cur)
            saved |= self.cur
            self.cur = saved
        else:
            d = self.deps.get(t)
            if d:
                self.cur |= d
        return r

    def _tr(self, t):
        op, a = t.op, t.args
        if op == 'poly':
            return self.poly(t)
        if op == 'var':
            z = z3.Int(a[0])
            self.rng(z, a[1], a[2])
            return z
        if op == 'bvar':
            return z3.Bool(a[0])
        if op == 'fvar':
            return z3.Const(a[0], fsort(t.sort))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'rd':
            z = self.fn('rd_' + a[0] + t.sort, z3.IntSort(), self.srt(t.sort))(self.tr(a[1]))
            if t.sort == 'I':
                self.rng(z, a[2], a[3])
            return z
        if op == 'lm':
            z = self.fn('lm_%s_%s%s' % (a[0], a[1], t.sort), z3.IntSort(), self.srt(t.sort))(self.tr(a[2]))
            if t.sort == 'I':
                self.rng(z, a[3], a[4])
            return z
        if op == 'uf':
            args = [x for x in a[1]]
            z = self.fn('uf_' + a[0] + ''.join('_' + x.sort for x in args if x.sort[0] == 'F') + t.sort, *([self.srt(x.sort) for x in args] + [self.srt(t.sort)]))(*[self.tr(x) for x in args])
            if t.sort == 'I':
                self.rng(z, a[2], a[3])
            return z
        if op == 'ite':
            return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if op == 'le0':
            # separate positive and negative parts for readability
            return self.tr(a[0]) <= 0
        if op == 'eq0':
            return self.tr(a[0]) == 0
        if op == 'feq':
            return self.tr(a[0]) == self.tr(a[1])
        if op == 'not':
            return z3.Not(self.tr(a[0]))
        if op == 'and':
            return z3.And(*[self.tr(x) for x in a])
        if op == 'or':
            return z3.Or(*[self.tr(x) for x in a])
        if op == 'mod' or op == 'div':
            x, y = a
            if is_const(y) and cval(y) > 0:
                return self.tr(x) % cval(y) if op == 'mod' else self.tr(x) / cval(y)
            q = self.fn('udiv', z3.IntSort(), z3.IntSort(), z3.IntSort())(self.tr(x), self.tr(y))
            qt = P(mk('div', (x, y), 'I'))
            if op == 'mod':
                # x - y*q
                self.memo[as_atom(qt)] = q
                self.divfacts(x, y, qt)
                self.deps[as_atom(qt)] = frozenset(self.cur)
                return self.tr(sub(x, mul(y, qt)))
            self.memo[t] = q
            self.divfacts(x, y, qt)
            return q
        if op == 'sdiv':
            q = self.fn('sdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())(self.tr(a[0]), self.tr(a[1]))
            self.memo[t] = q
            qt = P(t)
            x, y = a
            if is_const(y):
                zx = self.tr(x)
                k = cval(y)
                if k > 0:
                    self.side.append(q == z3.If(zx >= 0, zx / k, -((-zx) / k)))
            else:
                zx, zy = self.tr(x), self.tr(y)
                e = self.tr(mul(y, qt))
                self.side.append(z3.Implies(z3.And(zy > 0, zx >= 0), z3.And(e <= zx, zx <= e + zy - 1, q >= 0)))
                self.side.append(z3.Implies(z3.And(zy > 0, zx <= 0), z3.And(e >= zx, zx >= e - zy + 1, q <= 0)))
                self.memo.pop(mul(y, qt), None)
            return q
        if op == 'fop':
            s = self.srt(t.sort)
            if a[0] == 'fpext':
                return self.tr(a[1][0])
            if a[0] == 'fneg':
                return -self.tr(a[1][0])
            return self.fn(a[0] + '_' + t.sort + ''.join('_' + x.sort for x in a[1]), *([self.srt(x.sort) for x in a[1]] + [s]))(*[self.tr(x) for x in a[1]])
        if op == 'fcmp':
            x, y = self.tr(a[1]), self.tr(a[2])
            return x < y if a[0] == 'olt' else x == y
        if op == 'fconst':
            if a[0] != a[0] or a[0] in (float('inf'), float('-inf')):
                return z3.Const('fc_%s' % a[1], z3.RealSort())
            n, d = a[0].as_integer_ratio()
            return z3.Q(n, d)
        if op == 'i2f':
            x = self.tr(a[0])
            lo, hi = interval(a[0])
            m = EXACT[t.sort]
            if lo is not None and hi is not None and -m <= lo and hi <= m:
                return z3.ToReal(x)
            return self.fn('i2f_' + t.sort, z3.IntSort(), z3.RealSort())(x)
        if op == 'psum':
            d, body, idx = a
            shape, params = lift(body, {as_atom(bound_k(d))})
            f = self.fn('PS_%d' % shape.id, *([self.srt(x.sort) for x in params] + [z3.IntSort(), z3.IntSort()]))
            return f(*([self.tr(x) for x in params] + [self.tr(idx)]))
        if op == 'fold':
            d, body, init, n, rng = a
            acc = bound_acc(d, t.sort)
            ac = as_atom(acc) if t.sort == 'I' else acc
            shape, params = lift(body, {as_atom(bound_k(d)), ac})
            args = list(params) + [init, n]
            f = self.fn('FD_%d' % shape.id, *([self.srt(x.sort) for x in args] + [self.srt(t.sort)]))
            z = f(*[self.tr(x) for x in args])
            if rng:
                self.rng(z, *rng)
            return z
        raise Exception('no translation for ' + op)

    def divfacts(self, x, y, qt):
        zx, zy, q = self.tr(x), self.tr(y), self.tr(qt)
        e = self.tr(mul(y, qt))
        self.side.append(z3.Implies(zy > 0, z3.And(e <= zx, zx <= e + zy - 1)))
        self.side.append(z3.Implies(z3.And(zx >= 0, zy > 0), q >= 0))
        # translated before the facts about q were known
        self.memo.pop(mul(y, qt), None)


def lift(body, bound):
    """replaces the maximal sub terms free of the bound variables by parameter slots: (shape term, parameters)"""
    params = []
    slots = {}

    def slot(t):
        s = slots.get(t)
        if s is None:
            nm = '$p%d' % len(params)
            srt = t.sort
            s = var(nm) if srt == 'I' else bvar(nm) if srt == 'B' else fvar(nm, srt)
            slots[t] = s
            params.append(t)
        return s

    bset = frozenset(bound)

    def bnames(t):
        return any(v in bset for v in t.fv)

    memo = {}

    def go(t):
        if isinstance(t, tuple):
            return tuple(go(x) for x in t)
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('true', 'false', 'fconst'):
            r = t
        elif not bnames(t):
            if t.op == 'poly' and is_const(t):
                r = t
            else:
                r = slot(t)
        elif t in bset:
            r = P(t) if t.sort == 'I' else t
        elif t.op == 'poly':
            dep, ind = {}, {}
            for m, c in t.args:
                if any(bnames(_byid[x]) for x in m):
                    dep[m] = c
                else:
                    ind[m] = c
            res = ZERO
            for m, c in sorted(dep.items()):
                dm = [x for x in m if bnames(_byid[x])]
                im = tuple(x for x in m if not bnames(_byid[x]))
                p = const(c)
                if im:
                    p = mul(p, P(slot(_t._poly({im: 1}))))
                for x in dm:
                    p = mul(p, P(go(_byid[x])))
                res = add(res, p)
            ip = _t._poly(ind)
            if is_const(ip):
                res = add(res, ip)
            else:
                res = add(res, P(slot(ip)))
            r = res
        elif t.op == 'psum':
            d, b, idx = t.args
            k = as_atom(bound_k(d))
            old = set(bset)
            b2 = golift(b, k)
            r = mk('psum', (d, b2, P(go(idx))), 'I')
            r = P(r)
        elif t.op == 'fold':
            d, b, init, n, rng = t.args
            k = as_atom(bound_k(d))
            acc = bound_acc(d, t.sort)
            ac = as_atom(acc) if t.sort == 'I' else acc
            b2 = golift(b, k, ac)
            r = mk('fold', (d, b2, go(init), P(go(n)), rng), t.sort)
            if t.sort == 'I':
                r = P(r)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    def golift(b, *ks):
        nonlocal bset, memo
        ob, om = bset, memo
        bset = bset | frozenset(ks)
        memo = {}
        r = go(b)
        bset, memo = ob, om
        return r

    sh = go(body)
    return sh, params


# ------------------------------------------------------------------------------------------------ facts
_unite = {}


def unite(c):
    """consequences of n < ite(c,a,b) when one branch is impossible by the ranges of the atoms"""
    r = _unite.get(c)
    if r is not None:
        return r
    r = ()
    if c.op == 'le0':
        its = [a for a in atoms_of(c.args[0]) if a.op == 'ite']
        if len(its) == 1:
            a = its[0]
            x = subst(c, {a: a.args[1]})
            y = subst(c, {a: a.args[2]})
            if x is FALSE or quick(x) is False:
                r = tuple(conj(not_(a.args[0]))) + tuple(conj(y))
            elif y is FALSE or quick(y) is False:
                r = tuple(conj(a.args[0])) + tuple(conj(x))
    _unite[c] = r = tuple(r)
    return r


def flatten(facts):
    out = []
    seen = set()

    def put(c, d):
        if c not in seen and c is not TRUE:
            seen.add(c)
            out.append(c)
            if d < 4:
                for x in unite(c):
                    put(x, d + 1)
    for f in facts:
        for c in conj(f):
            put(c, 0)
    return out


def ineqs_of(facts):
    """polynomials A with A>=0"""
    out = []
    for f in facts:
        if f.op == 'le0':
            out.append(neg(f.args[0]))
        elif f.op == 'eq0':
            out.append(f.args[0])
            out.append(neg(f.args[0]))
    return out


def atom_bounds(a):
    out = []
    lo = hi = None
    if a.op == 'var':
        lo, hi = a.args[1], a.args[2]
    elif a.op in ('rd', 'uf'):
        lo, hi = a.args[2], a.args[3]
    elif a.op == 'lm':
        lo, hi = a.args[3], a.args[4]
    elif a.op == 'ite' and a.sort == 'I' and is_const(a.args[1]) and is_const(a.args[2]):
        lo = min(cval(a.args[1]), cval(a.args[2]))
        hi = max(cval(a.args[1]), cval(a.args[2]))
    elif a.op == 'mod' and is_const(a.args[1]):
        lo, hi = 0, cval(a.args[1]) - 1
    elif a.op == 'fold' and a.args[4]:
        lo, hi = a.args[4]
    if lo is not None:
        out.append(sub(P(a), lo))
    if hi is not None:
        out.append(sub(hi, P(a)))
    return out


def interval(p, depth=0):
    """cheap interval of a polynomial from atom ranges: (lo,hi), None = unbounded"""
    lo = hi = 0
    for m, c in p.args:
        l = h = 1
        for x in m:
            a = _byid[x]
            al, ah = atom_interval(a, depth)
            if l is None or h is None or al is None or ah is None:
                if al is not None and al >= 0 and l is not None and l >= 0:
                    l, h = l * al, None
                else:
                    l = h = None
            else:
                c4 = (l * al, l * ah, h * al, h * ah)
                l, h = min(c4), max(c4)
        if c < 0:
            l, h = (None if h is None else c * h), (None if l is None else c * l)
        else:
            l, h = (None if l is None else c * l), (None if h is None else c * h)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


_ai = {}


def atom_interval(a, depth):
    r = _ai.get(a)
    if r is not None:
        return r
    lo = hi = None
    if a.op == 'var':
        lo, hi = a.args[1], a.args[2]
    elif a.op in ('rd', 'uf', 'lm'):
        lo, hi = a.args[-2:]
        if isinstance(lo, T):
            lo = interval(lo, depth + 1)[0] if depth < 6 else None
        if isinstance(hi, T):
            hi = interval(hi, depth + 1)[1] if depth < 6 else None
    elif a.op == 'mod' and is_const(a.args[1]):
        lo, hi = 0, cval(a.args[1]) - 1
    elif a.op == 'fold' and a.args[4]:
        lo, hi = a.args[4]
    elif a.op == 'ite' and depth < 6:
        l1, h1 = interval(a.args[1], depth + 1)
        l2, h2 = interval(a.args[2], depth + 1)
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
    elif a.op == 'div' and is_const(a.args[1]) and depth < 6:
        k = cval(a.args[1])
        l1, h1 = interval(a.args[0], depth + 1)
        if k > 0:
            lo = None if l1 is None else l1 // k
            hi = None if h1 is None else h1 // k
    _ai[a] = (lo, hi)
    return lo, hi


_cache = {}


def quick(goal):
    if goal is TRUE:
        return True
    if goal is FALSE:
        return None
    if goal.op == 'le0':
        lo, hi = interval(goal.args[0])
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    if goal.op == 'eq0':
        lo, hi = interval(goal.args[0])
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    return None


class Result:
    def __init__(self, ok, status, by, model=None, secs=0.0):
        self.ok, self.status, self.by, self.model, self.secs = ok, status, by, model, secs

    def __bool__(self):
        return self.ok


def lemmas(tr, facts, monos, limit=160, extra=()):
    """products of facts relevant to the non-linear monomials"""
    ineq = [p for p in ineqs_of(facts) if degree(p) <= 1]
    byatom = {}
    for p in ineq:
        for m, c in p.args:
            for x in m:
                byatom.setdefault(x, []).append(p)
    out = []
    seen = set()

    def bounds(x):
        r = list(byatom.get(x, ()))
        r += atom_bounds(_byid[x])
        return r[:14]

    todo = sorted(monos)
    for m in todo:
        if len(m) != 2:
            continue
        u, v = m
        if u == v:
            continue
        for A in bounds(u):
            for B in bounds(v):
                key = (A.id, B.id)
                if key in seen or (B.id, A.id) in seen:
                    continue
                seen.add(key)
                pr = mul(A, B)
                new = [mm for mm, c in pr.args if len(mm) > 1 and mm not in monos]
                if len(new) > 1:
                    continue
                out.append((len(new), len(pr.args), pr))
    out.sort(key=lambda x: (x[0], x[1], x[2].id))
    # cubic monomials: multiply a quadratic lemma by a non-negative atom (rare)
    for m in todo:
        if len(m) == 3:
            for i in range(3):
                w = m[i]
                rest = tuple(m[:i] + m[i + 1:])
                for A in bounds(rest[0])[:4]:
                    for B in bounds(rest[1])[:4]:
                        for C in bounds(w)[:3]:
                            pr = mul(mul(A, B), C)
                            if len([1 for mm, c in pr.args if len(mm) > 1 and mm not in monos]) <= 2:
                                out.append((2, 9, pr))
    return [p for _, _, p in out[:limit]]


def relevant(facts, goal, rounds=4):
    """facts connected to the goal through shared free variables (all facts when few)"""
    if len(facts) <= 40:
        return facts
    fv = set(goal.fv)
    rest = list(facts)
    out = []
    for _ in range(rounds):
        nxt = []
        grew = False
        for f in rest:
            if not f.fv or (f.fv & fv):
                out.append(f)
                grew = True
            else:
                nxt.append(f)
        for f in out:
            fv |= f.fv
        rest = nxt
        if not grew:
            break
    return out


def check(facts, goal, timeout=4000, hard=False):
    """is the goal a consequence of the facts"""
    q = quick(goal)
    if q is True:
        STAT['trivial'] += 1
        return Result(True, 'proved', 'interval')
    facts = flatten(facts)
    fs = set(facts)
    if goal in fs:
        STAT['trivial'] += 1
        return Result(True, 'proved', 'syntactic')
    key = (tuple(sorted(f.id for f in facts)), goal.id, hard)
    r = _cache.get(key)
    if r is not None:
        STAT['cached'] += 1
        return r
    t0 = time.time()
    r = _check(facts, goal, timeout, hard)
    r.secs = time.time() - t0
    STAT['time'] += r.secs
    STAT['queries'] += 1
    _cache[key] = r
    return r


_T = {}


def trans(nl):
    t = _T.get(nl)
    if t is None or len(t.memo) > 400000:
        t = _T[nl] = Trans(nl)
    t.cur = set()
    return t


_ctx = z3.main_ctx()


class Q:
    """a query: asserts terms with the side facts of their atoms"""

    def __init__(self, tr, timeout):
        self.tr = tr
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.s.set('random_seed', 7)
        self.have = set()
        self.monos = set()

    def raw(self, z):
        z3.Z3_solver_assert(_ctx.ref(), self.s.solver, z.as_ast())

    def add(self, *ts):
        tr = self.tr
        tr.cur = set()
        zs = [tr.tr(t) for t in ts]
        for z in zs:
            self.raw(z)
        for d in tr.cur:
            if d not in self.have:
                self.have.add(d)
                if isinstance(d, tuple):
                    self.monos.add(d)
                else:
                    self.raw(tr.sides[d])

    def check(self):
        return self.s.check()


def _check(facts, goal, timeout, hard):
    facts = relevant(facts, goal)
    s = Q(trans(False), timeout)
    ng = not_(goal)
    s.add(*facts, ng)
    r = s.check()
    if r == z3.unsat:
        STAT['z3'] += 1
        return Result(True, 'proved', 'z3')
    if not s.monos:
        if r == z3.sat:
            return Result(False, 'refuted', 'z3', str(s.s.model())[:4000] if hard else None)
        if not hard:
            return Result(False, 'unknown', 'z3')
    else:
        monos = set(s.monos)
        ls = lemmas(s.tr, facts, monos)
        if goal.op == 'le0':
            ls2 = lemmas(s.tr, facts + [ng], monos)
            have = set(ls)
            ls = ls + [l for l in ls2 if l not in have]
        s.add(*[le0(neg(p)) for p in ls])
        r = s.check()
        if r == z3.unsat:
            STAT['z3'] += 1
            return Result(True, 'proved', 'z3+products')
    if not hard:
        return Result(False, 'unknown', 'z3')
    # hard: native non-linear arithmetic
    s2 = Q(trans(True), timeout * 2)
    s2.add(*facts, ng)
    r2 = s2.check()
    if r2 == z3.unsat:
        STAT['z3nl'] += 1
        return Result(True, 'proved', 'z3-nonlinear')
    if r2 == z3.sat:
        return Result(False, 'refuted', 'z3-nonlinear', str(s2.s.model())[:4000])
    c = _cvc5(s2.s, timeout)
    if c == 'unsat':
        STAT['cvc5'] += 1
        return Result(True, 'proved', 'cvc5')
    return Result(False, 'unknown', 'z3/cvc5')


def _cvc5(zsolver, timeout):
    import subprocess
    try:
        txt = '(set-logic ALL)\n' + zsolver.to_smt2()
        p = subprocess.run(['/usr/bin/env', 'cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=txt,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'error'


def satisfiable(facts, timeout=10000):
    """reachability (vacuity) check of a set of facts: 'sat', 'unsat', 'unknown'"""
    facts = flatten(facts)
    s = Q(trans(True), timeout)
    s.add(*facts)
    return str(s.check())
