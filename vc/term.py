"""Hash-consed terms over mathematical integers, booleans and uninterpreted floating point.

Integer values are polynomials over atoms in normal form, so that ring identities are decided by construction.
"""
import itertools

_table = {}
_byid = []


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)


def _fvof(op, args):
    s = set()
    for a in args:
        if isinstance(a, T):
            s |= a.fv
        elif isinstance(a, tuple):
            s |= _fvof(None, a)
    return s


_EMPTY = frozenset()


def mk(op, args, sort, fv=None):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = len(_byid)
        _byid.append(t)
        if fv is None:
            fv = frozenset(_fvof(op, args))
        t.fv = fv
        _table[key] = t
        if op in ('var', 'bvar', 'fvar'):
            t.fv = frozenset([t])
    return t


# ---------------------------------------------------------------- polynomials
def _poly(d):
    """d: dict mono(tuple of atom ids) -> int coeff"""
    items = tuple(sorted((m, c) for m, c in d.items() if c))
    key = ('poly', items, 'I')
    t = _table.get(key)
    if t is None:
        fv = set()
        for m, c in items:
            for a in m:
                fv |= _byid[a].fv
        t = mk('poly', items, 'I', frozenset(fv))
    return t


def const(n):
    return _poly({(): int(n)} if n else {})


ZERO = const(0)
ONE = const(1)


def P(x):
    """coerce to polynomial"""
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if x.op == 'poly':
        return x
    assert x.sort == 'I', x
    return _poly({(x.id,): 1})


def is_const(p):
    return p.op == 'poly' and (not p.args or (len(p.args) == 1 and p.args[0][0] == ()))


def cval(p):
    return p.args[0][1] if p.args else 0


def add(*ps):
    d = {}
    for p in ps:
        for m, c in P(p).args:
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(p, k):
    return _poly({m: c * k for m, c in P(p).args})


def neg(p):
    return scale(p, -1)


def sub(a, b):
    d = dict(P(a).args)
    for m, c in P(b).args:
        d[m] = d.get(m, 0) - c
    return _poly(d)


def mul(a, b):
    a, b = P(a), P(b)
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)


def atoms_of(p):
    s = set()
    for m, c in p.args:
        s.update(m)
    return [_byid[i] for i in s]


def as_atom(p):
    """the atom if the polynomial is exactly one atom"""
    if p.op == 'poly' and len(p.args) == 1 and p.args[0][1] == 1 and len(p.args[0][0]) == 1:
        return _byid[p.args[0][0][0]]
    return None


def degree(p):
    return max([len(m) for m, c in p.args] or [0])


def nonlinear(p):
    return any(len(m) > 1 for m, c in p.args)


def coeff_of(p, atom):
    """p = A*atom + B with B free of the atom (linear occurrence only). returns (A,B) or None if higher degree or the
    atom occurs inside other atoms"""
    A, B = {}, {}
    for m, c in p.args:
        k = m.count(atom.id)
        if k == 0:
            B[m] = c
        elif k == 1:
            l = list(m)
            l.remove(atom.id)
            A[tuple(l)] = A.get(tuple(l), 0) + c
        else:
            return None
    A, B = _poly(A), _poly(B)
    if atom.op in ('var',) and (atom in A.fv or atom in B.fv):
        return None
    return A, B


def div_by_atom(p, atom):
    """p = atom*Q + R, R has no monomial divisible by atom"""
    Q, R = {}, {}
    for m, c in p.args:
        if atom.id in m:
            l = list(m)
            l.remove(atom.id)
            Q[tuple(l)] = Q.get(tuple(l), 0) + c
        else:
            R[m] = c
    return _poly(Q), _poly(R)


def div_exact_const(p, k):
    if k == 1:
        return p
    d = {}
    for m, c in p.args:
        if c % k:
            return None
        d[m] = c // k
    return _poly(d)


def div_exact(p, q):
    """exact polynomial division, None if not divisible (q const, atom, or general by leading term)"""
    p, q = P(p), P(q)
    if not q.args:
        return None
    if is_const(q):
        k = cval(q)
        return div_exact_const(p, k)
    if not p.args:
        return ZERO
    # general multivariate division by q using leading monomial under a fixed graded order
    def lead(x):
        return max(x.args, key=lambda mc: (len(mc[0]), mc[0]))
    lm, lc = lead(q)
    Q = ZERO
    r = p
    for _ in range(64):
        if not r.args:
            return Q
        m, c = lead(r)
        l = list(m)
        ok = True
        for a in lm:
            if a in l:
                l.remove(a)
            else:
                ok = False
                break
        if not ok or c % lc:
            return None
        t = _poly({tuple(l): c // lc})
        Q = add(Q, t)
        r = sub(r, mul(t, q))
    return None


# ---------------------------------------------------------------- atoms
def var(name, lo=None, hi=None):
    return P(mk('var', (name, lo, hi), 'I'))


def bvar(name):
    return mk('bvar', (name,), 'B')


def fvar(name, sort):
    return mk('fvar', (name,), sort)


def rd(region, idx, sort, lo=None, hi=None):
    """initial content of an array region at an element index. region: name"""
    t = mk('rd', (region, P(idx), lo, hi), sort)
    return P(t) if sort == 'I' else t


def uf(name, args, sort='I', lo=None, hi=None):
    t = mk('uf', (name, tuple(args), lo, hi), sort)
    return P(t) if sort == 'I' else t


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def bool_(b):
    return TRUE if b else FALSE


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def le0(p):
    p = P(p)
    if is_const(p):
        return bool_(cval(p) <= 0)
    g = 0
    k = 0
    for m, c in p.args:
        if m == ():
            k = c
        else:
            g = _gcd(g, abs(c))
    if g > 1:
        d = {m: c // g for m, c in p.args if m != ()}
        # g*q + k <= 0  <=>  q <= floor(-k/g)
        d[()] = -((-k) // g)
        p = _poly(d)
    return mk('le0', (p,), 'B')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq0(p):
    p = P(p)
    if is_const(p):
        return bool_(cval(p) == 0)
    g = 0
    k = 0
    for m, c in p.args:
        if m == ():
            k = c
        else:
            g = _gcd(g, abs(c))
    if k % g:
        return FALSE
    if g > 1:
        p = div_exact_const(p, g)
    if p.args[-1][1] < 0:
        p = neg(p)
    a = as_atom_pm(p)
    if a is not None:
        at, s, kk = a
        if at.op == 'ite':          # ite(c,x,y)*s + k == 0 with constant branches
            c, x, y = at.args
            if is_const(x) and is_const(y):
                tx, ty = s * cval(x) + kk == 0, s * cval(y) + kk == 0
                return or_(and_(c, bool_(tx)), and_(not_(c), bool_(ty)))
    return mk('eq0', (p,), 'B')


def as_atom_pm(p):
    """p = s*atom + k"""
    at = None
    s = k = 0
    for m, c in p.args:
        if m == ():
            k = c
        elif len(m) == 1 and at is None:
            at, s = _byid[m[0]], c
        else:
            return None
    return None if at is None else (at, s, k)


def eq(a, b):
    if isinstance(a, int) or isinstance(b, int) or a.sort == 'I':
        return eq0(sub(P(a), P(b)))
    if a is b:
        return TRUE
    if a.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.id > b.id:
        a, b = b, a
    return mk('feq', (a, b), 'B')   # identity of floating point values (same bits)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        return le0(sub(1, b.args[0]))
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    return mk('not', (b,), 'B')


def and_(*bs):
    s = []
    seen = set()
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is TRUE or b in seen:
            continue
        if b is FALSE:
            return FALSE
        if b.op == 'and':
            st.extend(reversed(b.args))
            continue
        seen.add(b)
        s.append(b)
    for b in s:
        if not_(b) in seen:
            return FALSE
    # unit resolution of nested ors
    out = []
    changed = False
    for b in s:
        if b.op == 'or':
            keep = []
            sat = False
            for x in b.args:
                xs = conj(x)
                if any(not_(y) in seen for y in xs):
                    changed = True
                    continue
                ys = [y for y in xs if y not in seen]
                if not ys:
                    sat = True
                    break
                if len(ys) != len(xs):
                    changed = True
                keep.append(and_(*ys) if len(ys) != len(xs) else x)
            if sat:
                changed = True
                continue
            b2 = or_(*keep)
            if b2 is not b:
                changed = True
            out.append(b2)
        else:
            out.append(b)
    if changed:
        return and_(*out)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk('and', tuple(s), 'B')


def conj(b):
    if b.op == 'and':
        return b.args
    return (b,) if b is not TRUE else ()


def or_(*bs):
    s = []
    seen = set()
    st = list(reversed(bs))
    while st:
        b = st.pop()
        if b is FALSE or b in seen:
            continue
        if b is TRUE:
            return TRUE
        if b.op == 'or':
            st.extend(reversed(b.args))
            continue
        seen.add(b)
        s.append(b)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    for b in s:
        if not_(b) in seen:
            return TRUE
    # factor the common conjuncts:  (g&c)|(g&!c) -> g
    sets = [set(conj(b)) for b in s]
    common = set.intersection(*sets)
    if common:
        rest = [and_(*sorted(x - common, key=lambda t: t.id)) for x in sets]
        r = or_(*rest)
        return and_(*(sorted(common, key=lambda t: t.id) + [r]))
    # absorption / complement of single literals: a | (!a & b) -> a | b
    ch = False
    units = [b for b in s if b.op not in ('and',)]
    if units and len(units) < len(s):
        ns = []
        negu = {not_(u) for u in units}
        for b in s:
            if b.op == 'and':
                cs = conj(b)
                if any(c in units for c in cs):
                    ch = True
                    continue
                ks = [c for c in cs if c not in negu]
                if len(ks) != len(cs):
                    ch = True
                    b = and_(*ks)
            ns.append(b)
        if ch:
            return or_(*ns)
    # pairwise merge
    if len(s) <= 8:
        for i in range(len(s)):
            for j in range(i + 1, len(s)):
                com = sets[i] & sets[j]
                if com:
                    a = and_(*(sets[i] - com))
                    b = and_(*(sets[j] - com))
                    if not_(a) is b:
                        m = and_(*com)
                        return or_(*([m] + [s[q] for q in range(len(s)) if q not in (i, j)]))
    s.sort(key=lambda t: t.id)
    return mk('or', tuple(s), 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(a, int):
        a = P(a)
    if isinstance(b, int):
        b = P(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # collapse nested conditions
    if a.sort == 'I':
        aa, ba = as_atom(a), as_atom(b)
    else:
        aa, ba = a, b
    if aa is not None and aa.op == 'ite':
        if aa.args[0] is c:
            return ite(c, aa.args[1], b)
    if ba is not None and ba.op == 'ite':
        if ba.args[0] is c:
            return ite(c, a, ba.args[2])
        if ba.args[1] is a:
            return ite(or_(c, ba.args[0]), a, ba.args[2])
    if aa is not None and aa.op == 'ite':
        if aa.args[2] is b:
            return ite(and_(c, aa.args[0]), aa.args[1], b)
        if aa.args[1] is b:
            return ite(and_(c, not_(aa.args[0])), aa.args[2], b)
    if ba is not None and ba.op == 'ite' and ba.args[2] is a:
        return ite(and_(not_(c), ba.args[0]), ba.args[1], a)
    if c.op == 'le0':
        # orient deterministically: smaller id of {c, not c} first
        n = not_(c)
        if n.id < c.id:
            c, a, b = n, b, a
    elif c.op in ('or',):
        n = not_(c)
        if n.id < c.id and n.op == 'and':
            c, a, b = n, b, a
    t = mk('ite', (c, a, b), a.sort)
    return P(t) if a.sort == 'I' else t


def b2i(c):
    return ite(c, ONE, ZERO)


def max_(a, b):
    return ite(le(a, b), P(b), P(a))


def min_(a, b):
    return ite(le(a, b), P(a), P(b))


def divmod_merge(a, b):
    """b*div(x,b) + mod(x,b) -> x"""
    for m, c in a.args:
        if len(m) == 1 and _byid[m[0]].op == 'mod' and _byid[m[0]].args[1] is b:
            x = _byid[m[0]].args[0]
            q = fdiv(x, b)
            y = sub(a, scale(add(mul(b, q), mod(x, b)), c))
            if len(y.args) < len(a.args) - 1 + (0 if is_const(b) else 0):
                return divmod_merge(add(y, scale(x, c)), b)
    return a


def fdiv(a, b):
    """floor(a/b) for b>0 as an atom"""
    a, b = P(a), P(b)
    if not is_const(b):
        a = divmod_merge(a, b)
    if is_const(b) and cval(b) == 1:
        return a
    if is_const(a) and is_const(b) and cval(b) > 0:
        return const(cval(a) // cval(b))
    if is_const(b) and cval(b) > 0:
        k = cval(b)
        # pull out the divisible part
        dv, rest = {}, {}
        for m, c in a.args:
            q = c // k
            if m == ():
                if q:
                    dv[m] = q
                if c - q * k:
                    rest[m] = c - q * k
            elif c % k == 0:
                dv[m] = c // k
            else:
                rest[m] = c
        if dv:
            return add(_poly(dv), fdiv(_poly(rest), b))
        if is_const(a):
            return const(cval(a) // k)
    return P(mk('div', (a, b), 'I'))


def mod(a, b):
    """euclidean remainder for b>0"""
    a, b = P(a), P(b)
    if not is_const(b):
        a = divmod_merge(a, b)
    if is_const(b) and cval(b) > 0:
        k = cval(b)
        rest = {}
        for m, c in a.args:
            c2 = c % k
            if m != () and c2 > k // 2:
                c2 -= k
            if c2:
                rest[m] = c2
        a = _poly(rest)
        if is_const(a):
            return const(cval(a) % k)
        # remove inner mods by multiples of k:  (x mod (k*j)) mod k
        at = as_atom_pm(a)
        if at and at[0].op == 'mod' and is_const(at[0].args[1]) and cval(at[0].args[1]) % k == 0:
            return mod(add(scale(at[0].args[0], at[1]), at[2]), b)
        ch = False
        new = ZERO
        for m, c in a.args:
            done = False
            if len(m) == 1:
                x = _byid[m[0]]
                if x.op == 'mod' and is_const(x.args[1]) and (c * cval(x.args[1])) % k == 0:
                    new = add(new, scale(x.args[0], c))
                    ch = done = True
            if not done:
                new = add(new, _poly({m: c}))
        if ch:
            return mod(new, b)
    return P(mk('mod', (a, b), 'I'))


def sdivt(a, b):
    """C truncated division of mathematical integers"""
    a, b = P(a), P(b)
    if is_const(b) and cval(b) == 1:
        return a
    if is_const(a) and is_const(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return const(q if (cval(a) >= 0) == (cval(b) > 0) else -q)
    return P(mk('sdiv', (a, b), 'I'))


def fop(name, args, sort):
    args = tuple(args)
    if name in ('fadd', 'fmul') and args[0].id > args[1].id:
        args = (args[1], args[0])
    if name == 'fadd':
        for i in (0, 1):
            if args[i].op == 'fconst' and args[i].args[0] == 0.0:
                return args[1 - i]          # x + 0.0 = x up to the sign of zero (listed assumption)
    if name == 'fmul':
        for i in (0, 1):
            if args[i].op == 'fconst' and args[i].args[0] == 1.0:
                return args[1 - i]
    if name == 'fsub' and args[1].op == 'fconst' and args[1].args[0] == 0.0:
        return args[0]
    if name == 'fdiv' and args[1].op == 'fconst' and args[1].args[0] == 1.0:
        return args[0]
    return mk('fop', (name, args), sort)


def fconst(v, sort):
    return mk('fconst', (float(v), str(float(v))), sort)


def i2f(p, sort):
    """exact integer converted to floating point (round to nearest)"""
    p = P(p)
    if is_const(p) and abs(cval(p)) < 2 ** 24:
        return fconst(cval(p), sort)
    return mk('i2f', (p,), sort)


def f2i(f, w, signed):
    """C conversion float -> integer (undefined outside of the range: treated as an unspecified value)"""
    if f.op == 'fconst' and abs(f.args[0]) < 2 ** 31:
        return const(int(f.args[0]))
    if signed:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        lo, hi = 0, (1 << w) - 1
    return P(mk('uf', ('f2%s%d' % ('s' if signed else 'u', w), (f,), lo, hi), 'I'))


def fcmp(pred, a, b):
    """base predicates olt, oeq: floating point values are totally ordered (no NaN, listed assumption)"""
    if pred in ('ogt', 'ugt'):
        return fcmp('olt', b, a)
    if pred in ('oge', 'uge'):
        return not_(fcmp('olt', a, b))
    if pred in ('ole', 'ule'):
        return not_(fcmp('olt', b, a))
    if pred == 'ult':
        pred = 'olt'
    if pred == 'ueq':
        pred = 'oeq'
    if pred in ('une', 'one'):
        return not_(fcmp('oeq', a, b))
    if pred == 'ord':
        return TRUE
    if pred == 'uno':
        return FALSE
    if a is b:
        return bool_(pred == 'oeq')
    if a.op == 'fconst' and b.op == 'fconst':
        x, y = a.args[0], b.args[0]
        return bool_({'olt': x < y, 'oeq': x == y}[pred])
    if pred == 'oeq' and a.id > b.id:
        a, b = b, a
    return mk('fcmp', (pred, a, b), 'B')


# ---------------------------------------------------------------- binders
def _bdepth(t, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return max([_bdepth(x, memo) for x in t] or [0])
        return 0
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'poly':
        r = max([_bdepth(_byid[a], memo) for m, c in t.args for a in m] or [0])
    elif t.op in ('psum',):
        r = max(t.args[0], _bdepth(t.args[2], memo))
    elif t.op == 'fold':
        r = max(t.args[0], _bdepth(t.args[2], memo), _bdepth(t.args[3], memo))
    else:
        r = max([_bdepth(x, memo) for x in t.args] or [0])
    memo[t] = r
    return r


_bd_memo = {}


def bdepth(t):
    return _bdepth(t, _bd_memo)


def bound_k(d):
    return var('$k%d' % d)


def bound_acc(d, sort):
    if sort == 'I':
        return var('$a%d' % d)
    if sort == 'B':
        return bvar('$a%d' % d)
    return fvar('$a%d' % d, sort)


def _collect_rd(t, k, out, seen):
    """read atoms whose index contains k, anywhere inside the term"""
    if isinstance(t, tuple):
        for x in t:
            _collect_rd(x, k, out, seen)
        return
    if not isinstance(t, T) or t in seen or k not in t.fv:
        return
    seen.add(t)
    if t.op == 'poly':
        for m, c in t.args:
            for a in m:
                _collect_rd(_byid[a], k, out, seen)
        return
    if t.op == 'rd':
        out.append((t.args[0], t.args[1]))
    elif t.op == 'uf' and t.args[0].startswith('border'):
        for j, x in enumerate(t.args[1]):
            if isinstance(x, T) and x.sort == 'I' and k in x.fv:
                out.append((t.args[0] + str(j), x))
    for x in t.args:
        _collect_rd(x, k, out, seen)


def psum_atom(g, k, idx):
    """prefix sum of g(k) up to idx (exclusive), defined up to a constant: only used in differences with equal g.
    returns a polynomial."""
    out = []
    _collect_rd(g, k, out, set())
    out.sort(key=lambda x: x[0])
    for nm, a in out:
        ca = coeff_of(a, k)
        if ca is None or k in ca[1].fv or k in ca[0].fv:
            continue
        c, r = ca
        if is_const(c):
            cv = cval(c)
            if cv == 1:
                Q = r
            elif cv == -1:
                # a = r-k ; t = r-k ; k = r-t
                if r.args or True:
                    t = P(k)
                    g2 = subst(g, {k: sub(r, t)})
                    return neg(psum_atom(g2, k, add(sub(r, idx), 1)))
            else:
                d = {}
                for m, cc in r.args:
                    q = cc // cv
                    if q:
                        d[m] = q
                Q = _poly(d)
        else:
            ac = as_atom(c)
            if ac is None:
                continue
            Q, _ = div_by_atom(r, ac)
        if Q.args:
            g = subst(g, {k: sub(P(k), Q)})
            idx = add(idx, Q)
        break
    d = 1 + bdepth(g)
    kb = bound_k(d)
    body = subst(g, {k: kb})
    ka = as_atom(kb)
    return P(mk('psum', (d, body, idx), 'I', frozenset((body.fv - {ka}) | idx.fv)))


def _split_ite_sum(k, lo, hi, body):
    return None


def sum_(k, lo, hi, body):
    """sum_{k=lo}^{hi-1} body ; requires lo<=hi (the caller proves it). k: var polynomial"""
    ka = as_atom(k)
    lo, hi = P(lo), P(hi)
    n = sub(hi, lo)
    if is_const(n):
        if cval(n) <= 0:
            return ZERO
        if cval(n) <= 64:
            return add(*[subst(body, {ka: add(lo, i)}) for i in range(cval(n))])
    res = ZERO
    for m, c in P(body).args:
        dep = [a for a in m if ka in _byid[a].fv]
        ind = tuple(a for a in m if ka not in _byid[a].fv)
        coef = _poly({ind: c})
        if not dep:
            res = add(res, mul(coef, n))
        else:
            g = _poly({tuple(dep): 1})
            if len(dep) == 1:
                at = _byid[dep[0]]
                if at.op == 'ite':
                    pass
            res = add(res, mul(coef, sub(psum_atom(g, ka, hi), psum_atom(g, ka, lo))))
    return res


def fold(k, acc, init, step, n, rng=None):
    """n-fold application: a0=init, a_{j+1}=step(j,a_j), j=0..n-1. k, acc: variables used in step.
    rng=(lo,hi): every a_j is taken modulo the width of that range (so it always lies in it)"""
    n = P(n)
    ka = as_atom(k)
    ac = as_atom(acc) if acc.sort == 'I' else acc
    if is_const(n):
        if cval(n) <= 0:
            return init
        if cval(n) <= 64:
            v = init
            for j in range(cval(n)):
                v = subst(step, {ka: const(j), ac: v})
            return v
    if ac not in step.fv and ka not in step.fv:
        return ite(le(n, 0), init, step)
    d = 1 + bdepth(step)
    kb, ab = bound_k(d), bound_acc(d, step.sort)
    body = subst(step, {ka: kb, ac: ab})
    if body is ab:
        return init
    ka2, ab2 = as_atom(kb), (as_atom(ab) if ab.sort == 'I' else ab)
    t = mk('fold', (d, body, init, n, rng), step.sort, frozenset((body.fv - {ka2, ab2}) | init.fv | n.fv))
    return P(t) if step.sort == 'I' else t


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """m: {atom(var/bvar/fvar or any atom): term}"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m.keys())
    anyk = any(k.op not in ('var', 'bvar', 'fvar') for k in m)
    return _subst(t, m, keys, memo, anyk)


def _subst(t, m, keys, memo, anyk):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, keys, memo, anyk) for x in t)
    if not isinstance(t, T):
        return t
    if not anyk and not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    S = lambda x: _subst(x, m, keys, memo, anyk)
    if t in m:
        r = m[t]
    elif t.op == 'poly':
        acc = {}
        changed = []
        for mono, c in t.args:
            if any((anyk or (_byid[a].fv & keys)) for a in mono):
                changed.append((mono, c))
            else:
                acc[mono] = acc.get(mono, 0) + c
        for mono, c in changed:
            p = const(c)
            for a in mono:
                p = mul(p, P(S(_byid[a])))
            for mm, cc in p.args:
                acc[mm] = acc.get(mm, 0) + cc
        r = _poly(acc)
    elif t.op in ('var', 'bvar', 'fvar', 'true', 'false', 'fconst'):
        r = t
    else:
        r = rebuild(t, S)
    memo[t] = r
    return r


def rebuild(t, S):
    op, a = t.op, t.args
    if op == 'rd':
        return rd(a[0], S(a[1]), t.sort, *[S(b) if isinstance(b, T) else b for b in a[2:4]])
    if op == 'lm':
        r = mk('lm', (a[0], a[1], S(a[2]), a[3], a[4]), t.sort)
        return P(r) if t.sort == 'I' else r
    if op == 'uf':
        return uf(a[0], S(a[1]), t.sort, a[2], a[3])
    if op == 'ite':
        c = S(a[0])
        if c is TRUE:
            return S(a[1])
        if c is FALSE:
            return S(a[2])
        return ite(c, S(a[1]), S(a[2]))
    if op == 'div':
        return fdiv(S(a[0]), S(a[1]))
    if op == 'mod':
        return mod(S(a[0]), S(a[1]))
    if op == 'sdiv':
        return sdivt(S(a[0]), S(a[1]))
    if op == 'le0':
        return le0(S(a[0]))
    if op == 'eq0':
        return eq0(S(a[0]))
    if op == 'feq':
        return eq(S(a[0]), S(a[1]))
    if op == 'not':
        return not_(S(a[0]))
    if op == 'and':
        return and_(*[S(x) for x in a])
    if op == 'or':
        return or_(*[S(x) for x in a])
    if op == 'fop':
        return fop(a[0], S(a[1]), t.sort)
    if op == 'fcmp':
        return fcmp(a[0], S(a[1]), S(a[2]))
    if op == 'i2f':
        return i2f(S(a[0]), t.sort)
    if op == 'psum':
        d, body, idx = a
        k = bound_k(d)
        tmp = fresh('$t')
        b2 = S(subst(body, {as_atom(k): tmp}))
        return psum_linear(b2, as_atom(tmp), S(idx))
    if op == 'fold':
        d, body, init, n, rng = a
        k, acc = bound_k(d), bound_acc(d, t.sort)
        k2 = fresh('$t')
        a2 = fresh('$u', t.sort)
        ac = as_atom(acc) if t.sort == 'I' else acc
        b2 = S(subst(body, {as_atom(k): k2, ac: a2}))
        return fold(k2, a2, S(init), b2, S(n), rng)
    raise Exception('rebuild ' + op)


def psum_linear(body, ka, idx):
    """prefix of a polynomial body (used when a substitution turned the atom body into a polynomial)"""
    res = ZERO
    for m, c in P(body).args:
        dep = [a for a in m if ka in _byid[a].fv]
        ind = tuple(a for a in m if ka not in _byid[a].fv)
        coef = _poly({ind: c})
        if not dep:
            res = add(res, mul(coef, idx))
        else:
            res = add(res, mul(coef, psum_atom(_poly({tuple(dep): 1}), ka, idx)))
    return res


_cnt = itertools.count()


def fresh(prefix, sort='I', lo=None, hi=None):
    n = '%s%d' % (prefix, next(_cnt))
    if sort == 'I':
        return var(n, lo, hi)
    if sort == 'B':
        return bvar(n)
    return fvar(n, sort)


# ---------------------------------------------------------------- traversal / printing
def subterms(t, seen=None):
    """all sub terms (atoms of polynomials included), binders entered"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'poly':
            for m, c in x.args:
                for a in m:
                    st.append(_byid[a])
        else:
            st.extend(x.args)
    return seen


def show(t, d=0):
    if d > 14:
        return '...'
    if isinstance(t, tuple):
        return ','.join(show(x, d + 1) for x in t)
    if not isinstance(t, T):
        return str(t)
    op, a = t.op, t.args
    if op == 'poly':
        if not a:
            return '0'
        out = []
        for m, c in a:
            s = '*'.join(show(_byid[x], d + 1) for x in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%d*%s' % (c, s))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')' if len(out) > 1 else out[0]
    if op in ('var', 'bvar', 'fvar'):
        return a[0]
    if op in ('true', 'false'):
        return op
    if op == 'rd':
        return '%s[%s]' % (a[0], show(a[1], d + 1))
    if op == 'lm':
        return '%s@%s[%s]' % (a[1], a[0], show(a[2], d + 1))
    if op == 'le0':
        return '%s<=0' % show(a[0], d + 1)
    if op == 'eq0':
        return '%s==0' % show(a[0], d + 1)
    if op == 'feq':
        return '%s==%s' % (show(a[0], d + 1), show(a[1], d + 1))
    if op == 'not':
        return '!(%s)' % show(a[0], d + 1)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(x, d + 1) for x in a) + ')'
    if op == 'ite':
        return 'ite(%s ? %s : %s)' % tuple(show(x, d + 1) for x in a)
    if op == 'fconst':
        return a[1]
    if op in ('fop', 'uf', 'fcmp'):
        return '%s(%s)' % (a[0], ','.join(show(x, d + 1) for x in (a[1] if isinstance(a[1], tuple) else a[1:])))
    if op == 'psum':
        return 'PS{$k%d: %s}(%s)' % (a[0], show(a[1], d + 1), show(a[2], d + 1))
    if op == 'fold':
        return 'FOLD{$k%d,$a%d: %s; init %s; n=%s}' % (a[0], a[0], show(a[1], d + 1), show(a[2], d + 1), show(a[3], d + 1))
    return '%s(%s)' % (op, ','.join(show(x, d + 1) for x in a))
