"""Trusted models of what is outside the verified text: allocation, memcpy/memset, exceptions, libm, std::vector."""
import re
from .term import *
from . import exec as X
from .exec import Ptr, NULL, ptr, Unsupported
from .solver import check

IGNORE = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.stackrestore', 'llvm.assume', 'llvm.experimental.noalias',
          'llvm.invariant')
UFMATH = {'fabs', 'ceil', 'floor', 'exp', 'sqrt', 'round', 'pow', 'sin', 'cos', 'log', 'fmax', 'fmin'}


def libm(f, args, sort):
    if f == 'fmax':
        return ite(fcmp('olt', args[0], args[1]), args[1], args[0])
    if f == 'fmin':
        return ite(fcmp('olt', args[1], args[0]), args[1], args[0])
    if f == 'fabs':
        return ite(fcmp('olt', args[0], fconst(0.0, sort)), fop('fneg', (args[0],), sort), args[0])
    return fop(f, args, sort)


def ret(v, guard):
    return (v, guard)


def call(ex, name, dn, inst, args, guard):
    """None: not an external; otherwise (value, guard after the call)"""
    if name.startswith(IGNORE):
        return ret(None, guard)
    if name.startswith('llvm.stacksave'):
        return ret(NULL, guard)
    if name in ('_Znam', '_Znwm'):
        ex.trusted.add('operator new (never fails, fresh storage)')
        n = ex.canon_u(args[0], 64, guard)
        if getattr(ex, 'allocator', None):
            v = ex.allocator(ex, name, n, inst, guard)
            if v is not None:
                return ret(v, guard)
        if is_const(n) and name == '_Znwm':
            r = ex.newregion('new@%d' % inst.line, 'obj')
            ex.mem.obj[r] = {}
            r.osize = cval(n)
        else:
            r = ex.newregion('new@%d' % inst.line, 'arr', nbytes=n)
        r.heap = name
        r.born_in = getattr(ex, 'loopdepth', 0)
        r.alloc_guard = guard
        return ret(ptr(r), guard)
    if name in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm'):
        ex.trusted.add('operator delete')
        for g, r, o in args[0].alts:
            if r is None:
                continue
            gg = and_(guard, g)
            if gg is FALSE:
                continue
            if getattr(r, 'deallocator', None):
                r.deallocator(ex, o, gg, inst, name)
                continue
            ex.oblige('delete-of-allocated-start', gg, and_(eq(o, ZERO), bool_(r.heap is not None)), inst)
            ex.oblige('double-delete', gg, not_(r.freed), inst)
            if r.heap is not None:
                ex.oblige('delete-matches-new', gg, bool_((r.heap == '_Znam') == (name.startswith('_Zda'))), inst)
            if not ex.probe:
                r.freed = or_(r.freed, gg)
        return ret(None, guard)
    if name.startswith('llvm.umul.with.overflow'):
        w = inst.ops[0].ty.w
        a, b = ex.canon_u(args[0], w, guard), ex.canon_u(args[1], w, guard)
        p = mul(a, b)
        return ret((p, gt(p, (1 << w) - 1)), guard)
    if name.startswith('llvm.uadd.with.overflow'):
        w = inst.ops[0].ty.w
        a, b = ex.canon_u(args[0], w, guard), ex.canon_u(args[1], w, guard)
        p = add(a, b)
        return ret((p, gt(p, (1 << w) - 1)), guard)
    m = re.match(r'llvm\.([us])(max|min)\.i(\d+)$', name)
    if m:
        w = int(m.group(3))
        f = ex.canon_u if m.group(1) == 'u' else ex.canon_s
        a, b = f(args[0], w, guard), f(args[1], w, guard)
        return ret(max_(a, b) if m.group(2) == 'max' else min_(a, b), guard)
    m = re.match(r'llvm\.abs\.i(\d+)$', name)
    if m:
        a = ex.canon_s(args[0], int(m.group(1)), guard)
        return ret(ite(lt(a, 0), neg(a), a), guard)
    if name == 'abs':
        a = ex.canon_s(args[0], 32, guard)
        return ret(ite(lt(a, 0), neg(a), a), guard)
    if name.startswith(('llvm.memset', )) or name == 'memset':
        memset(ex, args, guard, inst)
        return ret(args[0], guard)
    if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
        memcpy(ex, args, guard, inst, 'memmove' in name)
        return ret(args[0], guard)
    if name == '__cxa_allocate_exception':
        return ret(ptr(ex.newregion('exception', 'obj')), guard)
    if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_begin_catch', '_ZSt9terminatev', '__clang_call_terminate'):
        return ret(None, guard)
    if name == '__cxa_throw':
        ex.throw(guard, inst, None)
        return ret(None, FALSE)
    if name in ('__cxa_throw_bad_array_new_length', '__cxa_rethrow') or name.startswith('_ZSt20__throw') or \
            name.startswith('_ZSt16__throw') or name.startswith('_ZSt17__throw') or name.startswith('_ZSt24__throw'):
        ex.throw(guard, inst, 'std')
        return ret(None, FALSE)
    if re.match(r'std::(invalid_argument|runtime_error|out_of_range|logic_error|domain_error|length_error|exception|'
                r'range_error|overflow_error)::~?\w+\(', dn):
        return ret(None, guard)
    if re.search(r'std::(__cxx11::)?basic_string<|std::to_string|std::allocator<char>', dn) and 'vector' not in dn:
        ex.trusted.add('std::string (exception messages only)')
        if inst.ty.kind == 'ptr':
            return ret(args[0] if isinstance(args[0], Ptr) else NULL, guard)
        return ret(None, guard)
    base = name
    if base.startswith('llvm.') and base.split('.')[1] in ('fabs', 'ceil', 'floor', 'exp', 'sqrt', 'round', 'pow', 'sin',
                                                           'cos', 'maxnum', 'minnum', 'fmuladd', 'copysign', 'rint',
                                                           'nearbyint', 'trunc'):
        b = base.split('.')[1]
        if b == 'fmuladd':
            k = inst.ty.kind
            return ret(fop('fadd', (fop('fmul', (args[0], args[1]), k), args[2]), k), guard)
        b = {'maxnum': 'fmax', 'minnum': 'fmin'}.get(b, b)
        ex.trusted.add('libm ' + b)
        return ret(libm(b, args, inst.ty.kind), guard)
    if base.rstrip('f') in UFMATH or base in UFMATH:
        b = base if base in UFMATH else base.rstrip('f')
        ex.trusted.add('libm ' + b)
        return ret(libm(b, args, inst.ty.kind), guard)
    for rx, h in HOOKS:
        if rx.search(dn):
            r = h(ex, name, dn, inst, args, guard)
            if r is not None:
                return r
    return None


HOOKS = []


def hook(rx):
    def d(f):
        HOOKS.append((re.compile(rx), f))
        return f
    return d


@hook(r'std::uniform_(int|real)_distribution<.*>::operator\(\)')
def uniform_draw(ex, name, dn, inst, args, guard):
    """a value drawn from the distribution's range; different in every iteration and at every call"""
    kind = re.search(r'uniform_(int|real)', dn).group(1)
    ex.trusted.add('std::uniform_%s_distribution' % kind)
    t = inst.ty
    size = t.size
    a = ex.load(args[0], t, guard, inst)
    b = ex.load(Ptr([(g, r, add(o, size)) for g, r, o in args[0].alts]), t, guard, inst)
    nonce = tuple(ex.loopvars)
    ex.ncall = getattr(ex, 'ncall', 0) + 1
    if kind == 'int':
        signed = not re.search(r'uniform_int_distribution<(unsigned |bool)', dn)
        f = ex.canon_s if signed else ex.canon_u
        a, b = f(a, 8 * size, guard), f(b, 8 * size, guard)
        ex.oblige('uniform_int_distribution-requires-a<=b', guard, le(a, b), inst)
        return ret(uf('uniform_int@%d' % inst.line, (a, b) + nonce, 'I', a, b), guard)
    return ret(uf('uniform_real@%d' % inst.line, (a, b) + nonce, t.kind), guard)


@hook(r'std::uniform_(int|real)_distribution<.*>::uniform_(int|real)_distribution\(')
def uniform_ctor(ex, name, dn, inst, args, guard):
    t = inst.ops[1].ty
    if len(args) != 3 or t.kind == 'ptr':
        return None
    ex.store(args[0], args[1], t, guard, inst)
    ex.store(Ptr([(g, r, add(o, t.size)) for g, r, o in args[0].alts]), args[2], t, guard, inst)
    return ret(None, guard)



def byteval(c, es):
    v = 0
    for _ in range(es):
        v = v * 256 + c
    return v


def memset(ex, args, guard, inst):
    dst, val, n = args[0], args[1], args[2]
    n = ex.canon_u(n, 64, guard)
    if is_const(n) and cval(n) == 0:
        return
    val = ex.canon_u(val, 8, guard)
    dst = ex.simp(dst, guard)
    for g, r, off in dst.alts:
        gg = and_(guard, g)
        if r is None:
            ex.oblige('null-dereference', gg, eq(n, ZERO), inst)
            continue
        if r.kind == 'obj':
            if not is_const(n) or not is_const(off):
                raise Unsupported('memset of object')
            if not (is_const(val) and cval(val) == 0):
                raise Unsupported('memset of object with non-zero value')
            d = ex.mem.obj.setdefault(r, {})
            o0, o1 = cval(off), cval(off) + cval(n)
            for o, (s, v) in list(d.items()):
                if o0 <= o and o + s <= o1:
                    z = NULL if isinstance(v, Ptr) else (fconst(0, v.sort) if v.sort.startswith('F') else ZERO)
                    d[o] = (s, X.vite(gg, z, v) if not ex.full(gg) else z)
            r.zeroed = (o0, o1)
            continue
        if r.freed is not FALSE:
            ex.oblige('use-after-free', gg, not_(r.freed), inst)
        ex.oblige('memset-lower-bound', gg, or_(eq(n, ZERO), ge(off, 0)), inst)
        ex.oblige('memset-upper-bound', gg, or_(eq(n, ZERO), le(add(off, n), r.nbytes)), inst)
        fillbytes(ex, r, off, n, val, gg, inst)


def fillbytes(ex, r, off, n, val, gg, inst):
    fs = sorted(r.ftypes) or [0]

    def fn(f):
        def v(p, F):
            s = r.ftypes.get(f, (r.sort, None, None))[0]
            if is_const(val) and cval(val) == 0:
                return ZERO if s == 'I' else fconst(0, s)
            if s == 'I':
                es = r.es or 1
                x = val if es == 1 else mul(ex.canon_u(val, 8, gg), sum(256 ** i for i in range(es)))
                return ex.canon_elem(r, f, x, es, gg)
            return fop('bytes', (i2f(val, s),), s)
        return v
    if r.es is None:
        # element size unknown yet: remember a fill of everything when it covers the whole region
        d = sub(n, r.nbytes)
        if off is ZERO and (d is ZERO or check(ex.facts + [gg], eq(d, ZERO))):
            r.wholefill = True
            ex.mem.arr[(r, 0)] = ('fill', gg, const(-(1 << 80)), const(1 << 80), fn(0), ex.node(r, 0), inst)
            r.fillall = fn
            return
        raise Unsupported('memset of storage of unknown type')
    lo = div_exact(off, P(r.es))
    hi = div_exact(add(off, n), P(r.es))
    if lo is None or hi is None:
        if lo is not None and check(ex.facts + [gg], le(n, 0)):
            return
        raise Unsupported('memset not a whole number of elements')
    for f in fs:
        ex.mem.arr[(r, f)] = ('fill', gg, lo, hi, fn(f), ex.node(r, f), inst)
        if ex.written is not None:
            ex.written.add((r, f, 'arr'))


def memcpy(ex, args, guard, inst, move):
    dst, src, n = args[0], args[1], ex.canon_u(args[2], 64, guard)
    if is_const(n) and cval(n) == 0:
        return
    dst, src = ex.simp(dst, guard), ex.simp(src, guard)
    for g, r, off in dst.alts:
        for g2, r2, off2 in src.alts:
            gg = and_(guard, g, g2)
            if gg is FALSE:
                continue
            copy1(ex, r, off, r2, off2, n, gg, inst, move)


def copy1(ex, r, off, r2, off2, n, gg, inst, move):
    if r is None or r2 is None:
        ex.oblige('null-dereference', gg, eq(n, ZERO), inst)
        return
    if r.kind == 'obj' and r2.kind in ('obj', 'global'):
        if not (is_const(n) and is_const(off) and is_const(off2)):
            raise Unsupported('object copy')
        if r2.kind == 'global':
            raise Unsupported('copy of constant object')
        d, s = ex.mem.obj.setdefault(r, {}), ex.mem.obj.get(r2, {})
        for o, (sz, v) in sorted(s.items()):
            if cval(off2) <= o and o + sz <= cval(off2) + cval(n):
                k = o - cval(off2) + cval(off)
                old = d.get(k)
                d[k] = (sz, v if ex.full(gg) or old is None else X.vite(gg, v, old[1]))
                if ex.written is not None:
                    ex.written.add((r, k))
        return
    if r.kind == 'arr' and r2.kind == 'obj' and is_const(n) and is_const(off2):
        for o, (sz, v) in sorted(ex.mem.obj.get(r2, {}).items()):
            if cval(off2) <= o and o + sz <= cval(off2) + cval(n):
                r.es = r.es or cval(n)
                ty = X.FieldTy(sz, v)
                ex.store1(r, add(off, o - cval(off2)), v, ty, gg, inst)
        return
    if r.kind == 'obj' and r2.kind == 'arr' and is_const(n) and is_const(off) and r2.es == cval(n):
        for o in sorted(r2.ftypes):
            so, lo, hi = r2.ftypes[o]
            sz = r2.fsizes[o]
            ty = X.FieldTy(sz, so)
            ex.store1(r, add(off, o), ex.load1(r2, add(off2, o), ty, gg, inst), ty, gg, inst)
        return
    if r.kind == 'arr' and r2.kind == 'arr' and is_const(n) and r2.es == cval(n) and r.es in (None, r2.es) and hasattr(r2, 'fsizes'):
        r.es = r2.es
        for o in sorted(r2.ftypes):
            ty = X.FieldTy(r2.fsizes[o], r2.ftypes[o][0])
            ex.store1(r, add(off, o), ex.load1(r2, add(off2, o), ty, gg, inst), ty, gg, inst)
        return
    if r.kind != 'arr' or r2.kind != 'arr':
        raise Unsupported('memcpy %s <- %s' % (r.kind, r2.kind))
    es = r.es or r2.es
    if es is None:
        raise Unsupported('memcpy of untyped storage')
    r.es = r.es or es
    r2.es = r2.es or es
    if r.es != r2.es:
        raise Unsupported('memcpy between element sizes')
    for x, what in ((r, 'write'), (r2, 'read')):
        if x.freed is not FALSE:
            ex.oblige('use-after-free', gg, or_(eq(n, ZERO), not_(x.freed)), inst)
        o = off if x is r else off2
        ex.oblige('memcpy-%s-lower-bound' % what, gg, or_(eq(n, ZERO), ge(o, 0)), inst)
        ex.oblige('memcpy-%s-upper-bound' % what, gg, or_(eq(n, ZERO), le(add(o, n), x.nbytes)), inst)
    lo, lo2, hi = div_exact(off, P(es)), div_exact(off2, P(es)), div_exact(add(off, n), P(es))
    if None in (lo, lo2, hi):
        if None not in (lo, lo2):
            raise Unsupported('memcpy of a partial element (%s bytes of %d)' % (show(n), es))
        raise Unsupported('memcpy misaligned')
    if r is r2 and not move:
        cnt = sub(hi, lo)
        ex.oblige('memcpy-no-overlap', gg, or_(le(cnt, 0), le(add(lo, cnt), lo2), le(add(lo2, cnt), lo)), inst)
    for k, v in r2.ftypes.items():
        r.ftypes.setdefault(k, v)
    for f in sorted(set(r.ftypes) | set(r2.ftypes) | {0}):
        if f not in r2.ftypes and r2.sort != 'I':
            r2.ftypes[f] = (r2.sort, r2.lo, r2.hi)
        if f not in r.ftypes and f in r2.ftypes:
            r.ftypes[f] = r2.ftypes[f]
        snode = ex.node(r2, f)

        def fn(p, F, snode=snode, f=f):
            return ex.readfull(snode, add(sub(p, lo), lo2), list(F), r2, f)
        ex.mem.arr[(r, f)] = ('copy', gg, lo, hi, (r2, f, snode, sub(lo2, lo)), ex.node(r, f), inst)
        if ex.written is not None:
            ex.written.add((r, f, 'arr'))
