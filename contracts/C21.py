"""C21 Lengths given as fixed or relative values"""
from vc.build import Spec, offsets
from vc.prop import Prop
from vc.spec import *

SPEC = Spec(consts=offsets('ConfigLength', 'length', 'fraction') + [('ConfigLength.sizeof', 'sizeof(ConfigLength)')])
Z = fconst(0.0, 'F64')


def cfg(e):
    l, f = e.scalar('length', 'F64'), e.scalar('fraction', 'F64')
    return l, f, e.object('cfg', 'ConfigLength', length=(8, l), fraction=(8, f))


def value(l, f, t):
    m = fop('fmul', (f, t), 'F64')
    return ite(fcmp('oge', f, Z), ite(fcmp('olt', m, l), l, m), l)


def compute(mk):
    e = mk()
    l, f, c = cfg(e)
    t = e.scalar('total', 'F64')
    e.run('boofcv::ConfigLength::compute', [c, t])
    e.normal_exit()
    e.frame()
    e.reach()
    e.ensure('length', e.ret, value(l, f, t))
    # the two sentences of the property
    e.require('fixed-length-as-it-is', implies(fcmp('olt', f, Z), eq(e.ret, l)))
    e.require('never-below-the-minimum', fcmp('oge', e.ret, l))
    e.require('relative-is-fraction-of-total-or-minimum', implies(fcmp('oge', f, Z), or_(eq(e.ret, fop('fmul', (f, t), 'F64')), eq(e.ret, l))))


def compute_i(mk):
    e = mk()
    l, f, c = cfg(e)
    t = e.scalar('total', 'F64')
    e.run('boofcv::ConfigLength::computeI', [c, t])
    e.normal_exit()
    e.frame()
    v = value(l, f, t)
    e.reach()
    e.ensure('rounded', e.retval('S32'), ite(fcmp('oge', v, Z), f2i(fop('fadd', (v, fconst(0.5, 'F64')), 'F64'), 32, True), const(-1)))


def length_i(mk):
    e = mk()
    l, f, c = cfg(e)
    e.run('boofcv::ConfigLength::getLengthI', [c])
    e.normal_exit()
    e.frame()
    e.ensure('rounded', e.retval('S32'), f2i(fop('fadd', (l, fconst(0.5, 'F64')), 'F64'), 32, True))


def pred(mk, name):
    e = mk()
    l, f, c = cfg(e)
    e.run('boofcv::ConfigLength::' + name, [c])
    e.normal_exit()
    e.frame()
    g = fcmp('olt', f, Z)
    e.ensure('value', e.ret if e.ret.sort == 'B' else not_(eq(e.ret, 0)), g if name == 'isFixed' else not_(g))


def factory(mk, name):
    e = mk()
    r = e.ex.region('result', 'obj')
    e.ex.mem.obj[r] = {}
    if name == 'fixed':
        l = e.scalar('pixels', 'F64')
        a = [l]
    else:
        f = e.scalar('fraction', 'F64')
        m = e.int('minimum', 'S32')
        a = [f, m]
    e.run('boofcv::ConfigLength::' + name, [ptr(r)] + a)
    e.normal_exit()
    e.reach()
    g = lambda n: e.objfield(ptr(r), 'ConfigLength', n)
    if name == 'fixed':
        e.ensure('length', g('length'), l)
        e.require('is-fixed', fcmp('olt', g('fraction'), Z))
    else:
        e.ensure('minimum', g('length'), i2f(m, 'F64'))
        e.ensure('fraction', g('fraction'), f)


def default(mk):
    e = mk()
    r = e.ex.region('result', 'obj')
    e.ex.mem.obj[r] = {}
    e.run('boofcv::ConfigLength::ConfigLength()', [ptr(r)])
    e.normal_exit()
    e.require('is-fixed', fcmp('olt', e.objfield(ptr(r), 'ConfigLength', 'fraction'), Z))


def validity(mk):
    e = mk()
    l, f, c = cfg(e)
    e.run('boofcv::ConfigLength::checkValidity', [c])
    e.normal_exit(throws=and_(fcmp('olt', l, Z), fcmp('olt', f, Z)))
    e.frame()


JOBS = [('compute', compute, {}), ('computeI', compute_i, {}), ('getLengthI', length_i, {}),
        ('isRelative', pred, dict(name='isRelative')), ('isFixed', pred, dict(name='isFixed')),
        ('fixed', factory, dict(name='fixed')), ('relative', factory, dict(name='relative')),
        ('default constructor', default, {}), ('checkValidity', validity, {})]
PROP = Prop('C21', SPEC, JOBS, driver='C21.cpp',
            assumptions=['the conversion double -> int of a value inside the int range truncates (C++ semantics); lengths outside of '
                         'the int range are outside of the contract'])
