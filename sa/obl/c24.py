"""Objects share no state.  Objects are built from arrays which are modified
afterwards, arrays obtained from objects are modified, and objects are put to
work next to others built in the same way: on an alias-precise heap, what the
other objects tell must still be what they told before."""
from obl.small import *
from obl.c04 import mass_about, spd
from nd import VSlice

ALL = VSlice(None, None)

SPEC = '''
from arboris.core import World, Body, SubFrame, MovingSubFrame, NamedObjectsList, simulate
from arboris.joints import *
from arboris.shapes import Plane, Box, Sphere, Point
from arboris.constraints import JointLimits, BallAndSocketConstraint
from arboris.controllers import ProportionalDerivativeController, WeightController

def hung(j, b):
    w = World()
    w.add_link(w.ground, j, b)
    w.init()
    return w
'''


def start(ctx):
    S = Schema(ctx.prog)
    c = hg_contracts()
    c['arboris.twistvector.exp'] = lambda I, st, args, kw: I.wrap(
        st, mat_atom('exp %s' % (repr(I.content(st, args[0])),), (4, 4), 'SE3'))
    for k in ('arboris.massmatrix.ismassmatrix', HG + '.ishomogeneousmatrix'):
        c[k] = lambda I, st, args, kw: True
    r = ctx.run(S, c)
    r.source('spec_apart', SPEC)
    return r


def heavy(r):
    return r.new(member(r, 'Body'), None, r.nd(mass_about(vec('c', 3), spd('s'), sym('m', pos=True))))


def member(r, n):
    return r.I.mod_member(r.st, 'spec_apart', n)


def scramble(r, v, tag, sh=None):
    """other numbers in the array"""
    c = r.content(v)
    sh = sh or shape(c)
    if any(not isinstance(n, int) for n in sh):
        raise Unsupported('an array of unknown shape')
    r.I.setitem(r.st, v, ALL, r.nd(vec(tag, *sh) if len(sh) == 1 else mat(tag, *sh)))


def shape(c):
    s = {tuple(shape_of(l)) for _, l in leaves(c)}
    if len(s) != 1:
        raise Unsupported('an array of several shapes')
    return s.pop()


def told(r, o, names):
    return {n: r.content(r.get(o, n)) for n in names}


def same(o, r, x, before, what):
    now = told(r, x, before)
    for n in before:
        o.eq(now[n], before[n], what='%s after %s' % (n, what))


JOINT = ('gpos', 'gvel', 'pose', 'twist')
LINEAR = {'RzRyRxJoint': 3, 'RzRyJoint': 2, 'RzRxJoint': 2, 'RyRxJoint': 2, 'RzJoint': 1, 'RyJoint': 1,
          'RxJoint': 1, 'TxTyTzJoint': 3, 'TzJoint': 1, 'TyJoint': 1, 'TxJoint': 1}


def frames(r):
    b = r.new(member(r, 'Body'))
    w = r.call(member(r, 'hung'), r.new(member(r, 'FreeJoint'), r.nd(se3('H'))), b)
    r.method(w, 'update_geometric')
    return b


def kinds(r):
    """what is built from arrays: class -> (arguments, arrays among them, what it tells)"""
    m = lambda n: member(r, n)
    out = {'FreeJoint': lambda: ([r.nd(se3('Q')), r.nd(vec('v', 6))], JOINT)}
    for k, n in LINEAR.items():
        out[k] = lambda n=n: ([r.nd(vec('q', n)), r.nd(vec('v', n))], JOINT)
    for k in ('SubFrame', 'MovingSubFrame'):
        out[k] = lambda: ([frames(r), r.nd(se3('F'))], ('bpose', 'pose'))
    out['Plane'] = lambda: ([frames(r), r.nd(vec('n', 4))], ('coeffs',))
    return out


def built(ctx):
    for k in ['FreeJoint'] + list(LINEAR) + ['SubFrame', 'MovingSubFrame', 'Plane']:
        with ctx.ob('arguments-are-copied', lambda: ctx.at_cls(k), k) as o:
            r = start(ctx)
            args, tells = kinds(r)[k]()
            x = r.new(member(r, k), *args)
            before = told(r, x, tells)
            for i, a in enumerate(args):
                if isinstance(a, Nd):
                    scramble(r, a, 'other%d' % i)
            same(o, r, x, before, 'its arguments were modified')
            o.no_raise(r)


def limits(ctx):
    """the limits, and the proximity, as seen through the activity and the forces"""
    with ctx.ob('arguments-are-copied', lambda: ctx.at_cls('JointLimits'), 'JointLimits') as o:
        r = start(ctx)
        j = r.new(member(r, 'RzRyJoint'), r.nd(vec('q', 2)), r.nd(vec('v', 2)))
        w = r.call(member(r, 'hung'), j, heavy(r))
        out = []
        for k in range(2):
            args = [r.nd(vec(n, 2)) for n in ('lo', 'hi', 'prox')]
            c = r.new(member(r, 'JointLimits'), j, *args)
            r.method(w, 'register', c)
            r.method(c, 'init', w)
            if k:
                for i, a in enumerate(args):
                    scramble(r, a, 'other%d' % i)
            r.method(c, 'update', sym('dt', pos=True))
            out.append((r.method(c, 'is_active'),
                        r.content(r.method(c, 'solve', r.nd(vec('vel', 2)), r.nd(mat('Y', 2, 2)),
                                           sym('dt', pos=True)))))
        o.no_raise(r)
        o.eq(out[1][1], out[0][1], what='force after the arguments were modified')
        o.eq(out[1][0], out[0][0], what='activity after the arguments were modified')


def pd(ctx):
    with ctx.ob('arguments-are-copied', lambda: ctx.at_cls('ProportionalDerivativeController'),
                'ProportionalDerivativeController') as o:
        r = start(ctx)
        j = r.new(member(r, 'RzRyJoint'), r.nd(vec('q', 2)), r.nd(vec('v', 2)))
        w = r.call(member(r, 'hung'), j, heavy(r))
        out = []
        for k in range(2):
            args = [r.nd(mat(n, 2, 2)) for n in ('kp', 'kd')] + [r.nd(vec(n, 2)) for n in ('qd', 'vd')]
            c = r.new(member(r, 'ProportionalDerivativeController'), r.list([j]), *args)
            r.method(c, 'init', w)
            if k:
                for i, a in enumerate(args):
                    scramble(r, a, 'other%d' % i)
            out.append([r.content(x) for x in r.items(r.method(c, 'update', sym('dt', pos=True)))])
        o.no_raise(r)
        for n, a, b in zip(('force', 'impedance'), *out):
            o.eq(b, a, what='%s after the arguments were modified' % n)


def moved(ctx):
    with ctx.ob('arguments-are-copied', lambda: ctx.at_cls('MovingSubFrame', 'bpose'), 'new pose') as o:
        r = start(ctx)
        x = r.new(member(r, 'MovingSubFrame'), frames(r), r.nd(se3('F')))
        a = r.nd(se3('F2'))
        r.set(x, 'bpose', a)
        before = told(r, x, ('bpose', 'pose'))
        scramble(r, a, 'other')
        same(o, r, x, before, 'the array it was set from was modified')
        o.no_raise(r)


def obtained(ctx):
    """arrays the interface gives away as copies"""
    gives = {'World': ('gvel', 'gforce', 'admittance'), 'SubFrame': ('bpose', 'pose'),
             'MovingSubFrame': ('bpose', 'pose'),
             'FreeJoint': ('pose', 'twist', 'jacobian', 'djacobian', 'ipose', 'adjoint', 'adjacency')}
    for k in ('RzRyRxJoint', 'RzRyJoint', 'RzJoint', 'TxTyTzJoint'):
        gives[k] = ('pose', 'twist', 'jacobian', 'djacobian')
    for k, names in gives.items():
        for n in names:
            with ctx.ob('results-are-copies', lambda: ctx.at_cls(k, n), '%s.%s' % (k, n)) as o:
                r = start(ctx)
                if k == 'World':
                    j = r.new(member(r, 'RzRyJoint'), r.nd(vec('q', 2)), r.nd(vec('v', 2)))
                    x = r.call(member(r, 'hung'), j, heavy(r))
                    r.method(x, 'update_dynamic')
                    r.method(x, 'update_controllers', sym('dt', pos=True))
                    tells = names + ('mass', 'nleffects')
                else:
                    args, _ = kinds(r)[k]()
                    x = r.new(member(r, k), *args)
                    tells = names
                    j = None
                before = told(r, x, tells)
                more = told(r, j, JOINT) if j else {}
                scramble(r, r.get(x, n), 'other')
                same(o, r, x, before, 'its %s was modified' % n)
                if j:
                    same(o, r, j, more, 'the %s of the world was modified' % n)
                o.no_raise(r)


FRESH = {'World': ('current_time', 'ndof', 'up'), 'Body': ('mass', 'viscosity'),
         'FreeJoint': JOINT, 'RzRyJoint': JOINT, 'RzRyRxJoint': JOINT, 'TxTyTzJoint': JOINT,
         'Plane': ('coeffs',), 'SubFrame': ('bpose',), 'MovingSubFrame': ('bpose',)}

WORK = '''
from arboris.core import World, Body, SubFrame, MovingSubFrame, NamedObjectsList, simulate
from arboris.joints import *
from arboris.shapes import Plane, Box, Sphere, Point
from arboris.constraints import JointLimits, BallAndSocketConstraint
from arboris.controllers import ProportionalDerivativeController, WeightController

def alter(a, b):
    a[:] = b

def listings(w):
    return (len(w.getbodies()), len(w.getframes()), len(w.getjoints()), len(w.getconstraints()),
            len(w.getcontrollers()), len(w.getshapes()), len([o for o in w.observers]) if hasattr(w, 'observers') else 0)

def fill(w, j, v):
    b = Body()
    w.add_link(w.ground, j, b)
    f = SubFrame(b, name='f')
    w.register(f)
    s = Sphere(f)
    w.register(s)
    w.register(WeightController())
    w.register(BallAndSocketConstraint((w.ground, f)))
    w.init()
    w.up[:] = v
    return b

def hang(b, j):
    b.childrenjoints.append(j)

def children(b):
    return len(b.childrenjoints)

def two_lists(x, y):
    a = NamedObjectsList()
    b = NamedObjectsList()
    a.append(x)
    a.append(y)
    return len(a), len(b), len(NamedObjectsList())
'''


def apart(ctx):
    """a thing put to work leaves those built like it, before or after, as new"""
    for k, tells in FRESH.items():
        with ctx.ob('instances-share-nothing', lambda: ctx.at_cls(k), k) as o:
            r = start(ctx)
            r.source('spec_work', WORK)
            work = lambda n: r.I.mod_member(r.st, 'spec_work', n)
            b = frames(r)
            make = lambda: r.new(member(r, k), *([b] if k in ('Plane', 'SubFrame', 'MovingSubFrame') else []))
            x, y = make(), make()
            before = told(r, y, tells)
            if k == 'World':
                many = r.items(r.call(work('listings'), y))
                r.call(work('fill'), x, r.new(member(r, 'FreeJoint')), r.nd(vec('up', 3)))
                r.method(x, 'update_dynamic')
                r.method(x, 'update_controllers', sym('dt', pos=True))
                r.method(x, 'update_constraints', sym('dt', pos=True))
                r.method(x, 'integrate', sym('dt', pos=True))
            elif k == 'Body':
                r.call(work('hang'), x, r.new(member(r, 'FreeJoint')))
            elif 'Joint' in k:
                n = 6 if k == 'FreeJoint' else LINEAR[k]
                r.method(x, 'integrate', r.nd(vec('v', n)), sym('dt', pos=True))
            for n in tells:
                v = r.get(x, n)
                if isinstance(v, Nd):
                    scramble(r, v, 'other_' + n)
            z = make()
            for who, t in (('another', y), ('a new one', z)):
                same(o, r, t, before, 'one was used (%s)' % who)
                if k == 'World':
                    now = r.items(r.call(work('listings'), t))
                    o.require(now == many, '%s world lists %s elements after one was used, %s before'
                              % (who, now, many))
                if k == 'Body':
                    o.require(r.call(work('children'), t) == 0, '%s body has children' % who)
            o.no_raise(r)
    with ctx.ob('instances-share-nothing', lambda: ctx.at_cls('NamedObjectsList'), 'NamedObjectsList') as o:
        r = start(ctx)
        r.source('spec_work', WORK)
        n = r.items(r.call(r.I.mod_member(r.st, 'spec_work', 'two_lists'), frames(r), frames(r)))
        o.require(tuple(n) == (2, 0, 0), 'lists of lengths %s' % (n,))


def forces(ctx):
    """constraints built alike accumulate their own forces"""
    with ctx.ob('instances-share-nothing', lambda: ctx.at_cls('JointLimits', 'solve'), 'JointLimits') as o:
        r = start(ctx)
        out = []
        cs = []
        j = r.new(member(r, 'RzRyJoint'), r.nd(vec('q', 2)), r.nd(vec('v', 2)))
        w = r.call(member(r, 'hung'), j, heavy(r))
        for k in range(2):
            c = r.new(member(r, 'JointLimits'), j, r.nd(vec('lo', 2)), r.nd(vec('hi', 2)))
            r.method(w, 'register', c)
            r.method(c, 'init', w)
            r.method(c, 'update', sym('dt', pos=True))
            cs.append(c)
        for c in cs:
            out.append(r.content(r.method(c, 'solve', r.nd(vec('vel', 2)), r.nd(mat('Y', 2, 2)),
                                          sym('dt', pos=True))))
        J = r.get(cs[0], 'jacobian')
        before = r.content(r.get(cs[1], 'jacobian'))
        scramble(r, J, 'other')
        o.eq(r.content(r.get(cs[1], 'jacobian')), before, what='jacobian of the other')
        o.no_raise(r)
        o.eq(out[1], out[0], what='force of the second')
    with ctx.ob('instances-share-nothing', lambda: ctx.at_cls('BallAndSocketConstraint', 'solve'),
                'BallAndSocketConstraint') as o:
        r = start(ctx)
        b = frames(r)
        f = r.new(member(r, 'SubFrame'), b, r.nd(se3('F')))
        cs = [r.new(member(r, 'BallAndSocketConstraint'), (b, f)) for k in range(2)]
        for c in cs:
            r.method(c, 'update', sym('dt', pos=True))
        out = [r.content(r.method(c, 'solve', r.nd(vec('vel', 3)), r.nd(mat('Y', 3, 3)),
                                  sym('dt', pos=True))) for c in cs]
        o.no_raise(r)
        o.eq(out[1], out[0], what='force of the second')
        d = r.new(member(r, 'BallAndSocketConstraint'), (b, f))
        r.method(d, 'update', sym('dt', pos=True))
        c = r.content(r.method(d, 'solve', r.nd(vec('vel', 3)), r.nd(mat('Y', 3, 3)), sym('dt', pos=True)))
        o.eq(c, out[0], what='force of a new one')


def fingers(ctx):
    """a second contact between the same shapes, once the first one pushes"""
    from obl import c14
    with ctx.ob('instances-share-nothing', lambda: ctx.at_cls('SoftFingerContact', 'solve'), 'SoftFingerContact') as o:
        r, S = c14.frames_run(ctx)
        c, dist, dt, mu = c14.contact(ctx, r, S)
        nu = sym('mu2', pos=True)
        d = r.new('SoftFingerContact', r.get(c, '_shapes'), nu, r.fn('solver14', 'solver'))
        v, Y = vec('v', 4), mat_atom('Yf', (4, 4), 'sym', spd=True)
        r.source('spec14', c14.REF)
        want = r.content(r.call(r.fn('spec14', 'finger'), dist, r.nd(v), r.nd(ar([S0] * 4)), r.nd(Y), nu, dt))
        r.method(d, 'update', dt)
        r.method(c, 'update', dt)
        first = r.content(r.call(r.fn('spec14', 'finger'), dist, r.nd(vec('w', 4)), r.nd(ar([S0] * 4)), r.nd(Y), mu, dt))
        o.eq(r.content(r.method(c, 'solve', r.nd(vec('w', 4)), r.nd(Y), dt)), first, what='first force of the first contact', tries=6000)
        got = r.content(r.method(d, 'solve', r.nd(v), r.nd(Y), dt))
        o.no_raise(r, allowed=())
        o.eq(got, want, what='first force of the second contact', tries=6000)


def gains(ctx):
    """controllers built with the same defaults, one of which is tuned in place"""
    with ctx.ob('instances-share-nothing', lambda: ctx.at_cls('ProportionalDerivativeController'),
                'ProportionalDerivativeController') as o:
        r = start(ctx)
        j = r.new(member(r, 'RzRyJoint'), r.nd(vec('q', 2)), r.nd(vec('v', 2)))
        w = r.call(member(r, 'hung'), j, heavy(r))
        dt = sym('dt', pos=True)
        new = lambda *a: r.new(member(r, 'ProportionalDerivativeController'), r.list([j]), *a)

        def force(c):
            r.method(c, 'init', w)
            return [r.content(x) for x in r.items(r.method(c, 'update', dt))]
        for a in ((), (r.nd(mat('kp', 2, 2)), r.nd(mat('kd', 2, 2)))):
            x, y = new(*a), new(*a)
            before = force(y)
            for n in ('kp', 'kd', 'gpos_des', 'gvel_des'):
                scramble(r, r.get(x, n), 'other_' + n)
            force(x)
            for what, c in (('another', y), ('a new one', new(*a))):
                for n, p, q in zip(('force', 'impedance'), force(c), before):
                    o.eq(p, q, what='%s of %s after one was tuned' % (n, what))
            out = [x for x in r.items(r.method(y, 'update', dt))]
            for z in out:
                scramble(r, z, 'written')
            for n, p, q in zip(('force', 'impedance'), [r.content(z) for z in r.items(r.method(y, 'update', dt))], before):
                o.eq(p, q, what='%s after what it answered was modified' % n)
        o.no_raise(r)


def run(ctx):
    built(ctx)
    limits(ctx)
    pd(ctx)
    moved(ctx)
    obtained(ctx)
    with cut_at(12):
        apart(ctx)
    forces(ctx)
    fingers(ctx)
    gains(ctx)
