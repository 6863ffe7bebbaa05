"""The iCub model.  The tables and the world built from them are evaluated
abstractly: the joints must make one tree over all the bodies, with a limit and
a torque for each; every body must weigh what its parts do, inertia included;
left and right must be mirror images, so that equal positions of the joints of
both sides give a mirrored posture; each option must add or fix what it says
and nothing else."""
from obl.c25 import *
from obl.again import picture, same_pictures, wreck, spoil, things

ICUB = 'arboris.robots.icub'

SPEC = '''
from arboris.core import World
from arboris.robots import icub
from arboris.robots.simplearm import add_simplearm
from arboris.robots.simpleshapes import add_sphere
from arboris.shapes import Box, Cylinder, Sphere, Point
from arboris.joints import RzJoint, FreeJoint

def items(d):
    return list(d.items())

def company(fixed, x):
    w = World()
    add_simplearm(w, 'other', (x, x, x), (x, x, x), True)
    add_sphere(w, x, x, 'ball')
    w.update_geometric()
    return w

def join(w, fixed):
    icub.add(w, fixed)
    w.update_geometric()

def build(fixed, shapes, contacts):
    w = World()
    icub.add(w, fixed, shapes, contacts)
    w.update_geometric()
    return w

def default():
    w = World()
    icub.add(w)
    w.update_geometric()
    return w

def kind(s):
    for k, c in (('Box', Box), ('Cylinder', Cylinder), ('Sphere', Sphere), ('Point', Point)):
        if isinstance(s, c):
            return k
    return '?'

def dims(s):
    if isinstance(s, Box):
        return list(s.half_extents)
    if isinstance(s, Cylinder):
        return [s.length, s.radius]
    if isinstance(s, Sphere):
        return [s.radius]
    return []

def hinge(j):
    return isinstance(j, RzJoint)

def floating(j):
    return isinstance(j, FreeJoint)
'''

KIND = {0: 'Point', 1: 'Sphere', 2: 'Cylinder', 3: 'Box'}
SAGITTAL = (1, -1, 1)


class Icub(object):
    def __init__(self, ctx):
        self.r = start(ctx)
        self.r.source('spec_icub', SPEC)

    def k(self, n):
        return self.r.I.mod_member(self.r.st, 'spec_icub', n)

    def table(self, fn, *args):
        r = self.r
        d = r.call(r.fn(ICUB, fn), *args)
        out = {}
        for kv in r.items(r.call(self.k('items'), d)):
            k, v = r.items(kv)
            out[k] = v
        return out

    def rows(self, v):
        return self.r.items(v)

    def build(self, fixed=False, shapes=True, contacts=True):
        return self.r.call(self.k('build'), fixed, shapes, contacts)

    def nums(self, v):
        return [x if isinstance(x, Sx) else num(x) if isinstance(x, int) else x for x in self.r.items(v)]


def real(o, x):
    """value of a constant"""
    x = x if isinstance(x, Sx) else num(x)
    if x.const() is not None:
        return float(x.const())
    v = (x / alg.PI).const()
    if v is None:
        raise Unsupported('a value which is not a constant')
    return float(v)


def tables(ctx):
    with ctx.ob('limits-of-every-joint', lambda: ctx.at(ICUB, 'get_joint_limits')) as o:
        c = Icub(ctx)
        r = c.r
        deg, rad, tau, J = c.table('get_joint_limits', False), c.table('get_joint_limits'), \
            c.table('get_torque_limits'), c.table('get_joints_data')
        o.no_raise(r)
        for n, d in (('limits', rad), ('limits in degrees', deg), ('torques', tau)):
            for k in sorted(set(J) ^ set(d)):
                o.violation('joint %s has no %s, or the converse' % (k, n))
        for k in sorted(set(deg) & set(rad)):
            lo, hi = c.nums(deg[k])
            lo2, hi2 = c.nums(rad[k])
            o.require(real(o, lo) < real(o, hi), 'the limits of %s are not ordered' % k)
            for a, b in ((lo, lo2), (hi, hi2)):
                o.eq(b, a * alg.PI / num(180), what='limit of %s in radians' % k)
        for k in sorted(tau):
            o.require(real(o, tau[k]) > 0, 'the torque of %s is not positive' % k)
            m = pair(k)
            if m != k:
                o.require(m in tau and real(o, tau[m]) == real(o, tau[k]), 'torques of %s and %s differ' % (k, m))
                if m in rad and k in rad:
                    for a, b in zip(c.nums(rad[k]), c.nums(rad[m])):
                        o.eq(a, b, what='limits of %s and %s' % (k, m))


def pair(n):
    return {'l_': 'r_', 'r_': 'l_'}.get(n[:2], n[:2]) + n[2:]


def parts(c):
    """name -> [(dims, mass, pose)]"""
    out = {}
    for n, v in c.table('get_bodies_data').items():
        out[n] = [(c.nums(d), m if isinstance(m, Sx) else num(m), lift(explode, c.r.content(H)))
                  for d, m, H in (c.rows(x) for x in c.rows(v))]
    return out


def solid(d, m):
    """mass matrix of a homogeneous solid at its centre"""
    third = num(Fraction(1, 3))
    if len(d) == 3:
        x, y, z = [u*u for u in d]
        I = [m*third*(y + z), m*third*(x + z), m*third*(x + y)]
    elif len(d) == 2:
        L, R = [u*u for u in d]
        t = m*(R/num(4) + L/num(12))
        I = [t, t, m*R/num(2)]
    else:
        i = num(Fraction(2, 5))*m*d[0]*d[0]
        I = [i, i, i]
    I = I + [m]*3
    return ar([[I[i] if i == j else S0 for j in range(6)] for i in range(6)])


def model(ctx):
    at = lambda: ctx.at(ICUB, 'add')
    c = W = None
    with ctx.ob('one-tree', at) as o:
        c = Icub(ctx)
        r = c.r
        W = c.build()
        o.no_raise(r)
        a = Model(r, W)
        J = c.table('get_joints_data')
        P = parts(c)
        for n in sorted(set(P) ^ set(a.bodies)):
            o.violation('body %s is in the %s only' % (n, 'tables' if n in P else 'world'))
        for n in sorted(set(J) ^ (set(a.joints) - {'root'})):
            o.violation('joint %s is in the %s only' % (n, 'tables' if n in J else 'world'))
        o.eq(r.get(W, 'ndof'), num(6 + len(J)), what='degrees of freedom of the world')
        for n in sorted(set(J) & set(a.joints)):
            p, H, ch = c.rows(J[n])
            o.require(a.ends(n) == (p, ch), 'joint %s links %s and %s' % ((n,) + a.ends(n)))
            o.require(r.call(c.k('hinge'), a.joints[n]) is True, 'joint %s is not a hinge' % n)
            got = lift(explode, r.content(r.get(r.get(a.joints[n], 'frame0'), 'bpose')))
            o.eq(got, r.content(H), what='frame of joint %s' % n)
            R = ar(got.c[:3, :3])
            o.eq(mul(tr(R), R), ar_eye(3), what='orientation of the frame of %s' % n)
        if 'root' in a.joints:
            o.require(a.ends('root') == ('ground', 'waist'), 'the root joint links %s and %s' % a.ends('root'))
            o.require(r.call(c.k('floating'), a.joints['root']) is True, 'the waist does not float')
        else:
            o.violation('no root joint')
    if W is None:
        return
    with ctx.ob('parts-make-the-mass', at) as o:
        a = Model(r, W)
        P = parts(c)
        for n in sorted(set(P) & set(a.bodies)):
            t = ar_zeros((6, 6))
            for d, m, H in P[n]:
                A = adj(hinv(H))
                t = add(t, mul(tr(A), mul(solid(d, m), A)))
            o.eq(r.content(r.get(a.bodies[n], 'mass')), t, what='mass matrix of %s' % n)
    with ctx.ob('parts-are-shapes', lambda: ctx.at(ICUB, 'get_bodies_shapes_data')) as o:
        B = body_shapes(c)
        for n in sorted(P):
            for d, m, H in P[n]:
                o.require(any(b == n and list(map(repr, e)) == list(map(repr, d)) and nf_equal(X, H)
                              for b, e, X in B), 'a part of %s has no shape' % n)
    with ctx.ob('left-mirrors-right', at) as o:
        a = Model(r, W)
        for n in sorted(a.bodies):
            k = pair(n)
            if n[:2] == 'l_':
                o.require(k in a.bodies, 'no body %s' % k)
                if k in a.bodies:
                    o.eq(a.mass(n), mirrored(lift(explode, a.mass(k)), SAGITTAL),
                         what='mass matrix of %s and %s' % (n, k))
        q = mirror6(SAGITTAL)
        for n in sorted(a.joints):
            k = pair(n)
            if n[:2] == 'l_':
                o.require(k in a.joints, 'no joint %s' % k)
                if k in a.joints:
                    x, y = a.ends(n), tuple(pair(e) for e in a.ends(k))
                    o.require(x == y, 'joint %s links %s and %s' % ((n,) + x))
                    A, B = a.screws(n), a.screws(k)
                    o.eq(A, ar([[num(q[i]) * z for z in B.c[i]] for i in range(6)]),
                         what='motion of %s and %s' % (n, k))
        # contacts: as a set of places on each body
        got = {}
        for t, (b, d, H) in contacts(c).items():
            got.setdefault(b, []).append((t, d, a.pose(a.bodies[b]), H))
        for b in sorted(got):
            if b[:2] == 'l_':
                here, there = [[(t, d, (mul(X, H)).c[:3, 3]) for t, d, X, H in got.get(k, [])]
                               for k in (b, pair(b))]
                o.require(len(here) == len(there), '%d contacts on %s, %d on %s'
                          % (len(here), b, len(there), pair(b)))
                for t, d, p in here:
                    m = [u for u, e, z in there if list(map(repr, e)) == list(map(repr, d)) and
                         all((num(s)*x - y).const() == 0 for s, x, y in zip(SAGITTAL, p, z))]
                    if not m:
                        u = [(e, z) for v, e, z in there if v[1:] == t[1:]]
                        (o.eq(ar(list(p)), ar([num(s)*y for s, y in zip(SAGITTAL, u[0][1])]),
                              what='mirror image of contact %s' % t)
                         if u else o.violation('contact %s has no mirror image' % t))


def contacts(c):
    out = {}
    for n, v in c.table('get_contact_data').items():
        b, d, H = c.rows(v)
        out[n] = (b, c.nums(d), lift(explode, c.r.content(H)))
    return out


def body_shapes(c):
    out = []
    for n, v in c.table('get_bodies_shapes_data').items():
        for x in c.rows(v):
            d, H = c.rows(x)
            out.append((n, c.nums(d), lift(explode, c.r.content(H))))
    return out


def options(ctx):
    at = lambda: ctx.at(ICUB, 'add')
    for fixed in (False, True):
        for shapes in (False, True):
            for touch in (False, True):
                what = 'fixed=%s, shapes=%s, contacts=%s' % (fixed, shapes, touch)
                with ctx.ob('options', at, what) as o:
                    c = Icub(ctx)
                    r = c.r
                    W = c.build(fixed, shapes, touch)
                    o.no_raise(r)
                    full = Model(r, c.build())
                    a = Model(r, W)
                    hip = 'ground' if fixed else 'waist'
                    o.require(set(a.bodies) == set(full.bodies) - ({'waist'} if fixed else set()),
                              'bodies %s' % sorted(a.bodies))
                    o.require(set(a.joints) == set(full.joints) - ({'root'} if fixed else set()),
                              'joints %s' % sorted(a.joints))
                    for n in sorted(set(a.bodies) & set(full.bodies)):
                        for k in ('mass', 'pose'):
                            o.eq(r.content(r.get(a.bodies[n], k)), r.content(r.get(full.bodies[n], k)),
                                 what='%s of %s' % (k, n))
                    place = lambda n: hip if n == 'waist' else n
                    want = []
                    if shapes:
                        want += [(place(n), d, H, None) for n, d, H in body_shapes(c)]
                    if touch:
                        want += [(place(b), d, H, n) for n, (b, d, H) in contacts(c).items()]
                    registered(o, c, W, want)
    with ctx.ob('options', at, 'default') as o:
        c = Icub(ctx)
        r = c.r
        W, V = r.call(c.k('default')), c.build()
        o.no_raise(r)
        a, b = Model(r, W), Model(r, V)
        o.require(set(a.bodies) == set(b.bodies) and set(a.joints) == set(b.joints), 'other bodies or joints')
        n = [len(r.items(r.method(w, 'getshapes'))) for w in (W, V)]
        o.require(n[0] == n[1], '%s shapes by default, %s with all options' % tuple(n))


def registered(o, c, W, want):
    """the shapes of the world are those wanted"""
    r = c.r
    got = []
    names = set()
    for s in r.items(r.method(W, 'getshapes')):
        f = r.get(s, 'frame')
        got.append((r.get(r.get(f, 'body'), 'name'), r.call(c.k('kind'), s), c.nums(r.call(c.k('dims'), s)),
                    lift(explode, r.content(r.get(f, 'bpose'))), r.get(s, 'name'), r.get(f, 'name')))
    o.require(len(got) == len(want), '%d shapes in the world, %d required' % (len(got), len(want)))
    left = list(want)
    for b, k, d, H, n, fn in got:
        m = [x for x in left if x[0] == b and KIND[len(x[1])] == k
             and all((u - v).const() == 0 for u, v in zip(x[1], d)) and nf_equal(x[2], H)
             and (x[3] is None or (x[3] == n and x[3] == fn))]
        if m:
            left = [x for x in left if x is not m[0]]
        else:
            same = [x for x in left if x[0] == b and KIND[len(x[1])] == k and x[3] in (None, n)]
            if len(same) == 1 and len(same[0][1]) == len(d):
                o.eq(ar(d) if d else S0, ar(list(same[0][1])) if d else S0, what='size of %s' % n)
                o.eq(H, same[0][2], what='place of %s' % n)
                left = [x for x in left if x is not same[0]]
                if same[0][3] is not None:
                    o.require(fn == n, 'the frame of %s is called %s' % (n, fn))
            else:
                o.violation('shape %s, a %s on %s, is not in the tables' % (n, k, b))
    o.require(not left or len(got) < len(want), 'shapes %s are missing' % [(x[0], x[3]) for x in left])


def denavit(ctx):
    with ctx.ob('denavit-hartenberg', lambda: ctx.at(ICUB, 'T_DH')) as o:
        c = Icub(ctx)
        r = c.r
        d, t, R, a = [sym(n) for n in ('d', 't', 'r', 'a')]
        got = r.content(r.call(r.fn(ICUB, 'T_DH'), d, t, R, a))
        C, S = alg.cos, alg.sin
        o.eq(got, mul(ar([[C(t), -S(t), S0, S0], [S(t), C(t), S0, S0], [S0, S0, S1, d], [S0, S0, S0, S1]]),
                      ar([[S1, S0, S0, R], [S0, C(a), -S(a), S0], [S0, S(a), C(a), S0], [S0, S0, S0, S1]])),
             what='transform')
        o.no_raise(r)


TABLES = (('get_joint_limits', (False,)), ('get_joint_limits', ()), ('get_torque_limits', ()),
          ('get_joints_data', ()), ('get_bodies_data', ()), ('get_bodies_shapes_data', ()),
          ('get_contact_data', ()))


def flat(r, v):
    """leaves of a table"""
    if v is None or isinstance(v, str):
        return [v]
    if isinstance(v, (Sx, int, float)):
        return [num(v) if not isinstance(v, Sx) else v]
    try:
        x = r.content(v)
    except Unsupported:
        x = v
    if is_arr(x):
        return list(lift(explode, x).c.flat)
    return [z for y in r.items(v) for z in flat(r, y)]


def again(ctx):
    """tables asked for a second time, worlds built after others"""
    at = lambda: ctx.at(ICUB, 'add')
    for fn, args in TABLES:
        with ctx.ob('same-tables-again', lambda: ctx.at(ICUB, fn), '%s%s' % (fn, args)) as o:
            c = Icub(ctx)
            r = c.r
            # all the tables, spoilt by who asked, then this one
            c.build()
            for f, a in TABLES + (('get_joint_limits', (False,)),):
                spoil(r, r.call(r.fn(ICUB, f), *a))
            got = c.table(fn, *args)
            o.no_raise(r)
            c2 = Icub(ctx)
            want = c2.table(fn, *args)
            o.require(list(got) == list(want), 'keys of %s: %s' % (fn, sorted(set(got) ^ set(want))))
            for n in sorted(set(got) & set(want)):
                x, y = flat(r, got[n]), flat(c2.r, want[n])
                o.require(len(x) == len(y), '%s of %s has another length' % (fn, n))
                for a, b in zip(x, y):
                    if isinstance(a, Sx) and isinstance(b, Sx):
                        o.eq(a, b, what='%s of %s asked again' % (fn, n))
                    else:
                        o.require(a == b, '%s of %s asked again: %s, at first %s' % (fn, n, a, b))
    with ctx.ob('same-robot-again', at) as o:
        c = Icub(ctx)
        r = c.r
        for opts in ((False, True, True), (True, True, True)):
            wreck(r, c.build(*opts))
        got = [picture(r, c.build(*opts)) for opts in ((True, True, True), (False, True, True))]
        o.no_raise(r)
        for p, opts in zip(got, ((True, True, True), (False, True, True))):
            c2 = Icub(ctx)
            same_pictures(o, p, picture(c2.r, c2.build(*opts)))


def company(ctx):
    """in a world which already holds other robots"""
    for fixed in (False, True):
        with ctx.ob('shares-a-world', lambda: ctx.at(ICUB, 'add'), 'fixed=%s' % fixed) as o:
            c = Icub(ctx)
            r = c.r
            w = r.call(c.k('company'), fixed, sym('x', pos=True))
            there = things(r, w)
            others = picture(r, w, {str(r.get(w, 'ground'))})
            r.call(c.k('join'), w, fixed)
            o.no_raise(r)
            now = things(r, w)
            o.require(there <= now, 'adding the robot removed something')
            c2 = Icub(ctx)
            v = c2.build(fixed)
            ground = lambda r, w: {str(r.get(w, 'ground'))}
            same_pictures(o, picture(r, w, there), picture(c2.r, v, ground(c2.r, v)), 'with the others')
            same_pictures(o, picture(r, w, (now - there) | ground(r, w)), others, 'among the others')


def run(ctx):
    company(ctx)
    again(ctx)
    denavit(ctx)
    tables(ctx)
    model(ctx)
    options(ctx)
