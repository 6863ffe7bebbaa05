"""The simple robots, built with symbolic sizes, masses and positions: their
bodies must have the inertia of the shapes documented, placed between the
joints, which must be where the lengths say; the arm reaches where planar
kinematics says in any posture; shapes and masses go together."""
from obl.c25 import *
from obl.c26 import solid
from obl.again import picture, same_pictures, wreck, things

ARM, SNAKE, SIMPLE = ('arboris.robots.' + n for n in ('simplearm', 'snake', 'simpleshapes'))

SPEC = '''
from arboris.core import World
from arboris.robots.simplearm import add_simplearm
from arboris.robots.snake import add_snake
from arboris.robots.simpleshapes import add_sphere, add_box, add_cylinder, add_groundplane
from arboris.shapes import Box, Sphere, Cylinder, Plane
from arboris.joints import RzJoint, FreeJoint

def new():
    return World()

def put(w, kind, name, a, b):
    if kind == 'arm':
        add_simplearm(w, name, a, b, True)
    elif kind == 'snake':
        add_snake(w, 2, lengths=a, masses=b, gpos=list(b), gvel=list(a), is_fixed=False)
    elif kind == 'fixed snake':
        add_snake(w, 2, lengths=a, masses=b, gpos=list(a), gvel=list(b))
    elif kind == 'sphere':
        add_sphere(w, a[0], b[0], name)
    elif kind == 'cylinder':
        add_cylinder(w, a[0], a[1], b[0], name)
    elif kind == 'box':
        add_box(w, a, b[0], name)
    else:
        add_groundplane(w)
    w.update_geometric()

def arm(lengths, masses, shapes, name):
    w = World()
    add_simplearm(w, name, lengths, masses, shapes)
    return w

def plain_arm():
    w = World()
    add_simplearm(w)
    return w

def pose(w, q):
    for j, x in zip(w.getjoints(), q):
        j.gpos[:] = x
    w.update_geometric()

def snake(n, lengths, masses, gpos, gvel, fixed):
    w = World()
    add_snake(w, n, lengths=lengths, masses=masses, gpos=gpos, gvel=gvel, is_fixed=fixed)
    w.update_geometric()
    return w

def part_snake(n, which, x):
    w = World()
    if which == 'lengths':
        add_snake(w, n, lengths=x)
    elif which == 'masses':
        add_snake(w, n, masses=x)
    elif which == 'gpos':
        add_snake(w, n, gpos=x)
    elif which == 'gvel':
        add_snake(w, n, gvel=x)
    else:
        add_snake(w, n, is_fixed=False)
    w.update_geometric()
    return w

def plain_snake(n):
    w = World()
    add_snake(w, n)
    w.update_geometric()
    return w

def single(kind, size, mass):
    w = World()
    if kind == 'sphere':
        add_sphere(w, size[0], mass)
    elif kind == 'cylinder':
        add_cylinder(w, size[0], size[1], mass)
    else:
        add_box(w, size, mass)
    return w

def plain_single(kind):
    w = World()
    if kind == 'sphere':
        add_sphere(w)
    elif kind == 'cylinder':
        add_cylinder(w)
    else:
        add_box(w)
    return w

def grounded(up):
    w = World()
    w.up[:] = up
    add_groundplane(w)
    w.init()
    w.update_geometric()
    return w

def isa(x, kind):
    return isinstance(x, {'Box': Box, 'Sphere': Sphere, 'Cylinder': Cylinder, 'Plane': Plane,
                          'RzJoint': RzJoint, 'FreeJoint': FreeJoint}[kind])
'''


def begin(ctx):
    r = start(ctx)
    r.source('spec_simple', SPEC)
    return r, lambda n, *a: r.call(r.I.mod_member(r.st, 'spec_simple', n), *a)


def rot(a):
    c, s = alg.cos(a), alg.sin(a)
    return ar([[c, -s, S0, S0], [s, c, S0, S0], [S0, S0, S1, S0], [S0, S0, S0, S1]])


def up(l):
    return ar([[S1, S0, S0, S0], [S0, S1, S0, l], [S0, S0, S1, S0], [S0, S0, S0, S1]])


def moved_mass(M, H):
    """mass matrix M of a frame of pose H, seen from the frame H is given in"""
    A = adj(hinv(H))
    return mul(tr(A), mul(M, A))


def named(r, xs):
    return {r.get(x, 'name'): x for x in xs if isinstance(r.get(x, 'name'), str)}


def arm(ctx):
    at = lambda: ctx.at(ARM, 'add_simplearm')
    l = [sym('l%d' % i, pos=True) for i in range(3)]
    m = [sym('m%d' % i, pos=True) for i in range(3)]
    q = [sym('q%d' % i) for i in range(3)]
    for shapes in (False, True):
        with ctx.ob('planar-arm', at, 'shapes=%s' % shapes) as o:
            r, k = begin(ctx)
            w = k('arm', tuple(l), tuple(m), shapes, 'Left')
            k('pose', w, r.list(q))
            o.no_raise(r)
            B, J, F = [named(r, r.items(r.method(w, n))) for n in ('getbodies', 'getjoints', 'getframes')]
            names = ['Left' + n for n in ('Arm', 'Forearm', 'Hand')]
            o.require(set(B) == set(names) | {'ground'}, 'bodies %s' % sorted(B))
            o.require(set(J) == {'Left' + n for n in ('Shoulder', 'Elbow', 'Wrist')}, 'joints %s' % sorted(J))
            H = ar_eye(4)
            for i, n in enumerate(names):
                H = mul(H, rot(q[i]))
                if n in B:
                    o.eq(r.content(r.get(B[n], 'pose')), H, what='pose of %s' % n)
                    half = [l[i]/num(20), l[i]/num(2), l[i]/num(20)]
                    o.eq(r.content(r.get(B[n], 'mass')), moved_mass(solid(half, m[i]), up(l[i]/num(2))),
                         what='mass matrix of %s' % n)
                H = mul(H, up(l[i]))
                f = 'Left' + ('ElbowBaseFrame', 'WristBaseFrame', 'EndEffector')[i]
                if f in F:
                    o.eq(r.content(r.get(F[f], 'pose')), H, what='pose of %s' % f)
                else:
                    o.violation('no frame %s' % f)
            for j, (a, b) in (('Shoulder', ('ground', 'LeftArm')), ('Elbow', ('LeftArm', 'LeftForearm')),
                              ('Wrist', ('LeftForearm', 'LeftHand'))):
                j = J.get('Left' + j)
                if j is not None:
                    o.require(k('isa', j, 'RzJoint') is True, 'a joint is not a hinge')
                    e = tuple(r.get(r.get(r.get(j, n), 'body'), 'name') for n in ('frame0', 'frame1'))
                    o.require(e == (a, b), 'a joint links %s and %s' % e)
            S = r.items(r.method(w, 'getshapes'))
            o.require(len(S) == (3 if shapes else 0), '%d shapes' % len(S))
            for s in S:
                n = r.get(r.get(r.get(s, 'frame'), 'body'), 'name')
                i = names.index(n)
                o.require(k('isa', s, 'Box') is True, 'a shape is not a box')
                o.eq(ar([x for x in r.items(r.get(s, 'half_extents'))]), ar([l[i]/num(20), l[i]/num(2), l[i]/num(20)]),
                     what='size of the shape of %s' % n)
                o.eq(r.content(r.get(r.get(s, 'frame'), 'bpose')), up(l[i]/num(2)), what='place of the shape of %s' % n)
    with ctx.ob('planar-arm', at, 'defaults') as o:
        r, k = begin(ctx)
        w = k('plain_arm')
        k('pose', w, r.list([S0]*3))
        o.no_raise(r)
        F = named(r, r.items(r.method(w, 'getframes')))
        f = num(Fraction(11, 10))
        if 'EndEffector' in F:
            o.eq(r.content(r.get(F['EndEffector'], 'pose')), up(f), what='pose of the end effector')
        else:
            o.violation('no end effector')
        o.require(not r.items(r.method(w, 'getshapes')), 'there are shapes')


def snake(ctx):
    at = lambda: ctx.at(SNAKE, 'add_snake')
    for fixed in (True, False):
        for n in (1, 2, 3):
            with ctx.ob('snake', at, '%d bodies, fixed=%s' % (n, fixed)) as o:
                r, k = begin(ctx)
                l = [sym('l%d' % i, pos=True) for i in range(n)]
                m = [sym('m%d' % i, pos=True) for i in range(n)]
                q = [sym('q%d' % i) for i in range(n)]
                v = [sym('v%d' % i) for i in range(n)]
                w = k('snake', n, *([r.list(x) for x in (l, m, q, v)] + [fixed]))
                o.no_raise(r)
                crawl(o, r, k, w, l, m, q, v, fixed)
    with ctx.ob('snake', at, 'defaults') as o:
        r, k = begin(ctx)
        w = k('plain_snake', 2)
        o.no_raise(r)
        crawl(o, r, k, w, [num(Fraction(1, 2))]*2, [num(2)]*2, [S0]*2, [S0]*2, True)


    for which in ('lengths', 'masses', 'gpos', 'gvel', 'floating'):
        with ctx.ob('snake', at, '%s only' % which) as o:
            r, k = begin(ctx)
            x = [sym('x%d' % i, pos=True) for i in range(2)]
            w = k('part_snake', 2, which, r.list(x))
            o.no_raise(r)
            g = lambda n, v: x if which == n else [v]*2
            crawl(o, r, k, w, g('lengths', num(Fraction(1, 2))), g('masses', num(2)), g('gpos', S0),
                  g('gvel', S0), which != 'floating')


def crawl(o, r, k, w, l, m, q, v, fixed):
    n = len(l)
    B, J = [r.items(r.method(w, x)) for x in ('getbodies', 'getjoints')]
    o.require(len(B) == n + (1 if fixed else 2), '%d bodies' % (len(B) - 1))
    o.require(len(J) == n + (0 if fixed else 1), '%d joints' % len(J))
    if len(B) != n + (1 if fixed else 2) or len(J) != n + (0 if fixed else 1):
        return
    B, J = list(B[1:]), list(J)
    if not fixed:
        o.require(k('isa', J[0], 'FreeJoint') is True, 'the base does not float')
        h = l[0]/num(2)
        o.eq(r.content(r.get(B[0], 'mass')), solid([h]*3, m[0]), what='mass matrix of the base')
        B, J = B[1:], J[1:]
    H = ar_eye(4)
    for i in range(n):
        H = mul(H, rot(q[i]))
        o.require(k('isa', J[i], 'RzJoint') is True, 'joint %d is not a hinge' % i)
        o.eq(r.content(r.get(J[i], 'gpos')), ar([q[i]]), what='position of joint %d' % i)
        o.eq(r.content(r.get(J[i], 'gvel')), ar([v[i]]), what='velocity of joint %d' % i)
        o.eq(r.content(r.get(B[i], 'pose')), H, what='pose of body %d' % i)
        # a cylinder of which the axis goes from this joint to the next one
        R = l[i]/num(5)
        c = solid([l[i], R], m[i])
        t, z = c.c[0, 0], c.c[2, 2]
        C = ar([[(t, z, t, m[i], m[i], m[i])[a] if a == b else S0 for b in range(6)] for a in range(6)])
        o.eq(r.content(r.get(B[i], 'mass')), moved_mass(C, up(l[i]/num(2))), what='mass matrix of body %d' % i)
        H = mul(H, up(l[i]))
    ends = [f for f in r.items(r.method(w, 'getframes'))
            if str(r.get(f, 'body')) == str(B[-1]) and str(f) != str(B[-1])]
    o.require(len(ends) == 1, '%d frames at the end of the snake' % len(ends))
    for f in ends:
        o.eq(r.content(r.get(f, 'pose')), H, what='pose of the end of the snake')


def single(ctx):
    for kind, names in (('sphere', ('radius',)), ('cylinder', ('length', 'radius')), ('box', ('x', 'y', 'z'))):
        with ctx.ob('mass-of-the-shape', lambda: ctx.at(SIMPLE, 'add_' + kind), kind) as o:
            r, k = begin(ctx)
            size = [sym(n, pos=True) for n in names]
            m = sym('m', pos=True)
            w = k('single', kind, tuple(size), m)
            o.no_raise(r)
            B = r.items(r.method(w, 'getbodies'))
            S = r.items(r.method(w, 'getshapes'))
            J = r.items(r.method(w, 'getjoints'))
            o.require((len(B), len(S), len(J)) == (2, 1, 1), '%d bodies, %d shapes, %d joints' % (len(B) - 1, len(S), len(J)))
            if (len(B), len(S), len(J)) != (2, 1, 1):
                continue
            s = S[0]
            o.eq(r.content(r.get(B[1], 'mass')), solid(size, m), what='mass matrix')
            o.require(k('isa', J[0], 'FreeJoint') is True, 'the body does not float')
            o.require(k('isa', s, kind.capitalize()) is True, 'the shape is not a ' + kind)
            o.require(str(r.get(r.get(s, 'frame'), 'body')) == str(B[1]), 'the shape is not on the body')
            o.eq(r.content(r.get(r.get(s, 'frame'), 'bpose')), ar_eye(4), what='place of the shape')
            if kind == 'box':
                got = list(r.items(r.get(s, 'half_extents')))
            else:
                got = [r.get(s, n) for n in names]
            o.eq(ar(got), ar(size), what='size of the shape')
    with ctx.ob('ground-is-level', lambda: ctx.at(SIMPLE, 'add_groundplane')) as o:
        r, k = begin(ctx)
        u = ar([alg.sin(sym('a')), alg.cos(sym('a')), S0])
        w = k('grounded', r.nd(u))
        S = r.items(r.method(w, 'getshapes'))
        o.require(len(S) == 1 and k('isa', S[0], 'Plane') is True, 'no plane')
        if len(S) == 1:
            o.eq(r.content(r.get(S[0], 'coeffs')), ar(list(u.c) + [S0]), what='coefficients of the plane')
            o.eq(r.content(r.get(r.get(S[0], 'frame'), 'pose')), ar_eye(4), what='place of the plane')
        o.no_raise(r)


def again(ctx):
    """another robot, in a program which made and used others, is what it is in
    one that did not; the lists given stay as they were"""
    n = 2
    syms = lambda p, **kw: [sym('%s%d' % (p, i), **kw) for i in range(n)]
    V = [syms('l', pos=True), syms('m', pos=True), syms('q'), syms('v')]
    s3 = [sym('s%d' % i, pos=True) for i in range(3)]
    lists = lambda r: [r.list(x) for x in V]
    cases = [(ARM, 'add_simplearm', 'arm', lambda r, k: k('arm', tuple(s3), tuple(s3), True, 'Left'),
              lambda r, k: k('plain_arm')),
             (SNAKE, 'add_snake', 'snake', lambda r, k: k('snake', n, *(lists(r) + [False])),
              lambda r, k: k('plain_snake', n))]
    for kind, z in (('sphere', 1), ('cylinder', 2), ('box', 3)):
        cases.append((SIMPLE, 'add_' + kind, kind, lambda r, k, kind=kind, z=z: k('single', kind, tuple(s3[:z]), sym('m', pos=True)),
                      lambda r, k, kind=kind: k('plain_single', kind)))
    for mod, fn, what, given, default in cases:
        with ctx.ob('same-robot-again', lambda: ctx.at(mod, fn), what) as o:
            r, k = begin(ctx)
            first = []
            for b in (given, default):
                w = b(r, k)
                r.method(w, 'update_geometric')
                first.append(picture(r, w))
                wreck(r, w)
            got = []
            for b in (default, given):
                w = b(r, k)
                r.method(w, 'update_geometric')
                got.append(picture(r, w))
            o.no_raise(r)
            for b, x, y in ((default, got[0], first[1]), (given, got[1], first[0])):
                r2, k2 = begin(ctx)
                w = b(r2, k2)
                r2.method(w, 'update_geometric')
                z = picture(r2, w)
                same_pictures(o, x, z)
                same_pictures(o, y, z)
    with ctx.ob('same-robot-again', lambda: ctx.at(SNAKE, 'add_snake'), 'lists given') as o:
        r, k = begin(ctx)
        L = lists(r)
        w = k('snake', n, *(L + [True]))
        r.method(w, 'update_geometric')
        wreck(r, w)
        o.no_raise(r)
        for x, y in zip(L, V):
            o.eq(ar([num(e) for e in r.items(x)]), ar(y), what='a list given to add_snake')


KINDS = ('arm', 'snake', 'fixed snake', 'sphere', 'cylinder', 'box', 'plane')


def together(ctx):
    """several robots in one world: each as if it was alone, in any order"""
    def sizes(r, kind, p):
        z = 2 if 'snake' in kind else 3
        a, b = [[sym('%s%s%s%d' % (p, kind, c, i), pos=True) for i in range(z)] for c in 'ab']
        return (r.list(a), r.list(b)) if z == 2 else (tuple(a), tuple(b))
    alone = {}
    for p, order in (('x', KINDS), ('y', KINDS[::-1]),
                     ('z', ('box', 'arm', 'sphere', 'arm', 'fixed snake', 'snake', 'fixed snake'))):
        with ctx.ob('robots-share-a-world', lambda: ctx.at(ARM, 'add_simplearm'), ', '.join(order)) as o:
            r, k = begin(ctx)
            w = k('new')
            there, todo = things(r, w), []
            for i, kind in enumerate(order):
                k('put', w, kind, '%s%d' % (p, i), *sizes(r, kind, p))
                now = things(r, w)
                o.require(there <= now, 'adding %s removed something' % kind)
                todo.append((kind, there, now))
                there = now
            o.no_raise(r)
            for i, (kind, before, now) in enumerate(todo):
                r2, k2 = begin(ctx)
                w2 = k2('new')
                start = things(r2, w2)
                k2('put', w2, kind, '%s%d' % (p, i), *sizes(r2, kind, p))
                same_pictures(o, picture(r, w, before | (there - now)), picture(r2, w2, start), 'with ' + kind)


def run(ctx):
    together(ctx)
    again(ctx)
    arm(ctx)
    snake(ctx)
    single(ctx)
