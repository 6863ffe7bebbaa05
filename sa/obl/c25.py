"""The human model, built with symbolic lengths: a person given the lengths of
another with sides exchanged must be the mirror image of the other (masses,
inertias, joints, landmarks), lengths scaled must give the model scaled, the
parts must weigh what the person weighs, feet be on the ground and the vertex at
the stature; names follow the prefix and several people share a world."""
from obl.small import *
from obl.c24 import start

HUM = 'arboris.robots.human36'

SPEC = '''
from arboris.core import World
from arboris.robots.human36 import add_human36, anat_lengths_from_height, height_from_anat_lengths

def lengths(h):
    return list(anat_lengths_from_height(h).items())

def table(names, values):
    return dict(zip(names, values))

def human(L, mass, prefix=''):
    w = World()
    add_human36(w, mass=mass, anat_lengths=L, prefix=prefix)
    w.update_geometric()
    return w

def both(L, h, mass):
    w = World()
    add_human36(w, height=h, mass=mass, anat_lengths=L)
    w.update_geometric()
    return w

def plain(h, mass):
    w = World()
    add_human36(w, h, mass)
    w.update_geometric()
    return w

def several(h, mass, h2, mass2):
    w = World()
    add_human36(w, h, mass, prefix='Bob')
    add_human36(w, h2, mass2, prefix='Ann')
    w.update_geometric()
    return w

def names(xs):
    return [x.name for x in xs]

def of(xs, prefix):
    return [x for x in xs if x.name is not None and x.name.startswith(prefix)]
'''


class Model(object):
    """what the world holds: name -> body or joint"""
    def __init__(self, r, w, prefix=''):
        self.r, self.w = r, w
        k = len(prefix)
        self.bodies, self.joints, self.tags = {}, {}, []
        for b in r.items(r.method(w, 'getbodies')):
            n = r.get(b, 'name')
            if not isinstance(n, str):
                raise Unsupported('a body without a name')
            if n.startswith(prefix) and n != 'ground':
                self.bodies[n[k:]] = b
        for j in r.items(r.method(w, 'getjoints')):
            n = r.get(j, 'name')
            if not isinstance(n, str):
                raise Unsupported('a joint without a name')
            if n.startswith(prefix):
                self.joints[n[k:]] = j
        own = {str(b) for b in self.bodies.values()}
        for f in r.items(r.method(w, 'getframes')):
            b = r.get(f, 'body')
            if str(b) in own and str(f) not in own and isinstance(r.get(f, 'name'), str):
                self.tags.append(f)

    def mass(self, n):
        """mass matrix about the origin of the ground, in its axes"""
        r, b = self.r, self.bodies[n]
        f = lambda M, H: (lambda X: mx_dot(mx_T(X), mx_dot(M, X)))(adjoint(se3_inv(H)))
        return lift(f, *[lift(to_mx, r.content(r.get(b, k))) for k in ('mass', 'pose')])

    def weight(self, n):
        M = lift(explode, self.r.content(self.r.get(self.bodies[n], 'mass')))
        return M.c[5, 5]

    def pose(self, x):
        return lift(explode, self.r.content(self.r.get(x, 'pose')))

    def place(self, x):
        return self.pose(x).c[:3, 3]

    def screws(self, n):
        """instantaneous motions of the joint, in the ground"""
        r, j = self.r, self.joints[n]
        H = r.content(r.get(r.get(j, 'frame1'), 'pose'))
        J = r.content(r.get(j, 'jacobian'))
        return lift(explode, lift(lambda H, J: mx_dot(adjoint(H), J), *[lift(to_mx, x) for x in (H, J)]))

    def ends(self, n):
        r, j = self.r, self.joints[n]
        return tuple(r.get(r.get(r.get(j, k), 'body'), 'name') for k in ('frame0', 'frame1'))

    def tag_places(self):
        """(body, place) of the landmarks"""
        r = self.r
        return [(r.get(r.get(t, 'body'), 'name'), self.place(t), r.get(t, 'name')) for t in self.tags]


def mirror6(s):
    """action on twists of the reflection of diagonal s"""
    d = s[0]*s[1]*s[2]
    return [d*x for x in s] + list(s)


def mirrored(M, s):
    k = mirror6(s)
    return ar([[num(k[i]*k[j]) * M.c[i, j] for j in range(6)] for i in range(6)])


def close(o, x, y, what):
    o.eq(x, y, what=what)


def same_dict(o, a, b, what):
    for n in sorted(set(a) ^ set(b)):
        o.violation('%s %s on one side only' % (what, n))


def human(r, L, m, prefix=''):
    k = lambda n: r.I.mod_member(r.st, 'spec_human', n)
    names = sorted(L)
    d = r.call(k('table'), r.list(names), r.list([L[n] for n in names]))
    out = r.call(k('human'), d, m, prefix), r.call(k('height_from_anat_lengths'), d)
    return out


def table_kept(ctx):
    """the lengths belong to the caller"""
    with ctx.ob('lengths-are-left-alone', lambda: ctx.at(HUM, 'add_human36')) as o:
        r = begin(ctx)
        L = lengths(r)
        k = lambda n: r.I.mod_member(r.st, 'spec_human', n)
        names = sorted(L)
        d = r.call(k('table'), r.list(names), r.list([L[n] for n in names]))
        r.call(k('human'), d, sym('m', pos=True), '')
        o.no_raise(r)
        o.require(sorted(r.items(d)) == names, 'other lengths after the human was built')
        for n in names:
            o.eq(num(r.item(d, n)), L[n], what='%s after the human was built' % n)


def given(ctx):
    """with lengths, the height says nothing"""
    with ctx.ob('lengths-rule-over-height', lambda: ctx.at(HUM, 'add_human36')) as o:
        r = begin(ctx)
        L = lengths(r)
        k = lambda n: r.I.mod_member(r.st, 'spec_human', n)
        names = sorted(L)
        m = sym('m', pos=True)
        d = lambda r, k: r.call(k('table'), r.list(names), r.list([L[n] for n in names]))
        a = Model(r, r.call(k('both'), d(r, k), sym('hh', pos=True), m))
        r2 = begin(ctx)
        k2 = lambda n: r2.I.mod_member(r2.st, 'spec_human', n)
        b = Model(r2, r2.call(k2('human'), d(r2, k2), m, ''))
        o.no_raise(r)
        o.require(set(a.bodies) == set(b.bodies), 'other bodies')
        for n in sorted(set(a.bodies) & set(b.bodies)):
            for q in ('mass', 'pose'):
                o.eq(r.content(r.get(a.bodies[n], q)), r2.content(r2.get(b.bodies[n], q)), what='%s of %s' % (q, n))
        for x, y in zip(a.tag_places(), b.tag_places()):
            o.require(x[2] == y[2], 'landmarks %s and %s' % (x[2], y[2]))
            o.eq(ar(list(x[1])), ar(list(y[1])), what='place of %s' % x[2])


def begin(ctx):
    r = start(ctx)
    r.source('spec_human', SPEC)
    return r


def lengths(r):
    """arbitrary lengths, different on both sides, legs excepted"""
    k = r.I.mod_member(r.st, 'spec_human', 'lengths')
    L = {}
    for kv in r.items(r.call(k, sym('h', pos=True))):
        n, _ = r.items(kv)
        L[n] = sym(n, pos=True)
    leg = lambda s: L['yfoot' + s] + L['ytibia' + s]
    L['yfemurL'] = leg('R') + L['yfemurR'] - leg('L')
    return L


def other(n):
    return n[:-1] + {'R': 'L', 'L': 'R'}[n[-1]] if n[-1] in 'RL' else n


def swapped(L):
    return {n: L.get(other(n), L[n]) for n in L}


def exchange(x, names):
    """the name of the part on the other side"""
    y = other(x)
    return y if y in names else x


ZED = (1, 1, -1)


def symmetric(ctx):
    at = lambda: ctx.at(HUM, 'add_human36')
    r = m1 = m2 = None
    with ctx.ob('sides-exchanged', at, 'model') as o:
        r = begin(ctx)
        L = lengths(r)
        mass = sym('mass', pos=True)
        w1, _ = human(r, L, mass)
        w2, _ = human(r, swapped(L), mass)
        o.no_raise(r)
        a, b = Model(r, w1), Model(r, w2)
        same_dict(o, a.bodies, b.bodies, 'body')
        same_dict(o, a.joints, b.joints, 'joint')
        sides = [n for n in a.bodies if n[-1] in 'RL']
        for n in sides:
            o.require(other(n) in a.bodies, 'body %s has no counterpart' % n)
        o.require(len(sides) >= 2, 'no body has sides')
        m1, m2 = a, b
    if m1 is None:
        return
    for n in sorted(m1.bodies):
        with ctx.ob('sides-exchanged', at, 'body ' + n) as o:
            k = exchange(n, m1.bodies)
            got, want = m1.mass(n), mirrored(lift(explode, m2.mass(k)), ZED)
            hand = n.startswith('Hand')
            # the inertia of the trunk is given for the lengths of one side
            trunk = k == n
            close(o, m1.weight(n), m2.weight(k), 'mass of %s' % n)
            if not hand and not trunk:
                close(o, got, want, 'mass matrix of %s' % n)
            else:
                g, w = lift(explode, got), want
                for i, j in ((3, 1), (3, 2), (4, 0), (4, 2), (5, 0), (5, 1)):
                    close(o, g.c[i, j], w.c[i, j], 'first moment of %s' % n)
                if trunk:
                    continue
                close(o, g.c[1, 1], w.c[1, 1], 'moment of %s along it' % n)
                close(o, g.c[0, 0] + g.c[2, 2], w.c[0, 0] + w.c[2, 2], 'moments of %s across it' % n)
        if n == 'HandR':
            with ctx.ob('hands-alike', at, n) as o:
                close(o, m1.mass(n), mirrored(lift(explode, m2.mass(k)), ZED), 'mass matrix of HandR and HandL')
    for n in sorted(m1.joints):
        with ctx.ob('sides-exchanged', at, 'joint ' + n) as o:
            k = exchange(n, m1.joints)
            x, y = m1.ends(n), m2.ends(k)
            o.require(x == tuple(exchange(e, m1.bodies) for e in y), '%s links %s and %s, %s links %s and %s'
                      % ((n,) + x + (k,) + y))
            A, B = m1.screws(n), m2.screws(k)
            o.require(A.c.shape == B.c.shape, '%s and %s have not the same degrees of freedom' % (n, k))
            if A.c.shape == B.c.shape:
                q = mirror6(ZED)
                for i in range(A.c.shape[1]):
                    col = [num(q[l]) * B.c[l, i] for l in range(6)]
                    up_to_sign(o, [A.c[l, i] for l in range(6)], col, 'motion %d of %s' % (i, n))
    with ctx.ob('sides-exchanged', at, 'landmarks') as o:
        want = [(exchange(b, m1.bodies), [p[0], p[1], -p[2]], n) for b, p, n in m2.tag_places()]
        got = m1.tag_places()
        o.require(len(got) >= 2, 'no landmark')
        for b, p, n in got:
            there = [(q, k) for c, q, k in want if c == b and strip(k) == strip(n)]
            if len(there) > 1:
                there = [(q, k) for q, k in there if k != n]
            if len(there) != 1:
                o.violation('landmark %s has %d counterparts' % (n, len(there)))
            else:
                o.eq(ar(list(p)), ar(list(there[0][0])), what='landmark %s' % n)


def strip(n):
    for s in ('Right ', 'Left '):
        if n.startswith(s):
            return n[len(s):].lower()
    return n.lower()


def up_to_sign(o, a, b, what):
    """two columns equal, or opposite"""
    zero = lambda x, y: all((u - v).const() == 0 for u, v in zip(x, y))
    if zero(a, [-x for x in b]):
        b = [-x for x in b]
    o.eq(ar(list(a)), ar(list(b)), what=what)


def scaled(ctx):
    at = lambda: ctx.at(HUM, 'add_human36')
    a = b = None
    with ctx.ob('scale', at, 'model') as o:
        r = begin(ctx)
        L = lengths(r)
        s = sym('s', pos=True)
        m = sym('mass', pos=True)
        w1, h1 = human(r, L, m)
        w2, h2 = human(r, {n: s*x for n, x in L.items()}, m)
        o.no_raise(r)
        a, b = Model(r, w1), Model(r, w2)
        o.eq(h2, s*h1, what='stature')
        for n in sorted(set(a.joints) & set(b.joints)):
            x = a.place(r.get(a.joints[n], 'frame0'))
            y = b.place(r.get(b.joints[n], 'frame0'))
            o.eq(ar(list(y)), ar([s*u for u in x]), what='place of joint %s' % n)
        for (b1, p1, n1), (b2, p2, n2) in zip(a.tag_places(), b.tag_places()):
            o.require(n1 == n2, 'landmarks %s and %s' % (n1, n2))
            o.eq(ar(list(p2)), ar([s*u for u in p1]), what='place of %s' % n1)
    if a is None or b is None:
        return
    for n in sorted(a.bodies):
        with ctx.ob('scale', at, 'body ' + n) as o:
            k = [s, s, s, S1, S1, S1]
            M, N = [lift(explode, r.content(r.get(x.bodies[n], 'mass'))) for x in (a, b)]
            o.eq(N, ar([[k[i]*k[j]*M.c[i, j] for j in range(6)] for i in range(6)]), what='mass matrix of %s' % n)


def weight(ctx):
    at = lambda: ctx.at(HUM, 'add_human36')
    with ctx.ob('weight-and-stature', at) as o:
        r = begin(ctx)
        L = lengths(r)
        m = sym('mass', pos=True)
        w, h = human(r, L, m)
        a = Model(r, w)
        t = S0
        for n in a.bodies:
            t = t + a.weight(n)
        o.eq(t, m, what='mass of the whole')
        ends(o, r, a, h)
        o.no_raise(r)
    with ctx.ob('weight-and-stature', at, 'from the height') as o:
        r = begin(ctx)
        h, m = sym('h', pos=True), sym('mass', pos=True)
        w = r.call(r.I.mod_member(r.st, 'spec_human', 'plain'), h, m)
        a = Model(r, w)
        t = S0
        for n in a.bodies:
            t = t + a.weight(n)
        o.eq(t, m, what='mass of the whole')
        ends(o, r, a, h)
        o.no_raise(r)
    with ctx.ob('stature-from-lengths', lambda: ctx.at(HUM, 'height_from_anat_lengths')) as o:
        r = begin(ctx)
        k = lambda n: r.I.mod_member(r.st, 'spec_human', n)
        h = sym('h', pos=True)
        o.eq(r.call(k('height_from_anat_lengths'), r.call(k('anat_lengths_from_height'), h)), h, what='stature')
        o.no_raise(r)


def ends(o, r, a, h):
    """stands upright on the ground, its vertex at the stature"""
    up = {}
    for b, p, n in a.tag_places():
        up[n] = p[1]
    for n in ('Right foot heel', 'Left foot heel', 'Right foot toe tip', 'Left foot toe tip'):
        if n in up:
            o.eq(up[n], S0, what='height of %s' % n)
        else:
            o.violation('no landmark %s' % n)
    if 'Vertex' in up:
        o.eq(up['Vertex'], h, what='height of the vertex')
    else:
        o.violation('no landmark Vertex')


def people(ctx):
    at = lambda: ctx.at(HUM, 'add_human36')
    with ctx.ob('people-share-a-world', at) as o:
        r = begin(ctx)
        k = lambda n: r.I.mod_member(r.st, 'spec_human', n)
        who = {'Bob': (sym('h', pos=True), sym('m', pos=True)), 'Ann': (sym('h2', pos=True), sym('m2', pos=True))}
        w = r.call(k('several'), *(who['Bob'] + who['Ann']))
        o.no_raise(r)
        total = 1
        for p in who:
            a = Model(r, w, p)
            # alone: in a program that builds nobody else
            r2 = begin(ctx)
            b = Model(r2, r2.call(r2.I.mod_member(r2.st, 'spec_human', 'plain'), *who[p]))
            total += len(a.bodies)
            o.require(set(a.bodies) == set(b.bodies), 'bodies of %s: %s, alone: %s'
                      % (p, sorted(a.bodies), sorted(b.bodies)))
            o.require(set(a.joints) == set(b.joints), 'joints of %s: %s, alone: %s'
                      % (p, sorted(a.joints), sorted(b.joints)))
            for n in sorted(set(a.bodies) & set(b.bodies)):
                for q in ('mass', 'pose'):
                    o.eq(r.content(r.get(a.bodies[n], q)), r2.content(r2.get(b.bodies[n], q)),
                         what='%s of %s of %s' % (q, n, p))
            x, y = a.tag_places(), b.tag_places()
            o.require([n[len(p):] for _, _, n in x] == [n for _, _, n in y], 'landmarks of %s: %s'
                      % (p, [n for _, _, n in x]))
            shapes = [s for s in r.items(r.method(w, 'getshapes')) if str(r.get(s, 'name')).startswith(p)]
            alone = r2.items(r2.method(b.w, 'getshapes'))
            o.require([str(r.get(s, 'name'))[len(p):] for s in shapes] == [r2.get(s, 'name') for s in alone],
                      'shapes of %s' % p)
            for s, t in zip(shapes, alone):
                o.eq(r.content(r.get(s, 'frame', 'pose')), r2.content(r2.get(t, 'frame', 'pose')),
                     what='place of shape %s' % r.get(s, 'name'))
        o.require(len(r.items(r.method(w, 'getbodies'))) == total, 'other bodies are in the world')


def again(ctx):
    """the same person, after others were made and used"""
    from obl.again import picture, same_pictures, wreck
    with ctx.ob('same-person-again', lambda: ctx.at(HUM, 'add_human36')) as o:
        h, m = sym('h', pos=True), sym('m', pos=True)
        r = begin(ctx)
        k = r.I.mod_member(r.st, 'spec_human', 'plain')
        for a in ((h, m), (sym('h2', pos=True), sym('m2', pos=True))):
            wreck(r, r.call(k, *a))
        got = picture(r, r.call(k, h, m))
        o.no_raise(r)
        r2 = begin(ctx)
        same_pictures(o, got, picture(r2, r2.call(r2.I.mod_member(r2.st, 'spec_human', 'plain'), h, m)))


def run(ctx):
    again(ctx)
    table_kept(ctx)
    given(ctx)
    symmetric(ctx)
    scaled(ctx)
    weight(ctx)
    people(ctx)
