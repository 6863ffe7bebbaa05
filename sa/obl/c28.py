"""Drawing.  A reference driver records the scene graph that a Drawer asks for: after
World.parse, the transforms composed from the ground to the node of each frame must give
the pose of the frame, for any tree, and must still do so when the nodes the animators
move (named as the observers name them) are given the poses of another state of the world.
Every shape, inertia and link must be drawn once, in the place and colour of what it belongs to."""
from obl.small import *
from obl.c18 import Tree, registries
from obl.c24 import start
import nd

WD = 'arboris.visu.world_drawer'

SPEC = '''
import arboris.core
import arboris.shapes
from arboris.core import World, Body, SubFrame, MovingSubFrame, Shape
from arboris.joints import FreeJoint, RzJoint
from arboris.shapes import Sphere, Point, Plane, Box, Cylinder
from arboris.visu.world_drawer import Drawer, DrawerDriver, AnimatorDriver, ColorGenerator, hsv_to_rgb

class Node(object):
    def __init__(self, kind, args, color, name):
        self.kind = kind
        self.args = args
        self.color = color
        self.name = name
        self.children = []

class Scene(DrawerDriver):
    def __init__(self, *args):
        DrawerDriver.__init__(self, *args)
        self.up = []
        self.done = []

    def add_ground(self, up):
        self.up.append(up)
        self.root = Node('ground', (), None, 'ground')
        return self.root

    def init(self):
        pass

    def finish(self):
        self.done.append(True)

    def create_transform(self, pose, is_constant, name=None):
        return Node('transform', (pose.copy(), is_constant), None, name)

    def create_inertia(self, inertia, color, name=None):
        return Node('inertia', (inertia.copy(),), color, name)

    def create_frame_arrows(self):
        return Node('arrows', (), None, None)

    def create_line(self, start, end, color, name=None):
        return Node('line', ([x for x in start], [x for x in end]), color, name)

    def create_ellipsoid(self, radii, color, name=None):
        return Node('ellipsoid', ([r for r in radii],), color, name)

    def create_box(self, half_extents, color, name=None):
        return Node('box', ([x for x in half_extents],), color, name)

    def create_plane(self, coeffs, color, name=None):
        return Node('plane', ([x for x in coeffs],), color, name)

    def create_cylinder(self, length, radius, color, name=None):
        return Node('cylinder', (length, radius), color, name)

    def add_child(self, parent, child, category=None):
        parent.children.append((category, child))

class Recorder(Scene):
    # what kind of drawing is asked for
    def create_sphere(self, radius, color, name=None):
        return Node('sphere', (radius,), color, name)

    def create_point(self, color, name=None):
        return Node('point', (), color, name)

class AShape(Shape):
    pass

def dct(radius):
    return {'point radius': radius, 'display links': False}

def refused(f, *args):
    try:
        f(*args)
    except ValueError:
        return True
    return False
'''


class Stage(object):
    """a world with every kind of frame and of shape"""
    def __init__(self, ctx, r=None, first=0):
        self.ctx = ctx
        if r is None:
            r = start(ctx)
            r.source('spec28', SPEC)
        self.r = r
        self.k = lambda n: r.I.mod_member(r.st, 'spec28', n)
        w = self.w = r.new('World')
        g = self.g = r.get(w, 'ground')
        self.n = first
        b = self.bodies = {n: r.new(self.k('Body'), name=n, mass=r.nd(self.mass(n))) for n in 'ABD'}
        b['C'] = r.new(self.k('Body'), name='C')          # without mass
        self.joints = {}
        f = self.frames = {}
        sub = lambda n, body, H: f.setdefault(n, r.new(self.k('SubFrame'), body, r.nd(H), name=n))
        mov = lambda n, body: f.setdefault(n, r.new(self.k('MovingSubFrame'), body, name=n))

        def link(f0, n, kind, f1):
            j = self.joints[n] = r.new(self.k(kind), name=n)
            r.method(w, 'add_link', f0, j, f1)
        link(g, 'jA', 'FreeJoint', b['A'])
        link(sub('hip', b['A'], self.place('hip')), 'jB', 'FreeJoint', sub('knee', b['B'], self.place('knee')))
        link(b['B'], 'jC', 'RzJoint', sub('end', b['C'], self.place('end', False)))
        link(mov('tray', b['A']), 'jD', 'FreeJoint', b['D'])
        sub('wall', g, self.place('wall'))
        sub('same', g, self.place('same', False))
        sub('tip', b['C'], self.place('tip'))
        mov('spot', b['B'])
        mov('mark', g)
        for n in ('wall', 'same', 'tip', 'spot', 'mark'):
            r.method(w, 'register', f[n])
        self.shapes = []
        pos = lambda n: sym(n, pos=True)
        for kind, fr, args, want in (
                ('Sphere', f['hip'], (pos('r1'),), ('sphere', [[pos('r1')]])),
                ('Sphere', f['spot'], (pos('r2'),), ('sphere', [[pos('r2')]])),
                ('Point', b['D'], (), ('point', [])),
                ('Point', f['wall'], (), ('point', [])),
                ('Cylinder', f['tip'], (pos('l3'), pos('r3')), ('cylinder', [[pos('l3')], [pos('r3')]])),
                ('Box', b['C'], (r.list([pos('b%d' % i) for i in range(3)]),), ('box', [[pos('b%d' % i) for i in range(3)]])),
                ('Plane', g, (r.list([num(0), num(1), num(0), sym('h')]),), ('plane', [[num(0), num(1), num(0), sym('h')]]))):
            s = r.new(self.k(kind), fr, *args, name='shape%d' % len(self.shapes))
            r.method(w, 'register', s)
            self.shapes.append((s, fr, want))
        self.state()

    def mass(self, n):
        k = 'ABCD'.index(n) + 1
        d = [[num(k * (i + 1)) if i == j else S0 for j in range(6)] for i in range(6)]
        return ar(d)

    def place(self, n, offset=True):
        return h_of(euler_rot(n), ar([sym(n + '_x', pos=True), sym(n + '_y'), sym(n + '_z')]) if offset
                    else ar_zeros((3,)))

    def state(self):
        r = self.r
        self.n += 1
        for k, j in sorted(self.joints.items()):
            if k == 'jC':
                r.set(j, 'gpos', r.nd(vec('q%d_' % self.n, 1)))
            else:
                r.set(j, 'gpos', r.nd(se3('%s_%d' % (k, self.n))))
        for k in ('tray', 'spot', 'mark'):
            r.set(self.frames[k], 'bpose', r.nd(se3('%s_%d' % (k, self.n))))
        r.method(self.w, 'update_geometric')

    def all_frames(self):
        return dict(self.bodies, **self.frames)

    def driver(self, kind='Recorder', *args):
        return self.r.new(self.k(kind), *args)

    def draw(self, driver, *args):
        d = self.r.new(self.k('Drawer'), driver, *args)
        self.r.method(self.w, 'parse', d)
        return d


def its(r, v):
    if isinstance(v, tuple):
        return list(v)
    l = r.items(v)
    if l is None:
        raise Unsupported('a sequence that is not known')
    return l


class Picture(object):
    """what was recorded, as a tree of plain nodes"""
    def __init__(self, r, root):
        self.r = r
        self.nodes = []
        self.root = self.read(root, None, None)

    def read(self, n, parent, category, when=True):
        r = self.r
        x = dict(obj=n, kind=r.get(n, 'kind'), args=its(r, r.get(n, 'args')), color=r.get(n, 'color'),
                 name=r.get(n, 'name'), parent=parent, category=category)
        if any(y['obj'] is n for y in self.nodes):
            raise Twice()
        self.nodes.append(x)
        x['when'] = when
        x['children'] = []
        for c, e in self.entries(r.get(n, 'children')):
            k, y = its(r, e)
            x['children'].append(self.read(y, x, k, c))
        return x

    def entries(self, l, when=True, segs=None):
        for s in (self.r.I.segs_of(self.r.st, l) if segs is None else segs):
            if isinstance(s, One):
                yield when, s.v
            elif isinstance(s, Cnd) and when is True:
                for x in self.entries(l, s.c, s.segs):
                    yield x
            else:
                raise Unsupported('children that are not known')

    def transforms(self):
        l = [x for x in self.nodes if x['kind'] == 'transform']
        if any(x['when'] is not True for x in l):
            raise Unsupported('nodes drawn under conditions')
        return l

    def composed(self, x, moved=None):
        H = None
        while x['parent'] is not None:
            if x['kind'] == 'transform':
                P = (moved or {}).get(id(x['obj']))
                if P is None:
                    P = self.r.content(x['args'][0])
                H = P if H is None else mx_dot(to_mx(P), to_mx(H))
            x = x['parent']
        return H if H is not None else ar_eye(4)


class Twice(Exception):
    pass


def picture(o, S, d, drv):
    try:
        P = Picture(S.r, S.r.get(drv, 'root'))
    except Twice:
        o.violation('a node is drawn at two places')
        return None
    by = {}
    for x in P.transforms():
        by.setdefault(x['name'], []).append(x)
    ok = True
    for n in S.all_frames():
        k = len(by.get(n, ()))
        o.require(k == 1, 'frame %s has %d nodes' % (n, k))
        ok = ok and k == 1
    o.require(set(by) <= set(S.all_frames()), 'nodes for %s' % sorted(map(str, set(by) - set(S.all_frames()))))
    P.by = {n: v[0] for n, v in by.items()}
    return P if ok else None


def places(o, S, P, moved=None, what='node'):
    for n, f in sorted(S.all_frames().items()):
        o.eq(P.composed(P.by[n], moved), S.r.content(S.r.get(f, 'pose')), what='place of the %s of %s' % (what, n))


def scene(ctx):
    at = lambda: ctx.at_cls('Drawer', 'add_link')
    for flat in (False, True):
        with ctx.ob('nodes-where-frames-are', at, 'flat' if flat else 'tree') as o:
            S = Stage(ctx)
            r = S.r
            drv = S.driver()
            d = S.draw(drv, flat)
            o.no_raise(r)
            P = picture(o, S, d, drv)
            if P is None:
                continue
            places(o, S, P)
            # what the animators and the loggers move
            moving = {}
            if flat:
                for n, b in S.bodies.items():
                    moving[n] = (b, 'pose')
            else:
                for n, j in S.joints.items():
                    moving[r.get(r.get(j, 'frame1'), 'name')] = (j, 'pose')
            for n in ('tray', 'spot', 'mark'):
                moving[n] = (S.frames[n], 'pose' if flat else 'bpose')
            for x in P.transforms():
                o.require(x['args'][1] is (x['name'] not in moving),
                          'node %s is declared %s' % (x['name'], 'constant' if x['args'][1] is True else 'moving'))
            S.state()
            moved = {id(P.by[n]['obj']): r.content(r.get(x, k)) for n, (x, k) in moving.items()}
            places(o, S, P, moved, 'moved node')
            if not flat:
                T = r.get(d, 'transform_nodes')
                for n, j in S.joints.items():
                    o.require(r.item(T, j) is P.by[r.get(r.get(j, 'frame1'), 'name')]['obj'],
                              'the node of joint %s' % n)
            T = r.get(d, 'frame_nodes')
            for n, f in S.all_frames().items():
                o.require(r.item(T, f) is P.by[n]['obj'], 'the node of frame %s' % n)
            o.require(r.item(T, S.g) is P.root['obj'], 'the node of the ground')
            o.no_raise(r)


def under(P, S, f):
    n = S.r.get(f, 'name')
    x = P.root if f is S.g else P.by[n]
    return x['children']


def body_color(S, gen, f):
    return its(S.r, S.r.method(gen, 'get_color', S.r.get(f, 'body')))


def contents(o, S, P, gen):
    r = S.r
    if any(x['when'] is not True and x['kind'] != 'line' for x in P.nodes):
        raise Unsupported('nodes drawn under conditions')
    seen = []
    for s, f, (kind, args) in S.shapes:
        l = [x for x in P.nodes if x['name'] == r.get(s, 'name')]
        o.require(len(l) == 1, 'shape %s is drawn %d times' % (kind, len(l)))
        if len(l) != 1:
            continue
        x = l[0]
        seen.append(id(x['obj']))
        o.require(x in under(P, S, f), 'a shape is drawn under another frame')
        o.require(x['category'] == 'shape', 'category of a shape: %s' % x['category'])
        o.require(x['kind'] == kind, 'a %s is drawn as a %s' % (kind, x['kind']))
        if x['kind'] == kind:
            for g, v in zip(x['args'], args):
                g = [g] if isinstance(g, Sx) else its(r, g)
                for p, q in zip(g, v):
                    o.eq(p, q, what='dimension of a %s' % kind)
        same_color(o, r, x['color'], body_color(S, gen, f), 'of a shape')
    inert = [x for x in P.nodes if x['kind'] == 'inertia']
    for n, b in S.bodies.items():
        l = [x for x in under(P, S, b) if x['kind'] == 'inertia']
        o.require(len(l) == (n != 'C'), 'body %s has %d inertias' % (n, len(l)))
        for x in l:
            o.eq(r.content(x['args'][0]), r.content(r.get(b, 'mass')), what='inertia drawn')
            o.require(x['category'] == 'inertia', 'category of an inertia')
            same_color(o, r, x['color'], body_color(S, gen, b), 'of an inertia')
    o.require(len(inert) == len(S.bodies) - 1, '%d inertias are drawn' % len(inert))
    for x in P.transforms():
        l = [y for y in x['children'] if y['kind'] == 'arrows']
        o.require(len(l) == 1 and l[0]['category'] == 'frame arrows', 'frame %s has %d arrows' % (x['name'], len(l)))
    # links: the constant offsets
    lines = [x for x in P.nodes if x['kind'] == 'line']
    want = [x for x in P.transforms() if x['args'][1] is True and S_off(r, x)]
    ends = [p_of(explode(r.content(x['args'][0]))) for x in want]
    for y in [y for y in lines if y['when'] is not True]:
        if any(same_vec(r, y['args'][1], p) for p in ends):
            o.undecided('a link drawn under a condition')
        elif o.feasible(y['when']):
            o.violation('a link is drawn to what moves')
        lines.remove(y)
    o.require(len(lines) == len(want), '%d links drawn for %d offsets' % (len(lines), len(want)))
    for x in want:
        p = p_of(explode(r.content(x['args'][0])))
        col = body_color(S, gen, S.all_frames()[x['name']])
        l = [y for y in x['parent']['children'] if y['kind'] == 'line' and same_vec(r, y['args'][1], p)]
        o.require(len(l) == 1, 'the link to %s is drawn %d times' % (x['name'], len(l)))
        for y in l:
            o.require(y['category'] == 'link', 'category of a link')
            for v in its(r, y['args'][0]):
                o.eq(v, S0, what='start of a link')
            same_color(o, r, y['color'], col, 'of a link')
    lines = [x for x in P.nodes if x['kind'] == 'line']
    known = set(seen) | {id(x['obj']) for x in inert + lines + P.transforms()} | \
        {id(x['obj']) for x in P.nodes if x['kind'] in ('arrows', 'ground')}
    extra = [x['kind'] for x in P.nodes if id(x['obj']) not in known]
    o.require(not extra, 'drawn in excess: %s' % extra)


def drawn(ctx):
    at = lambda: ctx.at_cls('Drawer', 'register')
    for flat in (False, True):
        with ctx.ob('everything-drawn-once', at, 'flat' if flat else 'tree') as o:
            S = Stage(ctx)
            r = S.r
            drv = S.driver()
            gen = r.new(S.k('ColorGenerator'))
            d = S.draw(drv, flat, gen)
            o.no_raise(r)
            P = picture(o, S, d, drv)
            if P is None:
                continue
            o.require(len(its(r, r.get(drv, 'up'))) == 1, 'the ground is drawn several times')
            o.eq(r.content(its(r, r.get(drv, 'up'))[0]), r.content(r.get(S.w, 'up')), what='vertical given to the driver')
            contents(o, S, P, gen)
            # bodies have different colours
            cols = [[repr(c) for c in body_color(S, gen, b)] for b in S.bodies.values()]
            o.require(len({tuple(c) for c in cols}) == len(cols), 'bodies share colours')
            o.require(its(r, r.get(drv, 'done')) == [], 'the driver is finished before the drawer')
            r.method(d, 'finish')
            o.require(len(its(r, r.get(drv, 'done'))) == 1, 'the driver is not finished with the drawer')
            o.no_raise(r)
    with ctx.ob('everything-drawn-once', at, 'unknown shape') as o:
        S = Stage(ctx)
        r = S.r
        d = S.draw(S.driver())
        s = r.new(S.k('AShape'), S.frames['tip'])
        o.eq(r.call(S.k('refused'), r.get(d, 'register'), s), True, what='refusal of an unknown shape')
        o.no_raise(r)


def S_off(r, x):
    return not all(c.iszero() for c in p_of(explode(r.content(x['args'][0]))).c)


def same_vec(r, v, p):
    return all((a - b).iszero() for a, b in zip(its(r, v), p.c))


def same_color(o, r, got, want, what):
    g = its(r, got)
    for a, b in zip(g, want):
        o.eq(a, b, what='colour ' + what)


def again(ctx):
    """a drawing does not depend on those which were made before"""
    at = lambda: ctx.at_cls('Drawer', 'init_parse')
    for flat in (False, True):
        way = 'flat' if flat else 'tree'

        def look(o, S, what):
            r = S.r
            drv = S.driver()
            gen = r.new(S.k('ColorGenerator'))
            S.draw(drv, flat, gen)
            o.no_raise(r)
            P = picture(o, S, S, drv)
            if P is None:
                return None
            places(o, S, P, what='node ' + what)
            contents(o, S, P, gen)
            return {n: body_color(S, gen, b) for n, b in sorted(S.bodies.items())}

        with ctx.ob('drawn-again', at, 'two worlds, ' + way) as o:
            A = Stage(ctx)
            first = look(o, A, 'of the first world')
            B = Stage(ctx, A.r, 10)
            second = look(o, B, 'of the second world')
            for n in sorted(first or {}):
                for x, y in zip(first[n], (second or first)[n]):
                    o.eq(y, x, what='colour of the body %s of the second world' % n)
            # the first one, once more
            look(o, A, 'of the first world, drawn after the second')
            o.no_raise(A.r)
        with ctx.ob('drawn-again', at, 'a world which changed, ' + way) as o:
            S = Stage(ctx)
            r = S.r
            look(o, S, 'at first')
            S.state()
            for n in ('A', 'B'):
                r.set(S.bodies[n], 'mass', r.nd(ar([[num(50 * (i + 1)) if i == j else S0 for j in range(6)]
                                                    for i in range(6)])))
            r.set(S.bodies['D'], 'mass', r.nd(S.mass('B')))
            r.set(S.shapes[0][0], 'radius', sym('r9', pos=True))
            S.shapes[0] = S.shapes[0][:2] + (('sphere', [[sym('r9', pos=True)]]),)
            E = r.new(S.k('Body'), name='E', mass=r.nd(S.mass('A')))
            S.joints['jE'] = r.new(S.k('FreeJoint'), name='jE')
            r.method(S.w, 'add_link', S.bodies['D'], S.joints['jE'], E)
            S.bodies['E'] = E
            p = r.new(S.k('Point'), E, name='late')
            r.method(S.w, 'register', p)
            S.shapes.append((p, E, ('point', [])))
            S.state()
            look(o, S, 'of the changed world')
            o.no_raise(r)
    with ctx.ob('drawn-again', lambda: ctx.at_cls('ColorGenerator', '__init__'), 'two generators of colours') as o:
        S = Stage(ctx)
        r = S.r
        new = lambda: r.new(S.k('ColorGenerator'), nb_colors=num(3))
        red = tuple(num(x) for x in (1, 0, 0))
        one = new()
        ask = lambda g: {n: its(r, r.method(g, 'get_color', S.bodies[n])) for n in 'ABD'}
        first = ask(one)
        r.method(one, 'set_color', S.bodies['A'], red)
        r.method(one, 'set_color', 'wall', red)
        two = new()
        second = ask(two)
        for n in 'ABD':
            for x, y in zip(first[n], second[n]):
                o.eq(y, x, what='colour of the body %s in another generator' % n)
        g = its(r, r.method(two, 'get_color', S.g))
        for x, y in zip(its(r, r.method(two, 'get_color', S.frames['wall'])), g):
            o.eq(x, y, what='colour of a frame coloured in another generator')
        for x, y in zip(ask(one)['A'], red):
            o.eq(x, y, what='colour which was chosen')
        o.no_raise(r)


def colors(ctx):
    at = lambda: ctx.at_cls('ColorGenerator', 'get_color')
    c = lambda r, k: r.I.new_tuple(r.st, [num(k) / num(100), num(k + 1) / num(100), num(k + 2) / num(100)]) \
        if hasattr(r.I, 'new_tuple') else None
    with ctx.ob('colours-of-objects', at) as o:
        S = Stage(ctx)
        r = S.r
        col = lambda k: tuple(num(k + i) / num(100) for i in range(3))
        s, f, _ = S.shapes[0]
        m = S.map = r.call(r.fn('spec28', 'mapping'), s, col(10), 'tip', col(20), S.bodies['D'], col(30)) \
            if False else None
        gen = r.new(S.k('ColorGenerator'), nb_colors=num(3))
        get = lambda x: its(r, r.method(gen, 'get_color', x))
        put = lambda x, k: r.method(gen, 'set_color', x, col(k))

        def eq(x, want, what):
            for a, b in zip(get(x), want):
                o.eq(a, b, what='colour of ' + what)
        put(s, 10)
        put('tip', 20)
        put(S.bodies['D'], 30)
        put('wall', 40)
        eq(s, col(10), 'an object that has one')
        eq(S.frames['tip'], col(20), 'a frame whose name has one')
        eq(S.bodies['D'], col(30), 'a body that has one')
        eq(S.shapes[2][0], col(30), 'a shape of a body that has one')
        eq(S.shapes[3][0], get(S.g), 'a shape on a sub-frame with a colour')
        put(S.frames['tip'], 50)
        eq(S.frames['tip'], col(50), 'an object that has one, and its name another')
        first = {n: get(S.bodies[n]) for n in 'AB'}
        for n in 'AB':
            eq(S.bodies[n], first[n], 'a body asked again')
        eq(S.frames['hip'], first['A'], 'a sub-frame')
        eq(S.frames['tray'], first['A'], 'a moving sub-frame')
        eq(S.frames['spot'], first['B'], 'a moving sub-frame')
        o.require([repr(x) for x in first['A']] != [repr(x) for x in first['B']], 'two bodies have one colour')
        # the palette is exhausted: white
        eq(S.bodies['C'], [num(1)] * 3, 'bodies beyond the palette')
        o.no_raise(r)


HSV = '''
def reference(h, s, v):
    # each channel of the hue circle, from the definition of the HSV hexcone
    def channel(n):
        k = (n + h/60.) % 6
        return v - v * s * max(0., min(k, 4 - k, 1.))
    return (channel(5), channel(3), channel(1))
'''


def hues(ctx):
    from fractions import Fraction
    at = lambda: ctx.at(WD, 'hsv_to_rgb')
    with ctx.ob('hue-circle', at) as o:
        r = start(ctx)
        s, v = sym('s'), sym('v')
        for k in range(0, 720, 12):
            # one channel at a time, as the hexcone defines it
            got = its(r, r.call(r.fn(WD, 'hsv_to_rgb'), (num(k), s, v)))
            o.no_raise(r)
            for n, g in zip((5, 3, 1), got):
                q = (Fraction(n) + Fraction(k, 60)) % 6
                w = max(Fraction(0), min(q, 4 - q, Fraction(1)))
                o.eq(g, v - v * s * num(w), what='channel of hue %d' % k)
    with ctx.ob('palette', lambda: ctx.at_cls('ColorGenerator', '__init__')) as o:
        r = start(ctx)
        r.source('spec28', SPEC)
        for n in (1, 7, 20):
            g = r.new(r.I.mod_member(r.st, 'spec28', 'ColorGenerator'), nb_colors=num(n))
            seen = set()
            for k in range(n):
                b = r.new('Body')
                c = its(r, r.method(g, 'get_color', b))
                o.require(len(c) == 3, 'a colour has %d components' % len(c))
                seen.add(tuple(repr(x) for x in c))
                for x in c:
                    o.require(alg.sign_of(x) in (0, 1, 2), 'a negative component')
            o.no_raise(r)
            o.require(len(seen) == n, '%d distinct colours in a palette of %d' % (len(seen), n))


SIZES = ('frame arrows length', 'point radius', 'inertia factor', 'force length', 'force radius')


def options(ctx):
    at = lambda: ctx.at_cls('DrawerDriver', '__init__')
    with ctx.ob('driver-options', at) as o:
        r = start(ctx)
        r.source('spec28', SPEC)
        k = lambda n: r.I.mod_member(r.st, 'spec28', n)
        scale = sym('scale', pos=True)
        one = r.get(r.new(k('Scene')), '_options')
        some = r.get(r.new(k('Scene'), scale), '_options')
        own = r.call(k('dct'), sym('radius', pos=True))
        mine = r.get(r.new(k('Scene'), scale, own), '_options')
        dft = r.method(k('Scene'), 'get_default_options')
        o.no_raise(r)
        for n in SIZES + ('plane half extents',):
            a, b, d = [r.item(x, n) for x in (one, some, dft)]
            a, b, d = [[x] if isinstance(x, Sx) else its(r, x) for x in (a, b, d)]
            for x, y, z in zip(a, b, d):
                o.eq(y, x * scale, what='scaled ' + n)
                o.eq(x, z, what='default ' + n)
        for n in SIZES + ('display shapes', 'display links', 'display inertias', 'display frame arrows'):
            want = {'point radius': sym('radius', pos=True), 'display links': False}.get(n, r.item(some, n))
            o.eq(r.item(mine, n), want, what='option ' + n)
    with ctx.ob('driver-options', lambda: ctx.at_cls('DrawerDriver', 'create_sphere'), 'spheres and points') as o:
        r = start(ctx)
        r.source('spec28', SPEC)
        k = lambda n: r.I.mod_member(r.st, 'spec28', n)
        scale, rad = sym('scale', pos=True), sym('r', pos=True)
        d = r.new(k('Scene'), scale)
        col = (num(1), num(0), num(0))
        for x, v in ((r.method(d, 'create_sphere', rad, col, 'n'), rad),
                     (r.method(d, 'create_point', col, 'n'), r.item(r.get(d, '_options'), 'point radius'))):
            o.require(r.get(x, 'kind') == 'ellipsoid', 'kind')
            l = its(r, its(r, r.get(x, 'args'))[0])
            o.require(len(l) == 3, '%d radii' % len(l))
            for y in l:
                o.eq(y, v, what='radius')
            same_color(o, r, r.get(x, 'color'), col, 'of a sphere')
        o.no_raise(r)


def run(ctx):
    with cut_at(40):
        scene(ctx)
        drawn(ctx)
        again(ctx)
    colors(ctx)
    hues(ctx)
    options(ctx)
