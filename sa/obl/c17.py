"""Collision dispatch.  choose_solver is analysed on every ordered pair of shape
kinds (those of the source, a subclass of each, a kind it has never heard of):
it must answer for exactly the pairs with a collision geometry, whatever the
order, and raise NotImplementedError for the others.
get_all_contacts is analysed on a world whose shapes cover every pair of kinds
on the same body and on different ones."""
import itertools

from obl.world import *

KINDS = ('Sphere', 'Other', 'Point', 'Cylinder', 'Plane', 'Box')
# the pairs documented, and those the shapes of the repository are used with
PAIRS = {frozenset(p) for p in (('Sphere',), ('Sphere', 'Point'), ('Sphere', 'Plane'),
                                ('Sphere', 'Box'), ('Point', 'Plane'), ('Point', 'Box'))}

SPEC = '''
from arboris.core import Shape
from arboris.shapes import Sphere, Point, Plane, Box, Cylinder
from arboris.constraints import PointContact
from arboris.collisions import choose_solver

class Other(Shape):
    pass

class SubSphere(Sphere):
    pass

class SubPoint(Point):
    pass

class SubPlane(Plane):
    pass

class SubBox(Box):
    pass

class SubCylinder(Cylinder):
    pass

class Probe(PointContact):
    def __init__(self, shapes, **args):
        choose_solver(shapes[0], shapes[1])
        self.pair = shapes
        self.args = args

def registered(w):
    return [c for c in w.getconstraints()]

def choose(s0, s1):
    try:
        shapes, solver = choose_solver(s0, s1)
    except NotImplementedError:
        return None
    return shapes[0] is s0 and shapes[1] is s1, shapes[0] is s1 and shapes[1] is s0, solver
'''


def setup(ctx):
    r = ctx.run(Schema(ctx.prog))
    r.source('spec17', SPEC)
    return r


def kind(r, name):
    if name in ('Other', 'Probe') or name.startswith('Sub'):
        return r.I.mod_member(r.st, 'spec17', name)
    return r.cls(name)


def shape(r, name, frame):
    return r.new(kind(r, name), frame)


def dispatch(ctx, o, a, b, sub):
    r = setup(ctx)
    w = r.new('World')
    names = [('Sub' + k if s and k != 'Other' else k) for k, s in zip((a, b), sub)]
    s = [shape(r, n, r.get(w, 'ground')) for n in names]
    one = r.call(r.fn('spec17', 'choose'), s[0], s[1])
    two = r.call(r.fn('spec17', 'choose'), s[1], s[0])
    o.no_raise(r)
    if frozenset((a, b)) not in PAIRS:
        o.require(one is None and two is None, 'a solver is given for %s / %s' % (a, b))
        return
    if one is None or two is None:
        o.violation('no solver is given for %s / %s' % (a, b))
        return
    k0, w0, f0 = r.items(one)
    k1, w1, f1 = r.items(two)
    o.eq(b_or(k0, w0), True, what='the shapes given')
    o.eq(b_or(k1, w1), True, what='the shapes given')


def everywhere(r):
    """a world with every kind of shape on the ground and on two bodies, some
    of them through sub-frames"""
    w = r.new('World')
    g = r.get(w, 'ground')
    bodies = [g]
    for k in range(2):
        b = r.new('Body')
        r.method(w, 'add_link', bodies[-1], r.new('FreeJoint'), b)
        bodies.append(b)
    sub = r.new('SubFrame', bodies[1], r.nd(euler_h('q')))
    places = [(g, 0), (bodies[1], 1), (sub, 1), (bodies[2], 2)]
    shapes = []
    for f, b in places:
        for k in KINDS:
            s = shape(r, k, f)
            r.method(w, 'register', s)
            shapes.append((s, k, b))
    return w, shapes


def contacts(ctx, o):
    r = setup(ctx)
    w, shapes = everywhere(r)
    arg = sym('arg')
    got = r.call(r.fn('arboris.constraints', 'get_all_contacts'), w, kind(r, 'Probe'), setting=arg)
    o.no_raise(r)
    found = {}
    for c in r.items(got):
        p = r.items(r.get(c, 'pair'))
        o.require(len(p) == 2 and p[0] is not p[1], 'a contact is not between two shapes')
        found.setdefault(frozenset(id(x) for x in p), []).append(c)
        o.eq(r.item(r.get(c, 'args'), 'setting'), arg, what='argument of the contact')
    for (s, k, b), (t, l, d) in itertools.combinations(shapes, 2):
        n = len(found.pop(frozenset((id(s), id(t))), ()))
        want = int(b != d and frozenset((k, l)) in PAIRS)
        o.require(n == want, '%d contacts between a %s and a %s on %s' % (
            n, k, l, 'the same body' if b == d else 'different bodies'))
    o.require(not found, 'contacts with unknown shapes')


def default(ctx, o):
    r = setup(ctx)
    w, shapes = everywhere(r)
    got = r.items(r.call(r.fn('arboris.constraints', 'get_all_contacts'), w, friction_coeff=sym('mu', pos=True)))
    o.no_raise(r)
    want = sum(b != d and frozenset((k, l)) in PAIRS
               for (s, k, b), (t, l, d) in itertools.combinations(shapes, 2))
    o.require(len(got) == want, '%d contacts, required %d' % (len(got), want))
    c = r.cls('SoftFingerContact')
    o.require(all(isinstance(x, Obj) and x.cls is c for x in got), 'kind of the contacts')
    r.method(w, 'init')
    for x in got:
        r.method(w, 'register', x)
    o.no_raise(r, what='registration')
    o.require(r.items(r.call(r.fn('spec17', 'registered'), w)) == got, 'registered contacts')


def grown(ctx, o):
    """contacts looked for again after shapes are added, and in another world"""
    r = setup(ctx)
    w, shapes = everywhere(r)
    look = lambda w: r.items(r.call(r.fn('arboris.constraints', 'get_all_contacts'), w, kind(r, 'Probe'), setting=sym('s')))

    def judge(w, shapes, when):
        found = {}
        for c in look(w):
            p = r.items(r.get(c, 'pair'))
            k = frozenset(id(x) for x in p)
            found[k] = found.get(k, 0) + 1
        for (s, k, b), (t, l, d) in itertools.combinations(shapes, 2):
            n = found.pop(frozenset((id(s), id(t))), 0)
            o.require(n == int(b != d and frozenset((k, l)) in PAIRS), '%d contacts between a %s and a %s %s'
                      % (n, k, l, when))
        o.require(not found, 'contacts with shapes of another world %s' % when)
    empty = r.new('World')
    judge(empty, [], 'of a world without shapes')
    judge(w, shapes, 'at first')
    b = r.new('Body')
    r.method(w, 'add_link', r.get(w, 'ground'), r.new('FreeJoint'), b)
    for k in KINDS[::-1]:
        for f, n in ((b, 3), (r.get(w, 'ground'), 0)):
            s = shape(r, k, f)
            r.method(w, 'register', s)
            shapes.append((s, k, n))
    judge(w, shapes, 'after some were added')
    v, others = everywhere(r)
    judge(v, others, 'of another world')
    judge(w, shapes, 'again')
    judge(empty, [], 'of a world without shapes, again')
    o.no_raise(r)


def run(ctx):
    with ctx.ob('all-contacts', lambda: ctx.at('arboris.constraints', 'get_all_contacts'), 'of worlds which change') as o:
        grown(ctx, o)
    at = lambda: ctx.at('arboris.collisions', 'choose_solver')
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        with ctx.ob('collision-dispatch', at, a + ' ' + b) as o:
            for sub in ((False, False), (True, True)):
                dispatch(ctx, o, a, b, sub)
    at = lambda: ctx.at('arboris.constraints', 'get_all_contacts')
    with ctx.ob('all-contacts', at, 'every pair') as o:
        contacts(ctx, o)
    with ctx.ob('all-contacts', at, 'default contacts') as o:
        default(ctx, o)
