"""Kinematic tree integrity.  add_link, replace_joint and register are analysed
on bodies with any number of children before and after the ones concerned: the
links between joints, frames and bodies must agree in both directions, attempts
to close a loop or to give a body two parents must be refused without any
change, replacing a joint must keep its place, and registering must be
idempotent and reach everything the object relies on."""
from obl.world import *

SPEC = '''
from arboris.core import Body, SubFrame, MovingSubFrame, Shape, Constraint, Controller, World, NamedObject
from arboris.joints import FixedJoint

class AShape(Shape):
    pass

class AConstraint(Constraint):
    pass

class AController(Controller):
    pass

class Unknown(NamedObject):
    pass

def registered(w):
    return ([f for f in w.itersubframes()], [s for s in w.itershapes()],
            [c for c in w.iterconstraints()], [c for c in w.getcontrollers()])

def refused(f, *args):
    try:
        f(*args)
    except ValueError:
        return True
    return False
'''


class Tree(object):
    """a world whose bodies may have other children and sub-frames"""
    def __init__(self, ctx):
        S = world_schema(ctx, None)
        # re-initialising the layout is decided by C09
        self.r = ctx.run(S, {CORE + '.World.init': self.init,
                             CORE + '.Body.iter_descendant_joints': self.sub,
                             CORE + '.Body.iter_descendant_bodies': self.sub})
        self.S = S
        self.r.source('spec18', SPEC)
        self.w = self.r.new('World')
        self.n = 0
        self.bodies, self.joints = [self.r.get(self.w, 'ground')], []

    def init(self, I, st, args, kw):
        st.events += (Event('call', 'init', (), st.pc, I.site()),)
        self.seen = self.links()
        return None

    def sub(self, I, st, args, kw):
        I.unsupported('traversal of the tree')

    def kind(self, name):
        return self.r.I.mod_member(self.r.st, 'spec18', name)

    def body(self):
        self.bodies.append(self.r.new('Body'))
        return self.bodies[-1]

    def joint(self, kind='FreeJoint'):
        self.joints.append(self.r.new(kind))
        return self.joints[-1]

    def frame(self, body, kind):
        if kind == 'Body':
            return body
        return self.r.new(kind, body)

    def others(self):
        """any number of other joints"""
        self.n += 1
        coll = atom('obj', 'others%d' % self.n)
        e = atom('elem', coll, 0)
        return Each(coll, e, True, (One(AObj(e, self.S.cls('Joint'))),))

    def children(self, b):
        return self.segs(self.r.get(b, 'childrenjoints'))

    def segs(self, l):
        c = self.r.st.get(('C', l))
        if not isinstance(c, Content):
            raise Unsupported('a list that is not known')
        return c.segs

    def surround(self, b):
        """other children, before and after the present ones"""
        l = self.r.get(b, 'childrenjoints')
        c = (self.others(),) + self.children(b) + (self.others(),)
        self.r.st.set(('C', l), Content(c))

    def links(self):
        """what the bodies, the joints and the registries refer to"""
        out = {}
        for i, b in enumerate(self.bodies):
            out['parent joint of body %d' % i] = self.r.get(b, 'parentjoint')
            out['children of body %d' % i] = self.children(b)
        for i, j in enumerate(self.joints):
            for k in ('frame0', 'frame1'):
                out['%s of joint %d' % (k, i)] = self.r.get(j, k)
        for i, s in enumerate(registries(self)):
            out[('sub-frames', 'shapes', 'constraints', 'controllers')[i]] = s
        return out

    def link(self, parent, child, k0='Body', k1='Body', joint=None):
        j = joint or self.joint()
        f0, f1 = self.frame(parent, k0), self.frame(child, k1)
        self.r.method(self.w, 'add_link', f0, j, f1)
        return f0, j, f1


def segs_are(o, got, want, what):
    same_ = len(got) == len(want) and all(
        p is q or isinstance(p, One) and isinstance(q, One) and p.v is q.v for p, q in zip(got, want))
    o.require(same_, '%s are %s, required %s' % (what, show(got), show(want)))


def show(segs):
    return '[' + ', '.join('...' if isinstance(s, Each) else str(getattr(s.v, 'oid', s.v)) for s in segs) + ']'


def joined(o, t, f0, j, f1, what=''):
    r = t.r
    g = [r.get(j, k) for k in ('frame0', 'frame1')]
    o.require(g[0] is f0 and g[1] is f1, 'the frames of the joint' + what)
    p = r.get(r.get(f1, 'body'), 'parentjoint')
    o.require(p is j, 'the parent joint of the body' + what)
    n = sum(isinstance(s, One) and s.v is j for s in t.children(r.get(f0, 'body')))
    o.require(n == 1, 'the joint is %d times among the children of the body%s' % (n, what))


def registries(t):
    return [t.segs(x) for x in t.r.items(t.r.call(t.r.fn('spec18', 'registered'), t.w))]


KINDS = ('Body', 'SubFrame', 'MovingSubFrame')


def adding(ctx):
    at = lambda: ctx.at_cls('World', 'add_link')
    for k0 in KINDS:
        for k1 in KINDS:
            with ctx.ob('a-link-joins-both-bodies', at, k0 + ' ' + k1) as o:
                t = Tree(ctx)
                a, b = t.r.get(t.w, 'ground'), t.body()
                for x in (a, b):
                    t.surround(x)
                before, below = t.children(a), t.children(b)
                f0, j, f1 = t.link(a, b, k0, k1)
                o.no_raise(t.r)
                joined(o, t, f0, j, f1)
                segs_are(o, t.children(a), before + (One(j),), 'children of the parent')
                segs_are(o, t.children(b), below, 'children of the child')
                o.require(t.r.get(a, 'parentjoint') is None, 'the parent got a parent joint')
                want = [One(f) for f, k in ((f0, k0), (f1, k1)) if k != 'Body']
                segs_are(o, registries(t)[0], want, 'registered sub-frames')
    with ctx.ob('a-link-joins-both-bodies', at, 'several links') as o:
        t = Tree(ctx)
        g, b, c = t.r.get(t.w, 'ground'), t.body(), t.body()
        f = [g, t.frame(b, 'SubFrame'), t.frame(b, 'SubFrame'), t.frame(c, 'SubFrame')]
        j = [t.joint('FreeJoint'), t.joint('RzJoint')]
        t.r.method(t.w, 'add_link', f[0], j[0], f[1], f[2], j[1], f[3])
        o.no_raise(t.r)
        joined(o, t, f[0], j[0], f[1], ' (first link)')
        joined(o, t, f[2], j[1], f[3], ' (second link)')
        segs_are(o, registries(t)[0], [One(x) for x in f[1:]], 'registered sub-frames')


def refusing(ctx):
    """a chain ground - a - b - c, other bodies apart"""
    at = lambda: ctx.at_cls('World', 'add_link')
    for what, i, k in (('its own parent', 1, 1), ('a body with a parent', 0, 3), ('the parent', 2, 1),
                       ('an ancestor', 3, 1), ('the ground', 3, 0), ('the ground from apart', 5, 4)):
        for kinds in (('Body', 'Body'), ('SubFrame', 'SubFrame')):
            with ctx.ob('no-kinematic-loop', at, '%s %s' % (what, kinds[0])) as o:
                t = Tree(ctx)
                bs = [t.r.get(t.w, 'ground')] + [t.body() for _ in range(4)]
                for p, q in zip(bs[:3], bs[1:]):
                    t.link(p, q)
                # a separate tree: root - leaf
                bs.append(t.body())
                t.link(bs[4], bs[5])
                for b in bs:
                    t.surround(b)
                o.no_raise(t.r, what='building the tree')
                j = t.joint('RzJoint')
                f0, f1 = t.frame(bs[i], kinds[0]), t.frame(bs[k], kinds[1])
                before = t.links()
                ok = t.r.call(t.r.fn('spec18', 'refused'), t.r.get(t.w, 'add_link'), f0, j, f1)
                o.no_raise(t.r)
                o.eq(ok, True, what='refusal of a loop')
                unchanged(o, t, before)


def unchanged(o, t, before):
    after = t.links()
    for k, v in before.items():
        w = after[k]
        if isinstance(v, (tuple, list)):
            segs_are(o, w, v, k)
        else:
            o.require(w is v, 'changed: ' + k)


def replacing(ctx):
    at = lambda: ctx.at_cls('World', 'replace_joint')
    for several in (False, True):
        for kind in ('Body', 'SubFrame'):
            with ctx.ob('a-replaced-joint-keeps-its-place', at, '%s %s' % (
                    'chain' if several else 'joint', kind)) as o:
                t = Tree(ctx)
                g, b, c = t.r.get(t.w, 'ground'), t.body(), t.body()
                f0, old, f1 = t.link(g, b, kind, kind)
                g0, below, g1 = t.link(b, c)
                for x in (g, b):
                    t.surround(x)
                before, under = t.children(g), t.children(b)
                t.r.st.events = ()
                new = t.joint('RzJoint')
                if several:
                    m, last = t.body(), t.joint('TxJoint')
                    h0, mi, mo, h1 = t.frame(g, kind), t.frame(m, kind), t.frame(m, kind), t.frame(b, kind)
                    t.r.method(t.w, 'replace_joint', old, h0, new, mi, mo, last, h1)
                else:
                    h0, mi = f0, f1
                    t.r.method(t.w, 'replace_joint', old, new)
                o.no_raise(t.r)
                joined(o, t, h0, new, mi)
                if several:
                    joined(o, t, mo, last, h1, ' (end of the chain)')
                    segs_are(o, t.children(m), [One(last)], 'children of the new body')
                segs_are(o, t.children(g), [One(new) if isinstance(s, One) and s.v is old else s for s in before],
                         'children of the parent')
                segs_are(o, t.children(b), under, 'children of the child')
                joined(o, t, g0, below, g1, ' below')
                o.require(t.r.get(old, 'frame0') is None and t.r.get(old, 'frame1') is None,
                          'the replaced joint keeps its frames')
                ev = [e for e in t.r.st.events if e.kind == 'call' and e.what == 'init']
                o.require(ev, 'the world is not initialised again')
                # nothing changes after the last initialisation
                if ev:
                    unchanged(o, t, t.seen)


def reusing(ctx):
    """a chain in which the replaced joint is used again, and replaced again"""
    at = lambda: ctx.at_cls('World', 'replace_joint')
    for place in range(3):
        for kind in ('Body', 'SubFrame'):
            with ctx.ob('a-replaced-joint-keeps-its-place', at, 'used again at %d of 3, %s' % (place, kind)) as o:
                t = Tree(ctx)
                g, b, c = t.r.get(t.w, 'ground'), t.body(), t.body()
                f0, old, f1 = t.link(g, b, kind, kind)
                g0, below, g1 = t.link(b, c)
                for x in (g, b):
                    t.surround(x)
                before, under = t.children(g), t.children(b)
                m = [t.body(), t.body()]
                js = [old if k == place else t.joint('RzJoint') for k in range(3)]
                fs = [t.frame(x, kind) for x in (g, m[0], m[0], m[1], m[1], b)]
                t.r.method(t.w, 'replace_joint', old, fs[0], js[0], fs[1], fs[2], js[1], fs[3], fs[4], js[2], fs[5])
                o.no_raise(t.r)
                for k in range(3):
                    joined(o, t, fs[2*k], js[k], fs[2*k+1], ' (link %d)' % k)
                for k in range(2):
                    segs_are(o, t.children(m[k]), [One(js[k+1])], 'children of a new body')
                want = [One(js[0]) if isinstance(s, One) and s.v is old else s for s in before]
                segs_are(o, t.children(g), want, 'children of the parent')
                segs_are(o, t.children(b), under, 'children of the child')
                joined(o, t, g0, below, g1, ' below')
                # one of the chain is replaced in turn
                last = t.joint('TxJoint')
                t.r.method(t.w, 'replace_joint', js[0], last)
                o.no_raise(t.r)
                joined(o, t, fs[0], last, fs[1], ' (replaced again)')
                segs_are(o, t.children(g), [One(last) if isinstance(s, One) and s.v is js[0] else s for s in want],
                         'children of the parent, replaced again')
                for k in (1, 2):
                    joined(o, t, fs[2*k], js[k], fs[2*k+1], ' (link %d, after another was replaced)' % k)
                o.require(all(t.r.get(js[0], k) is None for k in ('frame0', 'frame1')),
                          'the replaced joint keeps its frames')
                # and the first one comes back
                t.r.method(t.w, 'replace_joint', last, js[0])
                o.no_raise(t.r)
                joined(o, t, fs[0], js[0], fs[1], ' (back)')
                segs_are(o, t.children(g), want, 'children of the parent, once the joint is back')


def registering(ctx):
    at = lambda: ctx.at_cls('World', 'register')
    for k, what in enumerate(('SubFrame', 'MovingSubFrame', 'AShape', 'AConstraint', 'AController')):
        for frame in (('Body', 'SubFrame', 'MovingSubFrame') if what == 'AShape' else ('',)):
            with ctx.ob('registration', at, '%s %s' % (what, frame)) as o:
                t = Tree(ctx)
                g = t.r.get(t.w, 'ground')
                sub = []
                if what in KINDS:
                    x, n = t.r.new(what, g), 0
                elif what == 'AShape':
                    f = t.frame(g, frame)
                    x, n = t.r.new(t.kind(what), f), 1
                    sub = [f] if frame != 'Body' else []
                else:
                    x, n = t.r.new(t.kind(what)), 2 if what == 'AConstraint' else 3
                for _ in range(2):
                    t.r.method(t.w, 'register', x)
                    o.no_raise(t.r)
                    want = [[], [], [], []]
                    want[n].append(One(x))
                    want[0] += [One(f) for f in sub]
                    for p, q, nm in zip(registries(t), want, ('sub-frames', 'shapes', 'constraints', 'controllers')):
                        segs_are(o, p, q, 'registered ' + nm)
    with ctx.ob('registration', at, 'body') as o:
        t = Tree(ctx)
        before = t.links()
        t.r.method(t.w, 'register', t.body())
        o.no_raise(t.r)
        unchanged(o, t, before)
    for what in ('Joint', 'Unknown'):
        with ctx.ob('registration', at, what) as o:
            t = Tree(ctx)
            x = t.joint('FreeJoint') if what == 'Joint' else t.r.new(t.kind(what))
            before = t.links()
            ok = t.r.call(t.r.fn('spec18', 'refused'), t.r.get(t.w, 'register'), x)
            o.no_raise(t.r)
            o.eq(ok, True, what='refusal')
            unchanged(o, t, before)
    with ctx.ob('registration', at, 'contact') as o:
        t = Tree(ctx)
        bs = [t.body(), t.body()]
        fs = [t.frame(bs[0], 'SubFrame'), bs[1]]
        c = t.r.new('SoftFingerContact', tuple(t.r.new('Sphere', f) for f in fs), sym('mu', pos=True))
        for _ in range(2):
            t.r.method(t.w, 'register', c)
            o.no_raise(t.r)
            got = registries(t)
            segs_are(o, got[2], [One(c)], 'registered constraints')
            on = [t.r.get(s.v, 'body') for s in got[0] if isinstance(s, One)]
            o.require(len(on) == 2 and on[0] is bs[0] and on[1] is bs[1],
                      'the two frames of the contact are not registered')


def run(ctx):
    adding(ctx)
    refusing(ctx)
    replacing(ctx)
    reusing(ctx)
    registering(ctx)
