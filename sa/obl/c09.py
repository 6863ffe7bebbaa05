"""Layout of the degrees of freedom.  World.init is analysed for an arbitrary
set of joints: the joints must receive consecutive slices that cover the world
vector exactly once in traversal order, every model array gets the matching
shape, the joint velocities are gathered without loss and become views of the
world velocity, a second init changes nothing, and constraints and controllers
are initialised once, after the layout is complete."""
from obl.world import *
import loops
from obl.c07 import flat_events


def setup(ctx, times=1):
    W = WorldRun(ctx)
    W.agents()
    j = W.joint()
    W.v0 = W.r.content(W.r.get(j, 'gvel'))
    for _ in range(times):
        W.r.st.events = ()
        W.r.method(W.w, 'init')
    return W, j


def run(ctx):
    for times in (1, 2):
        tag = '' if times == 1 else 'second init'
        with ctx.ob('dofs-partition-the-world-vector', lambda: ctx.at_cls('World', 'init'), tag) as o:
            W, j = setup(ctx, times)
            o.no_raise(W.r)
            nd_ = W.r.get(j, 'ndof')
            want = loops.close_sum(W.coll, W.e, True, nd_)
            o.eq(W.r.get(W.w, 'ndof'), want, what='ndof of the world')
            d = W.r.get(j, 'dof')
            p = loops.prefix_value(S0, W.coll, W.e, True, nd_)
            if isinstance(d, Phi):
                raise Unsupported('dofs which depend on a condition')
            o.require(isinstance(d, VSlice) and d.step in (None, 1), 'dof is not a contiguous slice')
            o.eq(d.start, p, what='start of the dofs of a joint')
            o.eq(d.stop, p + nd_, what='end of the dofs of a joint')
            for k in ('mass', 'nleffects', 'viscosity'):
                o.shape(W.content(k), (want, want), what=k)
            for k in ('gvel', 'gforce'):
                o.shape(W.content(k), (want,), what=k)
        with ctx.ob('joint-velocities-are-kept', lambda: ctx.at_cls('World', 'init'), tag) as o:
            W, j = setup(ctx, times)
            d = W.r.get(j, 'dof')
            o.eq(W.r.content(W.r.item(W.r.get(W.w, 'gvel'), d)), W.v0,
                 what='slice of the world velocity')
            o.eq(W.r.content(W.r.get(j, 'gvel')), W.v0, what='velocity of a joint')
        with ctx.ob('joint-velocity-is-a-view', lambda: ctx.at_cls('World', 'init'), tag) as o:
            W, j = setup(ctx, times)
            x = mat_atom('x', (W.r.get(j, 'ndof'), 1))
            x = Mx((x.shape[0],), x.t)
            v = W.r.get(j, 'gvel')
            W.r.guard(lambda: W.r.I.setitem(W.r.st, v, VSlice(None, None), W.r.nd(x)))
            o.eq(W.r.content(W.r.item(W.r.get(W.w, 'gvel'), W.r.get(j, 'dof'))), x,
                 what='world velocity once a joint velocity is written')
        with ctx.ob('agents-are-initialised-once', lambda: ctx.at_cls('World', 'init'), tag) as o:
            W, j = setup(ctx, times)
            n, gv, M = W.r.get(W.w, 'ndof'), W.content('gvel'), W.content('mass')
            for coll, what in ((W.cc, 'constraint'), (W.ac, 'controller')):
                evs = [(e, x) for e in W.r.st.events if e.kind == 'each' and e.what is coll
                       for x in flat_events(e)]
                ini = [x for _, x in evs if x.kind == 'call' and x.what == 'init']
                sees = [x for _, x in evs if x.kind == 'call' and x.what == 'init sees']
                if len(ini) != 1:
                    o.violation('each %s is initialised %d times' % (what, len(ini)))
                    continue
                o.require(ini[0].pc is True, 'some %ss are not initialised' % what)
                o.require(len(ini[0].args) == 2 and ini[0].args[1] ==
                          W.S.freeze(W.r.I, W.r.st, W.w), 'init is not given the world')
                o.eq(sees[0].args[1], n, what='ndof seen by a %s' % what)
                o.eq(sees[0].args[2], gv, what='velocity seen by a %s' % what)
                o.eq(sees[0].args[3], M, what='mass shape seen by a %s' % what)
    with ctx.ob('dof-before-init-is-an-error', lambda: ctx.at_cls('Joint', 'dof')) as o:
        r = ctx.run()
        j = r.new(some_joint(ctx))
        o.require(not r.raises, 'building a joint raises')
        r.get(j, 'dof')
        o.require(r.st.dead and [x.val.name for x in r.raises] == ['ValueError'],
                  'the dof of a joint out of any world does not raise ValueError')
    lists(ctx)
    later(ctx)


STORY = '''
from arboris.core import World, Body, SubFrame, JointsList, Controller, simulate
from arboris.joints import FreeJoint, RzJoint, RzRxJoint, TxTyTzJoint, TyJoint, FixedJoint

class Seen(Controller):
    def __init__(self):
        Controller.__init__(self)
        self.sizes = []
    def init(self, world):
        self.sizes.append((world.ndof, world.mass.shape, [j.dof.stop for j in world.getjoints()]))
    def update(self, dt):
        return None

def at_first(w):
    a, b = Body('a'), Body('b')
    j = [RzRxJoint(name='first'), FreeJoint(name='second')]
    w.add_link(w.ground, j[0], a)
    w.add_link(a, j[1], b)
    s = Seen()
    w.register(s)
    return a, b, j, s

def edit(w, what, a, b):
    if what == 'a branch':
        j = [TxTyTzJoint(name='branch'), TyJoint(name='far')]
        c = Body('c')
        w.add_link(a, j[0], c)
        w.add_link(c, j[1], Body('d'))
    elif what == 'a tree of its own':
        j = [TyJoint(name='alone'), FixedJoint(name='stuck')]
        c = Body('e')
        w.add_link(w.ground, j[0], c)
        w.add_link(c, j[1], Body('f'))
    elif what == 'another joint':
        j = [TxTyTzJoint(name='new')]
        w.replace_joint(a.parentjoint, j[0])
    elif what == 'a chain of joints':
        j = [TyJoint(name='new'), RzRxJoint(name='newer')]
        old, g = b.parentjoint, Body('g')
        w.replace_joint(old, old.frame0, j[0], g, g, j[1], old.frame1)
    elif what == 'fewer dofs':
        j = [FixedJoint(name='welded')]
        w.replace_joint(b.parentjoint, j[0])
    return j
'''
EDITS = ('a branch', 'a tree of its own', 'another joint', 'a chain of joints', 'fewer dofs')


def later(ctx):
    """the layout follows the edits of the world, and the velocities do too"""
    at = lambda: ctx.at_cls('World', 'init')
    full = VSlice(None, None)
    plans = [(e,) for e in EDITS] + [EDITS[i:] + EDITS[:i] for i in (range(2) if ctx.tier == 'quick' else range(5))]
    for plan in plans:
        with ctx.ob('layout-follows-the-world', at, ', then '.join(plan)) as o:
            S = Schema(ctx.prog)
            r = ctx.run(S, hg_contracts())
            r.source('spec09', STORY)
            k = lambda n: r.I.mod_member(r.st, 'spec09', n)
            w = r.new('World')
            a, b, j, seen = r.items(r.call(k('at_first'), w))
            j = r.items(j)
            count = [0]

            def put(x):
                count[0] += 1
                n = r.get(x, 'ndof')
                n = int(n.const()) if isinstance(n, Sx) else n
                r.guard(lambda: r.I.setitem(r.st, r.get(x, 'gvel'), full, r.nd(vec('v%d_' % count[0], n))))

            def check(what, want=None):
                js = r.items(r.method(w, 'getjoints'))
                at_, vs = 0, []
                for x in js:
                    d = r.get(x, 'dof')
                    n = as_num(r.get(x, 'ndof'))
                    got = tuple(as_num(y) for y in (d.start, d.stop)) if isinstance(d, VSlice) else d
                    o.require(got == (at_, at_ + n), 'dofs %s of %s %s, required %s' % (got, r.get(x, 'name'), what, (at_, at_ + n)))
                    at_ += n
                    v = r.content(r.get(x, 'gvel'))
                    if want is not None and str(x) in want and n:
                        o.eq(v, want[str(x)], what='velocity of %s %s' % (r.get(x, 'name'), what))
                    vs.append(v)
                o.require(as_num(r.get(w, 'ndof')) == at_, 'ndof of the world %s' % what)
                for q in ('mass', 'nleffects', 'viscosity', 'gvel', 'gforce'):
                    o.shape(r.content(r.get(w, q)), (at_, at_) if q[0] not in 'g' else (at_,), what='%s %s' % (q, what))
                for x, v in zip(js, vs):
                    if as_num(r.get(x, 'ndof')):
                        o.eq(r.content(r.item(r.get(w, 'gvel'), r.get(x, 'dof'))), v, what='part of the world velocity %s' % what)
                # and back: views
                for x in js:
                    put(x)
                for x in js:
                    if as_num(r.get(x, 'ndof')):
                        o.eq(r.content(r.item(r.get(w, 'gvel'), r.get(x, 'dof'))), r.content(r.get(x, 'gvel')),
                             what='part of the world velocity written through a joint %s' % what)
                # the list of all joints knows all the dofs
                l = r.method(w, 'getjoints')
                d = r.get(l, 'dof')
                got = list(range(*slice(as_num(d.start), as_num(d.stop), d.step).indices(100))) \
                    if isinstance(d, VSlice) else [as_num(y) for y in r.items(d)]
                o.require(got == list(range(at_)), 'dofs of the list of joints %s' % what)
                o.no_raise(r)
                return {str(x): r.content(r.get(x, 'gvel')) for x in js}
            for x in j:
                put(x)
            want = {str(x): r.content(r.get(x, 'gvel')) for x in j}
            r.method(w, 'init')
            want = check('at first', want)
            for n, e in enumerate(plan):
                new = r.items(r.call(k('edit'), w, e, a, b))
                for x in new:
                    put(x)
                    want[str(x)] = r.content(r.get(x, 'gvel'))
                r.method(w, 'init')
                want = check('after %s' % e, want)
            sizes = [r.items(x) for x in r.items(r.get(seen, 'sizes'))]
            o.require(len(sizes) > len(plan), 'a controller is initialised %d times' % len(sizes))
            n, sh, stops = sizes[-1]
            ndof = as_num(r.get(w, 'ndof'))
            o.require(as_num(n) == ndof and [as_num(y) for y in r.items(sh)] == [ndof, ndof],
                      'a controller is given another world')
            o.require(as_num(r.items(stops)[-1]) == ndof, 'a controller is initialised before the layout')
            o.no_raise(r)


def some_joint(ctx):
    return 'FixedJoint'


# start and stop of the dofs of successive joints -> dofs of the list
LAYOUTS = [
    ([], 'empty', []),
    ([(0, 2)], 'first joint', [0, 1]),
    ([(0, 2), (2, 3), (3, 6)], 'contiguous from 0', [0, 1, 2, 3, 4, 5]),
    ([(0, 2), (3, 6)], 'with a hole', [0, 1, 3, 4, 5]),
    ([(2, 4), (4, 5)], 'not from 0', [2, 3, 4]),
    ([(4, 6), (0, 2)], 'out of order', [4, 5, 0, 1]),
    ([(0, 1), (3, 4), (4, 6)], 'contiguous after a hole', [0, 3, 4, 5]),
    ([(0, 1), (1, 1), (1, 3)], 'with a fixed joint', [0, 1, 2]),
]


def lists(ctx):
    for spans, what, want in LAYOUTS:
        with ctx.ob('dofs-of-a-joint-list', lambda: ctx.at_cls('JointsList', 'dof'), what) as o:
            S = world_schema(ctx, None)
            r = ctx.run(S)
            js = []
            for i, (a, b) in enumerate(spans):
                j = S.obj('j%d' % i, 'Joint')
                js.append(j)
            S.add('Joint', _dof=C(lambda I, st, o: VSlice(*spans[js.index(o)])))
            l = r.new('JointsList', r.list(js))
            d = r.get(l, 'dof')
            o.no_raise(r)
            if isinstance(d, VSlice):
                got = list(range(*slice(d.start, d.stop, d.step).indices(100)))
            else:
                got = [as_num(x) for x in r.items(d)]
            o.require(got == want, 'dofs %r, required %r' % (got, want))


def as_num(x):
    return int(x.const()) if isinstance(x, Sx) else x
