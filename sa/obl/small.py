"""A small real world, moving in arbitrary ways, shared by the obligations on
what observers keep."""
from contextlib import contextmanager
from obl.world import *
from obl.c04 import mass_about
from obl.c23 import principal, MASS, turn

SPEC = '''
from numpy import array
from arboris.core import World, Body, SubFrame, MovingSubFrame
from arboris.joints import FreeJoint, RzJoint, TxTyTzJoint
from arboris.shapes import Sphere, Plane
from arboris.constraints import BallAndSocketConstraint, JointLimits

def bodies(w, J, N, A, B, Hi, Hd, Hp):
    w.add_link(w.ground, J, A)
    w.add_link(SubFrame(A, Hi), N, SubFrame(B, Hd, name='tip'))
    s = SubFrame(B, Hp, name='fixed')
    w.register(s)
    m = MovingSubFrame(A, name='moving')
    w.register(m)
    return s, m
'''


@contextmanager
def cut_at(n):
    """expressions beyond n terms are named: what is at stake is which value is
    kept, not how it is computed"""
    alg.CUT[0] = n
    try:
        yield
    finally:
        alg.CUT[0] = None


class Small(object):
    """ground -free- A -hinge- B, with a sub-frame on B and a moving one on A"""
    def __init__(self, ctx, contracts=None, extra=''):
        self.ctx = ctx
        S = self.S = Schema(ctx.prog)
        c = hg_contracts()
        c[MASS] = principal
        c['arboris.twistvector.exp'] = self.exp
        # decided by C04, C01
        for k in ('arboris.massmatrix.ismassmatrix', HG + '.ishomogeneousmatrix'):
            c[k] = lambda I, st, args, kw: True
        c.update(contracts or {})
        r = self.r = ctx.run(S, c)
        r.source('spec_small', SPEC + extra)
        k = self.member = lambda n: r.I.mod_member(r.st, 'spec_small', n)
        self.w = r.new('World')
        self.t = 0
        self.J = r.new('FreeJoint', name='base')
        self.N = r.new('RzJoint', name='hinge')
        self.A = r.new('Body', 'A', r.nd(self.mass('A')))
        self.B = r.new('Body', 'B', r.nd(self.mass('B')))
        self.s, self.m = r.items(r.call(k('bodies'), self.w, self.J, self.N, self.A, self.B,
                                        *[r.nd(se3(n)) for n in ('Hi', 'Hd', 'Hp')]))
        r.method(self.w, 'init')
        self.state()

    def mass(self, n):
        c = vec('com' + n, 3)
        S = ar([[sym('I%s%d%d' % ((n,) + tuple(sorted((i, j))))) for j in range(3)] for i in range(3)])
        return mass_about(c, S, self.weight(n))

    def weight(self, n):
        return sym('weight' + n, pos=True)

    def exp(self, I, st, args, kw):
        x = I.content(st, args[0])
        return I.wrap(st, mat_atom('exp %s' % (repr(x),), (4, 4), 'SE3'))

    def state(self):
        """any state: in place where the library's own integration is"""
        self.t += 1
        r, n = self.r, self.t
        all_ = VSlice(None, None)
        # the velocities are parts of one array, changed in place as World.integrate does
        if n == 1:
            self.v = r.nd(ar_zeros((7,)))
        r.I.setitem(r.st, self.v, all_, r.nd(vec('v%d_' % n, 7)))
        for j, a, b in ((self.J, 0, 6), (self.N, 6, 7)):
            r.method(j, 'integrate', r.item(self.v, VSlice(a, b)), sym('dt%d' % n, pos=True))
        r.set(self.m, 'bpose', r.nd(se3('M%d' % n)))
        r.set(self.w, '_current_time', sym('time%d' % n))
        r.method(self.w, 'update_dynamic')

    def snapshot(self):
        """everything the simulation goes on from"""
        r = self.r
        out = {}
        for o, ks in ((self.w, ('gvel', 'mass', 'viscosity', 'nleffects', 'gforce', 'admittance', 'up',
                                'current_time', 'ndof')),
                      (self.J, ('gpos', 'gvel', 'pose')), (self.N, ('gpos', 'gvel', 'pose')),
                      (self.A, ('pose', 'twist', 'jacobian', 'djacobian', 'mass')),
                      (self.B, ('pose', 'twist', 'jacobian', 'djacobian', 'mass')),
                      (self.s, ('bpose', 'pose', 'twist')), (self.m, ('bpose', 'pose', 'twist'))):
            for k in ks:
                out[str(o), k] = r.content(r.get(o, k))
        return out

    def undisturbed(self, o, before, what):
        now = self.snapshot()
        for k in before:
            o.eq(now[k], before[k], what='%s of %s after %s' % (k[1], k[0], what))
