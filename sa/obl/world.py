"""Interfaces of the world level classes, shared by the obligations."""
from obl.common import *
from nd import VSlice

CORE = 'arboris.core'


def int_sym(name, **kw):
    return sym(name, int=True, **kw)


def world_schema(ctx, N):
    """joints, bodies, frames, known through their interface; N = world ndof"""
    S = Schema(ctx.prog)
    S.add('Frame', bpose=F((4, 4), 'SE3'), body=O('Body'), pose=F((4, 4), 'SE3'),
          twist=F((6,)), jacobian=F((6, lambda I, st, o: N)), djacobian=F((6, lambda I, st, o: N)))
    S.add('NamedObject', name=S_())
    S.add('RigidMotion', **motion_specs())
    S.add('Joint', ndof=N_(frozen=True, int=True), pose=F((4, 4), 'SE3'),
          jacobian=F((6, 'ndof')), djacobian=F((6, 'ndof')), gvel=A(('ndof',)),
          frame0=O('Frame'), frame1=O('Frame'),
          frames=C(lambda I, st, o: (I.getattr(st, o, 'frame0'), I.getattr(st, o, 'frame1'))),
          _dof=C(dof_slice), integrate=Method(None, mutates=True))
    S.add('Body', mass=A((6, 6), frozen=True), viscosity=A((6, 6), frozen=True),
          childrenjoints=L('Joint'), parentjoint=O('Joint', none=True),
          body=C(lambda I, st, o: o), bpose=C(lambda I, st, o: I.new_nd(st, ar_eye(4))))
    return S


def motion_specs():
    """the derived quantities of a rigid motion, as decided by C06"""
    def c(f):
        def g(I, st, o):
            H = I.content(st, I.getattr(st, o, 'pose'))
            T = I.content(st, I.getattr(st, o, 'twist'))
            return I.wrap(st, I.glift(st, f, H, T))
        return C(g)
    adl = lambda T, k=1: lit_of(scale(num(k), ad(explode(T))))
    minus = lambda m: mx_scale(to_mx(m), num(-1))
    return {
        'ipose': c(lambda H, T: se3_inv(H)), 'adjoint': c(lambda H, T: adjoint(H)),
        'iadjoint': c(lambda H, T: adjoint(se3_inv(H))), 'adjacency': c(lambda H, T: adl(T)),
        'itwist': c(lambda H, T: minus(mx_dot(adjoint(H), T))),
        'iadjacency': c(lambda H, T: adl(minus(mx_dot(adjoint(H), T)))),
        'dadjoint': c(lambda H, T: mx_dot(adjoint(H), adl(T))),
        'idadjoint': c(lambda H, T: mx_dot(adl(T, -1), adjoint(se3_inv(H)))),
    }


def dof_slice(I, st, o):
    a = sx_atom(atom('attr', o.key, 'dof0', int=True))
    n = I.getattr(st, o, 'ndof')
    return VSlice(a, a + n)


def N_(**kw):
    return N(**kw)


JOINTS = ('all joints',)


def gver(st):
    v = st.get(('V', JOINTS))
    return () if v is UNDEF else (v,)


def bump_all(st, what):
    v = st.get(('V', JOINTS))
    st.set(('V', JOINTS), atom('ver', atom('ver0', 'tree') if v is UNDEF else v, what))


def kin(name, shape, N=None):
    """a kinematic quantity of a body: changes when the tree is updated"""
    def f(I, st, o):
        sh = tuple(N(I, st) if d == 'N' else d for d in shape)
        a = atom('attr', o.key, name, *gver(st), shape=sh if len(sh) == 2 else (sh[0], 1),
                 grp='SE3' if name == 'pose' else None)
        return I.wrap(st, mx_of(a, len(sh)), 'f')
    return C(f)


def hg_contracts():
    """inverse and adjoint of displacements, as decided by C02"""
    def c(f):
        def g(I, st, args, kw):
            v = I.content(st, args[0])
            if kw or len(args) != 1 or shape_of(v) != (4, 4):
                return NotImplemented
            return I.wrap(st, I.glift(st, f, v))
        return g
    return {HG + '.inv': c(se3_inv), HG + '.adjoint': c(adjoint),
            HG + '.iadjoint': c(lambda h: adjoint(se3_inv(h)))}


class WorldRun(object):
    """a World built by its constructor, holding any tree of joints"""
    def __init__(self, ctx, contracts=None, init=True, lists=()):
        self.ctx = ctx
        self.coll = atom('obj', 'joints')
        self.e = atom('elem', self.coll, 0)
        ndof = atom('attr', self.e, 'ndof', int=True)
        self.N = S0
        S = self.S = world_schema(ctx, None)
        c = {
            CORE + '.Body.iter_descendant_joints': self.tree(lambda I, st, j: j, 'joints'),
            CORE + '.Body.iter_descendant_bodies': self.tree(
                lambda I, st, j: I.getattr(st, I.getattr(st, j, 'frame1'), 'body'), 'bodies'),
            CORE + '.Body.update_dynamic': self.kupdate('update_dynamic'),
            CORE + '.Body.update_geometric': self.kupdate('update_geometric'),
        }
        c.update(contracts or {})
        self.r = ctx.run(S, c)
        self.w = self.r.new('World')
        N = self.ndof
        S.add('Body', pose=kin('pose', (4, 4)), jacobian=kin('jacobian', (6, 'N'), N),
              djacobian=kin('djacobian', (6, 'N'), N), twist=kin('twist', (6,)),
              nleffects=kin('nleffects', (6, 6)))
        self.empty = dict((k, v) for k, v in self.r.st.heap.d.items())

    def ndof(self, I, st):
        return I.getattr(st, self.w, 'ndof')

    def tree(self, f, tag):
        def contract(I, st, args, kw):
            o = args[0]
            if not isinstance(o, Obj):
                return NotImplemented
            lst = Obj('%s%d' % (tag, I.fresh()), 'list')
            j = AObj(self.e, self.S.cls('Joint'))
            st.set(('C', lst), Content((Each(self.coll, self.e, True, (One(f(I, st, j)),)),)))
            return lst
        return contract

    def kupdate(self, name):
        def contract(I, st, args, kw):
            st.events += (Event('call', name, tuple(self.S.freeze(I, st, a) for a in args),
                                st.pc, I.site()),)
            bump_all(st, name)
            # the ground itself has no children here: analyse what it stores
            return NotImplemented if isinstance(args[0], Obj) else None
        return contract

    # ----------------------------------------------------------- registries
    def fill(self, cls, name, sub=None):
        """let the list that register() extends hold any number of objects"""
        r, S = self.r, self.S
        probe = S.obj('probe ' + cls, cls)
        s = r.st.fork()
        n = len(r.fr.exits)
        r.I.call(s, r.I.getattr(s, self.w, 'register'), [probe], {})
        del r.fr.exits[n:]
        keys = [k for k in s.heap.keys_since(None) if isinstance(s.get(k), Content) and
                any(isinstance(q, One) and q.v is probe for q in flat_conds(s.get(k).segs))]
        if len(keys) != 1:
            raise Unsupported('the registry of %s objects was not recognised' % cls)
        coll = atom('obj', name)
        e = atom('elem', coll, 0)
        x = AObj(e, S.cls(cls))
        r.st.set(keys[0], Content((Each(coll, e, True, (One(x),)),)))
        return coll, e, x

    def agents(self):
        S, n = self.S, lambda I, st, o: self.ndof(I, st)
        S.add('Controller', init=Method(self.inited, mutates=True),
              update=Method((F((n,)), F((n, n))), mutates=True))
        S.add('Constraint', init=Method(self.inited, mutates=True), update=Method(None, mutates=True),
              is_enabled=Method(self.enabled, log=False), is_active=Method(B_(), log=False),
              ndol=N_(frozen=True, int=True), jacobian=F(('ndol', n)), gforce=F((n,)),
              solve=Method(F(('ndol',)), mutates=True),
              _child_obj_to_reg=L('SubFrame'))
        self.cc, self.ce, self.c = self.fill('Constraint', 'constraints')
        self.ac, self.ae, self.a = self.fill('Controller', 'controllers')

    def enabled(self, I, st, o, args):
        """constraints are enabled and disabled between time steps only"""
        v = st.get(('V', ('enabling',)))
        return cond(atom('flag', o.key, 'is_enabled#0', *(() if v is UNDEF else (v,))))

    def inited(self, I, st, o, args):
        """what an object being initialised can see of the world"""
        st.events += (Event('call', 'init sees', (o, I.getattr(st, self.w, 'ndof')) + tuple(
            I.content(st, I.getattr(st, self.w, k)) for k in ('gvel', 'mass')), st.pc, I.site()),)
        return None

    def joint(self):
        return AObj(self.e, self.S.cls('Joint'))

    def content(self, *names):
        return self.r.content(self.r.get(self.w, *names))


def flat_conds(segs):
    for s in segs:
        if isinstance(s, Cnd):
            for x in flat_conds(s.segs):
                yield x
        else:
            yield s
