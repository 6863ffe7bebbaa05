"""Derived quantities of a rigid motion: each property of the RigidMotion
interface is analysed on an arbitrary motion (any displacement, any twist) and
compared with its definition from pose and twist, so that all of them stay
mutually consistent."""
from obl.common import *


def motion(ctx, cls='RigidMotion', now=None):
    S = Schema(ctx.prog)
    H, T = quat_h('q'), vec('T', 6)
    now = now if now is not None else [H, T]
    S.add(cls, pose=C(lambda I, st, o: I.new_nd(st, now[0])),
          twist=C(lambda I, st, o: I.new_nd(st, now[1])))
    r = ctx.run(S)
    return r, S.obj('m', cls), H, T


SPEC = {
    'ipose': lambda H, T: hinv(H),
    'adjoint': lambda H, T: adj(H),
    'iadjoint': lambda H, T: adj(hinv(H)),
    'adjacency': lambda H, T: ad(T),
    'itwist': lambda H, T: scale(num(-1), mul(adj(H), T)),
    'iadjacency': lambda H, T: ad(scale(num(-1), mul(adj(H), T))),
    'dadjoint': lambda H, T: mul(adj(H), ad(T)),
    'idadjoint': lambda H, T: scale(num(-1), mul(ad(T), adj(hinv(H)))),
}


def run(ctx):
    for name, f in sorted(SPEC.items()):
        with ctx.ob('derived-from-pose-and-twist', lambda: ctx.at_cls('RigidMotion', name)) as o:
            r, m, H, T = motion(ctx)
            got = r.content(r.get(m, name))
            o.no_raise(r)
            want = f(H, T)
            if o.shape(got, want.shape):
                o.eq(got, want, what=name)
    with ctx.ob('follows-the-motion', lambda: ctx.at_cls('RigidMotion')) as o:
        # whatever was read before the motion changed
        now = [quat_h('q'), vec('T', 6)]
        r, m, H, T = motion(ctx, now=now)
        for name in sorted(SPEC):
            r.get(m, name)
        now[:] = [h_of(rodrigues(axis(0), sym('a')), vec('p', 3)), vec('U', 6)]
        for name, f in sorted(SPEC.items()):
            got = r.content(r.get(m, name))
            o.no_raise(r)
            want = f(*now)
            if o.shape(got, want.shape):
                o.eq(got, want, what='%s once pose and twist have changed' % name)
