"""Constraint assembly.  World.update_constraints is analysed for an arbitrary
set of constraints in an arbitrary state, an arbitrary number of sweeps and an
arbitrary tolerance.  Its loops are summarised and the resulting generalized
force is compared with the one a reference block Gauss-Seidel sweep applies:
the constraint space velocity accounts for the controllers and for the forces
the constraints already hold, each solver sees the velocity left by the
previous ones, and exactly the forces of the active constraints are applied.
Each enabled constraint must be updated exactly once with the step length, the
model matrices and the velocity must not change."""
from obl.c10 import *

REF = '''
from numpy import zeros, dot
from numpy.linalg import norm

def reference(world, dt, maxiters, tol):
    force = world.gforce.copy()
    Y = world.admittance
    used = []
    ndol = 0
    for c in world.getconstraints():
        if c.is_enabled():
            c.update(dt)
            if c.is_active():
                used.append((c, slice(ndol, ndol + c.ndol)))
                ndol = ndol + c.ndol
    jac = zeros((ndol, world.ndof))
    total = force.copy()
    for (c, rows) in used:
        jac[rows, :] = c.jacobian
        total += c.gforce
    vel = dot(jac, dot(Y, dot(world.mass, world.gvel / dt) + total))
    adm = dot(dot(jac, Y), jac.T)
    last = vel.copy()
    for k in range(maxiters):
        for (c, rows) in used:
            vel += dot(adm[:, rows], c.solve(vel[rows], adm[rows, rows], dt))
        if k > 0 and norm(vel - last) < tol:
            break
        last = vel.copy()
    for (c, rows) in used:
        force += c.gforce
    return force
'''


def ready(ctx, few=None):
    W = prepared(ctx)
    W.dt = sym('dt', pos=True)
    W.tol = sym('tol', pos=True)
    W.r.method(W.w, 'update_controllers', W.dt)
    if few is not None:
        W.some = W.refill('Constraint', W.c, few)
    W.r.st.events = ()
    return W


def stepped(ctx, n):
    """a world that has already made one time step"""
    W = ready(ctx)
    W.r.method(W.w, 'update_constraints', sym('dt0', pos=True), maxiters=n, tol=W.tol)
    for m in ('integrate', 'update_controllers'):
        W.r.method(W.w, m, W.dt)
    # some constraints are enabled, others disabled
    W.r.st.set(('V', ('enabling',)), 'next step')
    return W


def enabled(m):
    """prefer models where most constraints are in use"""
    m.val[('bias', 'is_enabled#0')] = 1.1
    m.val[('bias', 'is_active#0')] = .1


def sweeps(W, n):
    W.r.method(W.w, 'update_constraints', W.dt, maxiters=n, tol=W.tol)


def reference(ctx, W, n):
    m = W.r.source('spec12', REF)
    v = W.r.call(W.r.fn('spec12', 'reference'), W.w, W.dt, n, W.tol)
    return W.r.content(v)


def small(ctx, places):
    """a world of three links whose joints have limits, once its constraints
    have been solved with the joints at each of the given places"""
    from obl.c11 import chain, lumped
    r = ctx.run()
    w, js = chain(r, ['TxJoint', 'TxJoint', 'TyJoint'])
    for i, j in enumerate(js):
        r.set(r.get(j, 'frame1', 'body'), 'mass', r.nd(lumped(i + 1)))
        c = r.new('JointLimits', j, r.nd(ar([num(-1)])), r.nd(ar([num(1)])), r.nd(ar([num(Fraction(1, 10))])),
                  name='limits%d' % i)
        r.method(w, 'register', c)
    r.method(w, 'init')
    r.source('spec12', REF)
    return r, w, js


def histories(ctx, at):
    # which joints are near a limit, over the steps
    for places in (((1, 0, 1), (0, 1, 1)), ((0, 0, 1), (1, 0, 0), (1, 1, 1))):
        with ctx.ob('force-is-the-one-of-the-reference-sweep', at, 'as joints reach and leave their limits %r' % (
                places,)) as o:
            got = []
            for k in range(2):
                r, w, js = small(ctx, places)
                dt = num(Fraction(1, 100))
                for i, at_limit in enumerate(places):
                    for n, (j, a) in enumerate(zip(js, at_limit)):
                        for x, v in (('gpos', Fraction(99, 100) if a else Fraction(1, 10)), ('gvel', n + 2)):
                            r.guard(lambda: r.I.setitem(r.st, r.get(j, x), 0, num(v)))
                    for m, a in (('update_dynamic', ()), ('update_controllers', (dt,))):
                        r.method(w, m, *a)
                    if i < len(places) - 1 or k == 0:
                        r.method(w, 'update_constraints', dt, maxiters=2, tol=num(Fraction(1, 10**6)))
                o.no_raise(r)
                if k == 0:
                    got.append(r.content(r.get(w, 'gforce')))
                else:
                    got.append(r.content(r.call(r.fn('spec12', 'reference'), w, dt, 2, num(Fraction(1, 10**6)))))
                o.no_raise(r)
            o.require(any(not x.iszero() for x in A_(got[1]).c), 'no constraint force in the reference')
            o.eq(got[0], got[1], what='generalized force')


def run(ctx):
    at = lambda: ctx.at_cls('World', 'update_constraints')
    for n in (int_sym('maxiters', pos=True), 0, 1, 2, 3):
        with ctx.ob('force-is-the-one-of-the-reference-sweep', at, 'at most %r sweeps' % n) as o:
            W = ready(ctx)
            sweeps(W, n)
            o.no_raise(W.r)
            W2 = ready(ctx)
            want = reference(ctx, W2, n)
            o.no_raise(W2.r, what='reference')
            o.eq(W.content('gforce'), want, what='generalized force')
    with ctx.ob('accuracy-of-the-sweeps', at, 'unless told otherwise') as o:
        # what simulate asks for: the velocities of two successive sweeps agree to 1e-4, over up to 1000 sweeps
        W = ready(ctx)
        k, e = W.w.cls.lookup('update_constraints') if isinstance(W.w.cls, ClassDef) else \
            Schema(ctx.prog).cls('World').lookup('update_constraints')
        env = W.r.I.bind(W.r.st, Fn(k.mod, e[1], k), [W.w, W.dt], {})
        n, tol = [num(env[x]).const() if isinstance(env.get(x), (int, Sx)) else None for x in ('maxiters', 'tol')]
        if n is None or tol is None:
            o.undecided('the accuracy is not given by default values')
        else:
            o.require(tol <= 1e-4, 'the sweeps stop when two velocities agree to %g only' % tol)
            o.require(n >= 1000, 'the sweeps stop after %d' % n)
    for n in (int_sym('maxiters', pos=True), 1):
        with ctx.ob('force-is-the-one-of-the-reference-sweep', at,
                    'after another step, at most %r sweeps' % n) as o:
            W = stepped(ctx, n)
            sweeps(W, n)
            o.no_raise(W.r)
            W2 = stepped(ctx, n)
            want = reference(ctx, W2, n)
            o.eq(W.content('gforce'), want, what='generalized force', setup=enabled)
    with ctx.ob('constraints-are-updated-once', at) as o:
        W = ready(ctx)
        r = W.r
        s = r.st.fork()
        en = r.I.truth(s, r.I.call(s, r.I.getattr(s, W.c, 'is_enabled'), [], {}))
        sweeps(W, int_sym('maxiters', pos=True))
        evs = [x for e in r.st.events if e.kind == 'each' and e.what is W.cc
               for x in flat_events(e) if x.kind == 'call' and x.what == 'update']
        o.require(len(evs) == 1, 'each constraint is updated %d times' % len(evs))
        for x in evs:
            o.eq(x.pc, en, what='condition under which a constraint is updated')
            o.require(len(x.args) == 2, 'a constraint is not given one step length')
            o.eq(x.args[-1], W.dt, what='step given to a constraint')
    with ctx.ob('model-is-not-modified', at) as o:
        W = ready(ctx)
        ks = ('mass', 'viscosity', 'nleffects', 'admittance', 'gvel')
        old = [W.content(k) for k in ks]
        sweeps(W, int_sym('maxiters', pos=True))
        for k, v in zip(ks, old):
            o.eq(W.content(k), v, what=k)
    histories(ctx, at)
