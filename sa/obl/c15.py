"""Constraint jacobians and contact detection.  For arbitrary frames on
arbitrary bodies, a constraint's jacobian must map the generalized velocity to
the velocity its law is written for (joint rates, separation rate of the socket
and ball, spin and velocity at the contact), and its generalized force is the
transposed jacobian applied to the accumulated force.  A contact update, with
any collision solver, puts the contact frames where the solver says, on the
bodies carrying the shapes, activates the contact exactly when the distance
predicted at the end of the step is below the proximity, and starts from a null
force."""
from obl.c14 import *


def joint_rows(ctx):
    from obl.c11 import chain
    at = lambda: ctx.at_cls('JointLimits', 'init')
    for classes, k in ((['RzJoint'], 0), (['FreeJoint', 'RzRyJoint', 'RxJoint'], 1),
                       (['RzRyRxJoint', 'TxJoint', 'RyRxJoint'], 2),
                       (['RzJoint', 'TxTyTzJoint'], 0)):
        with ctx.ob('limit-rows-select-the-joint', at, ' '.join(classes)) as o:
            r = ctx.run()
            w, joints = chain(r, classes)
            j = joints[k]
            n = r.get(j, 'ndof')
            c = r.new('JointLimits', j, r.nd(vec('lo', n)), r.nd(vec('hi', n)))
            r.method(w, 'register', c)
            r.method(w, 'init')
            J = r.content(r.get(c, 'jacobian'))
            o.no_raise(r)
            o.require(num(r.get(c, 'ndol')) == num(n), 'number of constrained directions')
            G = r.content(r.get(w, 'gvel'))
            o.eq(mx_dot(to_mx(J), to_mx(G)), r.content(r.get(j, 'gvel')),
                 what='constraint velocity')
            f = state(r, c, n)
            o.eq(r.content(r.get(c, 'gforce')), mx_dot(mx_T(to_mx(J)), to_mx(f)),
                 what='generalized force')
            if k == 0:
                continue
            # the joint moves in the world once an earlier one is replaced
            r.method(w, 'replace_joint', joints[0], r.new('TyJoint' if k == 1 else 'FreeJoint', name='new'))
            r.method(w, 'init')
            J = r.content(r.get(c, 'jacobian'))
            o.no_raise(r)
            o.eq(mx_dot(to_mx(J), to_mx(r.content(r.get(w, 'gvel')))), r.content(r.get(j, 'gvel')),
                 what='constraint velocity once the joint has moved')


def rows(a, b, m):
    """rows a to b of a matrix"""
    return nd.getitem(m, (VSlice(a, b), VSlice(None, None)))


def frame_rows(ctx):
    at = lambda: ctx.at_cls('BallAndSocketConstraint', 'jacobian')
    with ctx.ob('rows-give-the-separation-rate', at) as o:
        r, S = frames_run(ctx)
        fs = S.obj('f0', 'Frame'), S.obj('f1', 'Frame')
        c = r.new('BallAndSocketConstraint', fs)
        r.method(c, 'update', sym('dt', pos=True))
        J = r.content(r.get(c, 'jacobian'))
        o.no_raise(r)
        o.eq(J, relative(r, fs, 3), what='jacobian')
        o.require(num(r.get(c, 'ndol')) == num(3), 'number of constrained directions')
        f = state(r, c, 3)
        o.eq(r.content(r.get(c, 'gforce')), mx_dot(mx_T(to_mx(J)), to_mx(f)),
             what='generalized force')
        bump_all(r.st, 'moved')
        r.method(c, 'update', sym('dt', pos=True))
        J = r.content(r.get(c, 'jacobian'))
        o.no_raise(r)
        o.eq(J, relative(r, fs, 3), what='jacobian once the frames have moved')


def relative(r, fs, first):
    """jacobian of the twist of frame 1 relative to frame 0, seen from 0"""
    H0, H1 = [r.content(r.get(f, 'pose')) for f in fs]
    J0, J1 = [r.content(r.get(f, 'jacobian')) for f in fs]

    def rel(H0, H1, J0, J1):
        return mx_add(mx_dot(adjoint(mx_dot(se3_inv(H0), to_mx(H1))), to_mx(J1)),
                      mx_scale(to_mx(J0), num(-1)))
    return rows(first, 6, lift(rel, H0, H1, J0, J1))


def contacts(ctx):
    at = lambda: ctx.at_cls('PointContact', 'update')
    with ctx.ob('contact-frames-follow-the-solver', at) as o:
        r, S = frames_run(ctx)
        c, dist, dt, mu = contact(ctx, r, S)
        f = state(r, c, 4)
        r.method(c, 'update', dt)
        o.no_raise(r)
        fs = r.items(r.get(c, '_frames'))
        bodies = []
        for k, x in enumerate(fs):
            o.eq(r.content(r.get(x, 'pose')), contact_frames(dist)[k], what='pose of the contact frame')
            b = r.get(S.obj('g%d' % k, 'Frame'), 'body')
            o.require(r.I.identical(r.st, r.get(x, 'body'), b) is True,
                      'the contact frame %d is not on the body of its shape' % k)
            bodies.append(b)
        o.eq(r.content(r.get(c, '_force')), ar([S0] * 4), what='force when a step begins')
        subs = r.items(r.get(c, '_child_obj_to_reg')) or []
        for k, x in enumerate(fs):
            o.require(any(r.I.identical(r.st, x, y) is True for y in subs),
                      'the contact frame %d is not declared to the world' % k)
    with ctx.ob('contact-frames-follow-the-solver', at, 'at the next step') as o:
        r, S = frames_run(ctx)
        now = []
        c, dist, dt, mu = contact(ctx, r, S, later=now)
        r.method(c, 'update', dt)
        r.get(c, 'jacobian')
        bump_all(r.st, 'moved')
        d = sym('newdist')
        now[:] = [d, contact_frames(d, 'Hc1')]
        state(r, c, 4)
        r.method(c, 'update', dt)
        o.no_raise(r)
        fs = r.items(r.get(c, '_frames'))
        for k, x in enumerate(fs):
            o.eq(r.content(r.get(x, 'pose')), now[1][k], what='pose of the contact frame')
        o.eq(r.content(r.get(c, '_force')), ar([S0] * 4), what='force when a step begins')
        o.eq(r.content(r.get(c, 'jacobian')), relative(r, fs, 2), what='jacobian')
    for prox in (None, sym('prox', pos=True), 'later'):
        with ctx.ob('active-when-the-predicted-distance-is-small', at,
                    'default proximity' if prox is None else 'at the next step' if prox == 'later' else '') as o:
            r, S = frames_run(ctx)
            now, then = [], prox == 'later'
            prox = None if then else prox
            c, dist, dt, mu = contact(ctx, r, S, prox, now)
            r.method(c, 'update', dt)
            Hc = contact_frames(dist)
            if then:
                bump_all(r.st, 'moved')
                dist, dt = sym('newdist'), sym('newdt', pos=True)
                Hc = contact_frames(dist, 'Hc1')
                now[:] = [dist, Hc]
                r.method(c, 'update', dt)
            got = r.I.truth(r.st, r.method(c, 'is_active'))
            o.no_raise(r)
            T = []
            for k in (0, 1):
                b = r.get(S.obj('g%d' % k, 'Frame'), 'body')
                H = mx_dot(se3_inv(Hc[k]), to_mx(r.content(r.get(b, 'pose'))))
                T.append(mx_dot(adjoint(H), to_mx(r.content(r.get(b, 'twist')))))
            A = adjoint(mx_dot(se3_inv(Hc[0]), Hc[1]))
            v = mx_add(mx_dot(A, T[1]), mx_scale(T[0], num(-1)))
            v = nd.getitem(v, 5)
            want = cmp_cond('<', dist + cells(v).c[()] * dt,
                            num(Fraction(2, 100)) if prox is None else prox)
            o.eq(got, want, what='activity')
    with ctx.ob('rows-give-the-contact-velocity',
                lambda: ctx.at_cls('SoftFingerContact', 'jacobian')) as o:
        r, S = frames_run(ctx)
        c, dist, dt, mu = contact(ctx, r, S)
        r.method(c, 'update', dt)
        J = r.content(r.get(c, 'jacobian'))
        o.no_raise(r)
        fs = r.items(r.get(c, '_frames'))
        o.eq(J, relative(r, fs, 2), what='jacobian')
        o.require(num(r.get(c, 'ndol')) == num(4), 'number of constrained directions')
        f = state(r, c, 4)
        o.eq(r.content(r.get(c, 'gforce')), mx_dot(mx_T(to_mx(J)), to_mx(f)),
             what='generalized force')


def switch(ctx):
    with ctx.ob('constraints-can-be-switched', lambda: ctx.at_cls('Constraint', 'is_enabled')) as o:
        r, S = frames_run(ctx)
        for c in (r.new('BallAndSocketConstraint', (S.obj('f0', 'Frame'), S.obj('f1', 'Frame'))),
                  contact(ctx, r, S)[0],
                  r.new('JointLimits', r.new('RzJoint'), r.nd(vec('lo', 1)), r.nd(vec('hi', 1)))):
            for m, want in ((None, True), ('disable', False), ('disable', False),
                            ('enable', True), ('enable', True), ('disable', False)):
                if m:
                    r.method(c, m)
                o.eq(r.I.truth(r.st, r.method(c, 'is_enabled')), want, what='enabled')
        o.no_raise(r)


def run(ctx):
    joint_rows(ctx)
    frame_rows(ctx)
    contacts(ctx)
    switch(ctx)
