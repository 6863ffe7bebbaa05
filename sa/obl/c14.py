"""Force laws of the constraints.  Each solve() method is analysed for an
arbitrary estimated velocity, an arbitrary (regular) admittance, step, position
and accumulated force; all its branches are joined under their conditions.
Joint limits must obey Signorini's conditions coordinate by coordinate, a
ball and socket must cancel the predicted separation, a soft finger must be
free when the surfaces separate, stick when friction allows it and otherwise
slide on the friction ellipsoid with the sliding factor taken from the spectrum
of the documented matrix.  In every branch the returned increment is the change
of the accumulated force."""
from obl.c10 import *

REF = '''
from numpy import array, zeros, dot, outer, eye, diag
from numpy.linalg import inv, eigvals

def limit(pos0, vel, force, y, lo, hi, dt):
    """one coordinate, force included in the velocity"""
    pred = pos0 + dt*(vel - y*force)
    if pred <= lo:
        return (lo - pred)/(dt*y)
    elif pred >= hi:
        return (hi - pred)/(dt*y)
    return 0.

def finger(sdist, vel, force, Y, mu, dt):
    """documented soft finger law, with unit normalisation coefficients"""
    free = vel - dot(Y, force)
    if sdist + dt*free[3] > 0:
        return zeros(4)
    gap = array([0., 0., 0., sdist/dt])
    stick = force - dot(inv(Y), vel + gap)
    if stick[0]**2 + stick[1]**2 + stick[2]**2 <= (mu*stick[3])**2:
        return stick
    alpha = free + gap
    Yc = Y[0:3, 3]
    yn = Y[3, 3]
    Yt = Y[0:3, 0:3] - outer(Yc, Yc)/yn
    beta = alpha[0:3] - Yc*alpha[3]/yn
    a = mu/yn*alpha[3]
    b = mu/yn*Yc
    B = zeros((6, 6))
    B[0:3, 0:3] = Yt - 2*outer(beta, b)/a
    B[0:3, 3:6] = -outer(beta, beta)/a**2
    B[3:6, 0:3] = outer(b, b) - eye(3)
    B[3:6, 3:6] = Yt
    S = [x for x in eigvals(B) if x.imag == 0 and x.real <= 0]
    if len(S) == 0:
        s = -1e10
    else:
        s = max(min([x.real for x in S]), -1e10)
    A = Y - s*diag([1., 1., 1., 0.])
    return dot(inv(A), -alpha)
'''


def state(r, c, n):
    """give an arbitrary value to the accumulated force"""
    f = vec('f', n)
    F = r.get(c, '_force')
    if not isinstance(F, Nd):
        raise Unsupported('no accumulated force')
    r.I.setitem(r.st, F, VSlice(None, None), r.nd(f))
    return f


def after(o, r, c, d, f):
    """accumulated force; the increment must lead to it"""
    F = r.content(r.get(c, '_force'))
    D = r.content(d)
    n = f.c.shape[0]
    o.eq(lift(lambda x, y: add(A_(x), A_(y)), f, D), F, what='force plus increment')
    return lift(A_, F)


LIMITED = [('RzJoint', 1), ('TyJoint', 1), ('RzRyJoint', 2), ('RzRyRxJoint', 3)]


def unchanged(o, r, *args):
    """the estimated velocity and the admittance belong to the caller"""
    for v, want in args:
        o.eq(r.content(v), want, what='argument after the call')


def limits(ctx):
    at = lambda: ctx.at_cls('JointLimits', 'solve')
    for cls, n in LIMITED:
        for coupled in (False, True):
            if coupled and n == 1:
                continue
            with ctx.ob('limits-obey-signorini', at,
                        cls + (' coupled coordinates' if coupled else '')) as o:
                r = ctx.run()
                q, lo, v = vec('q', n), vec('lo', n), vec('v', n)
                hi = add(lo, vec('range', n, pos=True))
                dt = sym('dt', pos=True)
                j = r.new(cls, gpos=r.nd(q), gvel=r.nd(vec('qd', n)))
                c = r.new('JointLimits', j, r.nd(lo), r.nd(hi))
                r.method(c, 'update', dt)
                f = state(r, c, n)
                if coupled:
                    Y = Ar(explode(mat_atom("Y%d" % n, (n, n), 'sym', spd=True)).c)
                    for i in range(n):
                        Y.c[i, i] = sym('y%d' % i, pos=True)
                else:
                    Y = ar([[sym('y%d' % i, pos=True) if i == k else S0 for k in range(n)]
                            for i in range(n)])
                a = r.nd(v), r.nd(Y)
                d = r.method(c, 'solve', a[0], a[1], dt)
                o.no_raise(r)
                unchanged(o, r, (a[0], v), (a[1], Y))
                F = after(o, r, c, d, f)
                m = r.source('spec14', REF)
                law = lambda k, w: r.content(r.call(r.fn('spec14', 'limit'), q.c[k], w,
                                                    f.c[k], Y.c[k, k], lo.c[k], hi.c[k], dt))
                if not coupled:
                    for k in range(n):
                        o.eq(lift(lambda x: x.c[k], F), law(k, v.c[k]),
                             what='force on the coordinate %d' % k)
                    continue
                # at least one coordinate is solved with the final other forces
                D = r.content(d)
                # coordinates are solved one after the other in their order
                for k in range(n):
                    w = lift(lambda x: sum((Y.c[k, i] * A_(x).c[i] for i in range(k)), v.c[k]), D)
                    o.eq(lift(lambda x: x.c[k], F), law(k, w),
                         what='force on the coordinate %d' % k)
    for cls, n in LIMITED:
        with ctx.ob('limits-are-active-near-them', lambda: ctx.at_cls('JointLimits', 'is_active'),
                    cls) as o:
            r = ctx.run()
            q, lo = vec('q', n), vec('lo', n)
            hi = add(lo, vec('range', n, pos=True))
            px = vec('prox', n, pos=True)
            j = r.new(cls, gpos=r.nd(q), gvel=r.nd(vec('qd', n)))
            for prox in (r.nd(px), None):
                c = r.new('JointLimits', j, r.nd(lo), r.nd(hi), prox)
                r.method(c, 'update', sym('dt', pos=True))
                o.eq(r.content(r.get(c, '_force')), ar([S0] * n), what='force when a step begins')
                got = r.I.truth(r.st, r.method(c, 'is_active'))
                o.no_raise(r)
                out = False
                for k in range(n):
                    out = b_or(out, b_or(cmp_cond('<=', q.c[k], lo.c[k]),
                                         cmp_cond('>=', q.c[k], hi.c[k])))
                o.eq(b_or(got, b_not(out)), True, what='active when a limit is violated')
                if prox is None:
                    continue
                far = True
                for k in range(n):
                    far = b_and(far, b_and(cmp_cond('>=', q.c[k], lo.c[k] + px.c[k]),
                                           cmp_cond('<=', q.c[k], hi.c[k] - px.c[k])))
                o.eq(b_and(got, far), False, what='active out of the proximity of the limits')


def ball(ctx):
    at = lambda: ctx.at_cls('BallAndSocketConstraint', 'solve')
    with ctx.ob('ball-and-socket-cancels-the-separation', at) as o:
        r, S = frames_run(ctx)
        f0, f1 = S.obj('f0', 'Frame'), S.obj('f1', 'Frame')
        c = r.new('BallAndSocketConstraint', (f0, f1))
        dt = sym('dt', pos=True)
        r.method(c, 'update', dt)
        f = state(r, c, 3)
        Y = mat_atom("Yb", (3, 3), 'sym', spd=True)
        v = vec('v', 3)
        a = r.nd(v), r.nd(Y)
        d = r.method(c, 'solve', a[0], a[1], dt)
        o.no_raise(r)
        unchanged(o, r, (a[0], v), (a[1], Y))
        after(o, r, c, d, f)
        H = [r.content(r.get(x, 'pose')) for x in (f0, f1)]
        sep = p_of(explode(mx_dot(se3_inv(H[0]), H[1])))
        D = r.content(d)
        end = mx_add(to_mx(sep), mx_scale(mx_add(to_mx(v), mx_dot(Y, to_mx(D))), dt))
        o.eq(end, mx_zero((3,)), what='predicted separation')
        o.eq(r.I.truth(r.st, r.method(c, 'is_active')), True, what='activity')


def frames_run(ctx, solver=None):
    S = world_schema(ctx, None)
    N = lambda I, st, o: sym('N', int=True, pos=True)
    for k in ('Frame', 'Body'):
        S.add(k, pose=kin('pose', (4, 4)), twist=kin('twist', (6,)),
              jacobian=kin('jacobian', (6, 'N'), lambda I, st: N(I, st, None)),
              djacobian=kin('djacobian', (6, 'N'), lambda I, st: N(I, st, None)))
    return ctx.run(S, hg_contracts()), S


def finger(ctx):
    at = lambda: ctx.at_cls('SoftFingerContact', 'solve')
    with ctx.ob('soft-finger-law', at) as o:
        r, S = frames_run(ctx)
        c, dist, dt, mu = contact(ctx, r, S)
        r.method(c, 'update', dt)
        f = state(r, c, 4)
        v = vec('v', 4)
        Y = mat_atom("Yf", (4, 4), 'sym', spd=True)
        a = r.nd(v), r.nd(Y)
        d = r.method(c, 'solve', a[0], a[1], dt)
        o.no_raise(r, allowed=())
        unchanged(o, r, (a[0], v), (a[1], Y))
        F = after(o, r, c, d, f)
        m = r.source('spec14', REF)
        want = r.content(r.call(r.fn('spec14', 'finger'), dist, r.nd(v), r.nd(f), r.nd(Y), mu, dt))
        # several admissible sliding factors are rare
        o.eq(F, want, what='contact force', tries=6000)


def contact_frames(dist, name='Hc0'):
    H = se3(name)
    return H, mx_dot(H, lit_of(h_of(ar_eye(3), ar([S0, S0, dist]))))


def contact(ctx, r, S, prox=None, later=()):
    """a soft finger contact between arbitrary shapes, with any solver that
    returns the distance and the two aligned frames it separates; later holds
    the distance and the frames once the bodies have moved"""
    m = r.source('solver14', 'def solver(shapes):\n    return answer(shapes)\n')
    f0, f1 = S.obj('g0', 'Frame'), S.obj('g1', 'Frame')
    s0, s1 = r.new('Shape', f0), r.new('Shape', f1)
    dist, mu, dt = sym('dist'), sym('mu', pos=True), sym('dt', pos=True)
    H = contact_frames(dist)

    def ans(I, st, args, kw):
        d, (a, b) = later or (dist, H)
        return d, I.new_nd(st, a), I.new_nd(st, b)
    r.I.contracts['solver14.solver'] = ans
    c = r.new('SoftFingerContact', (s0, s1), mu, r.fn('solver14', 'solver'),
              **({} if prox is None else {'proximity': prox}))
    return c, dist, dt, mu


def again(ctx):
    """the laws at a later step and a later sweep, whatever happened before"""
    for cls, n in LIMITED[::2]:
        with ctx.ob('limits-obey-signorini', lambda: ctx.at_cls('JointLimits', 'solve'), 'later, ' + cls) as o:
            r = ctx.run()
            lo = vec('lo', n)
            hi = add(lo, vec('range', n, pos=True))
            diag = lambda s: ar([[sym('%s%d' % (s, i), pos=True) if i == k else S0 for k in range(n)]
                                 for i in range(n)])
            j = r.new(cls, gpos=r.nd(vec('q0_', n)), gvel=r.nd(vec('qd', n)))
            c = r.new('JointLimits', j, r.nd(lo), r.nd(hi))
            r.method(c, 'update', sym('dt0', pos=True))
            r.method(c, 'solve', r.nd(vec('w', n)), r.nd(diag('z')), sym('dt0', pos=True))
            q, v, dt, Y = vec('q', n), vec('v', n), sym('dt', pos=True), diag('y')
            r.guard(lambda: r.I.setitem(r.st, r.get(j, 'gpos'), VSlice(None, None), r.nd(q)))
            state(r, c, n)
            r.method(c, 'update', dt)
            o.eq(r.content(r.get(c, '_force')), ar([S0] * n), what='force when a step begins')
            r.method(c, 'solve', r.nd(vec('x', n)), r.nd(diag('u')), dt)
            f = state(r, c, n)
            d = r.method(c, 'solve', r.nd(v), r.nd(Y), dt)
            o.no_raise(r)
            F = after(o, r, c, d, f)
            r.source('spec14', REF)
            for k in range(n):
                o.eq(lift(lambda x: x.c[k], F), r.content(r.call(
                    r.fn('spec14', 'limit'), q.c[k], v.c[k], f.c[k], Y.c[k, k], lo.c[k], hi.c[k], dt)),
                    what='force on the coordinate %d' % k)
    with ctx.ob('ball-and-socket-cancels-the-separation',
                lambda: ctx.at_cls('BallAndSocketConstraint', 'solve'), 'later') as o:
        r, S = frames_run(ctx)
        f0, f1 = S.obj('f0', 'Frame'), S.obj('f1', 'Frame')
        c = r.new('BallAndSocketConstraint', (f0, f1))
        adm = lambda n: mat_atom(n, (3, 3), 'sym', spd=True)
        r.method(c, 'update', sym('dt0', pos=True))
        r.method(c, 'solve', r.nd(vec('w', 3)), r.nd(adm('Y0')), sym('dt0', pos=True))
        bump_all(r.st, 'moved')
        dt, Y, v = sym('dt', pos=True), adm('Yb'), vec('v', 3)
        r.method(c, 'update', dt)
        r.method(c, 'solve', r.nd(vec('x', 3)), r.nd(adm('Y1')), dt)
        f = state(r, c, 3)
        d = r.method(c, 'solve', r.nd(v), r.nd(Y), dt)
        o.no_raise(r)
        after(o, r, c, d, f)
        H = [r.content(r.get(x, 'pose')) for x in (f0, f1)]
        sep = p_of(explode(mx_dot(se3_inv(H[0]), H[1])))
        o.eq(mx_add(to_mx(sep), mx_scale(mx_add(to_mx(v), mx_dot(Y, to_mx(r.content(d)))), dt)), mx_zero((3,)),
             what='predicted separation')
    with ctx.ob('soft-finger-law', lambda: ctx.at_cls('SoftFingerContact', 'solve'), 'later') as o:
        r, S = frames_run(ctx)
        now = []
        c, dist0, dt0, mu = contact(ctx, r, S, later=now)
        dist, dt, Y, v = sym('newdist'), sym('newdt', pos=True), mat_atom('Yf', (4, 4), 'sym', spd=True), vec('v', 4)
        r.method(c, 'update', dt0)
        bump_all(r.st, 'moved')
        now[:] = [dist, contact_frames(dist, 'Hc1')]
        r.method(c, 'update', dt)
        f = state(r, c, 4)
        d = r.method(c, 'solve', r.nd(v), r.nd(Y), dt)
        o.no_raise(r, allowed=())
        F = after(o, r, c, d, f)
        r.source('spec14', REF)
        want = r.content(r.call(r.fn('spec14', 'finger'), dist, r.nd(v), r.nd(f), r.nd(Y), mu, dt))
        o.eq(F, want, what='contact force', tries=6000)


def run(ctx):
    limits(ctx)
    again(ctx)
    ball(ctx)
    finger(ctx)
