"""Dynamic model assembly.  Body.update_dynamic is analysed for an arbitrary
mass distribution (mass, centre, inertia) and twist: the nonlinear effects
matrix applied to the twist must be the Newton-Euler bias -ad(T)' M T.
World.update_dynamic is analysed for an arbitrary tree, whatever the previous
content of the model matrices: mass, viscosity and nonlinear effects must be
exactly the sums over the bodies of J'MJ, J'BJ and J'(M dJ + N J), taken after
the kinematic update."""
from obl.world import *
from obl.c04 import mass_about, spd
from obl.c07 import body_run


def run(ctx):
    T = vec('T', 6)
    for what in ('massive', 'massless'):
        with ctx.ob('newton-euler-bias', lambda: ctx.at_cls('Body', 'update_dynamic'), what) as o:
            r, b, n = body_run(ctx)
            m = sym('m', pos=True)
            if what == 'massive':
                M = mass_about(vec('c', 3), spd('s'), m)
                ok = cmp_cond('>', m, num(Fraction(1, 10**9)))
            else:
                M = ar_zeros((6, 6))
                ok = True
            S = r.schema
            del S.attrs[('Body', 'mass')]
            S.add('Body', mass=C(lambda I, st, x: I.new_nd(st, M)))
            J, dJ = mat_atom('J', (6, n)), mat_atom('dJ', (6, n))
            r.method(b, 'update_dynamic', r.nd(se3('P')), r.nd(J), r.nd(dJ), r.nd(T))
            o.no_raise(r)
            N_ = r.content(r.get(b, 'nleffects'))
            if o.shape(N_, (6, 6)):
                want = scale(num(-1), mul(tr(ad(T)), mul(M, T)))
                o.eq(lift(lambda x: mul(A_(x), T), N_), want, ok, what='nleffects applied to the twist')
    for k in ('mass', 'viscosity', 'nleffects'):
        for again in (False, True):
            with ctx.ob('model-is-sum-over-bodies', lambda: ctx.at_cls('World', 'update_dynamic'),
                        k + (' after another update' if again else '')) as o:
                W = WorldRun(ctx)
                W.r.method(W.w, 'init')
                if again:
                    W.r.method(W.w, 'update_dynamic')
                W.r.method(W.w, 'update_dynamic')
                o.no_raise(W.r)
                got = W.r.content(W.r.get(W.w, k))
                o.eq(got, model(W, k), what=k)


    for how in ('in place', 'replaced', 'and another body'):
        with ctx.ob('model-follows-the-bodies', lambda: ctx.at_cls('World', 'update_dynamic'), how) as o:
            changed(ctx, o, how)


def changed(ctx, o, how):
    """the masses, viscosities, positions and velocities of a small world
    change between two updates"""
    from obl.c11 import chain
    r = ctx.run()
    w, js = chain(r, ['RzJoint', 'TxJoint'])
    bodies = [r.get(j, 'frame1', 'body') for j in js]

    def put(x, k, v):
        if how != 'in place':
            r.set(x, k, r.nd(v))
        else:
            r.guard(lambda: r.I.setitem(r.st, r.get(x, k), VSlice(None, None), r.nd(v)))

    def fill(tag):
        for i, b in enumerate(bodies):
            put(b, 'mass', A_(mass_about(vec('%sc%d_' % (tag, i), 3), ar_eye(3), num(i + (2 if tag == 'a' else 5)))))
            put(b, 'viscosity', mat('%sB%d_' % (tag, i), 6, 6))
    fill('a')
    r.method(w, 'init')
    r.method(w, 'update_dynamic')
    fill('b')
    for i, j in enumerate(js):
        put(j, 'gpos', vec('p%d_' % i, 1))
        r.guard(lambda: r.I.setitem(r.st, r.get(j, 'gvel'), VSlice(None, None), r.nd(vec('u%d_' % i, 1))))
    n = 2
    if how == 'and another body':
        b, n = r.new('Body', 'more'), 3
        r.method(w, 'add_link', bodies[0], r.new('TyJoint', gpos=r.nd(vec('p9', 1)), name='more'), b)
        bodies.append(b)
        put(b, 'mass', A_(mass_about(vec('bc9_', 3), ar_eye(3), num(4))))
        r.method(w, 'init')
    r.method(w, 'update_dynamic')
    o.no_raise(r)
    want = dict((k, ar_zeros((n, n))) for k in ('mass', 'viscosity', 'nleffects'))
    for b in bodies:
        c = lambda n: A_(r.content(r.get(b, n)))
        J, T = c('jacobian'), c('twist')
        o.eq(mul(c('nleffects'), T), scale(num(-1), mul(tr(ad(T)), mul(c('mass'), T))),
             what='nonlinear effects of a body')
        for k in ('mass', 'viscosity'):
            want[k] = add(want[k], mul(tr(J), c(k), J))
        want['nleffects'] = add(want['nleffects'], mul(tr(J), add(mul(c('mass'), c('djacobian')),
                                                                  mul(c('nleffects'), J))))
    for k in sorted(want):
        o.eq(r.content(r.get(w, k)), want[k], what=k)


def model(W, k):
    r = W.r
    b = r.get(AObj(W.e, W.S.cls('Joint')), 'frame1', 'body')
    c = lambda n: r.content(r.get(b, n))
    J = c('jacobian')
    if k == 'nleffects':
        t = mx_add(mx_dot(c('mass'), c('djacobian')), mx_dot(c('nleffects'), J))
        t = mx_dot(mx_T(J), t)
    else:
        t = mx_dot(mx_dot(mx_T(J), c(k)), J)
    import loops
    return loops.close_sum(W.coll, W.e, True, t)
