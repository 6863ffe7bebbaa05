"""Controllers assembly.  World.update_controllers is analysed on a world that
holds an arbitrary set of arbitrary controllers, whatever the content of the
force and impedance vectors: the generalized force must be the sum of the
forces of all controllers, the admittance the inverse of mass/dt + viscosity +
nonlinear effects - sum of the impedances, each controller must be updated
exactly once with the step length, and the model matrices must not change."""
from obl.world import *
import loops
from obl.c07 import flat_events


def prepared(ctx, before=()):
    W = WorldRun(ctx)
    W.agents()
    W.r.method(W.w, 'init')
    W.r.method(W.w, 'update_dynamic')
    for dt in before:
        W.r.method(W.w, 'update_controllers', sym(dt, pos=True))
    W.r.st.events = ()
    return W


def replies(W, dt):
    """what each controller answers now, from the events of the run"""
    r = W.r
    s = r.st.fork()
    v = r.I.call(s, r.I.getattr(s, W.a, 'update'), [dt], {})
    return [r.I.content(s, x) for x in r.I.items_concrete(s, v)]


def small(ctx, o):
    """a world of two sliding links whose numbers are known, controlled by a
    PD controller on the second one; -> run, world, joints, gains"""
    from obl.c11 import chain, lumped
    r = ctx.run()
    w, js = chain(r, ['TxJoint', 'TxJoint'])
    for i, j in enumerate(js):
        b = r.get(j, 'frame1', 'body')
        r.set(b, 'mass', r.nd(lumped(i + 2)))
        r.set(b, 'viscosity', r.nd(lumped(Fraction(i + 1, 3))))
    state(r, js, 1)
    r.method(w, 'init')
    cs = [pd_on(r, w, js[1], 7)]
    r.method(w, 'init')
    o.no_raise(r, what='building the world')
    return r, w, js, cs


def pd_on(r, w, j, k):
    one = lambda x: r.nd(ar([num(x)]))
    c = r.new('ProportionalDerivativeController', r.list([j]), kp=r.nd(ar([[num(k)]])), kd=r.nd(ar([[num(k + 1)]])),
              gpos_des=one(k + 2), gvel_des=one(k - 3))
    r.method(w, 'register', c)
    return c


def state(r, js, seed):
    for i, j in enumerate(js):
        for k, v in (('gpos', Fraction(seed + i, 5)), ('gvel', Fraction(2 * seed - 3 * i, 7))):
            r.guard(lambda: r.I.setitem(r.st, r.get(j, k), VSlice(None, None), num(v)))


def changes(ctx, at, rule, look):
    """what the world does next, after one step and a change"""
    for how in ('nothing', 'another controller', 'another joint', 'another body', 'another step length'):
        with ctx.ob(rule, at, 'then ' + how) as o:
            r, w, js, cs = small(ctx, o)
            dt = num(Fraction(1, 50))
            for m, a in (('update_dynamic', ()), ('update_controllers', (dt,)),
                         ('update_constraints', (dt,)), ('integrate', (dt,))):
                r.method(w, m, *a)
            o.no_raise(r, what='the first step')
            if how == 'another controller':
                cs.append(pd_on(r, w, js[0], 4))
                cs.append(r.new('WeightController', num(-9)))
                r.guard(lambda: r.I.setitem(r.st, r.get(w, 'up'), VSlice(None, None),
                                            r.nd(ar([num(2), S0, num(1)]))))
                r.method(w, 'register', cs[-1])
            elif how == 'another joint':
                j = r.new('TxTyTzJoint', name='new')
                r.method(w, 'replace_joint', js[0], j)
                js[0] = j
            elif how == 'another body':
                from obl.c11 import lumped
                b, j = r.new('Body', 'more'), r.new('TxJoint', name='more')
                r.set(b, 'mass', r.nd(lumped(5)))
                r.method(w, 'add_link', r.get(w, 'ground'), j, b)
                js.append(j)
            elif how == 'another step length':
                dt = num(Fraction(1, 20))
            if how not in ('nothing', 'another step length'):
                r.method(w, 'init')
            state(r, js, 3)
            r.method(w, 'update_dynamic')
            o.no_raise(r, what='the change')
            look(o, r, w, js, cs, dt)


def look(o, r, w, js, cs, dt):
    c = lambda k: A_(r.content(r.get(w, k)))
    n = int(num(r.get(w, 'ndof')).const())
    f, Z = ar_zeros((n,)), add(scale(S1 / dt, c('mass')), c('viscosity'), c('nleffects'))
    s = r.st.fork()
    for x in cs:
        v = r.I.items_concrete(s, r.I.call(s, r.I.getattr(s, x, 'update'), [dt], {}))
        f = add(f, A_(r.I.content(s, v[0])))
        Z = add(Z, scale(num(-1), A_(r.I.content(s, v[1]))))
    r.method(w, 'update_controllers', dt)
    o.no_raise(r)
    o.eq(c('gforce'), f, what='generalized force')
    o.eq(mul(Z, c('admittance')), ar_eye(n), what='impedance times admittance')


def run(ctx):
    changes(ctx, lambda: ctx.at_cls('World', 'update_controllers'), 'controllers-follow-the-world', look)
    for before in ((), ('dt0',)):
        tag = 'after another step' if before else ''
        at = lambda: ctx.at_cls('World', 'update_controllers')
        with ctx.ob('force-is-sum-over-controllers', at, tag) as o:
            W = prepared(ctx, before)
            dt = sym('dt', pos=True)
            f, Z = replies(W, dt)
            W.r.method(W.w, 'update_controllers', dt)
            o.no_raise(W.r)
            o.eq(W.content('gforce'), loops.close_sum(W.ac, W.ae, True, f), what='gforce')
        with ctx.ob('admittance-is-inverse-impedance', at, tag) as o:
            W = prepared(ctx, before)
            dt = sym('dt', pos=True)
            f, Z = replies(W, dt)
            M, B, N_ = [W.content(k) for k in ('mass', 'viscosity', 'nleffects')]
            W.r.method(W.w, 'update_controllers', dt)
            o.no_raise(W.r)
            Z = loops.close_sum(W.ac, W.ae, True, mx_scale(to_mx(Z), num(-1)))
            Z = mx_add(mx_add(mx_scale(M, S1 / dt), mx_add(B, N_)), Z)
            Y = W.content('admittance')
            o.eq(Y, mx_inv(Z), what='admittance')
            for k, v in (('mass', M), ('viscosity', B), ('nleffects', N_)):
                o.eq(W.content(k), v, what=k + ' after the update')
        with ctx.ob('controllers-are-updated-once', at, tag) as o:
            W = prepared(ctx, before)
            dt = sym('dt', pos=True)
            W.r.method(W.w, 'update_controllers', dt)
            evs = [x for e in W.r.st.events if e.kind == 'each' and e.what is W.ac
                   for x in flat_events(e) if x.kind == 'call' and x.what == 'update']
            o.require(len(evs) == 1, 'each controller is updated %d times' % len(evs))
            for x in evs:
                o.require(x.pc is True, 'some controllers are not updated')
                o.require(len(x.args) == 2, 'a controller is not given one step length')
                o.eq(x.args[-1], dt, what='step given to a controller')
