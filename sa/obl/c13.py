"""Time stepping.  World.integrate is analysed on an arbitrary world after an
arbitrary model, controller and constraint update: the new generalized velocity
must solve (M/dt + B + N - sum Z) v' = M v/dt + gforce, each joint must be
integrated exactly once over dt with its own slice of it and keep sharing the
world storage, and the clock must advance by dt.  simulate is analysed on
symbolic timelines (for list, array and dict of observers): the sequence of calls
received by joints, controllers, constraints and observers must be the one of
the protocol, each with the right step length."""
from obl.c10 import *


def joint_protocol(W):
    def integrate(I, st, o, args):
        I.setattr(st, o, 'gvel', args[0])
    W.S.add('Joint', integrate=Method(integrate, raw=True))


def ready(ctx, again=False):
    W = prepared(ctx)
    joint_protocol(W)
    W.dt = sym('dt', pos=True)
    if again:
        W.step(sym('dt0', pos=True))
        W.r.method(W.w, 'integrate', sym('dt0', pos=True))
        W.r.method(W.w, 'update_dynamic')
    W.step(W.dt)
    W.r.st.events = ()
    return W


def step(W, dt):
    W.r.method(W.w, 'update_controllers', dt)
    W.r.method(W.w, 'update_constraints', dt, maxiters=int_sym('maxiters', pos=True),
               tol=sym('tol', pos=True))


WorldRun.step = step


def linear(evs, pre=()):
    for e in evs:
        if e.kind == 'each':
            for x in linear(e.sub or (), pre + (e.what,)):
                yield x
        elif e.kind == 'call':
            yield pre, e


def next_step(o, r, w, js, cs, dt):
    """one more step: velocities solve the discrete equation of motion,
    positions move by the new velocities over the step, the clock by the step"""
    c = lambda k: A_(r.content(r.get(w, k)))
    n = int(num(r.get(w, 'ndof')).const())
    r.method(w, 'update_controllers', dt)
    r.method(w, 'update_constraints', dt)
    v, t, Y, M = c('gvel'), num(r.get(w, 'current_time')), c('admittance'), c('mass')
    q = [A_(r.content(r.get(j, 'gpos'))) for j in js]
    want = mul(Y, add(scale(S1 / dt, mul(M, v)), c('gforce')))
    r.method(w, 'integrate', dt)
    o.no_raise(r)
    o.eq(c('gvel'), want, what='new generalized velocity')
    o.eq(num(r.get(w, 'current_time')), t + dt, what='clock')
    for j, x in zip(js, q):
        d = r.get(j, 'dof')
        u = Ar(want.c[d.start:d.stop])
        o.eq(r.content(r.get(j, 'gvel')), u, what='velocity of a joint')
        o.eq(r.content(r.get(j, 'gpos')), add(x, scale(dt, u)), what='position of a joint')


def run(ctx):
    changes(ctx, lambda: ctx.at_cls('World', 'integrate'), 'step-follows-the-world', next_step)
    at = lambda: ctx.at_cls('World', 'integrate')
    for again in (False, True):
        tag = 'second step' if again else ''
        with ctx.ob('discrete-equation-of-motion', at, tag) as o:
            W = ready(ctx, again)
            M, B, N_, v, g, Y = [W.content(k) for k in ('mass', 'viscosity', 'nleffects', 'gvel',
                                                        'gforce', 'admittance')]
            W.r.method(W.w, 'integrate', W.dt)
            o.no_raise(W.r)
            want = lift(lambda M, v, g, Y: mx_dot(Y, mx_add(mx_scale(mx_dot(M, v), S1 / W.dt), g)),
                        *[lift(to_mx, x) for x in (M, v, g, Y)])
            o.eq(W.content('gvel'), want, what='new generalized velocity')
            for k, x in (('mass', M), ('gforce', g), ('admittance', Y)):
                o.eq(W.content(k), x, what=k)
        with ctx.ob('joints-are-integrated-with-their-part', at, tag) as o:
            W = ready(ctx, again)
            r = W.r
            r.method(W.w, 'integrate', W.dt)
            evs = [(p, e) for p, e in linear(r.st.events) if e.what == 'integrate']
            if o.require(len(evs) == 1 and evs[0][0] == (W.coll,) and evs[0][1].pc is True,
                         'each joint is not integrated exactly once') or evs:
                e = evs[0][1]
                part = r.content(r.item(r.get(W.w, 'gvel'), r.get(W.joint(), 'dof')))
                o.eq(e.args[1], part, what='velocity given to a joint')
                o.eq(e.args[2], W.dt, what='step given to a joint')
            j = W.joint()
            x = mat_atom('x', (r.get(j, 'ndof'), 1))
            x = Mx((x.shape[0],), x.t)
            r.guard(lambda: r.I.setitem(r.st, r.get(j, 'gvel'), VSlice(None, None), r.nd(x)))
            o.eq(r.content(r.item(r.get(W.w, 'gvel'), r.get(j, 'dof'))), x,
                 what='world velocity once a joint velocity is written')
        with ctx.ob('clock-advances-by-the-step', at, tag) as o:
            W = ready(ctx, again)
            t = W.r.get(W.w, 'current_time')
            W.r.method(W.w, 'integrate', W.dt)
            o.eq(num(W.r.get(W.w, 'current_time')), num(t) + W.dt, what='current time')
    for n in (1, 2, 3) if ctx.tier == "quick" else (1, 2, 3, 4):
        for kind in ('list', 'dict', 'none'):
            with ctx.ob('simulation-follows-the-protocol', lambda: ctx.at(CORE, 'simulate'),
                        '%d times, %s of observers' % (n, kind)) as o:
                protocol(ctx, o, n, kind)


def protocol(ctx, o, n, kind):
    W = WorldRun(ctx)
    W.agents()
    joint_protocol(W)
    r, S = W.r, W.S
    for m in ('init', 'update', 'finish'):
        S.add('Observer', **{m: Method(None, mutates=True)})
    oc = atom('obj', 'observers')
    oe = atom('elem', oc, 0)
    obs = AObj(oe, S.cls('Observer'))
    ol = []
    if kind == 'list':
        ol = [r.I.lib.seq(r.st, (Each(oc, oe, True, (One(obs),)),))]
    elif kind == 'dict':
        x = S.obj('observer', 'Observer')
        oc = None
        ol = [r.call(r.I.lib.builtin('dict'), one=x)]
        obs = x
    else:
        oc = None
    t = [sym('t0')]
    ds = [sym('d%d' % i, pos=True) for i in range(n - 1)]
    for d in ds:
        t.append(t[-1] + d)
    r.st.events = ()
    tl = r.nd(ar(t))
    r.call(r.fn(CORE, 'simulate'), W.w, tl, *ol)
    o.no_raise(r, what='simulate')
    got = []
    inits = []
    stage = {W.cc: 'constraint', W.ac: 'controller', W.coll: 'joint'}
    if oc is not None:
        stage[oc] = 'observer'

    def agent(pre, e):
        if pre:
            return stage.get(pre[-1], 'unknown')
        return 'observer' if getattr(e.args[0], 'key', None) is obs.key else 'unknown'
    for pre, e in linear(r.st.events):
        if e.what == 'init sees':
            continue
        if e.what == 'init':
            inits.append((pre, e))
            continue
        if e.what == 'solve':
            continue
        who = 'tree' if e.what == 'update_dynamic' else agent(pre, e)
        got.append((who, e.what, e))
    want = []
    for d in ds:
        want += [('tree', 'update_dynamic', None), ('controller', 'update', d),
                 ('constraint', 'update', d)]
        if kind != 'none':
            want.append(('observer', 'update', d))
        want.append(('joint', 'integrate', d))
    if kind != 'none':
        want.append(('observer', 'finish', None))
    names = [x[:2] for x in got]
    # independent agents may be interleaved freely; the stages may not
    if not o.require(names == [x[:2] for x in want] or None,
                     'the calls are %s, required %s' % (names, [x[:2] for x in want])):
        pass
    if names == [x[:2] for x in want]:
        for (w, m, e), (_, _, d) in zip(got, want):
            if w != 'constraint':
                o.require(e.pc is True, '%s.%s is conditional' % (w, m))
            if d is not None:
                o.eq(e.args[-1], d, what='step given to %s.%s' % (w, m))
    who = [agent(p, e) for p, e in inits]
    o.require(sorted(who) == sorted(['constraint', 'controller'] +
                                    (['observer'] if kind != 'none' else [])),
              'objects initialised: %s' % who)
    if kind != 'none' and 'observer' in who:
        o.require(who[-1] == 'observer', 'observers are initialised before the world')
        e = inits[who.index('observer')][1]
        o.require(e.args[1] == S.freeze(r.I, r.st, W.w), 'observers are not given the world')
        ts = e.args[2]
        if isinstance(ts, SegKey) and all(isinstance(x, One) for x in ts.segs):
            ts = ar([x.v for x in ts.segs])
        if isinstance(ts, (Ar, Mx, Phi)):
            o.eq(ts, ar(t), what='timeline given to the observers')
        else:
            o.undecided('the timeline given to the observers was not recognised')
    o.eq(r.get(W.w, 'current_time'), t[-1], what='final time')
