"""Joint kinematics: for every concrete Joint class found in the source, pose,
jacobian, djacobian, ipose, twist, ndof and integrate are analysed on symbolic
coordinates and velocities and must be mutually consistent: pose is a
displacement, inv(pose) d(pose)/dt = hat(jacobian gvel), d(jacobian)/dt =
djacobian, twist = jacobian gvel, ipose pose = I, and integrate moves the
position by the velocity over the step."""
from obl.common import *
from obl.world import hg_contracts
from nd import VSlice
from obl.c01 import det3
from obl.c03 import exact


def joint_classes(ctx):
    S = Schema(ctx.prog)
    J, Lin = S.cls('Joint'), S.cls('LinearConfigurationSpaceJoint')
    out = []
    for c in ctx.prog.all_classes():
        if c.issub(J) and c is not J and c is not Lin and not abstract(c):
            out.append((c, c.issub(Lin)))
    return out


def abstract(c):
    for n in ('ndof', 'pose', 'jacobian', 'djacobian', 'integrate'):
        k, e = c.lookup(n)
        if e is None or e[0] == 'abs' or e[0] == 'prop' and e[1].get('abstract'):
            return True
    return False


def make(ctx, c, lin):
    """a joint with arbitrary coordinates, built by its constructor"""
    r = ctx.run()
    probe = r.new(c)
    n = r.get(probe, 'ndof')
    if not isinstance(n, int):
        raise Unsupported('ndof of %s is not a constant' % c.name)
    q = vec('q', n) if n else ar_zeros((0,))
    v = vec('v', n) if n else ar_zeros((0,))
    if lin:
        return r, r.new(c, gpos=r.nd(q), gvel=r.nd(v)), n, q, v
    if n == 0:
        return r, probe, n, q, v
    return r, None, n, q, v


def run(ctx):
    cs = joint_classes(ctx)
    for c, lin in cs:
        if not lin and c.name not in ('FreeJoint', 'FixedJoint'):
            with ctx.ob('known-configuration-space', lambda: ctx.at_cls(c)) as o:
                o.undecided('configuration space of %s is not known' % c.name)
            continue
        if c.name == 'FreeJoint':
            free(ctx, c)
        else:
            linear(ctx, c, lin)


def linear(ctx, c, lin):
    with ctx.ob('pose-is-displacement', lambda: ctx.at_cls(c, 'pose')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        H = A_(r.content(r.get(j, 'pose')))
        o.no_raise(r)
        o.shape(H, (4, 4))
        R = r_of(H)
        o.eq(mul(tr(R), R), ar_eye(3), what="R'R")
        o.eq(det3(R), S1, what='det R')
        o.eq(Ar(H.c[3, :]), ar([S0, S0, S0, S1]), what='last row')
        o.eq(subst(H, dict((alg._single(x), S0) for x in q.c)), ar_eye(4),
             what='pose at zero coordinates')
    with ctx.ob('jacobian-is-pose-rate', lambda: ctx.at_cls(c, 'jacobian')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        H = A_(r.content(r.get(j, 'pose')))
        J = A_(r.content(r.get(j, 'jacobian')))
        o.no_raise(r)
        if o.shape(J, (6, n)):
            for k in range(n):
                t, W = body_twist(H, diff(H, alg._single(q.c[k])))
                o.eq(Ar(J.c[:, k]), t, what='column %d of the jacobian' % k)
                o.eq(W, twist_hat(t), what='rate of the pose along coordinate %d' % k)
            o.fact()
    with ctx.ob('djacobian-is-jacobian-rate', lambda: ctx.at_cls(c, 'djacobian')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        J = A_(r.content(r.get(j, 'jacobian')))
        dJ = A_(r.content(r.get(j, 'djacobian')))
        o.no_raise(r)
        if o.shape(dJ, (6, n)):
            o.eq(dJ, dtime(J, q.c, v.c), what='djacobian')
    with ctx.ob('twist-is-jacobian-times-gvel', lambda: ctx.at_cls(c, 'twist')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        J = A_(r.content(r.get(j, 'jacobian')))
        o.eq(r.content(r.get(j, 'twist')), ar_dot(J, v) if n else ar_zeros((6,)), what='twist')
        o.no_raise(r)
    with ctx.ob('ipose-inverts-pose', lambda: ctx.at_cls(c, 'ipose')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        H = A_(r.content(r.get(j, 'pose')))
        iH = A_(r.content(r.get(j, 'ipose')))
        o.no_raise(r)
        o.eq(mul(iH, H), ar_eye(4), what='ipose pose')
        o.asserts(r)
    with ctx.ob('integrate-moves-by-velocity', lambda: ctx.at_cls(c, 'integrate')) as o:
        r, j, n, q, v = make(ctx, c, lin)
        nv, dt = (vec('nv', n) if n else ar_zeros((0,))), sym('dt', pos=True)
        h = r.nd(nv)
        r.method(j, 'integrate', h, dt)
        o.no_raise(r)
        if n:
            o.eq(r.content(r.get(j, 'gpos')), add(q, scale(dt, nv)), what='gpos')
            o.eq(r.content(r.get(j, 'gvel')), nv, what='gvel')
        o.eq(r.content(h), nv, what='the velocity passed in')
        o.require(not r.st.hazards, 'the update truncates to integers: %r' % (r.st.hazards,))
    if lin and n_dofs(ctx, c):
        for what in ('a list', 'an array'):
            with ctx.ob('coordinates-of-any-type', lambda: ctx.at_cls(c, 'integrate'), what) as o:
                n = n_dofs(ctx, c)
                r = ctx.run()
                whole = [num(k + 2) for k in range(n)]
                give = (lambda: r.list([int(x.const()) for x in whole])) if what == 'a list' else \
                    (lambda: r.nd(ar(whole), 'i'))
                j = r.new(c, gpos=give(), gvel=give())
                o.eq(r.content(r.get(j, 'gpos')), ar(whole), what='gpos given as whole numbers')
                o.eq(r.content(r.get(j, 'gvel')), ar(whole), what='gvel given as whole numbers')
                nv, dt = vec('nv', n), sym('dt', pos=True)
                r.method(j, 'integrate', r.nd(nv), dt)
                o.no_raise(r)
                o.eq(r.content(r.get(j, 'gpos')), add(ar(whole), scale(dt, nv)), what='gpos')
                o.require(not r.st.hazards, 'coordinates given as whole numbers in %s are truncated: %r' % (
                    what, r.st.hazards))
    if n_dofs(ctx, c):
        with ctx.ob('velocity-stays-a-view', lambda: ctx.at_cls(c, 'integrate')) as o:
            r, j, n, q, v = make(ctx, c, lin)
            velocity_view(o, r, j, n)
    if lin and n_dofs(ctx, c):
        forgets(ctx, c, lambda s: vec(s, n_dofs(ctx, c)), lambda s: vec(s, n_dofs(ctx, c)))
        given(ctx, c, lambda n: vec('q', n), lambda n: ar_zeros((n,)))
    if lin:
        with ctx.ob('default-state-is-zero', lambda: ctx.at_cls(c, '__init__')) as o:
            r = ctx.run()
            j = r.new(c)
            n = r.get(j, 'ndof')
            o.eq(r.content(r.get(j, 'gpos')), ar_zeros((n,)), what='default gpos')
            o.eq(r.content(r.get(j, 'gvel')), ar_zeros((n,)), what='default gvel')
            o.no_raise(r)


READ = ('pose', 'ipose', 'jacobian', 'djacobian', 'twist', 'adjoint', 'iadjoint', 'dadjoint', 'adjacency')


def forgets(ctx, c, gpos, vel):
    """every quantity is that of the coordinates of the moment, however often it
    was read before and however the coordinates changed: written in place,
    replaced, or integrated"""
    for how in ('written in place', 'replaced', 'integrated'):
        with ctx.ob('quantities-follow-the-state', lambda: ctx.at_cls(c), how) as o:
            r = ctx.run(contracts=dict(hg_contracts(), **{
                TW + '.exp': lambda I, st, a, kw: I.wrap(st, se3('E'))}))
            j = r.new(c, gpos=r.nd(gpos('q')), gvel=r.nd(vel('v')))
            read = lambda j: [r.content(r.get(j, n)) for n in READ]
            read(j)
            if how == 'written in place':
                for n, v in (('gpos', gpos('p')), ('gvel', vel('u'))):
                    r.guard(lambda: r.I.setitem(r.st, r.get(j, n), VSlice(None, None), r.nd(v)))
            elif how == 'replaced':
                r.set(j, 'gpos', r.nd(gpos('p')))
                r.set(j, 'gvel', r.nd(vel('u')))
            else:
                r.method(j, 'integrate', r.nd(vel('u')), sym('dt', pos=True))
            got = read(j)
            o.no_raise(r)
            k = r.new(c, gpos=r.nd(r.content(r.get(j, 'gpos'))), gvel=r.nd(r.content(r.get(j, 'gvel'))))
            for n, a, b in zip(READ, got, read(k)):
                o.eq(a, b, what='%s, read before the state was %s,' % (n, how))


def n_dofs(ctx, c):
    try:
        return make(ctx, c, True)[2]
    except (Unsupported, PyErr):
        return 0


def velocity_view(o, r, j, n):
    """the joint shares the storage of a world vector before integrate: it
    still does afterwards"""
    g = r.nd(vec('world', n + 2))
    sl = VSlice(1, n + 1)
    r.set(j, 'gvel', r.item(g, sl))
    r.method(j, 'integrate', r.item(g, sl), sym('dt', pos=True))
    o.no_raise(r)
    o.eq(r.content(r.get(j, 'gvel')), Ar(vec('world', n + 2).c[1:n + 1]), what='velocity of the joint')
    x = vec('x', n)
    r.guard(lambda: r.I.setitem(r.st, r.get(j, 'gvel'), VSlice(None, None), r.nd(x)))
    o.eq(Ar(A_(r.content(g)).c[1:n + 1]), x, what='world velocity once the joint velocity is written')


def given(ctx, c, gpos, zero):
    """coordinates and velocities given to the constructor, together or alone,
    by name or by position, are those of the joint"""
    for what in ('gpos', 'gvel', 'both', 'in order'):
        with ctx.ob('initial-state-is-given', lambda: ctx.at_cls(c, '__init__'), what) as o:
            r = ctx.run()
            n = r.get(r.new(c), 'ndof')
            q, v = gpos(n), vec('v', n)
            if what == 'in order':
                j = r.new(c, r.nd(q), r.nd(v))
            else:
                kw = {}
                if what != 'gvel':
                    kw['gpos'] = r.nd(q)
                if what != 'gpos':
                    kw['gvel'] = r.nd(v)
                j = r.new(c, **kw)
            o.no_raise(r)
            o.eq(r.content(r.get(j, 'gpos')), zero(n) if what == 'gvel' else q, what='gpos')
            o.eq(r.content(r.get(j, 'gvel')), ar_zeros((n,)) if what == 'gpos' else v, what='gvel')


def free(ctx, c):
    def mk():
        r = ctx.run()
        H, T = quat_h('q'), vec('T', 6)
        return r, r.new(c, gpos=r.nd(H), gvel=r.nd(T)), H, T
    spec = {'pose': lambda H, T: H, 'ipose': lambda H, T: hinv(H),
            'twist': lambda H, T: T, 'jacobian': lambda H, T: ar_eye(6),
            'djacobian': lambda H, T: ar_zeros((6, 6))}
    for n, f in sorted(spec.items()):
        with ctx.ob('free-joint-kinematics', lambda: ctx.at_cls(c, n)) as o:
            r, j, H, T = mk()
            got = r.content(r.get(j, n))
            o.no_raise(r)
            if o.shape(got, f(H, T).shape):
                o.eq(got, f(H, T), what=n)
    forgets(ctx, c, lambda s: se3(s), lambda s: vec(s, 6))
    with ctx.ob('coordinates-of-any-type', lambda: ctx.at_cls(c, 'integrate')) as o:
        for R in WHOLE:
            r = ctx.run()
            H, nv, dt = h_of(R, ivec('i', 3)), vec('w', 6), sym('dt', pos=True)
            mine = r.nd(H, 'i')
            j = r.new(c, gpos=mine, gvel=r.nd(ivec('u', 6), 'i'))
            r.method(j, 'integrate', r.nd(nv), dt)
            o.no_raise(r)
            E = r.content(r.call(r.fn(TW, 'exp'), r.nd(scale(dt, nv))))
            o.eq(r.content(r.get(j, 'gpos')), lift(lambda e: mul(H, A_(e)), E),
                 what='gpos moved from a pose of integers')
            o.eq(r.content(r.get(j, 'gvel')), nv, what='gvel after a velocity of integers')
            o.require(not r.st.hazards, 'the update truncates to integers: %r' % (r.st.hazards,))
    given(ctx, c, lambda n: quat_h('q'), lambda n: ar_eye(4))
    with ctx.ob('free-joint-kinematics', lambda: ctx.at_cls(c, 'ndof')) as o:
        r, j, H, T = mk()
        o.require(r.get(j, 'ndof') == 6, 'ndof is not 6')
    with ctx.ob('integrate-moves-by-velocity', lambda: ctx.at_cls(c, 'integrate')) as o:
        r, j, H, T = mk()
        nv, dt = vec('w', 6), sym('dt', pos=True)
        r.method(j, 'integrate', r.nd(nv), dt)
        o.no_raise(r)
        o.eq(r.content(r.get(j, 'gvel')), nv, what='gvel')
        # the displacement is composed, in the moving frame, with the exponential
        E = r.content(r.call(r.fn(TW, 'exp'), r.nd(scale(dt, nv))))
        o.eq(r.content(r.get(j, 'gpos')), lift(lambda e: mul(H, A_(e)), E), what='gpos')
    with ctx.ob('velocity-stays-a-view', lambda: ctx.at_cls(c, 'integrate')) as o:
        r, j, H, T = mk()
        velocity_view(o, r, j, 6)
    with ctx.ob('default-state-is-zero', lambda: ctx.at_cls(c, '__init__')) as o:
        r = ctx.run()
        j = r.new(c)
        o.eq(r.content(r.get(j, 'gpos')), ar_eye(4), what='default gpos')
        o.eq(r.content(r.get(j, 'gvel')), ar_zeros((6,)), what='default gvel')
        o.no_raise(r)
