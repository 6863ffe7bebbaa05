"""Weight and PD controllers.  WeightController is analysed on a world holding
an arbitrary set of bodies, after an arbitrary model update: its generalized
force must be the sum over the massive bodies of jacobian' . mass . (gravity
seen from the body), massless bodies contributing nothing, with a null
impedance.  The PD controller is analysed on worlds built through the public
interface from the joints of the library, for every way the degrees of freedom
of the controlled joints can lie in the world vector, with symbolic gains,
targets, coordinates and step."""
from obl.c10 import *


def world(ctx, massive=True):
    W = WorldRun(ctx, hg_contracts())
    if massive:
        W.S.add('Body', mass=F((6, 6), 'MASS', frozen=True))
    else:
        W.S.add('Body', mass=C(lambda I, st, o: I.new_nd(st, ar_zeros((6, 6)))))
    W.g = sym('g')
    W.up = vec('up', 3)
    up = W.r.get(W.w, 'up')
    W.r.I.setitem(W.r.st, up, VSlice(None, None), W.r.nd(W.up))
    W.c = W.r.new('WeightController', W.g)
    W.r.method(W.w, 'register', W.c)
    W.r.method(W.w, 'init')
    W.r.method(W.w, 'update_dynamic')
    return W


def body(W):
    r = W.r
    return r.get(r.get(W.joint(), 'frame1'), 'body')


def weight(W):
    """what gravity yields in the current state"""
    r, b = W.r, body(W)
    up = ar([S0] * 3 + [W.g * x for x in W.up.c])
    f = lambda J, M, H: mx_dot(mx_T(J), mx_dot(M, mx_dot(adjoint(se3_inv(H)), up)))
    f = lift(f, *[lift(to_mx, r.content(r.get(b, k))) for k in ('jacobian', 'mass', 'pose')])
    return loops.close_sum(W.coll, W.e, True, f)


def weights(ctx):
    at = lambda: ctx.at_cls('WeightController', 'update')
    for tag in ('first update', 'second update'):
        with ctx.ob('weight-is-gravity-on-massive-bodies', at, tag) as o:
            W = world(ctx)
            dt = sym('dt', pos=True)
            f, Z = W.r.items(W.r.method(W.c, 'update', dt))
            if tag == 'second update':
                W.r.method(W.w, 'update_dynamic')
                f, Z = W.r.items(W.r.method(W.c, 'update', dt))
            o.no_raise(W.r)
            o.eq(W.r.content(f), weight(W), what='generalized force')
            n = W.r.get(W.w, 'ndof')
            o.eq(W.r.content(Z), mx_zero((n, n)), what='impedance')
    with ctx.ob('massless-bodies-have-no-weight', at) as o:
        W = world(ctx, False)
        f, Z = W.r.items(W.r.method(W.c, 'update', sym('dt', pos=True)))
        o.no_raise(W.r)
        o.eq(W.r.content(f), mx_zero((W.r.get(W.w, 'ndof'),)), what='generalized force')
    with ctx.ob('gravity-defaults-downward', lambda: ctx.at_cls('WeightController')) as o:
        W = world(ctx)
        W.g = num(Fraction(-981, 100))
        c = W.r.new('WeightController')
        W.r.method(W.w, 'register', c)
        W.r.method(W.w, 'init')
        W.r.method(W.w, 'update_dynamic')
        f, Z = W.r.items(W.r.method(c, 'update', sym('dt', pos=True)))
        o.no_raise(W.r)
        o.eq(W.r.content(f), weight(W), what='generalized force')


def lumped(m):
    """a small body: mass m, inertia in proportion"""
    return ar([[num(m) * num(1 if i > 2 else Fraction(1, 100)) if i == j else S0 for j in range(6)]
               for i in range(6)])


def histories(ctx):
    """the weight of a small world through changes of its masses, gravity,
    vertical and bodies"""
    at = lambda: ctx.at_cls('WeightController')
    tiny, big = Fraction(1, 10**6), Fraction(3)
    for tag in ('tiny masses', 'a massless link', 'masses that change', 'a body that gains mass', 'another gravity',
                'another vertical', 'another body'):
        with ctx.ob('weight-of-small-worlds', at, tag) as o:
            r = ctx.run()
            w, js = chain(r, ['RzJoint', 'TxJoint'])
            bodies = [r.get(j, 'frame1', 'body') for j in js]
            g, up = Fraction(-981, 100), [S0, S1, S0]
            masses = [tiny, 2 * tiny] if tag == 'tiny masses' else [0, big] if tag in (
                'a massless link', 'a body that gains mass') else [big, 2 * big]
            def weigh():
                for b, m in zip(bodies, masses):
                    r.set(b, 'mass', r.nd(lumped(m)))
            weigh()
            c = r.new('WeightController')
            r.method(w, 'register', c)
            r.method(w, 'init')
            r.method(w, 'update_dynamic')
            dt = sym('dt', pos=True)
            r.method(c, 'update', dt)
            o.no_raise(r, what='the first update')
            if tag in ('masses that change', 'a body that gains mass'):
                masses = [Fraction(5), Fraction(1, 2)]
                weigh()
            if tag == 'another gravity':
                g = Fraction(-163, 100)
                r.set(c, 'gravity', num(g))
            if tag == 'another vertical':
                up = [S0, S0, num(-1)]
                r.guard(lambda: r.I.setitem(r.st, r.get(w, 'up'), VSlice(None, None), r.nd(ar(up))))
            if tag == 'another body':
                b, j = r.new('Body', 'more'), r.new('RyJoint', gpos=r.nd(vec('q9', 1)), name='more')
                r.method(w, 'add_link', bodies[-1], j, b)
                bodies.append(b)
                masses = masses + [big]
                weigh()
            if tag not in ('masses that change', 'tiny masses', 'a massless link'):
                r.method(w, 'init')
            r.method(w, 'update_dynamic')
            f, Z = r.items(r.method(c, 'update', dt))
            o.no_raise(r)
            n = sum(m for m in [1] * len(bodies))
            want, G = ar_zeros((n,)), ar([S0] * 3 + [num(g) * x for x in up])
            for b, m in zip(bodies, masses):
                H, J = A_(r.content(r.get(b, 'pose'))), A_(r.content(r.get(b, 'jacobian')))
                want = add(want, mul(tr(J), lumped(m), adj(hinv(H)), G))
            o.eq(r.content(f), want, what='generalized force')
            o.eq(r.content(Z), ar_zeros((n, n)), what='impedance')


# joint classes of the world, in the order of its vector; controlled joints
CASES = [
    (['RzJoint'], [0], 'the only joint'),
    (['RzRyJoint', 'RzJoint', 'RzRyRxJoint'], [0, 2], 'with a hole'),
    (['RzRyJoint', 'RzJoint', 'RzRyRxJoint'], [2, 0], 'out of order'),
    (['RzJoint', 'TxTyTzJoint', 'RyJoint', 'RzRxJoint'], [1, 2], 'inner contiguous'),
    (['FreeJoint', 'RxJoint', 'RzRyRxJoint', 'FixedJoint', 'TyJoint'], [4, 1], 'after a free joint'),
]


def chain(r, classes):
    """a world holding a chain of joints, built through its interface"""
    w = r.new('World')
    parent = r.get(w, 'ground')
    js = []
    for i, c in enumerate(classes):
        b = r.new('Body', 'body%d' % i)
        n = ndofs(r, c)
        kw = {'name': 'joint%d' % i}
        if c not in ('FreeJoint', 'FixedJoint'):
            kw['gpos'] = r.nd(vec('q%d_' % i, n))
            kw['gvel'] = r.nd(vec('v%d_' % i, n))
        j = r.new(c, **kw)
        js.append(j)
        r.method(w, 'add_link', parent, j, b)
        parent = b
    return w, js


def ndofs(r, c):
    n = r.get(r.cls(c), 'ndof') if not isinstance(r.cls(c).lookup('ndof')[1][1], dict) else None
    if n is None:
        n = r.get(r.new(c), 'ndof')
    return int(num(n).const())


def present(ctx, names):
    S = Schema(ctx.prog)
    for n in names:
        S.cls(n)


def pd(ctx):
    at = lambda: ctx.at_cls('ProportionalDerivativeController', 'update')
    for classes, sel, tag in CASES:
        for gains in ('full', 'defaults') if classes is CASES[1][0] else ('full',):
            with ctx.ob('pd-force-and-impedance', at, tag + ', ' + gains) as o:
                r = ctx.run()
                w, js = chain(r, classes)
                r.method(w, 'init')
                o.no_raise(r, what='building the world')
                ns = [ndofs(r, c) for c in classes]
                off = [sum(ns[:i]) for i in range(len(ns))]
                cj = [js[i] for i in sel]
                n = sum(ns[i] for i in sel)
                ix = [off[i] + k for i in sel for k in range(ns[i])]
                q = ar([x for i in sel for x in vec('q%d_' % i, ns[i]).c])
                kp = kd = ar_zeros((n, n))
                qd = vd = ar_zeros((n,))
                kw = {}
                if gains == 'full':
                    kp, kd, qd, vd = mat('kp', n, n), mat('kd', n, n), vec('qd', n), vec('vd', n)
                    kw = dict(kp=r.nd(kp), kd=r.nd(kd), gpos_des=r.nd(qd), gvel_des=r.nd(vd))
                c = r.new('ProportionalDerivativeController', r.list(cj), **kw)
                r.method(w, 'register', c)
                r.method(w, 'init')
                r.method(w, 'update_dynamic')
                dt = sym('dt', pos=True)
                for tag2 in ('', ' at the next step'):
                    if tag2:
                        q = vec('z', n)
                        k = 0
                        for i in sel:
                            r.I.setitem(r.st, r.get(js[i], 'gpos'), VSlice(None, None),
                                        r.nd(Ar(q.c[k:k + ns[i]])))
                            k += ns[i]
                    f, Z = r.items(r.method(c, 'update', dt))
                    o.no_raise(r)
                    F_, Z_ = ar_zeros((sum(ns),)), ar_zeros((sum(ns),) * 2)
                    F_.c[ix] = add(ar_dot(kp, add(qd, scale(num(-1), q))), ar_dot(kd, vd)).c
                    Z_.c[np.ix_(ix, ix)] = scale(num(-1), add(scale(dt, kp), kd)).c
                    o.eq(r.content(f), F_, what='generalized force' + tag2)
                    o.eq(r.content(Z), Z_, what='impedance' + tag2)
    later(ctx, at)
    with ctx.ob('pd-accepts-linear-joints-only', lambda: ctx.at_cls('ProportionalDerivativeController')) as o:
        r = ctx.run()
        w, js = chain(r, ['RzJoint', 'FreeJoint'])
        r.method(w, 'init')
        r.new('ProportionalDerivativeController', r.list(js))
        o.require(r.st.dead and r.raises and all(x.val.name == 'ValueError' for x in r.raises),
                  'a free joint is accepted')


def later(ctx, at):
    """a PD controller through changes of its gains, targets, step, and of the
    place of its joints in the world; joints given by any iterable"""
    classes, sel = ['RzRyJoint', 'RzJoint', 'RzRyRxJoint'], [0, 2]
    for how in ('a generator', 'a tuple', 'targets in place', 'gains in place', 'gains replaced',
                'another step', 'moved joints'):
        with ctx.ob('pd-follows-its-parameters', at, how) as o:
            r = ctx.run()
            w, js = chain(r, classes)
            r.method(w, 'init')
            o.no_raise(r, what='building the world')
            n = 5
            par = dict(kp=mat('kp', n, n), kd=mat('kd', n, n), gpos_des=vec('qd', n), gvel_des=vec('vd', n))
            cj = [js[i] for i in sel]
            r.source('spec11', 'def given(js):\n    return (j for j in js)\n')
            given = r.call(r.fn('spec11', 'given'), r.list(cj)) if how == 'a generator' else tuple(cj) if how == 'a tuple' else r.list(cj)
            c = r.new('ProportionalDerivativeController', given, **dict((k, r.nd(v)) for k, v in par.items()))
            r.method(w, 'register', c)
            r.method(w, 'init')
            r.method(w, 'update_dynamic')
            dt = sym('dt', pos=True)
            if how not in ('a generator', 'a tuple'):
                r.method(c, 'update', dt)
            o.no_raise(r, what='the first update')
            which = ('gpos_des', 'gvel_des') if how == 'targets in place' else ('kp', 'kd')
            if how.startswith('targets') or how.startswith('gains'):
                for k in which:
                    par[k] = mat('new' + k, n, n) if k[0] == 'k' else vec('new' + k, n)
                    if how.endswith('in place'):
                        ix = VSlice(None, None)
                        r.guard(lambda: r.I.setitem(r.st, r.get(c, k), ix, r.nd(par[k])))
                    else:
                        r.set(c, k, r.nd(par[k]))
            if how == 'another step':
                dt = sym('dt2', pos=True)
            ns = [2, 1, 3]
            if how == 'moved joints':
                r.method(w, 'replace_joint', js[1], r.new('TxTyTzJoint', name='other'))
                ns[1] = 3
                r.method(w, 'init')
                r.method(w, 'update_dynamic')
            f, Z = r.items(r.method(c, 'update', dt))
            o.no_raise(r)
            ix = [0, 1] + [ns[0] + ns[1] + k for k in range(3)]
            q = ar([x for i in sel for x in vec('q%d_' % i, ns[i]).c])
            F_, Z_ = ar_zeros((sum(ns),)), ar_zeros((sum(ns),) * 2)
            F_.c[ix] = add(ar_dot(par['kp'], add(par['gpos_des'], scale(num(-1), q))),
                           ar_dot(par['kd'], par['gvel_des'])).c
            Z_.c[np.ix_(ix, ix)] = scale(num(-1), add(scale(dt, par['kp']), par['kd'])).c
            o.eq(r.content(f), F_, what='generalized force')
            o.eq(r.content(Z), Z_, what='impedance')


def run(ctx):
    weights(ctx)
    histories(ctx)
    pd(ctx)
