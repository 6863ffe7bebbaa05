"""Energy and centre of mass observers.  EnergyMonitor is analysed on a world
holding any set of bodies, at several updates: the kinetic energy must be half
nu' M nu, the potential energy the sum over the massive bodies of mass . gravity .
height of the centre of mass along the vertical of the world, the total their sum.
CoMObserver is analysed on massive and massless bodies in arbitrary
states: its position, jacobian and jacobian derivative must be the mass-weighted
means of those of the centres of mass of the bodies, in ground axes, and what its getters
gave must not change afterwards."""
from obl.c11 import *
from obl.c04 import mass_about, spd

MASS = 'arboris.massmatrix.principalframe'


def entry(o, name, **kw):
    return sx_atom(atom('attr', o.key, name, **kw))


def com(o):
    return ar([entry(o, 'com%d' % i) for i in range(3)])


def massof(o):
    # the body of an arbitrary collection may be massless
    return entry(o, 'weight', pos=o.key.kind == 'obj')


def mass(I, st, o):
    c, m = com(o), massof(o)
    S = ar([[entry(o, 'I%d%d' % tuple(sorted((i, j)))) for j in range(3)] for i in range(3)])
    return I.new_nd(st, mass_about(c, S, m))


def principal(I, st, args, kw):
    """a displacement to the centre of mass, as decided by C04"""
    M = A_(I.content(st, args[0])).c
    m = M[5, 5]
    if m.const() == 0:
        # eigenvalues of what is not a number
        raise PyErr('LinAlgError')
    c = ar([M[2, 4] / m, M[0, 5] / m, M[1, 3] / m])
    return I.new_nd(st, h_of(turn('axes', who(m)), c))


def who(m):
    """the body a mass belongs to"""
    for a in m.atoms():
        if a.kind == 'attr' and a.args[0].kind == 'obj':
            return a.args[0].args[0]
    return 'body'


TURNS = {('axes', 'a'): 'general', ('pose', 'b'): 'general', ('axes', 'b'): (1, 2, 0),
         ('axes', 'c'): (1, 2, 0), ('pose', 'a'): (2, 0, 1)}


def turn(k, n, t=''):
    """orientations: a general one either for the body or for its principal axes, so that
    the polynomials stay small"""
    how = TURNS.get((k, n))
    if how == 'general' or n == 'body':
        return quat_rot('%s%s_%s' % (n, t, k))
    p = how or (0, 1, 2)
    return ar([[S1 if p[i] == j else S0 for j in range(3)] for i in range(3)])


def monitored(ctx):
    c = hg_contracts()
    c[MASS] = principal
    W = WorldRun(ctx, c)
    W.S.add('Body', mass=C(mass))
    r = W.r
    W.up = vec('up', 3)
    r.I.setitem(r.st, r.get(W.w, 'up'), VSlice(None, None), r.nd(W.up))
    r.method(W.w, 'init')
    W.n = 0
    return W


def potential(W):
    b = body(W)
    H = explode(W.r.content(W.r.get(b, 'pose')))
    p = add(mul(r_of(H), com(b)), p_of(H))
    h = ar_dot(W.up, p)
    h = h if isinstance(h, Sx) else cells(h).c.flat[0]
    g = num(Fraction(981, 100))
    return loops.close_sum(W.coll, W.e, cmp_cond('>', massof(b), S0), massof(b) * h * g)


def step(W, o, x, want):
    """one more step of the simulation, observed"""
    r = W.r
    W.n += 1
    # the clock is only moved by integrate
    r.set(W.w, '_current_time', sym('time%d' % W.n))
    r.method(W.w, 'update_dynamic')
    r.method(x, 'update', sym('dt%d' % W.n, pos=True))
    M, v = [to_mx(W.content(k)) for k in ('mass', 'gvel')]
    ec = lift(lambda a: a * num(Fraction(1, 2)), to_scalar(mx_dot(mx_T(v), mx_dot(M, v))))
    ep = potential(W)
    want.append((r.get(W.w, 'current_time'), ec, ep, lift(lambda a, b: a + b, ec, ep)))


def to_scalar(x):
    return x if isinstance(x, Sx) else cells(x).c.flat[0]


def recorded(W, o, x, want):
    for i, k in enumerate(('time', 'kinetic_energy', 'potential_energy', 'mechanichal_energy')):
        got = W.r.items(W.r.get(x, k))
        o.require(len(got) == len(want), '%d values of %s after %d updates' % (len(got), k, len(want)))
        if len(got) == len(want):
            for a, b in zip(got, want):
                o.eq(W.r.content(a), b[i], what=k)


def energies(ctx):
    at = lambda: ctx.at_cls('EnergyMonitor', 'update')
    times = [sym('t%d' % i) for i in range(4)]
    with ctx.ob('energy-of-any-world', at, 'a simulation') as o:
        W = monitored(ctx)
        x = W.r.new('EnergyMonitor')
        W.r.method(x, 'init', W.w, W.r.list(times))
        want = []
        for k in range(2):
            step(W, o, x, want)
            recorded(W, o, x, want)
        W.r.method(x, 'finish')
        o.no_raise(W.r)
        recorded(W, o, x, want)
    with ctx.ob('energy-of-any-world', at, 'another simulation') as o:
        W = monitored(ctx)
        x = W.r.new('EnergyMonitor')
        W.r.method(x, 'init', W.w, W.r.list(times))
        step(W, o, x, [])
        W.r.method(x, 'finish')
        W.r.method(x, 'init', W.w, W.r.list(times))
        want = []
        recorded(W, o, x, want)
        step(W, o, x, want)
        o.no_raise(W.r)
        recorded(W, o, x, want)


class Bodies(object):
    """massive and massless bodies in arbitrary successive states"""
    N = 1

    def __init__(self, ctx, flags):
        S = Schema(ctx.prog)
        S.add('World', ndof=C(lambda I, st, o: self.N))
        S.add('Body', mass=C(lambda I, st, o: I.new_nd(st, ar_zeros((6, 6)) if 'light' in o.key.args[0]
                                                       else I.content(st, mass(I, st, o)))),
              **{k: C(self.state(k)) for k in ('pose', 'jacobian', 'djacobian', 'twist')})
        c = hg_contracts()
        c[MASS] = principal
        self.r = ctx.run(S, c)
        self.w = S.obj('w', 'World')
        self.all = [S.obj(n, 'Body') for n in ('a', 'light', 'b', 'c')]
        self.heavy = [self.all[i] for i in (0, 2, 3)]
        self.t = 0
        self.x = self.r.new('CoMObserver', self.r.list(self.all), *flags)

    def value(self, o, k):
        n = '%s%d_%s' % (o.key.args[0], self.t, k)
        if k == 'pose':
            return h_of(turn(k, o.key.args[0], self.t), vec(n, 3))
        if k == 'twist':
            return ar_dot(self.value(o, 'jacobian'), vec('nu%d_' % self.t, self.N))
        return mat(n, 6, self.N)

    def state(self, k):
        return lambda I, st, o: I.new_nd(st, self.value(o, k))

    def start(self):
        self.r.method(self.x, 'init', self.w, self.r.list([sym('t%d' % i) for i in range(4)]))

    def update(self):
        self.t += 1
        self.r.method(self.x, 'update', sym('dt', pos=True))

    def required(self):
        m = num(0)
        out = [ar_zeros((3,)), ar_zeros((3, self.N)), ar_zeros((3, self.N))]
        for b in self.heavy:
            H, J, dJ, T = [self.value(b, k) for k in ('pose', 'jacobian', 'djacobian', 'twist')]
            R, k, w = r_of(H), massof(b), hat(Ar(T.c[:3]))
            lin = lambda j: add(Ar(j.c[3:]), scale(num(-1), mul(hat(com(b)), Ar(j.c[:3]))))
            for i, v in enumerate((add(mul(R, com(b)), p_of(H)), mul(R, lin(J)),
                                   add(mul(R, mul(w, lin(J))), mul(R, lin(dJ))))):
                out[i] = add(out[i], scale(k, v))
            m = m + k
        return [scale(S1 / m, v) for v in out]


GETTERS = ('get_CoMPosition', 'get_CoMJacobian', 'get_CoMdJacobian')


def centres(ctx):
    at = lambda: ctx.at_cls('CoMObserver', 'update')
    for flags, n in (((), 3), ((True,), 3), ((False,), 1)):
        with ctx.ob('centre-of-mass', at, 'with derivatives' if n == 3 else 'position only') as o:
            t = Bodies(ctx, flags)
            r = t.r
            t.start()
            seen = []
            for k in range(2):
                t.update()
                o.no_raise(r)
                for f, want in list(zip(GETTERS, t.required()))[:n]:
                    g = r.method(t.x, f)
                    o.eq(r.content(g), want, what=f)
                    seen.append((f, g, want))
                    # what is given belongs to the caller
                    h = r.method(t.x, f)
                    r.I.setitem(r.st, h, VSlice(None, None), num(0))
                    o.eq(r.content(r.method(t.x, f)), want, what=f + ' once its result is changed')
            r.method(t.x, 'finish')
            t.start()
            t.update()
            for f, want in list(zip(GETTERS, t.required()))[:n]:
                o.eq(r.content(r.method(t.x, f)), want, what=f + ' in another simulation')
            for f, g, want in seen:
                o.eq(r.content(g), want, what='earlier result of ' + f)
            o.no_raise(r)


class Later(object):
    """bodies of which the masses change between simulations, in two worlds"""
    NAMES = ('a', 'light', 'b')

    def __init__(self, ctx):
        S = self.S = Schema(ctx.prog)
        self.t = self.ep = 0
        C_ = lambda f: C(lambda I, st, o: f(I, st, o))
        nd_ = lambda f: C_(lambda I, st, o: I.new_nd(st, f(o)))
        S.add('World', ndof=C_(lambda I, st, o: 2), ground=C_(lambda I, st, o: self.ground[o.key.args[0]]),
              mass=nd_(lambda o: self.inertia(o)), gvel=nd_(lambda o: self.gvel(o)),
              current_time=C_(lambda I, st, o: self.time(o)), up=nd_(lambda o: self.up(o)))
        S.add('Body', mass=nd_(self.mass),
              **{k: nd_(lambda o, k=k: self.value(o, k)) for k in ('pose', 'jacobian', 'djacobian', 'twist')})
        c = hg_contracts()
        c[MASS] = principal
        c[CORE + '.Body.iter_descendant_bodies'] = lambda I, st, args, kw: \
            I.new_list(st, self.all[args[0].key.args[0][-1]])
        c[CORE + '.Body.iter_ancestor_bodies'] = lambda I, st, args, kw: I.unsupported('traversal')
        self.r = ctx.run(S, c)
        self.ws = [S.obj('w%d' % i, 'World') for i in range(2)]
        self.ground = {'w%d' % i: S.obj('ground%d' % i, 'Body') for i in range(2)}
        self.all = {str(i): [S.obj('%s%d' % (n, i), 'Body') for n in self.NAMES] for i in range(2)}

    def heavy(self, o):
        """the light ones are heavy later, when one of the others is light"""
        n = o.key.args[0]
        if n.startswith('ground'):
            return False
        return n[:-1] != ('light', 'b')[self.ep % 2]

    def weight(self, o):
        return entry(o, 'weight%d' % self.ep, pos=True) if self.heavy(o) else S0

    def com(self, o):
        return ar([entry(o, 'com%d_%d' % (self.ep, i)) for i in range(3)])

    def mass(self, o):
        if not self.heavy(o):
            return ar_zeros((6, 6))
        J = ar([[entry(o, 'I%d_%d%d' % ((self.ep,) + tuple(sorted((i, j))))) for j in range(3)] for i in range(3)])
        return mass_about(self.com(o), J, self.weight(o))

    def value(self, o, k):
        n = '%s_%d%s' % (o.key.args[0], self.t, k)
        if k == 'pose':
            return h_of(ar_eye(3), vec(n, 3))
        return vec(n, 6) if k == 'twist' else mat(n, 6, 2)

    def name(self, o, k):
        return '%s_%d%s' % (o.key.args[0], self.t, k)

    def inertia(self, o):
        return mat(self.name(o, 'M'), 2, 2)

    def gvel(self, o):
        return vec(self.name(o, 'v'), 2)

    def time(self, o):
        return sym(self.name(o, 'time'))

    def up(self, o):
        return vec(self.name(o, 'up'), 3)

    def place(self, b):
        return add(self.com(b), p_of(self.value(b, 'pose')))

    def energies(self, i):
        w = self.ws[i]
        M, v = self.inertia(w).c, self.gvel(w).c
        ec = sum((v[a]*M[a, b]*v[b] for a in range(2) for b in range(2)), S0) * num(Fraction(1, 2))
        ep = S0
        for b in self.all[str(i)]:
            ep = ep + self.weight(b) * num(Fraction(981, 100)) * sum((x*y for x, y in zip(
                self.place(b).c, self.up(w).c)), S0)
        return self.time(w), ec, ep, ec + ep

    def centre(self, i):
        t, out = S0, ar_zeros((3,))
        for b in self.all[str(i)]:
            if self.heavy(b):
                t = t + self.weight(b)
                out = add(out, scale(self.weight(b), self.place(b)))
        return scale(S1 / t, out)


def later(ctx):
    with ctx.ob('energy-of-any-world', lambda: ctx.at_cls('EnergyMonitor', 'init'), 'changed between simulations') as o:
        k = Later(ctx)
        r = k.r
        x, y = r.new('EnergyMonitor'), r.new('EnergyMonitor')
        times = lambda: r.list([sym('t%d' % i) for i in range(4)])
        done = None
        for sim, i in enumerate((0, 0, 1, 0)):
            k.ep = sim
            r.method(x, 'init', k.ws[i], times())
            if sim == 1:
                # another monitor, of another world, at the same time
                r.method(y, 'init', k.ws[1], times())
            want, other = [], []
            for n in range(2):
                k.t += 1
                r.method(x, 'update', sym('dt%d' % k.t, pos=True))
                want.append(k.energies(i))
                if sim == 1:
                    r.method(y, 'update', sym('dt%d' % k.t, pos=True))
                    other.append(k.energies(1))
            r.method(x, 'finish')
            o.no_raise(r)
            for j, n in enumerate(('time', 'kinetic_energy', 'potential_energy', 'mechanichal_energy')):
                for m, rec in ((x, want), (y, other or done)):
                    if rec is None:
                        continue
                    got = r.items(r.get(m, n))
                    o.require(len(got) == len(rec), '%d values of %s after %d updates' % (len(got), n, len(rec)))
                    for a, b in zip(got, rec):
                        o.eq(r.content(a), b[j], what='%s, simulation %d' % (n, sim + 1))
            done = other or done
    with ctx.ob('centre-of-mass', lambda: ctx.at_cls('CoMObserver', 'init'), 'changed between simulations') as o:
        k = Later(ctx)
        r = k.r
        x, y = [r.new('CoMObserver', r.list(k.all[str(i)])) for i in range(2)]
        for sim in range(4):
            k.ep = sim
            for m, w in ((x, 0), (y, 1)):
                r.method(m, 'init', k.ws[w])
            for n in range(2):
                k.t += 1
                for m in (x, y):
                    r.method(m, 'update', sym('dt%d' % k.t, pos=True))
                o.no_raise(r)
                for m, w in ((x, 0), (y, 1)):
                    o.eq(r.content(r.method(m, 'get_CoMPosition')), k.centre(w),
                         what='get_CoMPosition, simulation %d of world %d' % (sim + 1, w))


def run(ctx):
    later(ctx)
    energies(ctx)
    centres(ctx)
