"""Mass matrices: the solid constructors are compared with the textbook inertia
integrals, transport with Ad' M Ad (so that kinetic energy is invariant), and
principalframe is analysed on every mass matrix written as a displaced diagonal
one, under every sign outcome of the eigen/QR decompositions: its result must be
a right-handed displacement that makes the transported mass matrix diagonal."""
from obl.common import *
from obl.c01 import det3
from obl.pure import independent
import itertools

ASSUMPTIONS = ['eig of a symmetric matrix S returns unit eigenvectors, orthogonal between different eigenvalues '
               'only; eigh an orthogonal basis; qr of V a factorisation, unique up to the signs of the columns']


def frac(a, b):
    return num(Fraction(a, b))


def diag_mass(Ix, Iy, Iz, m):
    o = np.empty((6, 6), dtype=object)
    o[:, :] = S0
    for i, x in enumerate((Ix, Iy, Iz, m, m, m)):
        o[i, i] = x
    return Ar(o)


def solids():
    m = sym('m', pos=True)
    a, b, c = [sym('h%d' % i, pos=True) for i in range(3)]
    R, L = sym('R', pos=True), sym('L', pos=True)

    # second moments per unit mass of the solids (independent derivation:
    # I_x = m (<y2> + <z2>))
    def of(x2, y2, z2):
        return diag_mass(m * (y2 + z2), m * (x2 + z2), m * (x2 + y2), m)
    yield 'box', lambda r: ((a, b, c), m), of(a * a * frac(1, 3), b * b * frac(1, 3), c * c * frac(1, 3))
    yield 'ellipsoid', lambda r: ((a, b, c), m), of(a * a * frac(1, 5), b * b * frac(1, 5),
                                                    c * c * frac(1, 5))
    yield 'cylinder', lambda r: (L, R, m), of(R * R * frac(1, 4), R * R * frac(1, 4), L * L * frac(1, 12))
    yield 'sphere', lambda r: (R, m), of(R * R * frac(1, 5), R * R * frac(1, 5), R * R * frac(1, 5))


def mass_about(c, S, m):
    """mass matrix of a body of mass m, centre c, central inertia S"""
    K = hat(c)
    o = np.empty((6, 6), dtype=object)
    o[:3, :3] = add(S, scale(-m, mul(K, K))).c
    o[:3, 3:] = scale(m, K).c
    o[3:, :3] = scale(-m, K).c
    o[3:, 3:] = scale(m, ar_eye(3)).c
    return Ar(o)


def pure_ones(ctx):
    pos = lambda n: sym(n, pos=True)
    for n, k in (('box', (3,)), ('ellipsoid', (3,)), ('cylinder', (0, 0)), ('sphere', (0,))):
        size = lambda s, i: pos(s) if not i else tuple(pos('%s%d' % (s, j)) for j in range(i))
        independent(ctx, MM, n, [[size(t + 'd%d' % j, i) for j, i in enumerate(k)] + [pos(t + 'm')] for t in 'ab'])
        size = lambda s, i: num(s) if not i else tuple(num(s + j) for j in range(i))
        independent(ctx, MM, n, [[size(t + j, i) for j, i in enumerate(k)] + [num(t)] for t in (1, 2)], 'numbers')
    def eigen(r):
        r.schema.linalg['eigvals'] = r.schema.linalg['eigvalsh'] = positive
    M = [mass_about(vec('c%d' % i, 3), spd('s%d' % i), pos('m%d' % i)) for i in range(2)]
    independent(ctx, MM, 'transport', [[m, quat_h('qs'[i])] for i, m in enumerate(M)], '', eigen)
    independent(ctx, MM, 'ismassmatrix', [[M[0]], [put(M[0], 4, 4, num(2))]], '', eigen)


def run(ctx):
    pure_ones(ctx)
    for n, args, want in solids():
        with ctx.ob('textbook-inertia', lambda: ctx.at(MM, n)) as o:
            r = ctx.run()
            got = r.content(r.call(r.fn(MM, n), *args(r)))
            o.no_raise(r)
            if o.shape(got, (6, 6)):
                o.eq(got, want, what='mass matrix of a ' + n)
    with ctx.ob('transport-is-congruence', lambda: ctx.at(MM, 'transport')) as o:
        r = ctx.run()
        r.schema.linalg['eigvals'] = positive
        H = quat_h('q')
        M = mass_about(vec('c', 3), spd('s'), sym('m', pos=True))
        got = r.content(r.call(r.fn(MM, 'transport'), r.nd(M), r.nd(H)))
        o.no_raise(r, allowed=('AssertionError',))
        if o.shape(got, (6, 6)):
            A = adj(H)
            o.eq(got, mul(tr(A), mul(M, A)), r.st.pc, what='transport(M, H)')
    with ctx.ob('predicate-accepts-mass-matrices', lambda: ctx.at(MM, 'ismassmatrix')) as o:
        for semi in (False, True):
            r = ctx.run()
            r.schema.linalg['eigvals'] = positive
            M = mass_about(vec('c', 3), spd('s'), sym('m', pos=True))
            got = r.call(r.fn(MM, 'ismassmatrix'), r.nd(M), semi)
            o.eq(got, True, what='ismassmatrix(M, semi=%s)' % semi)
            o.no_raise(r)
    for least, what in ((S0, 'that is only semi-definite'), (num(-1), 'that is not positive')):
        with ctx.ob('predicate-rejects-others', lambda: ctx.at(MM, 'ismassmatrix'), what) as o:
            for semi in (False, True):
                def spectrum(I, st, c, least=least):
                    return I.wrap(st, ar([sym('eigenvalue%d' % i, pos=True) for i in range(5)] + [least]))
                r = ctx.run()
                r.schema.linalg['eigvals'] = r.schema.linalg['eigvalsh'] = spectrum
                M = mass_about(vec('c', 3), spd('s'), sym('m', pos=True))
                got = r.call(r.fn(MM, 'ismassmatrix'), r.nd(M), semi)
                o.eq(got, semi and least.iszero(), what='ismassmatrix(M, semi=%s) of a matrix %s' % (semi, what))
                o.no_raise(r)
    M0 = mass_about(vec('c', 3), spd('s'), S1)
    for what, bad in (('asymmetric', put(put(M0, 0, 1, S1), 1, 0, S0)),
                      ('with unequal masses', put(M0, 4, 4, num(2))),
                      ('with coupled masses', put(put(M0, 3, 4, S1), 4, 3, S1)),
                      ('of shape (3,3)', Ar(M0.c[:3, :3]))):
        with ctx.ob('predicate-rejects-others', lambda: ctx.at(MM, 'ismassmatrix'), what) as o:
            r = ctx.run()
            r.schema.linalg['eigvals'] = positive
            got = r.call(r.fn(MM, 'ismassmatrix'), r.nd(bad))
            o.no_raise(r)
            o.eq(got, False, what='ismassmatrix of a matrix ' + what)
    m = sym('m', pos=True)
    c = vec('c', 3)
    W = vec('w', 3, pos=True)
    D = ar([[W.c[i] if i == j else S0 for j in range(3)] for i in range(3)])
    d3 = lambda *w: ar([[w[i] if i == j else S0 for j in range(3)] for i in range(3)])
    ONES, MIXED = (1, 1, 1), ((1, 1, 1), (-1, 1, -1), (-1, -1, -1))
    # eig gives unit eigenvectors, which are orthogonal between different
    # eigenvalues only: here some of them are 3/5 of one axis and 4/5 of another
    a, b, c4, c5 = num(3) / num(5), num(4) / num(5), num(5) / num(13), num(12) / num(13)
    w0, w1, w2 = W.c
    cases = [('different inertias', D, ar_eye(3), signs, qs)
             for signs in itertools.product((1, -1), repeat=3) for qs in MIXED]
    for what, d, K in (('first two equal', d3(w0, w0, w2), [[S1, a, S0], [S0, b, S0], [S0, S0, S1]]),
                       ('last two equal', d3(w0, w1, w1), [[S1, S0, S0], [S0, S1, a], [S0, S0, b]]),
                       ('extreme ones equal', d3(w0, w1, w0), [[S1, S0, a], [S0, S1, S0], [S0, S0, b]]),
                       ('all equal', d3(w0, w0, w0), [[S1, a, S0], [S0, b, c4], [S0, S0, c5]])):
        cases += [(what, d, ar(K), signs, qs) for signs in (ONES, (-1, 1, 1)) for qs in MIXED]
    for what in sorted({x[0] for x in cases}):
        with ctx.ob('principal-frame-diagonalises', lambda: ctx.at(MM, 'principalframe'), what) as o:
            for _, D, K, signs, qs in [x for x in cases if x[0] == what]:
                E = ar([[num(signs[i]) if i == j else S0 for j in range(3)] for i in range(3)])
                V = mul(quat_rot('q'), E)
                S = mul(V, mul(D, tr(V)))
                B = mul(V, K)
                Q = ar([[num(qs[i]) if i == j else S0 for j in range(3)] for i in range(3)])
                r = ctx.run()
                r.schema.linalg['eigvals'] = positive
                ev = Ar(np.array([D.c[i, i] for i in range(3)], dtype=object))
                r.schema.linalg['eig'] = lambda x: (ev, B) if nf_equal(x, S) else None
                r.schema.linalg['eigh'] = lambda x: (ev, V) if nf_equal(x, S) else None
                r.schema.linalg['qr'] = lambda x: (mul(V, Q), mul(Q, K)) if nf_equal(x, B) else \
                    (mul(V, Q), Q) if nf_equal(x, V) else None
                M = mass_about(c, S, m)
                got = r.content(r.call(r.fn(MM, 'principalframe'), r.nd(M)))
                o.no_raise(r, allowed=('AssertionError',))
                if not o.shape(got, (4, 4)):
                    continue
                pc = r.st.pc
                o.eq(lift(p_of, got), c, pc, what='origin (centre of mass)')
                o.eq(lift(lambda h: Ar(A_(h).c[3, :]), got), ar([S0, S0, S0, S1]), pc, 'last row')
                R = lift(r_of, got)
                o.eq(lift(lambda x: mul(tr(x), x), R), ar_eye(3), pc, what="R'R")
                o.eq(lift(det3, R), S1, pc, what='det R')
                o.eq(lift(lambda x: offdiag(mul(tr(x), mul(S, x))), R), ar_zeros((6,)), pc,
                     what="off-diagonal entries of the inertia in the principal frame")


def offdiag(m):
    return ar([m.c[i, j] for i in range(3) for j in range(3) if i != j])


def put(M, i, j, x):
    o = M.c.copy()
    o[i, j] = x
    return Ar(o)


def spd(n):
    """a symmetric matrix"""
    s = {}
    return ar([[sym('%s%d%d' % ((n,) + tuple(sorted((i, j))))) for j in range(3)] for i in range(3)])


def positive(I, st, c):
    """spectrum of a positive definite matrix"""
    return I.wrap(st, ar([sym('eigenvalue%d' % i, pos=True) for i in range(6)]))
