"""Elementary displacement constructors: each public constructor is analysed
on symbolic arguments and its return term is compared, entry by entry, with the
rotation (Rodrigues), translation or product of rotations that its name denotes;
zaligned must give a right-handed orthonormal frame whose z axis is its argument
under every ordering of the components."""
from fractions import Fraction
from obl.common import *
from obl.pure import independent

NAMES = {'rotx': (0,), 'roty': (1,), 'rotz': (2,), 'rotzy': (2, 1), 'rotzx': (2, 0),
         'rotyx': (1, 0), 'rotzyx': (2, 1, 0)}


def ref_rot(axes, angles):
    R = ar_eye(3)
    for k, a in zip(axes, angles):
        R = mul(R, rodrigues(axis(k), a))
    return h_of(R, ar([S0, S0, S0]))


def pure_ones(ctx):
    for n, axes in sorted(NAMES.items()):
        k = range(len(axes))
        independent(ctx, HG, n, [[sym('a%d' % i) for i in k], [sym('b%d' % i) for i in k]])
        independent(ctx, HG, n, [[num(i + 1) for i in k], [num(i + 3) for i in k]], 'numbers')
    independent(ctx, HG, 'transl', [list(vec(n, 3).c) for n in 'st'])
    independent(ctx, HG, 'transl', [[num(i + k) for i in range(3)] for k in (0, 2)], 'numbers')
    independent(ctx, HG, 'zaligned', [[axis(k)] for k in (0, 2)])
    independent(ctx, HG, 'ishomogeneousmatrix', [[h_of(ar_eye(3), vec('t', 3))], [h_of(scale(num(2), ar_eye(3)), vec('t', 3))]])


def run(ctx):
    pure_ones(ctx)
    for n, axes in sorted(NAMES.items()):
        with ctx.ob('constructor-matches-rotation', lambda: ctx.at(HG, n)) as o:
            r = ctx.run()
            ang = [sym('angle%d' % i) for i in range(len(axes))]
            got = r.content(r.call(r.fn(HG, n), *ang))
            o.no_raise(r)
            if o.shape(got, (4, 4)):
                o.eq(got, ref_rot(axes, ang), what='matrix returned by ' + n)
    with ctx.ob('constructor-matches-translation', lambda: ctx.at(HG, 'transl')) as o:
        r = ctx.run()
        t = vec('t', 3)
        got = r.content(r.call(r.fn(HG, 'transl'), *list(t.c)))
        o.no_raise(r)
        if o.shape(got, (4, 4)):
            o.eq(got, h_of(ar_eye(3), t), what='matrix returned by transl')
    with ctx.ob('constructor-matches-rotation', lambda: ctx.at(HG, 'zaligned')) as o:
        v = vec('n', 3)
        nrm = alg.sqrt(v.c[0] * v.c[0] + v.c[1] * v.c[1] + v.c[2] * v.c[2])
        u = ar([x / nrm for x in v.c])
        r = ctx.run()
        got = r.content(r.call(r.fn(HG, 'zaligned'), r.nd(u)))
        o.no_raise(r, allowed=('AssertionError',))
        if o.shape(got, (4, 4)):
            pc = r.st.pc
            o.eq(lift(lambda m: Ar(m.c[:, 2]), got), ar([*u.c, S0]), pc, 'z axis of the frame')
            o.eq(lift(lambda m: Ar(m.c[:, 3]), got), ar([S0, S0, S0, S1]), pc, 'origin')
            o.eq(lift(lambda m: Ar(m.c[3, :]), got), ar([S0, S0, S0, S1]), pc, 'last row')
            R = lift(r_of, got)
            o.eq(lift(lambda m: mul(tr(m), m), R), ar_eye(3), pc, "R'R")
            o.eq(lift(lambda m: det3(m), R), S1, pc, 'det R')
        o.asserts(r, what='zaligned of a unit vector')
    with ctx.ob('same-for-integers', lambda: ctx.at(HG, 'zaligned')) as o:
        for k in range(3):
            for s in (1, -1):
                u = scale(num(s), axis(k))
                r = ctx.run()
                a = r.content(r.call(r.fn(HG, 'zaligned'), r.nd(u)))
                r = ctx.run()
                b = r.content(r.call(r.fn(HG, 'zaligned'), r.nd(u, 'i')))
                o.no_raise(r)
                o.eq(b, a, what='zaligned of an array of integers')
    with ctx.ob('predicate-accepts-displacements', lambda: ctx.at(HG, 'ishomogeneousmatrix')) as o:
        r = ctx.run()
        H = quat_h('q')
        o.eq(r.call(r.fn(HG, 'ishomogeneousmatrix'), r.nd(H)), True, what='ishomogeneousmatrix(H)')
        o.no_raise(r)
    with ctx.ob('predicate-accepts-displacements', lambda: ctx.at(HG, 'ishomogeneousmatrix'),
                'rounded') as o:
        # entries as floating-point arithmetic leaves them: the determinant is not exactly 1
        r = ctx.run()
        o.eq(r.call(r.fn(HG, 'ishomogeneousmatrix'), r.nd(scale_block(H, ROUNDED))), True,
             what='ishomogeneousmatrix(H) for a rotation rounded by one part in 2**52')
        o.no_raise(r)
    for i, (bad, what) in enumerate([
            (scale_block(H, 2), 'a matrix whose linear part has determinant 8'),
            (with_row(H, [S1, S0, S0, S1]), 'a matrix with a non-zero last row'),
            (with_row(H, [S0, S0, S0, num(2)]), 'a matrix whose corner is 2'),
            (mirror(H), 'a reflection'), (r_of(H), 'a (3,3)-array'), (p_of(H), 'a vector')]):
        with ctx.ob('predicate-rejects-others', lambda: ctx.at(HG, 'ishomogeneousmatrix'), what) as o:
            r = ctx.run()
            o.eq(r.call(r.fn(HG, 'ishomogeneousmatrix'), r.nd(bad)), False,
                 what='ishomogeneousmatrix of ' + what)
            o.no_raise(r)


def det3(m):
    c = m.c
    return (c[0, 0] * (c[1, 1] * c[2, 2] - c[1, 2] * c[2, 1])
            - c[0, 1] * (c[1, 0] * c[2, 2] - c[1, 2] * c[2, 0])
            + c[0, 2] * (c[1, 0] * c[2, 1] - c[1, 1] * c[2, 0]))


ROUNDED = Fraction(2 ** 52 + 1, 2 ** 52)


def scale_block(H, k):
    o = H.c.copy()
    for i in range(3):
        for j in range(3):
            o[i, j] = o[i, j] * num(k)
    return Ar(o)


def with_row(H, row):
    o = H.c.copy()
    for j in range(4):
        o[3, j] = row[j]
    return Ar(o)


def mirror(H):
    o = H.c.copy()
    for i in range(3):
        o[i, 0] = -o[i, 0]
    return Ar(o)
