"""Displacement algebra: every function on displacements is analysed on the
rational (quaternion) parametrisation of all displacements, and its return term
is compared with the group-theoretic definition: H inv(H) = I, Ad = [[R,0],
[pR,R]], Ad^-1 by composition, point and vector action, dAd/dt = Ad ad(T), and
rotzyx(rotzyx_angles(H)) = H in the regular and in the singular case."""
from obl.common import *
from obl.c01 import ref_rot, scale_block, ROUNDED
from obl.pure import independent

ASSUMPTIONS = ['rotzyx_angles: the regular case excludes the measure-zero inputs where both '
               'arguments of an arctan2 vanish']


def hnd(r, name='q'):
    H = quat_h(name)
    return H, r.nd(H)


def pure_ones(ctx):
    H = [quat_h('q'), quat_h('s')]
    whole = [h_of(R, vec('p%d' % i, 3)) for i, R in enumerate(WHOLE[:2])]
    for n in ('inv', 'adjoint', 'iadjoint', 'rotzyx_angles'):
        if n != 'rotzyx_angles':
            independent(ctx, HG, n, [[h] for h in H])
        independent(ctx, HG, n, [[h] for h in whole], 'whole')
    for n in ('pdot', 'vdot'):
        independent(ctx, HG, n, [[h, vec('x%d' % i, 3)] for i, h in enumerate(H)])
    independent(ctx, HG, 'dAdjoint', [[adj(h), vec('T%d' % i, 6)] for i, h in enumerate(whole)])
    independent(ctx, AM, 'inv', [[adj(h)] for h in H])
    independent(ctx, AM, 'isadjointmatrix', [[adj(whole[0])], [scale(num(2), adj(whole[0]))]])


def run(ctx):
    pure_ones(ctx)
    def simple(fname, want, mod=HG, rule='group-definition', sh=(4, 4), nargs=0, check=None):
        with ctx.ob(rule, lambda: ctx.at(mod, fname)) as o:
            r = ctx.run()
            H, h = hnd(r)
            extra = [vec('x', nargs)] if nargs else []
            got = r.content(r.call(r.fn(mod, fname), h, *[r.nd(e) for e in extra]))
            o.no_raise(r)
            o.asserts(r)
            if o.shape(got, sh):
                if check:
                    check(o, H, got, *extra)
                else:
                    o.eq(got, want(H, *extra), what=fname + '(H)')
            o.eq(r.content(h), H, what='argument after the call')
        with ctx.ob('same-for-integers', lambda: ctx.at(mod, fname)) as o:
            for R in WHOLE:
                r = ctx.run()
                H = h_of(R, ivec('p', 3))
                extra = [ivec('x', nargs)] if nargs else []
                got = r.content(r.call(r.fn(mod, fname), r.nd(H, 'i'), *[r.nd(e, 'i') for e in extra]))
                o.no_raise(r)
                if o.shape(got, sh):
                    if check:
                        check(o, H, got, *extra)
                    else:
                        o.eq(got, want(H, *extra), what=fname + ' of an array of integers')

    def inv_ok(o, H, got):
        o.eq(mul(A_(got), H), ar_eye(4), what='inv(H) H')
        o.eq(mul(H, A_(got)), ar_eye(4), what='H inv(H)')
    simple('inv', None, check=inv_ok)
    simple('adjoint', adj, sh=(6, 6))
    simple('iadjoint', lambda H: adj(hinv(H)), sh=(6, 6))
    simple('pdot', lambda H, x: add(mul(r_of(H), x), p_of(H)), sh=(3,), nargs=3)
    simple('vdot', lambda H, x: mul(r_of(H), x), sh=(3,), nargs=3)

    with ctx.ob('group-definition', lambda: ctx.at(AM, 'inv')) as o:
        r = ctx.run()
        Ad = adj(quat_h('q'))
        got = r.content(r.call(r.fn(AM, 'inv'), r.nd(Ad)))
        o.no_raise(r)
        if o.shape(got, (6, 6)):
            o.eq(mul(A_(got), Ad), ar_eye(6), what='inv(Ad) Ad')
            o.eq(mul(Ad, A_(got)), ar_eye(6), what='Ad inv(Ad)')
    with ctx.ob('predicate-accepts-adjoints', lambda: ctx.at(AM, 'isadjointmatrix')) as o:
        r = ctx.run()
        o.eq(r.call(r.fn(AM, 'isadjointmatrix'), r.nd(adj(quat_h('q')))), True,
             what='isadjointmatrix(Ad(H))')
        o.no_raise(r)
    with ctx.ob('predicate-accepts-adjoints', lambda: ctx.at(AM, 'isadjointmatrix'),
                'rounded') as o:
        # entries as floating-point arithmetic leaves them: the determinant is not exactly 1
        r = ctx.run()
        Ad = adj(scale_block(quat_h('q'), ROUNDED))
        o.eq(r.call(r.fn(AM, 'isadjointmatrix'), r.nd(Ad)), True,
             what='isadjointmatrix(Ad(H)) for a rotation rounded by one part in 2**52')
        o.no_raise(r)
    Ad = adj(quat_h('q'))
    for bad, what in ((put(Ad, 1, 4, S1), 'a matrix that maps velocities to rotations'),
                      (put(Ad, 3, 3, Ad.c[3, 3] + S1), 'a matrix that rotates in two ways'),
                      (scale(num(2), Ad), 'a matrix whose blocks have determinant 8'),
                      (scale(num(-1), Ad), 'a matrix of reflections'),
                      (quat_h('q'), 'a (4,4)-array')):
        with ctx.ob('predicate-rejects-others', lambda: ctx.at(AM, 'isadjointmatrix'), what) as o:
            r = ctx.run()
            o.eq(r.call(r.fn(AM, 'isadjointmatrix'), r.nd(bad)), False, what='isadjointmatrix of ' + what)
            o.no_raise(r)
    with ctx.ob('derivative-of-adjoint', lambda: ctx.at(HG, 'dAdjoint')) as o:
        r = ctx.run()
        Ad, T = mat('Ad', 6, 6), vec('T', 6)
        got = r.content(r.call(r.fn(HG, 'dAdjoint'), r.nd(Ad), r.nd(T)))
        o.no_raise(r)
        if o.shape(got, (6, 6)):
            o.eq(got, mul(Ad, ad(T)), what='dAdjoint(Ad, T)')
    angles(ctx)


def put(M, i, j, x):
    o = M.c.copy()
    o[i, j] = x
    return Ar(o)


def angles(ctx):
    z, y, x = sym('az'), sym('ay'), sym('ax')
    H = ref_rot((2, 1, 0), (z, y, x))

    def go(o, H, what):
        r = ctx.run()
        v = r.call(r.fn(HG, 'rotzyx_angles'), r.nd(H))
        o.no_raise(r)
        if not isinstance(v, tuple) and not isinstance(v, Phi):
            c = r.content(v)
            v = tuple(lift(lambda m, i=i: A_(m).c[i], c) for i in range(3))
        if not (isinstance(v, tuple) and len(v) == 3):
            o.undecided('result is not a triple')
            return
        back = lift(lambda a, b, c: ref_rot((2, 1, 0), (num(a), num(b), num(c))), *v)
        return r, v, back
    with ctx.ob('angles-round-trip', lambda: ctx.at(HG, 'rotzyx_angles'), 'regular') as o:
        r, v, back = go(o, H, 'regular')
        # away from the singularity
        a, b = [alg.absx(H.c[i, 0]) for i in (0, 1)]
        reg = b_or(cmp_cond('>', a, num(1e-6)), cmp_cond('>', b, num(1e-6)))
        o.eq(back, H, b_and(r.st.pc, reg), what='rotzyx(*rotzyx_angles(H))')
    for s in (1, -1):
        with ctx.ob('angles-round-trip', lambda: ctx.at(HG, 'rotzyx_angles'), 'singular %d' % s) as o:
            c = {atom('cos', y): S0, atom('sin', y): num(s)}
            Hs = ar_map(lambda t: S0, H)
            Hs = subst_trig(H, y, num(s))
            r, v, back = go(o, Hs, 'singular')
            o.eq(back, Hs, r.st.pc, what='rotzyx(*rotzyx_angles(H)) at ay = %d*pi/2' % s)


def subst_trig(H, y, s):
    """H with cos(y) = 0 and sin(y) = s"""
    cy, sy = alg._single(alg.cos(y)), alg._single(alg.sin(y))

    def sp(p):
        r = S0
        for m, c in p.items():
            t = num(c)
            for a, e in m:
                at = Atom.all[a]
                t = t * ((S0 if at is cy else s if at is sy else sx_atom(at)) ** e)
            r = r + t
        return r
    return ar_map(lambda x: sp(x.n) / sp(x.d), H)
