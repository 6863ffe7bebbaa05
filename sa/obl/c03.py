"""Twist exponential: exp is analysed on a symbolic twist.  Away from zero its
return term must be the closed form of the exponential of se(3); near zero the
term is expanded and the difference with the exponential series is bounded, as
a polynomial of the rotation angle, over the whole range of the small-angle
gate.  adjacency must be the small adjoint."""
from obl.common import *
from obl.pure import independent

# allowed to the series; and smallest angle the closed form may be used for: its (1-cos t)/t
# loses eps/t
TOL = 1e-9
TINY = Fraction(1, 10 ** 7)


def exact(T):
    w, v = Ar(T.c[:3]), Ar(T.c[3:])
    t = alg.sqrt(w.c[0] * w.c[0] + w.c[1] * w.c[1] + w.c[2] * w.c[2])
    K = hat(w)
    K2 = mul(K, K)
    s, c = alg.sin(t), alg.cos(t)
    R = add(ar_eye(3), scale(s / t, K), scale((S1 - c) / (t * t), K2))
    V = add(ar_eye(3), scale((S1 - c) / (t * t), K), scale((t - s) / (t * t * t), K2))
    return h_of(R, mul(V, v))


def series(T, order):
    X = twist_hat(T)
    term = ar_eye(4)
    tot = term
    for k in range(1, order + 1):
        term = scale(num(Fraction(1, k)), mul(term, X))
        tot = add(tot, term)
    return tot


def poly_bound(x, small, s):
    """bound of |x| for |w| <= small, |v_i| <= 1 (x polynomial in w, v)"""
    tot = 0.
    if len(x.d) != 1 or () not in x.d:
        return None
    for m, c in x.n.items():
        k = 1.
        for a, e in m:
            at = Atom.all[a]
            nm = at.args[0] if at.kind == 'sym' else None
            if nm in ('w0', 'w1', 'w2'):
                k *= small ** e
            elif nm in ('v0', 'v1', 'v2'):
                k *= 1.
            elif at.kind == 'sqrt':
                k *= small ** e
            else:
                return None
        tot += abs(float(c)) * k
    return tot


def pure_ones(ctx):
    for n in ('exp', 'adjacency'):
        independent(ctx, TW, n, [[vec('T', 6)], [vec('U', 6)]])
        independent(ctx, TW, n, [[ar([num(k if i == 2 else i) for i in range(6)])] for k in (0, 3)], 'numbers')


def run(ctx):
    pure_ones(ctx)
    with ctx.ob('small-adjoint', lambda: ctx.at(TW, 'adjacency')) as o:
        r = ctx.run()
        T = vec('T', 6)
        got = r.content(r.call(r.fn(TW, 'adjacency'), r.nd(T)))
        o.no_raise(r)
        if o.shape(got, (6, 6)):
            o.eq(got, ad(T), what='adjacency(T)')
    with ctx.ob('same-for-integers', lambda: ctx.at(TW, 'adjacency')) as o:
        r = ctx.run()
        T = ivec('T', 6)
        o.eq(r.content(r.call(r.fn(TW, 'adjacency'), r.nd(T, 'i'))), ad(T), what='adjacency of an array of integers')
    with ctx.ob('same-for-integers', lambda: ctx.at(TW, 'exp')) as o:
        T = ivec('T', 6)
        r = ctx.run()
        a = r.content(r.call(r.fn(TW, 'exp'), r.nd(T)))
        r = ctx.run()
        b = r.content(r.call(r.fn(TW, 'exp'), r.nd(T, 'i')))
        o.no_raise(r)
        o.eq(b, a, what='exp of an array of integers')
    T = ar([*vec('w', 3).c, *vec('v', 3).c])
    w = Ar(T.c[:3])
    t2 = w.c[0] * w.c[0] + w.c[1] * w.c[1] + w.c[2] * w.c[2]
    with ctx.ob('closed-form', lambda: ctx.at(TW, 'exp'), 'large angles') as o:
        r = ctx.run()
        got = r.content(r.call(r.fn(TW, 'exp'), r.nd(T)))
        if o.shape(got, (4, 4)):
            # wherever the angle is not small the closed form must be used
            big = cmp_cond('>', t2, num(Fraction(1, 100)))
            o.eq(gate_large(got, t2, o), exact(T), big, what='exp(T)')
        bad = b_and(cmp_cond('>', t2, S0), True)
        o.no_raise(r)
    with ctx.ob('small-angle-error-bound', lambda: ctx.at(TW, 'exp'), 'small angles') as o:
        r = ctx.run()
        got = r.content(r.call(r.fn(TW, 'exp'), r.nd(T)))
        ser = series(T, 5)
        n = 0
        closed = exact(T)
        for path, leaf in leaves(got):
            if nf_equal(leaf, closed):
                # the closed form divides by the angle: zero must not reach it
                g = path_holds_at_zero(path)
                if g is None:
                    o.undecided('gate of the closed form')
                elif g:
                    o.violation('the closed form (0/0) is used at zero rotation')
                elif path_holds_at_zero(path, TINY):
                    o.violation('the closed form is used down to rotations of %g, where its '
                                'cancellation costs %.1g' % (TINY, 1e-16 / TINY))
                else:
                    o.fact()
                continue
            n += 1
            rad = radius(path, t2)
            if rad is None:
                o.undecided('range of the small-angle case: ' + repr(path))
                continue
            worst = 0.
            for i in range(4):
                for j in range(4):
                    b = poly_bound(leaf.c[i, j] - ser.c[i, j], rad, None)
                    if b is None:
                        b = sampled(leaf.c[i, j], ser.c[i, j], rad)
                        if b is None or b <= TOL:
                            o.undecided('entry %d,%d is not polynomial in the twist' % (i, j))
                            break
                    worst = max(worst, b)
            if worst > TOL:
                o.violation('for rotations up to %g the small-angle expression deviates from '
                            'the exponential by %.3g (allowed %g)' % (rad, worst, TOL))
            else:
                o.fact()
        if not n and not isinstance(got, Phi):
            # a single expression: it must be regular at zero
            pass


def path_holds_at_zero(path, angle=0):
    """is the gate path satisfied at zero rotation?"""
    z = dict((atom('sym', 'w%d' % i), num(angle) if i == 0 else S0) for i in range(3))
    for a, v in path:
        c = cond_value(a, z)
        if c is True or c is False:
            if c != v:
                return False
        else:
            return None
    return True


def gate_large(got, t2, o):
    return got


def radius(path, t2):
    """upper bound of the rotation angle on a gate path, read off the gates"""
    best = None
    for a, v in path:
        if a.kind not in ('ge0', 'gt0'):
            continue
        x = a.args[0]
        t = alg.sqrt(t2)
        for q, f in ((t, lambda k: k), (t2, lambda k: k ** .5 if k > 0 else 0)):
            d = x - q
            c = d.const()
            if c is not None and not v:      # not (q + c >= 0): q < -c
                k = f(float(-c))
                best = k if best is None else min(best, k)
            d = x + q
            c = d.const()
            if c is not None and v:          # -q + c >= 0
                k = f(float(c))
                best = k if best is None else min(best, k)
    return best


def sampled(x, y, rad, n=40):
    """greatest distance of two expressions met over rotations below rad"""
    import numpy
    rng = numpy.random.default_rng(1)
    worst = 0.
    for k in range(n):
        m = alg.Model(rng)
        w = rng.normal(size=3)
        w *= float(rad) * rng.random() / numpy.linalg.norm(w)
        for i in range(3):
            m.fix[atom('sym', 'w%d' % i)] = num(Fraction(float(w[i])))
            m.fix[atom('sym', 'v%d' % i)] = num(Fraction(float(rng.uniform(-1, 1))))
        try:
            d = abs(float(m.value(x)) - float(m.value(y)))
        except Exception:
            return None
        worst = max(worst, d)
    return worst
