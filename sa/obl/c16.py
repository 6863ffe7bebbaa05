"""Collision geometry.  Each pair of shapes is given to choose_solver and the
solver it returns is analysed on shapes of any size, in any pose: the signed
distance must be the one between the two surfaces, the two contact frames must
have the same right-handed orientation with the surface normal along z, from the
first shape to the second, the first origin must lie on the first surface and
the second one must be at the signed distance from it along the normal."""
import itertools

from obl.world import *

SPEC = '''
from arboris.collisions import choose_solver

def detect(s0, s1):
    shapes, solver = choose_solver(s0, s1)
    return shapes[0] is s1, solver(shapes)

def choose(s0, s1):
    shapes, solver = choose_solver(s0, s1)
    return lambda: solver(shapes)

def resize(s, sizes, inside):
    for k in ('radius', 'half_extents', 'coeffs'):
        if hasattr(s, k):
            if inside and k != 'radius':
                v = getattr(s, k)
                v[:] = sizes
            else:
                setattr(s, k, sizes)
'''


def norm3(v):
    return alg.sqrt(v.c[0] * v.c[0] + v.c[1] * v.c[1] + v.c[2] * v.c[2])


def det3(m):
    c = m.c
    return (c[0, 0] * (c[1, 1] * c[2, 2] - c[1, 2] * c[2, 1])
            - c[0, 1] * (c[1, 0] * c[2, 2] - c[1, 2] * c[2, 0])
            + c[0, 2] * (c[1, 0] * c[2, 1] - c[1, 1] * c[2, 0]))


def stage(ctx, poses, modular=False):
    """two frames somewhere on two bodies; at may be changed later"""
    S = Schema(ctx.prog)
    at, fs = {}, []
    get = lambda n: C(lambda I, st, o: I.new_nd(st, at[n, o.key]))
    S.add('Frame', pose=get('pose'), bpose=get('bpose'), body=C(lambda I, st, o: at['body', o.key]))
    S.add('Body', pose=get('pose'))
    for k, H in enumerate(poses):
        # on a body somewhere
        f, b = S.obj('f%d' % k, 'Frame'), S.obj('b%d' % k, 'Body')
        at['body', f.key] = b
        put(at, f, H, 'bpose%d' % k)
        fs.append(f)
    r = ctx.run(S)
    r.source('spec16', SPEC)
    if modular:
        r.I.contracts[HG + '.zaligned'] = zal_contract
    return r, at, fs


def put(at, f, H, n):
    B = euler_h(n)
    at['pose', f.key], at['bpose', f.key] = H, B
    Rb = mul(r_of(H), tr(r_of(B)))
    at['pose', at['body', f.key].key] = h_of(Rb, add(p_of(H), scale(num(-1), mul(Rb, p_of(B)))))


def detect(ctx, mk, poses, modular=False):
    """the solver chosen for the shapes made by mk, and its answer"""
    r, at, fs = stage(ctx, poses, modular)
    return r, r.call(r.fn('spec16', 'detect'), *mk(r, fs))


def _zal(m, a):
    """one right-handed orthonormal frame, for numeric models only"""
    n = np.array([float(m.value(x)) for x in a.args[:3]])
    u = np.zeros(3)
    u[np.argmin(abs(n))] = 1
    x = np.cross(u, n)
    x /= np.linalg.norm(x)
    return float((x, np.cross(n, x))[a.args[3]][a.args[4]])


def zal(n):
    """the frame zaligned returns, whose z axis is n, as C01 decides"""
    col = lambda j: [sx_atom(atom('zal', *n.c, j, i, interp=_zal)) for i in range(3)]
    return ar([list(r) for r in zip(col(0), col(1), n.c)])


def zal_contract(I, st, args, kw):
    f = lambda v: h_of(zal(A_(v)), ar([S0] * 3))
    v = args[0] if args else list(kw.values())[0]
    return I.new_nd(st, I.glift(st, f, I.content(st, v)))


def laws(o, r, got, swapped, sdist, n, p, modular=False):
    """p: contact point of the first surface, n: its normal there"""
    o.no_raise(r)
    pc = r.st.pc
    sw, got = r.items(got)
    o.eq(sw, swapped, pc, what='order of the shapes')
    d, H0, H1 = [r.content(x) for x in r.items(got)]
    o.eq(d, sdist, pc, what='signed distance')
    o.eq(lift(lambda m: Ar(m.c[:, 2]), H0), lift(lambda n: ar([*n.c, S0]), n), pc, 'normal')
    R = lift(r_of, H0)
    if modular and alg.compare(R, lift(zal, n), pc)[0] == Verdict.EQ:
        o.fact()
    else:
        o.eq(lift(lambda m: mul(tr(m), m), R), ar_eye(3), pc, "R'R")
        o.eq(lift(det3, R), S1, pc, 'det R')
    o.eq(lift(lambda m: Ar(m.c[:, 3]), H0), lift(lambda p: ar([*p.c, S1]), p), pc,
         'point of the first surface')
    o.eq(lift(lambda m: Ar(m.c[3, :]), H0), ar([S0, S0, S0, S1]), pc, 'last row')
    o.eq(H1, lift(lambda R, p, d, n: h_of(R, add(p, scale(d, n))), R, p, sdist, n), pc,
         'second contact frame')
    o.asserts(r, pc, what='contact detection')


def spheres(ctx, swap, point):
    p, v = vec('p', 3), vec('v', 3)
    r0, r1 = sym('r0', pos=True), S0 if point else sym('r1', pos=True)

    def mk(r, fs):
        a = r.new('Sphere', fs[0], r0)
        b = r.new('Point', fs[1]) if point else r.new('Sphere', fs[1], r1)
        return (b, a) if swap else (a, b)
    n = scale(S1 / norm3(v), v)
    r, got = detect(ctx, mk, (h_of(euler_rot('q'), p), h_of(euler_rot('s'), add(p, v))))
    d = norm3(v) - r0 - r1
    if swap and not point:
        # spheres keep their order
        return r, got, d, scale(num(-1), n), add(p, v, scale(-r1, n))
    return r, got, d, n, add(p, scale(r0, n))


def plane(ctx, swap, point):
    """the plane normal is given in the ground frame, then moved to the frame
    of the plane: every plane in every pose is covered"""
    H, y = euler_h('q'), vec('y', 3)
    rad = S0 if point else sym('r1', pos=True)
    m, off = vec('m', 3), sym('off')
    R, p0 = r_of(H), p_of(H)
    c = ar([*mul(tr(R), m).c, off])

    def mk(r, fs):
        a = r.new('Plane', fs[0], r.nd(c))
        b = r.new('Point', fs[1]) if point else r.new('Sphere', fs[1], rad)
        return (b, a) if swap else (a, b)
    k = norm3(m)
    n = scale(S1 / k, m)
    h = (m.c.dot(y.c) - off) / k
    p1 = add(p0, y)
    r, got = detect(ctx, mk, (H, h_of(euler_rot('s'), p1)))
    return r, got, h - rad, n, add(p1, scale(-h, n))


def regions():
    """every place of a point around a box, except the points at the same
    distance of two faces: the half extents and the coordinates of the point as
    polynomials in positive symbols, the distance, normal and nearest point in
    the frame of the box"""
    pos = lambda n, k: [sym('%s%d' % (n, i), pos=True) for i in range(k)]
    half = num(Fraction(1, 2))
    for side, k, on in itertools.product((1, -1), range(3), (False, True)):
        # the face k is at e, the others at e and more
        e, a, b = S0 if on else sym('e', pos=True), pos('a', 3), pos('b', 3)
        b[k] = S0
        h = [e + (a[i] + b[i]) * half for i in range(3)]
        x = [(a[i] - b[i]) * half for i in range(3)]
        n = [S0, S0, S0]
        x[k], n[k] = num(side) * x[k], num(side)
        f = list(x)
        f[k] = num(side) * h[k]
        yield '%s %+d%s' % ('on' if on else 'inside', side, 'xyz'[k]), h, x, f, n, -e
    for where in itertools.product((0, 1, -1), repeat=3):
        if any(where):
            a, b = pos('a', 3), pos('b', 3)
            h = [a[i] if w else a[i] + b[i] for i, w in enumerate(where)]
            x = [num(w) * (a[i] + b[i]) if w else a[i] - b[i] for i, w in enumerate(where)]
            f = [num(w) * a[i] if w else x[i] for i, w in enumerate(where)]
            v = [num(w) * b[i] if w else S0 for i, w in enumerate(where)]
            d = norm3(ar(v))
            yield 'outside %+d%+d%+d' % where, h, x, f, [c / d for c in v], d


def box(ctx, swap, point, h, x, f, n, d):
    H = euler_h('q')
    rad = S0 if point else sym('r1', pos=True)
    R, p0 = r_of(H), p_of(H)

    def mk(r, fs):
        a = r.new('Box', fs[0], r.nd(ar(h)))
        b = r.new('Point', fs[1]) if point else r.new('Sphere', fs[1], rad)
        return (b, a) if swap else (a, b)
    p1 = add(p0, mul(R, ar(x)))
    r, got = detect(ctx, mk, (H, h_of(euler_rot('s'), p1)), True)
    return r, got, d - rad, mul(R, ar(n)), add(p0, mul(R, ar(f)))


def sizes(kind, n):
    if kind == 'Point':
        return None
    if kind == 'Sphere':
        return sym('r' + n, pos=True)
    if kind == 'Box':
        return ar([num(Fraction(v)) for v in (('1', '2', '3') if n[0] == '0' else ('5', '4', '1/2'))])
    return ar([*unit('n' + n).c, sym('off' + n)])


def unit(n):
    return ar([alg.cos(sym(n + 'a')), alg.sin(sym(n + 'a')), S0])


def made(r, kind, f, size):
    if size is None:
        return r.new(kind, f)
    return r.new(kind, f, size if isinstance(size, Sx) else r.nd(size))


def follows(ctx, o, k0, k1, inside, where=None):
    """shapes moved and resized after a first answer: the next one, of the same
    solver or of another, is that of shapes made so; the first one stays"""
    def pose(n):
        H, K = euler_h('f' + n), euler_h('g' + n)
        if k0 == 'Box':
            # somewhere around it, or in it
            x = [num(Fraction(v)) for v in {'0': ('7', '1/3', '-5'), '1': where}[n]]
            K = h_of(r_of(K), add(p_of(H), mul(r_of(H), ar(x))))
        return H, K
    r, at, fs = stage(ctx, pose('0'), True)
    s = [made(r, k, f, sizes(k, '0%d' % i)) for i, (k, f) in enumerate(zip((k0, k1), fs))]
    solver = r.call(r.fn('spec16', 'choose'), *s)
    answer = lambda v, r=r: [r.content(x) for x in r.items(v)]
    kept = r.call(solver)
    first = answer(kept)
    for i, (f, H) in enumerate(zip(fs, pose('1'))):
        put(at, f, H, 'moved%d' % i)
    for i, (x, k) in enumerate(zip(s, (k0, k1))):
        z = sizes(k, '1%d' % i)
        if z is not None:
            r.call(r.fn('spec16', 'resize'), x, z if isinstance(z, Sx) else r.nd(z), inside)
    got = [answer(r.call(solver)), answer(r.call(r.call(r.fn('spec16', 'choose'), *s)))]
    o.no_raise(r)
    r2, at2, fs2 = stage(ctx, pose('1'), True)
    for i, (f, H) in enumerate(zip(fs2, pose('1'))):
        put(at2, f, H, 'moved%d' % i)
    t = [made(r2, k, f, sizes(k, '1%d' % i)) for i, (k, f) in enumerate(zip((k0, k1), fs2))]
    want = answer(r2.call(r2.call(r2.fn('spec16', 'choose'), *t)), r2)
    for which, a in zip(('the same solver', 'another solver'), got):
        for n, x, y in zip(('distance', 'first frame', 'second frame'), a, want):
            o.eq(x, y, what='%s given by %s after the shapes changed' % (n, which))
    for n, x, y in zip(('distance', 'first frame', 'second frame'), answer(kept), first):
        o.eq(x, y, what='%s given before the shapes changed' % n)


def run(ctx):
    at = lambda: ctx.at('arboris.collisions', 'choose_solver')
    for k0, k1 in (('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Plane', 'Sphere'), ('Plane', 'Point'),
                   ('Box', 'Sphere'), ('Box', 'Point')):
        for inside in ((False, True) if k0 != 'Sphere' else (False,)):
            with ctx.ob('solver-follows-the-shapes', at, '%s %s%s' % (k0, k1, ' in place' if inside else '')) as o:
                if k0 == 'Box':
                    for where in (('6', '9/2', '0'), ('-1', '5', '1/4'), ('1', '-2', '1/3')):
                        follows(ctx, o, k0, k1, inside, where)
                else:
                    follows(ctx, o, k0, k1, inside)
    at = lambda: ctx.at('arboris.collisions', 'choose_solver')
    for f in (spheres, plane):
        for point in (False, True):
            for swap in (False, True):
                nm = '%s %s%s' % (f.__name__, 'point' if point else 'sphere', ' swapped' if swap else '')
                with ctx.ob('contact-geometry', at, nm) as o:
                    r, got, d, n, p = f(ctx, swap, point)
                    laws(o, r, got, swap and not (f is spheres and not point), d, n, p)
    for k, (nm, *where) in enumerate(regions()):
        for point in (False, True):
            for swap in ((False, True) if k % 6 == 0 else (k % 2 == 0,)):
                with ctx.ob('contact-geometry', at, 'box %s %s%s' % (
                        'point' if point else 'sphere', nm, ' swapped' if swap else '')) as o:
                    r, got, d, n, p = box(ctx, swap, point, *where)
                    laws(o, r, got, swap, d, n, p, True)
