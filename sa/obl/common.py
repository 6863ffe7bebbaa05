"""shared reference mathematics (independent of the analysed code)"""
from drive import *
import alg

HG = 'arboris.homogeneousmatrix'
TW = 'arboris.twistvector'
MM = 'arboris.massmatrix'
AM = 'arboris.adjointmatrix'


def A_(x):
    return x if isinstance(x, Ar) else cells(x)


def quat_rot(name):
    """every rotation matrix, rationally: the conjugation by a quaternion"""
    w, x, y, z = [sym('%s_%s' % (name, k)) for k in 'wxyz']
    n = w * w + x * x + y * y + z * z
    two = num(2)
    return ar([[S1 - two * (y * y + z * z) / n, two * (x * y - z * w) / n, two * (x * z + y * w) / n],
               [two * (x * y + z * w) / n, S1 - two * (x * x + z * z) / n, two * (y * z - x * w) / n],
               [two * (x * z - y * w) / n, two * (y * z + x * w) / n, S1 - two * (x * x + y * y) / n]])


def euler_rot(name):
    """every rotation matrix, as three elementary rotations: polynomials in
    sines and cosines"""
    a = [sym('%s_%s' % (name, k)) for k in 'zyx']
    return mul(*[rodrigues(axis(2 - i), a[i]) for i in range(3)])


def euler_h(name):
    return h_of(euler_rot(name), vec(name + '_p', 3))


def quat_h(name):
    return h_of(quat_rot(name), vec(name + '_p', 3))


def h_of(R, p):
    o = np.empty((4, 4), dtype=object)
    o[:, :] = S0
    o[:3, :3] = R.c
    o[:3, 3] = p.c
    o[3, 3] = S1
    return Ar(o)


def r_of(H):
    return Ar(A_(H).c[:3, :3])


def p_of(H):
    return Ar(A_(H).c[:3, 3])


def mul(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = ar_dot(r, m)
    return r


def add(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = ar_bin(lambda a, b: a + b, r, m)
    return r


def scale(s, m):
    return ar_map(lambda x: x * s, m)


def tr(m):
    return Ar(m.c.T)


def hat(w):
    return skew(w.c)


def rodrigues(u, a):
    """rotation of the angle a about the unit vector u"""
    K = hat(u)
    return add(ar_eye(3), scale(alg.sin(a), K), scale(S1 - alg.cos(a), mul(K, K)))


def axis(k):
    return ar([S1 if i == k else S0 for i in range(3)])


def adj(H):
    R, p = r_of(H), p_of(H)
    o = np.empty((6, 6), dtype=object)
    o[:, :] = S0
    o[:3, :3] = R.c
    o[3:, 3:] = R.c
    o[3:, :3] = mul(hat(p), R).c
    return Ar(o)


def ad(T):
    """adjacency (small adjoint) of a twist (w, v)"""
    w, v = Ar(T.c[:3]), Ar(T.c[3:])
    o = np.empty((6, 6), dtype=object)
    o[:, :] = S0
    o[:3, :3] = hat(w).c
    o[3:, 3:] = hat(w).c
    o[3:, :3] = hat(v).c
    return Ar(o)


def hinv(H):
    R, p = r_of(H), p_of(H)
    return h_of(tr(R), scale(num(-1), mul(tr(R), p)))


def twist_hat(T):
    """4x4 matrix of a twist"""
    o = np.empty((4, 4), dtype=object)
    o[:, :] = S0
    o[:3, :3] = hat(Ar(T.c[:3])).c
    o[:3, 3] = T.c[3:]
    return Ar(o)


def body_twist(H, dH):
    """(w, v) of the child in its own frame: H^-1 dH, and the part of the
    product that must vanish for dH to be a displacement's derivative"""
    W = mul(hinv(H), dH)
    c = W.c
    return ar([c[2, 1], c[0, 2], c[1, 0], c[0, 3], c[1, 3], c[2, 3]]), Ar(c)


def diff(m, var):
    return ar_map(lambda x: derive(x, var), m)


def dtime(m, pos, vel):
    """time derivative of an expression of the coordinates"""
    r = None
    for x, v in zip(pos, vel):
        t = ar_map(lambda c: derive(c, alg._single(x)) * v, m)
        r = t if r is None else add(r, t)
    return r if r is not None else ar_map(lambda c: S0, m)


# rotations that keep integers
WHOLE = tuple(ar([[num(x) for x in row] for row in m]) for m in (
    ((0, -1, 0), (1, 0, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0), (0, 1, 0)), ((-1, 0, 0), (0, 0, 1), (0, 1, 0))))


def ivec(name, n):
    """a vector of integers"""
    return ar([sym('%s%d' % (name, i), int=True) for i in range(n)])
