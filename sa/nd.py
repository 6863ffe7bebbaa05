"""Operations on array contents (Sx / Ar / Mx), phi-free."""
import numpy as np
from fractions import Fraction
from alg import *
import alg


class VSlice(object):
    """a slice value; bounds are None, int or Sx"""
    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step

    def samekey(self):
        return ('slice', kk(self.start), kk(self.stop), kk(self.step))

    def full(self):
        return self.start is None and self.stop is None and self.step is None

    def concrete(self):
        return all(x is None or isinstance(x, int)
                   for x in (self.start, self.stop, self.step))

    def py(self):
        return slice(self.start, self.stop, self.step)

    def __repr__(self):
        return 'slice(%r,%r)' % (self.start, self.stop)

    def __hash__(self):
        return hash(self.samekey())

    def __eq__(self, o):
        return isinstance(o, VSlice) and self.samekey() == o.samekey()

    def fe(self):
        return fe_of(self.start) | fe_of(self.stop)

    def subst(self, f):
        g = lambda x: f(x) if isinstance(x, (Sx, Phi)) else x
        return VSlice(g(self.start), g(self.stop), g(self.step))


def kk(x):
    if x is None or isinstance(x, (int, str)):
        return x
    return x.key


class SelKey(object):
    """rows start..stop of a vector of symbolic length"""
    def __init__(self, start, stop):
        self.start, self.stop = num(start), num(stop)
        self.length = simp_dim(self.stop - self.start)

    def __hash__(self):
        return hash((self.start.key, self.stop.key))

    def __eq__(self, o):
        return isinstance(o, SelKey) and self.start == o.start and self.stop == o.stop

    def __repr__(self):
        return '%r:%r' % (self.start, self.stop)

    def rows(self, model, n):
        a, b = int(round(model.sx(self.start))), int(round(model.sx(self.stop)))
        if a < 0 or b > n or b < a:
            raise NoModel('slice out of range')
        return list(range(a, b))

    def fe(self):
        return fe_of(self.start) | fe_of(self.stop)

    def subst(self, f):
        return SelKey(f(self.start), f(self.stop))


def simp_dim(d):
    if isinstance(d, Sx):
        c = d.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return d


def is_arr(v):
    return isinstance(v, (Ar, Mx))


def is_scalar(v):
    return isinstance(v, (Sx, int, float, Fraction)) and True


class BAr(object):
    """array of conditions; c is an object ndarray of bool/Phi"""
    def __init__(self, c):
        self.c = c

    @property
    def shape(self):
        return self.c.shape


class BMx(object):
    """elementwise comparison of a vector of symbolic length with 0"""
    def __init__(self, op, m, neg=False):
        self.op, self.m, self.neg = op, m, neg


def ndim(v):
    return len(v.shape) if is_arr(v) else 0


def shape_of(v):
    return tuple(v.shape) if is_arr(v) else ()


def ints(sh):
    return all(isinstance(d, int) for d in sh)


def cells(v):
    """Ar of an explicit array"""
    if isinstance(v, Ar):
        return v
    if isinstance(v, Mx):
        return explode(v)
    o = np.empty((), dtype=object)
    o[()] = num(v)
    return Ar(o)


def unwrap(a):
    if isinstance(a, Ar) and a.c.ndim == 0:
        return a.c[()]
    return a


def add(x, y, s=1):
    if not is_arr(x) and not is_arr(y):
        return num(x) + num(y) if s == 1 else num(x) - num(y)
    if isinstance(x, Mx) or isinstance(y, Mx):
        if is_arr(x) and is_arr(y) and same_shape(x.shape, y.shape):
            return mx_add(to_mx(x), to_mx(y), num(s))
        if not is_arr(y) and num(y).iszero():
            return x
        if not is_arr(x) and num(x).iszero():
            return y if s == 1 else mx_scale(y, num(-1))
        if is_arr(x) and is_arr(y) and not (ints(x.shape) and ints(y.shape)):
            raise Unsupported('shapes %s %s' % (x.shape, y.shape))
        if not is_arr(x) or not is_arr(y):
            z, k = (x, y) if is_arr(x) else (y, x)
            if not ints(z.shape):
                o = mx_scale(ones_mx(z.shape), num(k))
                return mx_add(z, o, num(s)) if is_arr(x) else mx_add(o, z, num(s))
    f = (lambda a, b: a + b) if s == 1 else (lambda a, b: a - b)
    try:
        return unwrap(ar_bin(f, cells(x), cells(y)))
    except ValueError:
        raise PyErr('ValueError')


def same_shape(a, b):
    return len(a) == len(b) and all(dim_eq(p, q) for p, q in zip(a, b))


def dim_eq(p, q):
    if isinstance(p, int) and isinstance(q, int):
        return p == q
    return num(p) == num(q) if isinstance(p, (int, Sx)) and isinstance(q, (int, Sx)) else p == q


def ones_mx(shape):
    full = shape if len(shape) == 2 else (shape[0], 1)
    return mx_of(atom('ones', full, shape=full, interp=lambda m, a: np.ones(
        [m.dim(d) for d in a.meta['shape']])), len(shape))


def neg(x):
    if isinstance(x, Mx):
        return mx_scale(x, num(-1))
    if isinstance(x, Ar):
        return ar_map(lambda a: -a, x)
    return -num(x)


def mul(x, y):
    if not is_arr(x) and not is_arr(y):
        return num(x) * num(y)
    if isinstance(x, Mx) and not is_arr(y):
        return mx_scale(x, num(y))
    if isinstance(y, Mx) and not is_arr(x):
        return mx_scale(y, num(x))
    if (isinstance(x, Mx) and not ints(x.shape)) or (isinstance(y, Mx) and not ints(y.shape)):
        return opaque_mx('emul', x.shape if is_arr(x) else y.shape, x, y)
    return unwrap(ar_bin(lambda a, b: a * b, cells(x), cells(y)))


def _nan(m, a):
    m.nan = True
    return float('nan')


def quotient(a, b):
    if not b.n:
        # not a number: differs from every number
        return sx_atom(atom('nan', 0, interp=_nan))
    return a / b


def div(x, y):
    if not is_arr(x) and not is_arr(y):
        return quotient(num(x), num(y))
    if isinstance(x, Mx) and not is_arr(y):
        return mx_scale(x, S1 / num(y))
    if (isinstance(x, Mx) and not ints(x.shape)) or (isinstance(y, Mx) and not ints(y.shape)):
        return opaque_mx('ediv', x.shape if is_arr(x) else y.shape, x, y)
    return unwrap(ar_bin(quotient, cells(x), cells(y)))


def power(x, k):
    kc = num(k).const() if not is_arr(k) else None
    if kc is None:
        raise Unsupported('symbolic power')

    def f(a):
        if kc.denominator == 1:
            return a ** int(kc)
        if (kc * 2).denominator == 1:
            r = alg.sqrt(a)
            return r ** int(kc * 2) if kc > 0 else S1 / (r ** int(-kc * 2))
        return fn('powr', a, num(kc))
    if is_arr(x):
        return ar_map(f, cells(x))
    return f(num(x))


def dot(x, y):
    if not is_arr(x) or not is_arr(y):
        return mul(x, y)
    if isinstance(x, Ar) and isinstance(y, Ar):
        if x.c.ndim == 0 or y.c.ndim == 0:
            return mul(unwrap(x), unwrap(y))
        return ar_dot(x, y)
    for z in (x, y):
        if isinstance(z, Ar) and z.c.ndim > 2:
            raise Unsupported('rank > 2')
    return mx_dot(x, y)


def transpose(x):
    if isinstance(x, Mx):
        return mx_T(x)
    if isinstance(x, Ar):
        return Ar(x.c.T)
    return x


def reshape(x, sh):
    if tuple(x.shape) == tuple(sh):
        return x
    if not ints(x.shape) or not ints(sh):
        raise Unsupported('reshaped view')
    return Ar(cells(x).c.reshape(sh))


def opaque_mx(name, shape, *args):
    shape = tuple(shape)
    full = shape if len(shape) == 2 else (shape[0], 1)
    args = tuple(tuple(a) if isinstance(a, list) else a for a in args)
    a = atom('mxf', name, *args, shape=full, interp=_interp_mxf)
    return mx_of(a, len(shape))


def _np2(v, nd):
    v = np.asarray(v, dtype=float)
    return v


def _interp_mxf(m, a):
    name = a.args[0]
    xs = [None if x is None else m.value(x) for x in a.args[1:]]
    f = MXF[name]
    r = np.asarray(f(*xs), dtype=float)
    sh = [m.dim(d) for d in a.meta['shape']]
    return r.reshape(sh)


MXF = {
    'emul': lambda x, y: x * y,
    'ediv': lambda x, y: x / y,
    'pinv': lambda x: np.linalg.pinv(x),
    'clip': lambda x, lo, hi: np.clip(x, lo, hi),
    'abs': np.abs,
    'sign': np.sign,
    'sqrt': np.sqrt,
    'outer': np.outer,
    'single': lambda x: alg.single(x),
    'half': lambda x: np.float64(np.float16(x)),
    'trunc': np.trunc,
    'roundto': lambda x, n: np.round(x, int(n)),
}


def elementwise(name, f, x):
    """apply a scalar function on every cell"""
    if not is_arr(x):
        return f(num(x))
    if isinstance(x, Mx) and not ints(x.shape):
        return opaque_mx(name, x.shape, x)
    return ar_map(f, cells(x))


# ----------------------------------------------------------------- indexing
def norm_index(shape, ix):
    """-> list of per-axis specs: ('i', int) ('l', [ints]) ('all',) ('s', SelKey) ('new',)"""
    if hasattr(ix, 'axes'):
        ix = Outer(ix.axes)
    if not isinstance(ix, tuple):
        ix = (ix,)
    n_real = sum(1 for i in ix if i is not None and i is not Ellipsis)
    out = []
    ax = 0
    for i in ix:
        if i is Ellipsis:
            for _ in range(len(shape) - n_real):
                out.append(('all',))
                ax += 1
            continue
        if i is None:
            out.append(('new',))
            continue
        if ax >= len(shape):
            raise PyErr('IndexError')
        d = shape[ax]
        out.append(norm_axis(d, i))
        ax += 1
    while ax < len(shape):
        out.append(('all',))
        ax += 1
    return out


class Outer(tuple):
    """axes of numpy.ix_: rows and columns are selected independently"""


def norm_axis(d, i):
    if isinstance(i, VSlice):
        if i.full():
            return ('all',)
        if i.concrete() and isinstance(d, int):
            return ('l', list(range(*i.py().indices(d))))
        if i.concrete() and i.step in (None, 1) and (i.start or 0) >= 0 and \
                i.stop is not None and i.stop >= 0:
            return ('l', list(range(i.start or 0, i.stop)))
        if i.step not in (None, 1):
            raise Unsupported('symbolic strided slice')
        st = 0 if i.start is None else i.start
        sp = d if i.stop is None else i.stop
        if (isinstance(st, int) and st < 0) or (isinstance(sp, int) and sp < 0):
            raise Unsupported('negative symbolic slice')
        k = SelKey(st, sp)
        if num(st).iszero() and isinstance(sp, Sx) and isinstance(d, Sx) and sp == d:
            return ('all',)
        return ('s', k)
    if isinstance(i, bool):
        raise Unsupported('boolean index')
    if isinstance(i, Sx):
        c = i.const()
        if c is not None and c.denominator == 1:
            i = int(c)
        else:
            return ('s1', i)
    if isinstance(i, int):
        if isinstance(d, int):
            if not -d <= i < d:
                raise PyErr('IndexError')
            return ('i', i % d)
        if i < 0:
            return ('s1', num(d) + num(i))
        return ('i', i)
    if isinstance(i, (list, tuple)) and all(isinstance(k, int) for k in i):
        return ('l', within(d, i))
    if isinstance(i, Ar) and i.c.ndim == 1:
        ks = [x.const() for x in i.c]
        if all(k is not None and k.denominator == 1 for k in ks):
            return ('l', within(d, [int(k) for k in ks]))
    if hasattr(i, 'ixarr'):
        return ('ix', i.ixarr)
    raise Unsupported('index %r' % (i,))


def within(d, ks):
    if isinstance(d, int):
        if not all(-d <= k < d for k in ks):
            raise PyErr('IndexError')
        return [k % d for k in ks]
    if any(k < 0 for k in ks):
        raise Unsupported('negative index of a symbolic axis')
    return list(ks)


def _np_ix(spec, outer=False):
    if outer:
        ls = [[s[1]] if s[0] == 'i' else s[1] for s in spec]
        return np.ix_(*[np.array(l, dtype=int) for l in ls])
    out = []
    for s in spec:
        if s[0] == 'i':
            out.append(s[1])
        elif s[0] == 'l':
            l = s[1]
            if l and l == list(range(l[0], l[-1] + 1)):
                out.append(slice(l[0], l[-1] + 1))
            elif not l:
                out.append(slice(0, 0))
            else:
                out.append(l)
        elif s[0] == 'all':
            out.append(slice(None))
        elif s[0] == 'new':
            out.append(None)
        else:
            raise Unsupported('symbolic index of explicit array')
    if sum(isinstance(o, list) for o in out) > 1:
        raise Unsupported('fancy index')
    return tuple(out)


def paired(v, ix):
    """index of two or more integer vectors: numpy pairs them"""
    if not isinstance(ix, tuple) or hasattr(ix, 'axes'):
        return None
    k = [i for i in ix if isinstance(i, (list, Ar)) or hasattr(i, 'ixarr')]
    if len(k) < 2:
        return None
    if not ints(v.shape) or any(hasattr(i, 'ixarr') for i in k):
        raise Unsupported('fancy index')
    spec = norm_index(v.shape, ix)
    if any(s[0] in ('s', 's1', 'ix', 'new') for s in spec):
        raise Unsupported('fancy index')
    full = list(ix) + [VSlice(None, None)] * (len(v.shape) - len(ix))
    if len(full) != len(spec) or Ellipsis in [i for i in full if i is Ellipsis]:
        raise Unsupported('fancy index')
    return tuple(i.py() if isinstance(i, VSlice) else s[1] for i, s in zip(full, spec))


def _sel(d, s):
    """selection matrix (k x d) for one axis spec, None for all"""
    if s[0] == 'all':
        return None
    if s[0] == 'i':
        a = sel_atom(d, (s[1],))
    elif s[0] == 'l':
        if isinstance(d, int) and s[1] == list(range(d)):
            return None
        a = sel_atom(d, tuple(s[1]))
    elif s[0] == 's':
        a = sel_atom(d, s[1])
    elif s[0] == 's1':
        a = sel_atom(d, SelKey(s[1], s[1] + S1))
    else:
        raise Unsupported('index kind')
    return mx_of(a)


def getitem(v, ix):
    if isinstance(v, BAr):
        r = v.c[_np_ix(norm_index(v.shape, ix), hasattr(ix, 'axes'))]
        return BAr(r) if isinstance(r, np.ndarray) else r
    pr = paired(v, ix)
    if pr is not None:
        r = cells(v).c[pr]
        return Ar(r) if isinstance(r, np.ndarray) else r
    spec = norm_index(v.shape, ix)
    if isinstance(v, Ar) and not any(s[0] in ('s', 's1') for s in spec):
        r = v.c[_np_ix(spec, hasattr(ix, 'axes'))]
        return Ar(r) if isinstance(r, np.ndarray) else r
    if isinstance(v, Ar):
        if all(x.iszero() for x in v.c.flat):
            v = mx_zero(v.shape)
        else:
            v = to_mx(v)
    if any(s[0] == 'new' for s in spec):
        v = cells(v)
        return getitem(v, ix)
    if len(v.shape) == 1:
        s, = spec
        S = _sel(v.shape[0], s)
        if S is None:
            return v
        if s[0] in ('i', 's1') and ints(v.shape) and s[0] == 'i':
            return explode(v).c[s[1]]
        r = mx_dot(S, v)
        if s[0] in ('i', 's1'):
            return mx_scalar(Mx((1, 1), r.t))
        return r
    if spec[0][0] == 'i' and spec[1][0] == 'i' and ints(v.shape):
        return explode(v).c[spec[0][1], spec[1][1]]
    R, C = _sel(v.shape[0], spec[0]), _sel(v.shape[1], spec[1])
    r = v if R is None else mx_dot(R, v)
    r = r if C is None else mx_dot(r, mx_T(C))
    a, b = spec[0][0] in ('i', 's1'), spec[1][0] in ('i', 's1')
    if a and b:
        return mx_scalar(r)
    if b:
        return Mx((r.shape[0],), r.t)
    if a:
        return Mx((r.shape[1],), mx_T(r).t)
    return r


def setitem(v, ix, val):
    """functional update"""
    pr = paired(v, ix)
    if pr is not None:
        c = cells(v).c.copy()
        x = cells(val)
        try:
            c[pr] = x.c[()] if x.c.ndim == 0 else x.c
        except ValueError:
            raise PyErr('ValueError')
        return Ar(c)
    spec = norm_index(v.shape, ix)
    if any(s[0] == 'new' for s in spec):
        raise Unsupported('newaxis store')
    sub = []
    for d, s in zip(v.shape, spec):
        if s[0] == 'all':
            sub.append(d)
        elif s[0] == 'l':
            sub.append(len(s[1]))
        elif s[0] == 's':
            sub.append(s[1].length)
    sub = tuple(sub)
    full = all(s[0] == 'all' or (s[0] == 'l' and isinstance(d, int) and
                                 s[1] == list(range(d)))
               for d, s in zip(v.shape, spec))
    if full:
        return broadcast_to(val, v.shape)
    if ints(v.shape) and not any(s[0] in ('s', 's1') for s in spec):
        base = cells(v)
        c = base.c.copy()
        x = cells(val)
        try:
            c[_np_ix(spec, hasattr(ix, 'axes'))] = x.c[()] if x.c.ndim == 0 else x.c
        except ValueError:
            raise PyErr('ValueError')
        return Ar(c)
    v = to_mx(v)
    X = to_mx(broadcast_to(val, sub)) if sub else None
    if len(v.shape) == 1:
        S = _sel(v.shape[0], spec[0])
        if X is None:
            X = Mx((1,), {(): num(val)})
            X = mx_scale(Mx((1,), {(): S1}), num(val))
        cur = mx_dot(S, v)
        return mx_add(v, mx_dot(mx_T(S), mx_add(X, cur, num(-1))))
    R, C = _sel(v.shape[0], spec[0]), _sel(v.shape[1], spec[1])
    if X is None:
        X = Mx((1, 1), {(): num(val)})
    if len(X.shape) == 1:
        X = Mx((X.shape[0], 1), X.t) if spec[1][0] in ('i', 's1') else \
            Mx((1, X.shape[0]), mx_T(Mx((X.shape[0], 1), X.t)).t)
    cur = v if R is None else mx_dot(R, v)
    cur = cur if C is None else mx_dot(cur, mx_T(C))
    d = mx_add(X, cur, num(-1))
    d = d if R is None else mx_dot(mx_T(R), d)
    d = d if C is None else mx_dot(d, C)
    return mx_add(v, d)


def broadcast_to(val, shape):
    if not is_arr(val):
        k = num(val)
        if ints(shape):
            return ar_zeros(shape, k)
        if k.iszero():
            return mx_zero(shape)
        return mx_scale(ones_mx(shape), k)
    if same_shape(val.shape, shape):
        return val
    if isinstance(val, Ar) and ints(shape):
        try:
            return Ar(np.broadcast_to(val.c, shape).copy())
        except ValueError:
            raise PyErr('ValueError')
    if isinstance(val, Mx) and ints(val.shape) and ints(shape):
        return broadcast_to(cells(val), shape)
    if ints(val.shape) and ints(shape):
        raise PyErr('ValueError')
    raise Unsupported('broadcast %s to %s' % (val.shape, shape))


def compare_op(op, x, y):
    """-> bool/Phi or BAr/BMx"""
    if not is_arr(x) and not is_arr(y):
        return cmp_cond(op, num(x), num(y))
    if (isinstance(x, Mx) and not ints(x.shape)) or (isinstance(y, Mx) and not ints(y.shape)):
        d = add(x, y, -1)
        return BMx(op, d)
    X, Y = np.broadcast_arrays(cells(x).c, cells(y).c)
    o = np.empty(X.shape, dtype=object)
    for i in np.ndindex(X.shape):
        o[i] = cmp_cond(op, X[i], Y[i])
    return BAr(o)


def any_of(b):
    if isinstance(b, BMx):
        return bmx_cond('any', b)
    r = False
    for x in b.c.flat:
        r = b_or(r, x)
    return r


def all_of(b):
    if isinstance(b, BMx):
        return bmx_cond('all', b)
    r = True
    for x in b.c.flat:
        r = b_and(r, x)
    return r


_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def bmx_cond(q, b):
    op, m = b.op, b.m
    if q == 'all':
        return b_not(bmx_cond('any', BMx(_NEG[op], m)))
    if op in ('<', '<='):
        op, m = {'<': '>', '<=': '>='}[op], mx_scale(m, num(-1))
    if not m.t:
        if op in ('>', '!='):
            return False
    return cond(atom('anyv', op, m, interp=_interp_any))


def _interp_any(model, a):
    v = np.asarray(model.value(a.args[1]))
    op = a.args[0]
    r = {'>': v > 1e-13, '>=': v >= -1e-13, '==': np.abs(v) < 1e-12, '!=': np.abs(v) >= 1e-12}[op]
    return bool(r.any())
