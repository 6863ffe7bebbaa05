"""Reference definitions, in Python, of library functions that have no model of their
own: a call of one of them is a call of its definition."""

NAMES = {}
SRC = []


def _def(name, src):
    fn = src.strip().split('(')[0].split(':')[0].split()[1]
    NAMES[name] = fn
    SRC.append(src)


HEAD = '''
import numpy
from numpy import dot, zeros, array, eye
'''

_def('numpy.hypot', '''
def np_hypot(x, y):
    return numpy.sqrt(x**2 + y**2)
''')
_def('math.hypot', '''
def m_hypot(*xs):
    return numpy.sqrt(sum([x**2 for x in xs]))
''')
_def('numpy.linalg.matrix_power', '''
def np_matrix_power(M, n):
    if n < 0:
        return np_matrix_power(numpy.linalg.inv(M), -n)
    r = eye(len(M))
    for i in range(n):
        r = dot(r, M)
    return r
''')
_def('numpy.linalg.multi_dot', '''
def np_multi_dot(arrays):
    arrays = list(arrays)
    r = arrays[0]
    for x in arrays[1:]:
        r = dot(r, x)
    return r
''')
_def('numpy.tile', '''
def np_tile(x, reps):
    if isinstance(reps, tuple):
        r, c = reps
        return numpy.concatenate([numpy.concatenate([numpy.atleast_2d(x)]*c, 1)]*r)
    if numpy.ndim(x) > 1:
        return numpy.concatenate([x]*reps, 1)
    return numpy.concatenate([numpy.atleast_1d(x)]*reps)
''')
_def('numpy.diff', '''
def np_diff(x):
    if numpy.ndim(x) > 1:
        return x[:, 1:] - x[:, :-1]
    return x[1:] - x[:-1]
''')
_def('numpy.swapaxes', '''
def np_swapaxes(x, i, j):
    if (i - j) % x.ndim == 0:
        return x
    return x.T
''')
_def('numpy.full_like', '''
def np_full_like(x, v):
    r = numpy.zeros_like(x)
    r[...] = v
    return r
''')
_def('numpy.kron', '''
def np_kron(A, B):
    return numpy.concatenate([numpy.concatenate([A[i, j]*B for j in range(A.shape[1])], 1)
                              for i in range(A.shape[0])])
''')
_def('numpy.roll', '''
def np_roll(x, k, axis=None):
    if numpy.ndim(x) > 1:
        if axis == 0:
            n = x.shape[0]
            return array([x[(i - k) % n] for i in range(n)])
        n = x.shape[1]
        return array([x[:, (i - k) % n] for i in range(n)]).T
    n = len(x)
    return array([x[(i - k) % n] for i in range(n)])
''')
_def('numpy.linspace', '''
def np_linspace(a, b, n=50):
    if n == 1:
        return array([1.*a])
    return array([a + (b - a)*i/(n - 1.) for i in range(n)])
''')
_def('numpy.cumsum', '''
def np_cumsum(x):
    r = zeros(len(x))
    t = 0.
    for i in range(len(x)):
        t = t + x[i]
        r[i] = t
    return r
''')
_def('numpy.tril', '''
def np_tril(M, k=0):
    r = numpy.zeros_like(M)
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            if j <= i + k:
                r[i, j] = M[i, j]
    return r
''')
_def('numpy.triu', '''
def np_triu(M, k=0):
    r = numpy.zeros_like(M)
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            if j >= i + k:
                r[i, j] = M[i, j]
    return r
''')
_def('numpy.copysign', '''
def np_copysign(x, y):
    if y < 0:
        return -abs(x)
    return abs(x)
''')
_def('math.copysign', '''
def m_copysign(x, y):
    if y < 0:
        return -abs(x)
    return abs(x)
''')
_def('numpy.fabs', '''
def np_fabs(x):
    return numpy.abs(x)
''')
_def('math.prod', '''
def m_prod(xs, start=1):
    r = start
    for x in xs:
        r = r*x
    return r
''')
_def('numpy.count_nonzero', '''
def np_count_nonzero(x):
    n = 0
    for i in range(len(x)):
        if x[i]:
            n += 1
    return n
''')
_def('numpy.delete', '''
def np_delete(x, i, axis=None):
    if numpy.ndim(x) == 1:
        n = len(x)
        return array([x[k] for k in range(n) if k != i % n])
    if axis == 0:
        n = len(x)
        return array([x[k] for k in range(n) if k != i % n])
    n = x.shape[1]
    return array([x[:, k] for k in range(n) if k != i % n]).T
''')
_def('numpy.square', '''
def np_square(x):
    return x*x
''')
_def('numpy.float_power', '''
def np_float_power(x, k):
    return x**k
''')
for _n, _e in (('add', 'x + y'), ('sub', 'x - y'), ('mul', 'x * y'), ('truediv', 'x / y'),
               ('floordiv', 'x // y'), ('mod', 'x % y'), ('matmul', 'x @ y'), ('pow', 'x ** y'),
               ('eq', 'x == y'), ('ne', 'x != y'), ('lt', 'x < y'), ('le', 'x <= y'),
               ('gt', 'x > y'), ('ge', 'x >= y'), ('is_', 'x is y'), ('is_not', 'x is not y'),
               ('contains', 'y in x'), ('getitem', 'x[y]'), ('and_', 'x & y'), ('or_', 'x | y')):
    _def('operator.' + _n, 'def op_%s(x, y):\n    return %s\n' % (_n, _e))
for _n, _e in (('neg', '-x'), ('pos', '+x'), ('not_', 'not x'), ('truth', 'bool(x)'), ('abs', 'abs(x)')):
    _def('operator.' + _n, 'def op_%s(x):\n    return %s\n' % (_n, _e))
_def('operator.iadd', '''
def op_iadd(x, y):
    x += y
    return x
''')
_def('operator.itemgetter', '''
def op_itemgetter(i, *more):
    if more:
        return lambda x: tuple([x[k] for k in (i,) + more])
    return lambda x: x[i]
''')
_def('operator.attrgetter', '''
def op_attrgetter(name):
    return lambda x: getattr(x, name)
''')
_def('functools.partial', '''
def ft_partial(f, *args, **kw):
    def call(*more, **kwds):
        d = dict(kw)
        d.update(kwds)
        return f(*(args + more), **d)
    return call
''')
_def('functools.wraps', '''
def ft_wraps(g):
    return lambda f: f
''')
_def('functools.lru_cache', '''
def ft_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return ft_cached(maxsize)
    return ft_cached
''')
_def('functools.cache', '''
def ft_cached(f):
    kept = {}
    def asked(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        if key not in kept:
            kept[key] = f(*args, **kw)
        return kept[key]
    return asked
''')
_def('functools.reduce', '''
def ft_reduce(f, xs, *init):
    xs = list(xs)
    if init:
        r = init[0]
        rest = xs
    else:
        r = xs[0]
        rest = xs[1:]
    for x in rest:
        r = f(r, x)
    return r
''')
_def('itertools.product', '''
def it_product(xs, *more):
    if not more:
        return [(x,) for x in xs]
    r = []
    tails = it_product(*more)
    for x in xs:
        for t in tails:
            r.append((x,) + t)
    return r
''')
_def('itertools.combinations', '''
def it_combinations(xs, n):
    xs = list(xs)
    if n == 0:
        return [()]
    r = []
    for i in range(len(xs)):
        for t in it_combinations(xs[i + 1:], n - 1):
            r.append((xs[i],) + t)
    return r
''')
_def('itertools.islice', '''
def it_islice(xs, *s):
    xs = list(xs)
    if len(s) == 1:
        return xs[:s[0]]
    if len(s) == 2:
        return xs[s[0]:s[1]]
    return xs[s[0]:s[1]:s[2]]
''')
_def('itertools.starmap', '''
def it_starmap(f, xs):
    return [f(*x) for x in xs]
''')
_def('itertools.repeat', '''
def it_repeat(x, n):
    return [x]*n
''')
_def('itertools.accumulate', '''
def it_accumulate(xs):
    r = []
    for x in xs:
        r.append(r[-1] + x if r else x)
    return r
''')
_def('collections.deque', '''
class co_deque(list):
    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)
''')

_def('alt:numpy.linalg.norm', '''
def alt_norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None and numpy.ndim(x) == 2 and not isinstance(axis, tuple):
        rows = list(x) if axis in (1, -1) else list(x.T)
        r = array([alt_norm(y, ord) for y in rows])
        if keepdims:
            return r[:, None] if axis in (1, -1) else r[None, :]
        return r
    if keepdims or axis is not None and numpy.ndim(x) != 1:
        return numpy.unknown_norm()
    if ord is None or ord == 2 and numpy.ndim(x) == 1:
        return numpy.sqrt(numpy.sum(x*x))
    if ord == 1 and numpy.ndim(x) == 1:
        return numpy.sum(numpy.abs(x))
    if ord == numpy.inf and numpy.ndim(x) == 1:
        return max(list(numpy.abs(x)))
    return numpy.unknown_norm()
''')
for _n in ('max', 'min', 'mean', 'prod'):
    _def('alt:numpy.' + _n, '''
def alt_%s(x, axis=None, keepdims=False):
    if axis is None or keepdims or numpy.ndim(x) != 2:
        return numpy.unknown_axis()
    rows = list(x) if axis in (1, -1) else list(x.T)
    return array([numpy.%s(y) for y in rows])
''' % (_n, _n))
_def('alt:numpy.sum', '''
def alt_sum(x, axis=None, keepdims=False):
    if not keepdims or numpy.ndim(x) != 2 or axis is None:
        return numpy.unknown_axis()
    if axis in (1, -1):
        return numpy.sum(x, 1)[:, None]
    return numpy.sum(x, axis)[None, :]
''')
