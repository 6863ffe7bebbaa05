"""Abstract value domain: canonical algebraic terms.

Sx   scalar: quotient of two polynomials over interned atoms (exact rational
     coefficients, sin**2 and sqrt**2 reduced), canonical by construction.
Ar   array of known shape, one Sx per cell.
Mx   matrix/vector of possibly symbolic shape: a non-commutative polynomial
     whose letters are matrix atoms carrying transpose/inverse flags.
Phi  gated value (decision diagram over interned condition atoms).

The rewriting done by the constructors is the decision procedure that
discharges equalities.  `Model` interprets the terms in a ground model; it is
used only to *suppress* alarms: two terms whose normal forms differ are
reported as different only when some model separates them.
"""
from fractions import Fraction
import decimal
import math
import numpy as np


class Unsupported(Exception):
    """The analysis does not model this construct."""


class PyErr(Exception):
    """the analysed program raises a python exception here"""
    def __init__(self, name, val=None):
        Exception.__init__(self, name)
        self.name = name
        self.val = val


# ------------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('kind', 'args', 'id', 'meta', 'rp')
    table = {}
    all = []

    def __repr__(self):
        """injective; long terms are abbreviated by their number"""
        if self.rp is None:
            s = show_atom(self)
            self.rp = s if len(s) <= 240 else '%s..#%d' % (s[:24] if self.kind == 'attr' else
                                                           self.kind, self.id)
        return self.rp


def atom(kind, *args, **meta):
    key = (kind,) + args
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(Atom.all)
        a.meta = meta
        a.rp = None
        Atom.all.append(a)
        Atom.table[key] = a
    elif meta:
        for k, v in meta.items():
            a.meta.setdefault(k, v)
    return a


def show_atom(a):
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'attr':
        return '%r.%s%s' % (a.args[0], a.args[1],
                            ''.join('@%d' % v.id if isinstance(v, Atom) else '(%r)' % (v,)
                                    for v in a.args[2:]))
    if a.kind == 'elem':
        return 'elt(%s)' % (a.args[0],)
    if a.kind == 'el':
        return '%r[%s]' % (a.args[0], ','.join(map(str, a.args[1:])))
    if a.kind == 'lit':
        return 'lit' + repr(a.args[0])
    return '%s(%s)' % (a.kind, ', '.join(map(repr, a.args)))


# ------------------------------------------------------------- polynomials
# a polynomial is a dict {monomial: Fraction}, monomial = ((atom id, exp),..)
ONE = ()


def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def p_add(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul_raw(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            elif k in r:
                del r[k]
    return r


def p_reduce(p):
    """sin(x)**2 -> 1-cos(x)**2 ; sqrt(p)**2 -> p."""
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and Atom.all[a].kind in ('sin', 'sqrt', 'abs'):
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        r = {}
        for m, c in p.items():
            sub = None
            for a, e in m:
                at = Atom.all[a]
                if e >= 2 and at.kind in ('sin', 'sqrt', 'abs'):
                    sub = (a, e, at)
                    break
            if sub is None:
                r = p_add(r, {m: c})
                continue
            a, e, at = sub
            rest = tuple((x, f) if x != a else (x, e - 2) for x, f in m
                         if not (x == a and e == 2))
            if at.kind == 'sin':
                co = atom('cos', at.args[0])
                f = {ONE: Fraction(1), ((co.id, 2),): Fraction(-1)}
            else:
                f = at.meta['poly']
            r = p_add(r, p_mul_raw({rest: c}, f))
        p = r


def p_mul(a, b):
    return p_reduce(p_mul_raw(a, b))


def p_divexact(a, b):
    """a / b if the division of polynomials is exact, else None"""
    if len(b) == 1:
        (m, c), = b.items()
        com = dict(m)
        out = {}
        for k, v in a.items():
            kd = dict(k)
            if any(kd.get(x, 0) < e for x, e in com.items()):
                return None
            out[m_div(k, com)] = v / c
        return out
    vs = sorted(set(x for m in b for x, _ in m))
    av = set(x for m in a for x, _ in m)
    if not set(vs) <= av:
        return None
    allv = sorted(av)

    def order(m):
        d = dict(m)
        return tuple(d.get(x, 0) for x in allv)
    lb = max(b, key=order)
    ob = dict(lb)
    cb = b[lb]
    r, q = dict(a), {}
    steps = 0
    while r:
        steps += 1
        if steps > 600:
            return None
        la = max(r, key=order)
        da = dict(la)
        if any(da.get(x, 0) < e for x, e in ob.items()):
            return None
        m = m_div(la, ob)
        c = r[la] / cb
        q[m] = q.get(m, 0) + c
        r = p_add(r, p_mul_raw({m: c}, b), -1)
    return q


def p_key(p):
    return tuple(sorted(p.items()))


def p_lead(p):
    return p[max(p)]


# ------------------------------------------------------------------ scalars
class Sx(object):
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=None):
        if d is None:
            d = {ONE: Fraction(1)}
        elif not d:
            raise Unsupported("division by zero")
        if not n:
            d = {ONE: Fraction(1)}
        elif len(d) == 1:
            (m, c), = d.items()
            # cancel the common monomial
            if m:
                com = dict(m)
                for k in n:
                    kd = dict(k)
                    for a in list(com):
                        com[a] = min(com[a], kd.get(a, 0))
                        if not com[a]:
                            del com[a]
                    if not com:
                        break
                if com:
                    n = dict((m_div(k, com), v) for k, v in n.items())
                    m = m_div(m, com)
            n = dict((k, v / c) for k, v in n.items())
            d = {m: Fraction(1)}
        else:
            c = p_lead(d)
            if c != 1:
                n = dict((k, v / c) for k, v in n.items())
                d = dict((k, v / c) for k, v in d.items())
            if len(n) == len(d):
                m = max(n)
                if m in d:
                    q = n[m] / d[m]
                    if all(k in d and d[k] * q == v for k, v in n.items()):
                        n, d = p_const(q), {ONE: Fraction(1)}
            if len(d) > 1 and len(n) >= len(d) and len(n) * len(d) < 4000:
                q = p_divexact(n, d)
                if q is not None:
                    n, d = q, {ONE: Fraction(1)}
        self.n = n
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (p_key(self.n), p_key(self.d))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if not isinstance(o, Sx):
            return NotImplemented
        if self.key == o.key:
            return True
        if self.d == o.d:
            return self.n == o.n
        return p_mul(self.n, o.d) == p_mul(o.n, self.d)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise Unsupported('truth of a symbolic scalar')

    def iszero(self):
        return not self.n

    def const(self):
        """The Fraction if constant, else None."""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and ONE in self.n and self.d == {ONE: Fraction(1)}:
            return self.n[ONE]
        return None

    def __add__(self, o):
        if self.d == o.d:
            return Sx(p_add(self.n, o.n), self.d)
        if len(self.d) > 1 or len(o.d) > 1:
            q = p_divexact(self.d, o.d)
            if q is not None:
                return Sx(p_add(self.n, p_mul(o.n, q)), self.d)
            q = p_divexact(o.d, self.d)
            if q is not None:
                return Sx(p_add(p_mul(self.n, q), o.n), o.d)
        return Sx(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)),
                  p_mul(self.d, o.d))

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return Sx(dict((m, -c) for m, c in self.n.items()), self.d)

    def __mul__(self, o):
        if not self.n or not o.n:
            return S0
        return Sx(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        return Sx(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def __pow__(self, k):
        if k < 0:
            return S1 / (self ** (-k))
        r = S1
        for _ in range(k):
            r = r * self
        return r

    def __repr__(self):
        n = show_poly(self.n)
        if self.d == {ONE: Fraction(1)}:
            return n
        return '(%s)/(%s)' % (n, show_poly(self.d))

    def atoms(self):
        return set(Atom.all[a] for p in (self.n, self.d) for m in p
                   for a, _ in m)


def m_div(m, com):
    return tuple((a, e - com.get(a, 0)) for a, e in m if e != com.get(a, 0))


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(repr(Atom.all[a]) + ('' if e == 1 else '**%d' % e)
                     for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def num(c):
    if isinstance(c, Sx):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fraction(repr(c))
    return Sx(p_const(c))


S0 = num(0)
S1 = num(1)


def sx_atom(a):
    return Sx({((a.id, 1),): Fraction(1)})


def sym(name, **meta):
    return sx_atom(atom('sym', name, **meta))


PI = sym('pi', value=math.pi)
def _trig_const(q):
    """(sine, cosine) of q pi, from the angles of the first octant"""
    q = q % 2
    if q >= 1:
        s, c = _trig_const(q - 1)
        return -s, -c
    if q > Fraction(1, 2):
        s, c = _trig_const(1 - q)
        return s, -c
    if q > Fraction(1, 4):
        s, c = _trig_const(Fraction(1, 2) - q)
        return c, s
    if q == 0:
        return S0, S1
    half = num(Fraction(1, 2))
    if q == Fraction(1, 4):
        return sqrt(half), sqrt(half)
    if q == Fraction(1, 6):
        return half, sqrt(num(3)) * half
    x = num(q) * PI
    return sx_atom(atom('sin', x)), sx_atom(atom('cos', x))


def _pi_multiple(x):
    q = x / PI
    return q.const()


def _lead_sign(x):
    return 1 if (not x.n or p_lead(x.n) > 0) else -1


def _atan2_arg(x):
    a = _single(x)
    if a is not None and a.kind == 'fn' and a.args[0] == 'arctan2':
        y, x = a.args[1:]
        if y.const() == 0 and x.const() == 0:
            return S0, S1
        h = sqrt(x * x + y * y)
        return y / h, x / h
    return None


def sin(x):
    r = _atan2_arg(x)
    if r is not None:
        return r[0]
    q = _pi_multiple(x)
    if q is not None:
        return _trig_const(q)[0]
    if _lead_sign(x) < 0:
        return -sin(-x)
    return sx_atom(atom('sin', x))


def cos(x):
    r = _atan2_arg(x)
    if r is not None:
        return r[1]
    q = _pi_multiple(x)
    if q is not None:
        return _trig_const(q)[1]
    if _lead_sign(x) < 0:
        x = -x
    return sx_atom(atom('cos', x))


def sqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return num(r)
    if x.d != {ONE: Fraction(1)}:
        return sqrt(Sx(p_mul(x.n, x.d))) / absx(Sx(x.d))
    if len(x.n) == 1:
        (m, c), = x.n.items()
        if all(e % 2 == 0 for _, e in m):
            r = sqrt(num(c)) if m else None
            if r is not None:
                for a, e in m:
                    r = r * (absx(sx_atom(Atom.all[a])) ** (e // 2))
                return r
    r = p_root(x.n)
    if r is not None:
        return absx(Sx(r))
    return sx_atom(atom('sqrt', x, poly=x.n))


def p_root(p):
    """a polynomial whose square is p, or None"""
    if not 3 <= len(p) <= 21:
        return None
    vs = sorted(set(x for m in p for x, _ in m))

    def order(m):
        d = dict(m)
        return tuple(d.get(x, 0) for x in vs)
    lead = max(p, key=order)
    c = p[lead]
    if c < 0 or any(e % 2 for _, e in lead):
        return None
    k = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
    if k * k != c:
        return None
    m0 = tuple((x, e // 2) for x, e in lead)
    r = {m0: k}
    rem = p_add(p, p_mul_raw(r, r), -1)
    for _ in range(6):
        if not rem:
            return r
        la = max(rem, key=order)
        da = dict(la)
        if any(da.get(x, 0) < e for x, e in m0):
            return None
        t = {m_div(la, dict(m0)): rem[la] / (2 * k)}
        if order(list(t)[0]) >= order(m0):
            return None
        rem = p_add(p_add(rem, p_mul_raw({m: 2 * q for m, q in r.items()}, t), -1),
                    p_mul_raw(t, t), -1)
        r = p_add(r, t)
    return None


def nonneg_atom(a):
    return a.kind in ('sqrt', 'abs') or bool(a.meta.get('pos') or a.meta.get('nn'))


def pos_atom(a):
    if a.kind == 'sqrt' and 'pos' not in a.meta:
        a.meta['pos'] = sign_of(a.args[0]) == 2
    return bool(a.meta.get('pos'))


def p_nonneg(p):
    return all(c > 0 and all(e % 2 == 0 or nonneg_atom(Atom.all[a]) for a, e in m)
               for m, c in p.items())


def p_numeric(p):
    """value of a polynomial in square roots of rationals, to forty digits"""
    if not p or len(p) < 2:
        return None
    D = decimal.Context(prec=60)
    r = decimal.Decimal(0)
    for m, c in p.items():
        t = D.divide(decimal.Decimal(c.numerator), decimal.Decimal(c.denominator))
        for a, e in m:
            at = Atom.all[a]
            k = at.args[0].const() if at.kind == 'sqrt' else None
            if k is None:
                return None
            q = D.sqrt(D.divide(decimal.Decimal(k.numerator), decimal.Decimal(k.denominator)))
            t = D.multiply(t, D.power(q, e))
        r = D.add(r, t)
    return r


def p_sign(p):
    """2: >0, 1: >=0, None unknown"""
    v = p_numeric(p)
    if v is not None and abs(v) > decimal.Decimal('1e-40'):
        return 2 if v > 0 else None
    if not p_nonneg(p):
        return None
    return 2 if any(all(pos_atom(Atom.all[a]) for a, e in m) for m in p) else 1


def sign_of(x):
    """2: > 0, 1: >= 0, -1: <= 0, -2: < 0, None: unknown"""
    b = p_sign(x.d)
    k = 1
    if b is None:
        b = p_sign(dict((m, -c) for m, c in x.d.items()))
        k = -1
    if b != 2:
        return None
    a = p_sign(x.n)
    if a is None:
        a = p_sign(dict((m, -c) for m, c in x.n.items()))
        k = -k
    return None if a is None else k * a


def absx(x):
    c = x.const()
    if c is not None:
        return num(abs(c))
    if x.d != {ONE: Fraction(1)}:
        return absx(Sx(x.n)) / absx(Sx(x.d))
    if _lead_sign(x) < 0:
        x = -x
    if p_nonneg(x.n):
        return x
    if len(x.n) == 1:
        (m, c), = x.n.items()
        r = num(c)
        for a, e in m:
            at = Atom.all[a]
            if e % 2 == 0 or nonneg_atom(at):
                r = r * (sx_atom(at) ** e)
            else:
                r = r * (sx_atom(atom('abs', sx_atom(at),
                                      poly={((a, 2),): Fraction(1)})) ** e)
        return r
    return sx_atom(atom('abs', x, poly=p_mul(x.n, x.n)))


def fn(name, *args):
    """Uninterpreted (for rewriting) scalar function."""
    return sx_atom(atom('fn', name, *args))


def derive(x, var):
    """d x / d var, exact (polynomial, sin, cos, sqrt)."""
    def dp(p):
        r = S0
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                at = Atom.all[a]
                da = datom(at)
                if da.iszero():
                    continue
                rest = tuple((b, f) if b != a else (b, f - 1) for b, f in m
                             if not (b == a and f == 1))
                r = r + Sx({rest: c * e}) * da
        return r

    def datom(at):
        if at is var:
            return S1
        if at.kind == 'sin':
            return cos(at.args[0]) * derive(at.args[0], var)
        if at.kind == 'cos':
            return -(sin(at.args[0]) * derive(at.args[0], var))
        if at.kind == 'sqrt':
            return derive(at.args[0], var) / (num(2) * sx_atom(at))
        if at.kind in ('sym', 'el', 'attr'):
            return S0
        raise Unsupported('derivative of %r' % at)
    n, d = Sx(x.n), Sx(x.d)
    return (dp(x.n) * d - n * dp(x.d)) / (d * d)


# -------------------------------------------------------------------- arrays
class Ar(object):
    """Array of known integer shape; cells is an object ndarray of Sx."""
    __slots__ = ('c', '_k')

    def __init__(self, cells):
        self.c = cells
        self._k = None

    @property
    def shape(self):
        return self.c.shape

    @property
    def key(self):
        if self._k is None:
            self._k = (self.c.shape, tuple(x.key for x in self.c.flat))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if not isinstance(o, Ar):
            return NotImplemented
        return self.key == o.key or (
            self.c.shape == o.c.shape and
            all(x == y for x, y in zip(self.c.flat, o.c.flat)))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.c.tolist())


def ar(cells):
    """Build an Ar from (nested) lists of numbers / Sx."""
    if isinstance(cells, Ar):
        return cells
    if isinstance(cells, np.ndarray) and cells.dtype == object:
        shape, flat = cells.shape, list(cells.flat)
    else:
        def walk(x):
            if isinstance(x, (list, tuple)):
                if not x:
                    return (0,), []
                subs = [walk(y) for y in x]
                if any(s[0] != subs[0][0] for s in subs):
                    raise Unsupported('ragged array')
                return (len(x),) + subs[0][0], [z for s in subs for z in s[1]]
            if isinstance(x, Ar):
                return x.shape, list(x.c.flat)
            return (), [x]
        shape, flat = walk(cells)
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = num(x)
    return Ar(a.reshape(shape))


def ar_map(f, a):
    o = np.empty(a.c.shape, dtype=object)
    for i, x in np.ndenumerate(a.c):
        o[i] = f(x)
    return Ar(o)


CUT = [None]


def cut(x):
    """name an expression of more than CUT terms (where the identities it would
    take part in are not the question)"""
    if CUT[0] is None or not isinstance(x, Sx) or len(x.n) + len(x.d) <= CUT[0]:
        return x
    return sx_atom(atom('cut', x, interp=_interp_cut))


def _interp_cut(m, a):
    return m.sx(a.args[0])


def cut_cells(a):
    if CUT[0] is not None and isinstance(a, Ar):
        return ar_map(cut, a)
    return cut(a)


def ar_bin(f, a, b):
    try:
        x, y = np.broadcast_arrays(a.c, b.c)
    except ValueError:
        raise PyErr('ValueError')
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        o[i] = f(x[i], y[i])
    return cut_cells(Ar(o))


def ar_zeros(shape, v=S0):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = v
    return Ar(o)


def ar_eye(n, m=None):
    m = n if m is None else m
    o = np.empty((n, m), dtype=object)
    for i in np.ndindex(n, m):
        o[i] = S1 if i[0] == i[1] else S0
    return Ar(o)


def sx_sum(xs):
    r = S0
    for x in xs:
        r = r + x
    return r


def ar_dot(a, b):
    return cut_cells(ar_dot_(a, b))


def ar_dot_(a, b):
    A, B = a.c, b.c
    if A.ndim == 0 or B.ndim == 0:
        return ar_bin(lambda x, y: x * y, a, b)
    k = A.shape[-1]
    kb = B.shape[0] if B.ndim == 1 else B.shape[-2]
    if k != kb:
        raise PyErr('ValueError')
    if A.ndim == 1 and B.ndim == 1:
        return sx_sum(A[i] * B[i] for i in range(k))
    if A.ndim == 2 and B.ndim == 1:
        return ar([sx_sum(A[i, j] * B[j] for j in range(k))
                   for i in range(A.shape[0])])
    if A.ndim == 1 and B.ndim == 2:
        return ar([sx_sum(A[j] * B[j, i] for j in range(k))
                   for i in range(B.shape[1])])
    if A.ndim == 2 and B.ndim == 2:
        o = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = sx_sum(A[i[0], j] * B[j, i[1]] for j in range(k))
        return Ar(o)
    raise Unsupported('dot of rank %d and %d' % (A.ndim, B.ndim))


def skew(p):
    return ar([[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]])


def ar_block(rows):
    return Ar(np.block([[x.c for x in r] for r in rows]))


def ar_se3_inv(H):
    """Inverse of a rigid displacement matrix, structurally."""
    R = H.c[0:3, 0:3]
    p = Ar(H.c[0:3, 3])
    Rt = Ar(R.T)
    o = ar_eye(4)
    o.c[0:3, 0:3] = Rt.c
    o.c[0:3, 3] = ar_map(lambda x: -x, ar_dot(Rt, p)).c
    return o


def ar_adjoint(H):
    R = Ar(H.c[0:3, 0:3])
    p = H.c[0:3, 3]
    o = ar_zeros((6, 6))
    o.c[0:3, 0:3] = R.c
    o.c[3:6, 3:6] = R.c
    o.c[3:6, 0:3] = ar_dot(skew(p), R).c
    return o


# ------------------------------------------------------------------ matrices
# factor = (atom, transposed, inverted).  atom.meta: shape=(r,c), grp in
# {'SE3','AD','ROT','sym','lit','sel', None}
class Mx(object):
    """sum of coeff * word; ndim 1 (column vector) or 2."""
    __slots__ = ('shape', 't', '_k')

    def __init__(self, shape, terms):
        self.shape = shape
        self.t = dict((w, c) for w, c in terms.items() if not c.iszero())
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (self.shape, tuple(sorted(
                (tuple((a.id, t, i) for a, t, i in w), c.key)
                for w, c in self.t.items())))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if not isinstance(o, Mx):
            return NotImplemented
        if len(self.shape) != len(o.shape):
            return False
        return self.key == o.key or (
            set(self.t) == set(o.t) and
            all(c == o.t[w] for w, c in self.t.items()))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if not self.t:
            return '0%s' % (self.shape,)
        return ' + '.join(
            ('' if c.const() == 1 else '(%r)*' % c) +
            ('.'.join(show_factor(f) for f in w) or 'I')
            for w, c in sorted(self.t.items(), key=lambda x: repr(x[0])))


def show_factor(f):
    a, t, i = f
    return repr(a) + ("'" if t else '') + ('^-1' if i else '')


def fshape(f):
    a, t, i = f
    r, c = a.meta['shape']
    return (c, r) if (t != i) else (r, c)


def dim_key(d):
    return d


def mat_atom(name, shape, grp=None, **meta):
    """A named matrix (or column vector if shape has one dim)."""
    sh = tuple(shape)
    full = sh if len(sh) == 2 else (sh[0], 1)
    a = atom('sym', name, shape=full, grp=grp, **meta)
    return Mx(sh, {((a, False, False),): S1})


def mx_of(a, nd=2):
    sh = a.meta['shape']
    return Mx(sh if nd == 2 else (sh[0],), {((a, False, False),): S1})


def mx_zero(shape):
    return Mx(tuple(shape), {})


def mx_eye(n):
    return Mx((n, n), {(): S1})


_canon = {}


def canon_ar(A):
    """one representative for the explicit arrays that are equal"""
    l = _canon.setdefault(A.c.shape, [])
    for B in l:
        if B is A or A == B:
            return B
    if len(l) < 64:
        l.append(A)
    return A


def lit_of(A):
    """Mx of an explicit array (1-D or 2-D)."""
    c = A.c
    if c.ndim == 0:
        raise Unsupported('0-d literal')
    if all(x.iszero() for x in c.flat):
        return mx_zero(c.shape)
    if c.ndim == 2 and c.shape[0] == c.shape[1]:
        s = c[0, 0] if c.shape[0] else S1
        if c.shape[0] and not s.iszero() and \
                Ar(c) == ar_map(lambda x: x * s, ar_eye(c.shape[0])):
            return Mx(c.shape, {(): s})
    whole = _recognise(c)
    if whole is not None:
        return whole
    c2 = c if c.ndim == 2 else c.reshape(c.shape[0], 1)
    # pull a scalar content out, so that k*lit has one normal form
    a = atom('lit', Ar(c2), shape=c2.shape, grp='lit')
    return Mx(c.shape, {((a, False, False),): S1})


def _recognise(c):
    """cells that are exactly the elements of one matrix atom, in order."""
    x = c.flat[0] if c.size else None
    if x is None:
        return None
    at = _single(x)
    if at is None or at.kind != 'el':
        return None
    base = at.args[0]
    sh = base.meta['shape']
    full = tuple(c.shape) if c.ndim == 2 else (c.shape[0], 1)
    if tuple(sh) != full:
        return None
    for i in np.ndindex(full):
        e = _single(c[i] if c.ndim == 2 else c[i[0]])
        if e is None or e.kind != 'el' or e.args != (base,) + i:
            return None
    return Mx(tuple(c.shape), {((base, False, False),): S1})


def _single(x):
    if x.d != {ONE: Fraction(1)} or len(x.n) != 1:
        return None
    (m, c), = x.n.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    return Atom.all[m[0][0]]


def to_mx(v):
    if isinstance(v, Mx):
        return v
    if isinstance(v, Ar):
        return lit_of(v)
    raise Unsupported('not a matrix: %r' % (v,))


def norm_factor(f):
    a, t, i = f
    g = a.meta.get('grp')
    if g == 'ROT' and t:
        return (a, False, not i)
    if g in ('sym', 'MASS') and t:
        return (a, False, i)
    if a.kind == 'sum' and t and not i:
        b = atom('sum', a.args[0], a.args[1], mx_T(_as2(a.args[2])), *a.args[3:],
                 shape=(a.meta['shape'][1], a.meta['shape'][0]))
        return (b, False, False)
    if g == 'lit' and t and not i:
        m = lit_of(Ar(a.args[0].c.T))
        (w, c), = m.t.items()
        return w[0] if len(w) == 1 and c == S1 else (a, t, i)
    return f


def word_mul(w, v):
    """product of two words -> dict of words, or None for zero."""
    w = list(w)
    terms = {(): S1}
    out = list(w)
    coeff = S1
    for f in v:
        out.append(f)
        while len(out) >= 2:
            r = _pair(out[-2], out[-1])
            if r is None:
                break
            out.pop()
            out.pop()
            if r == 0:
                return S0, ()
            c, fs = r
            coeff = coeff * c
            out.extend(fs)
            if len(fs) != 1:
                break
    return coeff, tuple(out)


def _pair(f, g):
    a, t, i = f
    b, u, j = g
    if a is b and t == u and i != j:
        return S1, []
    ga, gb = a.meta.get('grp'), b.meta.get('grp')
    if ga == 'lit' and gb == 'lit' and not i and not j:
        A = a.args[0] if not t else Ar(a.args[0].c.T)
        B = b.args[0] if not u else Ar(b.args[0].c.T)
        m = lit_of(ar_dot(A, B))
        if not m.t:
            return 0
        (w, c), = m.t.items()
        return c, list(w)
    if ga == 'sel' and gb == 'sel' and not t and u:
        # S(a) S(b)^T
        if a is b:
            return S1, []
        ka, kb = a.args[1], b.args[1]
        if isinstance(ka, tuple) and isinstance(kb, tuple) and \
                all(isinstance(z, int) for z in ka + kb):
            ia, ib = list(ka), list(kb)
            if not set(ia) & set(ib):
                return 0
            L = ar([[1 if x == y else 0 for y in ib] for x in ia])
            m = lit_of(L)
            (w, c), = m.t.items()
            return c, list(w)
    if ga == 'sel' and not t and gb == 'cat' and not u and not j:
        r = cat_slice(b, a.args[1])
        if r is not None:
            return r
    if ga == 'cat' and t and not i and gb == 'sel' and u:
        r = cat_slice(a, b.args[1])
        if r is not None:
            c, fs = r
            return c, [(x, not y, z) for x, y, z in reversed(fs)]
    if ga == 'sel' and not t and gb == 'sel' and not u:
        ka, kb = a.args[1], b.args[1]
        if isinstance(ka, tuple) and isinstance(kb, tuple):
            return S1, [(sel_atom(b.args[0], tuple(kb[z] for z in ka)), False, False)]
    if ga == 'sel' and gb == 'sel' and t and u:
        r = _pair((b, False, False), (a, False, False))
        if r and r != 0:
            c, fs = r
            return c, [(x, not y, z) for x, y, z in reversed(fs)]
        return r
    if ga == 'sel' and not t and gb == 'lit' and not j and isinstance(a.args[1], tuple):
        B = b.args[0].c if not u else b.args[0].c.T
        m = lit_of(Ar(B[list(a.args[1]), :]))
        if not m.t:
            return 0
        (w, c), = m.t.items()
        return c, list(w)
    if ga == 'lit' and not i and gb == 'sel' and u and isinstance(b.args[1], tuple):
        A = a.args[0].c if not t else a.args[0].c.T
        m = lit_of(Ar(A[:, list(b.args[1])]))
        if not m.t:
            return 0
        (w, c), = m.t.items()
        return c, list(w)
    return None


def cat_slice(a, K):
    """the slice of a concatenation that one of its items fills"""
    segs = a.args[0].segs
    if isinstance(K, tuple) or len(segs) != 1 or not hasattr(segs[0], 'coll'):
        return None
    s = segs[0]
    if len(s.segs) != 1 or not hasattr(s.segs[0], 'm'):
        return None
    p = _single(K.start)
    if p is None or p.kind != 'prefix' or p.args[0] is not s.coll:
        return None
    v = s.segs[0].m
    cur = p.args[4]
    if p.args[1] is not s.e or not same(p.args[3], s.guard) or \
            num(v.shape[0]) != p.args[2]:
        return None
    v = to_mx(subst(v, {s.e: cur}))
    if num(v.shape[0]) != K.stop - K.start or len(v.t) != 1:
        return None
    (w, c), = v.t.items()
    return c, list(w)


def sel_atom(n, idx):
    """selection matrix: rows idx of a length-n vector; idx tuple of ints or
    a hashable symbolic slice with .length dim"""
    if isinstance(idx, tuple):
        return atom('sel', n, idx, shape=(len(idx), n), grp='sel')
    return atom('sel', n, idx, shape=(idx.length, n), grp='sel')


def mx_add(a, b, s=S1):
    t = dict(a.t)
    for w, c in b.t.items():
        t[w] = t.get(w, S0) + c * s
    return Mx(a.shape, t)


def mx_scale(a, s):
    return Mx(a.shape, dict((w, c * s) for w, c in a.t.items()))


def mx_mul_raw(a, b, shape):
    t = {}
    for w, c in a.t.items():
        for v, d in b.t.items():
            k, x = word_mul(w, v)
            if k.iszero():
                continue
            t[x] = t.get(x, S0) + c * d * k
    return Mx(shape, t)


def mx_T(a):
    if len(a.shape) == 1:
        return a
    return Mx((a.shape[1], a.shape[0]),
              dict((word_T(w), c) for w, c in a.t.items()))


def word_T(w):
    return tuple(norm_factor((a, not t, i)) for a, t, i in reversed(w))


def word_inv(w):
    out = []
    for a, t, i in reversed(w):
        out.append((a, t, not i))
    return tuple(out)


def _as2(a, row=False):
    if len(a.shape) == 2:
        return a
    if row:
        return Mx((1, a.shape[0]), dict((word_T(w), c) for w, c in a.t.items()))
    return Mx((a.shape[0], 1), a.t)


def mx_dot(a, b):
    a, b = to_mx(a), to_mx(b)
    k1 = a.shape[-1]
    k2 = b.shape[0]
    if isinstance(k1, int) and isinstance(k2, int) and k1 != k2:
        raise PyErr('ValueError')
    if len(a.shape) == 1 and len(b.shape) == 1:
        m = mx_mul_raw(_as2(a, True), _as2(b), (1, 1))
        return mx_scalar(m)
    if len(a.shape) == 1:
        m = mx_mul_raw(mx_T(b), _as2(a), (b.shape[1],))
        return m
    sh = (a.shape[0],) if len(b.shape) == 1 else (a.shape[0], b.shape[1])
    return mx_mul_raw(a, b, sh)


def mx_scalar(m):
    """a 1x1 matrix as Sx."""
    r = S0
    for w, c in m.t.items():
        if not w:
            r = r + c
            continue
        if all(isinstance(d, int) for f in w for d in fshape(f)) and \
                all(not f[2] or f[0].meta.get('grp') in ('SE3', 'AD', 'ROT')
                    for f in w):
            A = explode_word(w)
            r = r + c * A.c[0, 0]
            continue
        wt = word_T(w)
        kw = tuple((a.id, t, i) for a, t, i in w)
        kt = tuple((a.id, t, i) for a, t, i in wt)
        r = r + c * sx_atom(atom('sc', w if kw <= kt else wt))
    return r


def rigid_inverse(c):
    """inverse of an explicit displacement or rotation, if it is recognised as one"""
    n = c.shape[0]
    if n not in (3, 4) or any(not isinstance(x, Sx) for x in c.c.flat):
        return None
    if sum(len(x.n) + len(x.d) for x in c.c.flat) > 150:
        return None
    if n == 4 and not all((x - v).iszero() for x, v in zip(c.c[3], (S0, S0, S0, S1))):
        return None
    R = Ar(c.c[:3, :3])
    d = ar_bin(lambda x, y: x - y, ar_dot(Ar(R.c.T), R), ar_eye(3))
    if not all(x.iszero() for x in d.c.flat):
        return None
    return ar_se3_inv(c) if n == 4 else Ar(R.c.T)


def numeric(a):
    """the rational cells of a matrix of known numbers, or None"""
    if not (len(a.shape) == 2 and isinstance(a.shape[0], int) and a.shape[0] == a.shape[1] <= 6):
        return None
    for w, c in a.t.items():
        if c.const() is None or any(b.meta.get('grp') != 'lit' or i or any(
                not isinstance(x, Sx) or x.const() is None for x in b.args[0].c.flat) for b, t, i in w):
            return None
    return [[x.const() for x in row] for row in explode(a).c]


def rational_inverse(m):
    """Gauss-Jordan; None when the matrix is singular"""
    n = len(m)
    m = [list(r) + [Fraction(int(i == k)) for k in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = next((k for k in range(i, n) if m[k][i]), None)
        if p is None:
            return None
        m[i], m[p] = m[p], m[i]
        m[i] = [x / m[i][i] for x in m[i]]
        for k in range(n):
            if k != i and m[k][i]:
                m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def numeric_inverse(a):
    m = numeric(a)
    m = m and rational_inverse(m)
    if not m:
        return None
    o = np.empty((len(m), len(m)), dtype=object)
    for i, r in enumerate(m):
        for k, x in enumerate(r):
            o[i, k] = num(x)
    return lit_of(Ar(o))


def mx_inv(a):
    q = numeric_inverse(a)
    if q is not None:
        return q
    if len(a.t) == 1:
        (w, c), = a.t.items()
        if all(fshape(f)[0] == fshape(f)[1] for f in w):
            inv = []
            for b, t, i in reversed(w):
                if b.meta.get('grp') == 'lit' and not i:
                    q = rigid_inverse(b.args[0])
                    q = q is not None and lit_of(q)
                    if q is not False and len(q.t) == 1:
                        (v, k), = q.t.items()
                        if k == S1 and len(v) == 1 and not v[0][1] and not v[0][2]:
                            inv.append((v[0][0], t, False))
                            continue
                    inv.append((atom('inv', mx_of(b), shape=b.meta['shape'],
                                     grp=None), t, False))
                    continue
                inv.append((b, t, not i))
            k, x = word_mul((), tuple(inv))
            return Mx((a.shape[1], a.shape[0]), {x: k / c})
    if all(isinstance(d, int) and d <= 8 for d in a.shape):
        try:
            a = to_mx(lit_of(canon_ar(explode(a))))
        except Unsupported:
            pass
    at = atom('inv', a, shape=(a.shape[1], a.shape[0]), grp=None)
    return mx_of(at)


# ----- explode: full elementwise expansion when every dimension is known
def atom_cells(a):
    g = a.meta.get('grp')
    if g == 'lit':
        return a.args[0]
    if g == 'sel':
        n, idx = a.args
        if not (isinstance(n, int) and isinstance(idx, tuple)):
            raise Unsupported('symbolic selection')
        return ar([[1 if j == k else 0 for j in range(n)] for k in idx])
    r, c = a.meta['shape']
    if not (isinstance(r, int) and isinstance(c, int)):
        raise Unsupported('symbolic shape')
    if a.kind == 'ad':
        H = a.args[0]
        return ar_adjoint(explode(H))
    if a.kind == 'sum':
        from loops import close_sum
        B = explode(_as2(a.args[2]))
        return ar_map(lambda x: close_sum(a.args[0], a.args[1], a.args[3] if len(a.args) > 3
                                          else True, x), B)
    if g == 'SE3':
        o = ar_eye(4)
        for i in range(3):
            for j in range(4):
                o.c[i, j] = sx_atom(atom('el', a, i, j))
        return o
    if a.kind == 'ops':
        pass
    o = np.empty((r, c), dtype=object)
    sy = g == 'sym'
    for i in np.ndindex(r, c):
        k = tuple(sorted(i)) if sy or g == 'MASS' else i
        # the mass of a massive body is positive, its inertia may be null
        pos = {'pos' if i[0] > 2 else 'nn': True} if g == 'MASS' and i[0] == i[1] else {}
        o[i] = sx_atom(atom('el', a, *k, **pos))
    return Ar(o)


def factor_cells(f):
    a, t, i = f
    if i:
        g = a.meta.get('grp')
        if g == 'SE3':
            A = ar_se3_inv(atom_cells(a))
        elif g == 'ROT':
            A = Ar(atom_cells(a).c.T)
        elif g == 'AD':
            A = ar_adjoint(ar_se3_inv(explode(a.args[0])))
        else:
            b = atom('inv', mx_of(a), shape=a.meta['shape'], grp=None)
            A = atom_cells(b)
    else:
        A = atom_cells(a)
    return Ar(A.c.T) if t else A


def int_dims(f):
    return all(isinstance(d, int) for d in fshape(f))


def explode_word(w):
    A = None
    idx = [k for k, f in enumerate(w) if not int_dims(f)]
    if idx:
        # the part with unknown inner dimensions: entries are opaque scalars
        i, j = idx[0], idx[-1]
        S = w[i:j + 1]
        r, c = fshape(S[0])[0], fshape(S[-1])[1]
        if not (isinstance(r, int) and isinstance(c, int)):
            raise Unsupported('symbolic shape')
        o = np.empty((r, c), dtype=object)
        for a in range(r):
            L = ((sel_atom(r, (a,)), False, False),) if r > 1 else ()
            for b in range(c):
                R = ((sel_atom(c, (b,)), True, False),) if c > 1 else ()
                k, x = word_mul(L, S)
                k2, x = word_mul(x, R)
                o[a, b] = mx_scalar(Mx((1, 1), {x: k * k2}))
        mid = Ar(o)
        A = explode_word(w[:i]) if i else None
        A = mid if A is None else ar_dot(A, mid)
        return A if j + 1 == len(w) else ar_dot(A, explode_word(w[j + 1:]))
    for f in w:
        B = factor_cells(f)
        A = B if A is None else ar_dot(A, B)
    return A


_explode_cache = {}


def explode(m):
    if isinstance(m, Ar):
        return m
    if not all(isinstance(d, int) for d in m.shape):
        raise Unsupported('symbolic shape')
    if m in _explode_cache:
        return _explode_cache[m]
    full = m.shape if len(m.shape) == 2 else (m.shape[0], 1)
    out = ar_zeros(full)
    for w, c in m.t.items():
        A = explode_word(w) if w else ar_eye(full[0])
        if A.shape != full:
            raise Unsupported('shape confusion %s %s' % (A.shape, full))
        out = ar_bin(lambda x, y: x + c * y, out, A)
    if len(m.shape) == 1:
        out = Ar(out.c.reshape(m.shape))
    _explode_cache[m] = out
    return out


def adjoint(H):
    """Ad of a displacement (Mx product of SE3 atoms, or Ar)."""
    if isinstance(H, Ar):
        return ar_adjoint(H)
    if len(H.t) == 1:
        (w, c), = H.t.items()
        if c == S1 and all(f[0].meta.get('grp') in ('SE3', 'lit') and not f[1]
                           for f in w):
            out = Mx((6, 6), {(): S1})
            for a, t, i in w:
                if a.meta['grp'] == 'lit':
                    if i:
                        raise Unsupported('inverse literal pose')
                    out = mx_dot(out, lit_of(ar_adjoint(a.args[0])))
                else:
                    ad = atom('ad', mx_of(a), shape=(6, 6), grp='AD')
                    out = mx_dot(out, Mx((6, 6), {((ad, False, i),): S1}))
            return out
    if all(isinstance(d, int) for d in H.shape):
        return ar_adjoint(explode(H))
    raise Unsupported('adjoint of %r' % H)


def se3_inv(H):
    if isinstance(H, Ar):
        return ar_se3_inv(H)
    if len(H.t) == 1:
        (w, c), = H.t.items()
        if c == S1 and all(f[0].meta.get('grp') in ('SE3', 'lit') and not f[1]
                           for f in w):
            out = []
            for a, t, i in reversed(w):
                if a.meta['grp'] == 'lit':
                    m = lit_of(ar_se3_inv(a.args[0]))
                    (v, k), = m.t.items()
                    out.extend(v)
                else:
                    out.append((a, t, not i))
            k, x = word_mul((), tuple(out))
            return Mx((4, 4), {x: k})
    return ar_se3_inv(explode(H))


# ----------------------------------------------------------------- Phi nodes
def hkey(v):
    if isinstance(v, (Sx, Ar, Mx)):
        return hash(v.key)
    if isinstance(v, (Atom, Phi, bool, int, str, float, Fraction, type(None))):
        return hash(v)
    if isinstance(v, tuple):
        return hash(tuple(hkey(x) for x in v))
    return hash(type(v))


class Phi(object):
    __slots__ = ('a', 'hi', 'lo', 'h')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or isinstance(o, Phi) and self.h == o.h and same(self, o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '{%r ? %r : %r}' % (self.a, self.hi, self.lo)


def same(x, y):
    """cheap identity of two abstract values (used for sharing only)"""
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, (bool, int, str, float, Fraction, type(None))):
        return x == y
    if isinstance(x, (Sx, Ar, Mx)):
        return x.key == y.key
    if isinstance(x, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, Phi):
        return x.a is y.a and same(x.hi, y.hi) and same(x.lo, y.lo)
    if hasattr(x, 'samekey') and hasattr(y, 'samekey'):
        return x.samekey() == y.samekey()
    return False


def phi(a, hi, lo):
    if same(hi, lo):
        return hi
    p = Phi()
    p.a = a
    p.hi = hi
    p.lo = lo
    p.h = hash((a, hkey(hi), hkey(lo)))
    return p


def lift(f, *args):
    """apply f under the gates of its arguments."""
    top = None
    for x in args:
        if isinstance(x, Phi) and (top is None or x.a.id < top.id):
            top = x.a
    if top is None:
        return f(*args)
    return phi(top, lift(f, *[cof(x, top, True) for x in args]),
               lift(f, *[cof(x, top, False) for x in args]))


def cof(x, a, v):
    if isinstance(x, Phi) and x.a is a:
        return x.hi if v else x.lo
    return x


def restrict(x, a, v):
    """cofactor anywhere in the diagram"""
    if not isinstance(x, Phi):
        return x
    if x.a is a:
        return x.hi if v else x.lo
    return phi(x.a, restrict(x.hi, a, v), restrict(x.lo, a, v))


def cond(a):
    return phi(a, True, False)


def b_not(c):
    return lift(lambda x: not x, c)


def b_and(c, d):
    if c is True:
        return d
    if d is True:
        return c
    if c is False or d is False:
        return False
    return lift(lambda x, y: x and y, c, d)


def b_or(c, d):
    if c is False:
        return d
    if d is False:
        return c
    if c is True or d is True:
        return True
    return lift(lambda x, y: x or y, c, d)


def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if same(x, y):
        return x
    return lift(lambda k, p, q: p if k else q, c, x, y)


def under(x, pc):
    """simplify x knowing pc (a boolean diagram that is not False)."""
    if pc is True or not isinstance(x, Phi):
        return x
    if isinstance(pc, Phi):
        if pc.a.id < x.a.id:
            if pc.hi is False:
                return under(x, pc.lo)
            if pc.lo is False:
                return under(x, pc.hi)
            h, l = under(x, pc.hi), under(x, pc.lo)
            return h if same(h, l) else x
        if pc.a is x.a:
            if pc.hi is False:
                return under(x.lo, pc.lo)
            if pc.lo is False:
                return under(x.hi, pc.hi)
            return phi(x.a, under(x.hi, pc.hi), under(x.lo, pc.lo))
        return phi(x.a, under(x.hi, pc), under(x.lo, pc))
    return x


def leaves(x, path=()):
    if isinstance(x, Phi):
        for r in leaves(x.hi, path + ((x.a, True),)):
            yield r
        for r in leaves(x.lo, path + ((x.a, False),)):
            yield r
    else:
        yield path, x


def strip_pos(d):
    """a simpler expression with the sign of d"""
    if d.d != {ONE: Fraction(1)}:
        s = p_sign(d.d)
        if s == 2:
            d = Sx(d.n)
        elif s is None and p_sign(dict((m, -c) for m, c in d.d.items())) == 2:
            d = -Sx(d.n)
    if d.d != {ONE: Fraction(1)} or not d.n or ONE in d.n:
        return d
    com = None
    for m in d.n:
        e = dict(m)
        com = e if com is None else dict((a, min(k, e[a])) for a, k in com.items() if a in e)
        if not com:
            return d
    com = dict((a, k) for a, k in com.items() if pos_atom(Atom.all[a]))
    if not com:
        return d
    out = {}
    for m, c in d.n.items():
        out[tuple((a, k - com.get(a, 0)) for a, k in m if k != com.get(a, 0))] = c
    return Sx(out)


def _count_cond(op, d):
    """comparisons of the size of a collection with 0, as quantifiers"""
    if d.d != {ONE: Fraction(1)} or not 1 <= len(d.n) <= 2:
        return None
    ms = [m for m in d.n if m != ONE]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    a = Atom.all[ms[0][0][0]]
    if a.kind != 'sum' or not isinstance(a.args[2], Sx) or a.args[2] != S1:
        return None
    k, c = d.n[ms[0]], d.n.get(ONE, 0)
    from loops import exists
    some = lambda: exists(a.args[0], a.args[1], a.args[3] if len(a.args) > 3 else True)
    t = -c / k          # count op t (or the reverse)
    if op == '==' or op == '!=':
        if t == 0:
            return some() if op == '!=' else b_not(some())
        return None
    # k (count - t) > 0 or >= 0
    if k > 0:
        if t < 0 or (t == 0 and op == '>='):
            return True
        if t == 0 or (t == 1 and op == '>=') or (0 < t < 1):
            return some()
    else:
        if t < 0 or (t == 0 and op == '>'):
            return False
        if t == 0 or (t == 1 and op == '>') or (0 < t < 1):
            return b_not(some())
    return None


def cmp_cond(op, x, y):
    """canonical condition for a comparison of two scalars."""
    d = strip_pos(x - y)
    c = d.const()
    if c is not None:
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    if op in ('<', '<='):
        d = -d
        op = '>' if op == '<' else '>='
    r = _count_cond(op, d)
    if r is not None:
        return r
    g = sign_of(d)
    if g is not None:
        if g == 2 and op in ('>', '>=', '!='):
            return True
        if g == 2 and op == '==':
            return False
        if g == 1 and op == '>=':
            return True
        if g == -2:
            return op == '!='
        if g == -1 and op == '>':
            return False
    if op in ('>', '>='):
        r = _abs_cond(op, d)
        if r is not None:
            return r
    s = _lead_sign(d)
    if op in ('==', '!='):
        if s < 0:
            d = -d
        r = cond(atom('eq0', d))
        return r if op == '==' else b_not(r)
    if s > 0:
        return cond(atom('gt0' if op == '>' else 'ge0', d))
    # -e > 0  <=> not (e >= 0)
    return b_not(cond(atom('ge0' if op == '>' else 'gt0', -d)))


def _abs_cond(op, d):
    """k|x| + rest > 0 without the absolute value, when it is the only one"""
    if d.d != {ONE: Fraction(1)}:
        return None
    found = None
    for m in d.n:
        for a, e in m:
            if Atom.all[a].kind == 'abs':
                if found is not None or len(m) != 1 or e != 1:
                    return None
                found = m
    if found is None:
        return None
    k = d.n[found]
    x = Sx({ONE: k}) * Atom.all[found[0][0]].args[0]
    rest = Sx(dict((m, c) for m, c in d.n.items() if m != found))
    f = b_and if k < 0 else b_or
    return f(cmp_cond(op, rest + x, S0), cmp_cond(op, rest - x, S0))


def _affine(d):
    """d = k * f + c with f normalised: (f, k, c), or None"""
    if d.d != {ONE: Fraction(1)}:
        return None
    c = d.n.get(ONE, Fraction(0))
    rest = dict((m, v) for m, v in d.n.items() if m != ONE)
    if not rest:
        return None
    k = p_lead(rest)
    f = Sx(dict((m, v / k) for m, v in rest.items()))
    return f, k, c


_lins = {}


def _lin_form(d, strict):
    """d > 0 (or >= 0) as a normalised integer linear form over monomials"""
    if d.d != {ONE: Fraction(1)}:
        return None
    c = d.n.get(ONE, Fraction(0))
    vs = sorted((m, k) for m, k in d.n.items() if m != ONE)
    return _scaled(vs, c, strict)


def _scaled(vs, c, strict):
    if not vs:
        return (), c, strict
    k = abs(vs[0][1])
    if k != 1:
        vs = [(m, x / k) for m, x in vs]
        c = c / k
    return tuple(vs), c, strict


def _lin_lit(a, v):
    """linear forms known positive when the condition a has the value v"""
    r = _lins.get((a, v))
    if r is None:
        x = a.args[0]
        if a.kind == 'gt0':
            fs = [(x, True)] if v else [(-x, False)]
        elif a.kind == 'ge0':
            fs = [(x, False)] if v else [(-x, True)]
        elif a.kind == 'eq0' and v:
            fs = [(x, False), (-x, False)]
        else:
            fs = []
        r = [f for f in (_lin_form(d, s) for d, s in fs) if f is not None]
        _lins[(a, v)] = r
    return r


_vsign = {}


def _var_facts(m):
    """what is known of a monomial"""
    r = _vsign.get(m)
    if r is None:
        s = p_sign({m: Fraction(1)})
        r = [] if s is None else [(((m, Fraction(1)),), Fraction(0), s == 2)]
        if len(m) == 1 and m[0][1] == 1 and Atom.all[m[0][0]].kind == 'abs':
            y = sx_atom(Atom.all[m[0][0]])
            x = Atom.all[m[0][0]].args[0]
            r += [f for f in (_lin_form(y - x, False), _lin_form(y + x, False)) if f]
        _vsign[m] = r
    return r


def _known(facts, f):
    """add a form to the known ones, keeping the strongest; True if useful"""
    vs, c, strict = f
    o = facts.get(vs)
    if o is not None and (o[0] < c or (o[0] == c and (o[1] or not strict))):
        return False
    facts[vs] = (c, strict)
    return True


def _no_solution(forms, limit=500):
    """Fourier-Motzkin elimination finds the linear forms incompatible"""
    facts, work, seen = {}, list(forms), set()
    while work:
        f = work.pop()
        if not f[0]:
            if f[1] < 0 or (f[1] == 0 and f[2]):
                return True
            continue
        _known(facts, f)
        for m, _ in f[0]:
            if m not in seen:
                seen.add(m)
                work += _var_facts(m)
    while facts:
        count = {}
        for vs in facts:
            for m, k in vs:
                n = count.setdefault(m, [0, 0])
                n[k > 0] += 1
        m = min(count, key=lambda x: (count[x][0] * count[x][1], count[x][0] + count[x][1]))
        pos, neg, rest = [], [], {}
        for vs, (c, s) in facts.items():
            k = dict(vs).get(m)
            if k is None:
                rest[vs] = (c, s)
            else:
                (pos if k > 0 else neg).append((dict(vs), abs(k), c, s))
        for v1, k1, c1, s1 in pos:
            for v2, k2, c2, s2 in neg:
                out = {}
                for v, k in ((v1, k2), (v2, k1)):
                    for x, q in v.items():
                        q = out.get(x, 0) + q * k
                        if q:
                            out[x] = q
                        else:
                            del out[x]
                c, st = c1 * k2 + c2 * k1, s1 or s2
                if not out:
                    if c < 0 or (c == 0 and st):
                        return True
                    continue
                _known(rest, _scaled(sorted(out.items()), c, st))
                if len(rest) > limit:
                    return False
        facts = rest
    return False


_contra = {}
NEQ = []


def assume_nonzero(ds):
    """expressions that do not vanish, for the comparisons that follow"""
    NEQ[:] = [(_lin_form(d, True), _lin_form(-d, True)) for d in ds]
    _contra.clear()


def contradictory(path, extra=()):
    """the linear inequalities of the path, and the known signs, exclude each
    other"""
    lits = frozenset((a, v) for a, v in path
                     if a.kind in ('gt0', 'ge0') or (a.kind == 'eq0' and v))
    if not lits and not extra:
        return False
    if not extra and lits in _contra:
        return _contra[lits]
    forms = [f for a, v in sorted(lits, key=lambda t: t[0].id) for f in _lin_lit(a, v)]
    forms += extra
    r = _no_solution(forms) if len(forms) < 60 else False
    if not r and lits and NEQ and len(forms) < 60:
        # an expression known not to vanish is squeezed between 0 and 0
        r = any(_no_solution(forms + [p]) and _no_solution(forms + [n])
                for p, n in NEQ)
    if not extra:
        _contra[lits] = r
    return r


def path_sign(x, path):
    """sign of a linear expression known on the path: 1 (>= 0), -1 or None"""
    f = _lin_form(-x, True)
    if f is None:
        return None
    if contradictory(path, [f]):
        return 1
    return -1 if contradictory(path, [_lin_form(x, True)]) else None


def without_abs(v, path):
    """the value with the absolute values whose sign the path decides"""
    mp = {}
    for a in abs_in(v):
        s = path_sign(a.args[0], path)
        if s:
            mp[a] = a.args[0] if s > 0 else -a.args[0]
    return subst(v, mp) if mp else v


_absin = {}


def abs_in(v):
    """absolute values occurring anywhere in a value"""
    if isinstance(v, Atom):
        r = _absin.get(v)
        if r is None:
            r = frozenset([v]) if v.kind == 'abs' else frozenset()
            for x in v.args:
                r |= abs_in(x)
            _absin[v] = r
        return r
    if isinstance(v, Sx):
        return frozenset().union(*[abs_in(a) for a in v.atoms()])
    if isinstance(v, Ar):
        return frozenset().union(*[abs_in(x) for x in v.c.flat])
    if isinstance(v, Mx):
        return frozenset().union(*[abs_in(c) for c in v.t.values()],
                                 *[abs_in(a) for w in v.t for a, _, _ in w])
    if isinstance(v, tuple):
        return frozenset().union(*[abs_in(x) for x in v])
    return frozenset()


def infeasible(c, limit=3000):
    """every way to satisfy the condition is contradictory"""
    if c is False:
        return True
    n = 0
    for p, l in leaves(c):
        n += 1
        if n > limit:
            return False
        if l is True and consistent(p) and not contradictory(p):
            return False
    return True


def same_texts(texts):
    """equalities between strings: closed by transitivity, they must leave
    different texts apart"""
    up = {}

    def root(x):
        while x in up:
            x = up[x]
        return x
    for x, y, v in texts:
        if v:
            x, y = root(x), root(y)
            if x is not y and x != y:
                if isinstance(x, str):
                    if isinstance(y, str):
                        return False
                    x, y = y, x
                up[x] = y
    return not any(root(x) is root(y) or root(x) == root(y) for x, y, v in texts if not v)


def consistent(path):
    """syntactic feasibility of a set of condition literals: interval
    reasoning on each linear form that is compared with constants"""
    iv = {}     # form -> [lo, lo strict, hi, hi strict, [excluded]]
    texts = []
    for a, v in path:
        if a.kind not in ('gt0', 'ge0', 'eq0'):
            if a.kind == 'streq':
                texts.append((a.args[0], a.args[1], v))
            continue
        r = _affine(a.args[0])
        if r is None:
            f, k, c = a.args[0], Fraction(1), Fraction(0)
        else:
            f, k, c = r
        t = -c / k          # k f + c > 0  <=>  f > t (k > 0)
        op = a.kind
        if op != 'eq0':
            if not v:       # not (x > 0) = x <= 0
                up, strict = True, op == 'ge0'
            else:
                up, strict = False, op == 'gt0'
            if k < 0:
                up = not up
        # sqrt(p) against a constant: compare p with its square
        at = _single(f)
        if at is not None and at.kind == 'sqrt' and at.args[0].d == {ONE: Fraction(1)}:
            if t < 0:
                if op == 'eq0':
                    if v:
                        return False
                    continue
                if up:
                    return False
                continue
            p = at.args[0]
            q = _affine(p)
            if q is not None and q[1] > 0:
                f, t = q[0], (t * t - q[2]) / q[1]
        e = iv.setdefault(f, [None, False, None, False, []])
        if op == 'eq0':
            if v:
                for lo in (True, False):
                    _tighten(e, t, False, lo)
            else:
                e[4].append(t)
        else:
            _tighten(e, t, strict, not up)
    if len(texts) > 1 and not same_texts(texts):
        return False
    for f, (lo, ls, hi, hs, ex) in iv.items():
        if f.d == {ONE: Fraction(1)} and p_nonneg(f.n):
            if lo is None or lo < 0:
                lo, ls = Fraction(0), False
        if lo is not None and hi is not None:
            if lo > hi or lo == hi and (ls or hs or lo in ex):
                return False
    return True


def _tighten(e, t, strict, lower):
    i = 0 if lower else 2
    if e[i] is None or (t > e[i] if lower else t < e[i]) or (t == e[i] and strict):
        e[i], e[i + 1] = t, strict


# -------------------------------------------------------------------- models
class NoModel(Exception):
    pass


class Model(object):
    """A ground interpretation of the atoms (structure preserving).

    dims: symbolic dimension -> int.  Every atom gets a value lazily, drawn
    according to its group (displacements, rotations, symmetric positive...).
    """

    def __init__(self, rng, ncoll=3, mode=0):
        self.rng = rng
        self.mode = mode
        self.ncoll = ncoll
        self.val = {}
        self.nan = False
        self.bind = {}
        self.fix = {}
        self.null = (0., .75)[int(rng.integers(2))] if mode == 5 else 0.

    # -- helpers
    def dim(self, d):
        if isinstance(d, int):
            return d
        if isinstance(d, Atom):
            h = d.meta.get('dimval')
            if h is not None:
                return h(self, d)
            return 2
        if isinstance(d, tuple) and d and d[0] == 'sum':
            return sum(self.dim(x) for x in d[1:])
        if isinstance(d, tuple) and d and d[0] == 'diff':
            return self.dim(d[1]) - self.dim(d[2])
        if isinstance(d, Sx):
            return int(round(self.sx(d)))
        if d in ('N',):
            return 2 * self.ncoll + 1
        if d == 'L':
            return 2 * self.ncoll + 2
        return 3

    def bkey(self, a):
        return a

    def draw(self, a, n):
        """n random numbers for the atom; attributes of objects are functions
        of the object (so that two names of one object agree)"""
        if a is not None and a.kind in ('attr', 'ver', 'flag', 'isnone'):
            return self.opaque((a.kind, a.args[1:2], 'draw'), [self.value(x) for x in a.args], (n,))
        if self.mode == 5:
            # remarkable values, where equality gates open
            c = np.array([0., 1., -1., 2., .5, 0., math.pi / 2, -math.pi / 2, math.pi])
            r = self.rng.choice(c[:9 if n == 1 else 6], size=n)
            r = np.where(self.rng.random(size=n) < .3, self.rng.normal(size=n), r)
            if self.null:
                r = np.where(self.rng.random(size=n) < self.null, 0., r)
            return r
        return self.rng.normal(size=n)

    def rot(self, a=None):
        q = self.draw(a, 4)
        if self.mode == 5 and not (q - np.round(q)).any():
            q = np.round(q)
        if np.linalg.norm(q) < 1e-3:
            q = q + .1
        q = q / np.linalg.norm(q)
        w, x, y, z = q
        return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                         [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

    def scale(self, a=None):
        # attributes are functions of their object and its state, their magnitude too
        if a is not None and a.kind in ('attr', 'ver'):
            k = ('scale', a.kind, a.args[1])
            if k not in self.val:
                self.val[k] = self.scale()
            return self.val[k]
        m = self.mode
        if m in (0, 5):
            return 1.
        r = self.rng.random()
        if m == 1:
            return 1e-4
        if m == 6:
            return 1. if r < .4 else 1e-4 if r < .7 else 1e-7
        if m == 2:
            return 10. ** self.rng.integers(-3, 3)
        if m == 3:
            return 0. if r < .3 else 1.
        return 1. if r < .7 else 1e-7

    def envkey(self, a):
        """atom plus the instances its bound elements refer to"""
        fv = free_elems(a)
        if not fv:
            return a
        return (a, tuple((e.id, self.bindkey(e)) for e in sorted(fv, key=lambda z: z.id)))

    def mat(self, a):
        k = self.envkey(a)
        if k in self.val:
            return self.val[k]
        v = self._mat(a)
        self.val[k] = v
        return v

    def _mat(self, a):
        g = a.meta.get('grp')
        if g == 'lit':
            return self.arr(a.args[0])
        if g == 'sel':
            n, idx = a.args
            n = self.dim(n)
            if isinstance(idx, tuple):
                rows = list(idx)
            else:
                rows = idx.rows(self, n)
            o = np.zeros((len(rows), n))
            for i, r in enumerate(rows):
                o[i, r] = 1.
            return o
        if a.kind == 'ad':
            return np_adjoint(self.mx(a.args[0]))
        if a.kind == 'inv':
            return np.linalg.inv(self.mx(a.args[0]))
        h = a.meta.get('interp')
        if h is not None:
            return h(self, a)
        if a.kind == 'sum':
            return self.sum(a)
        if g == 'SE3':
            H = np.eye(4)
            q = self.draw(a, 7)
            H[:3, :3] = self.rot(a)
            H[:3, 3] = q[4:]
            return H
        if g == 'ROT':
            return self.rot(a)
        r, c = a.meta['shape']
        r, c = self.dim(r), self.dim(c)
        if g == 'MASS':
            q = self.draw(a, 9)
            m = abs(q[4]) + .3
            p = q[5:8]
            I = 1. + abs(q[8])
            if self.mode in (3, 4):
                I, p = 0., p * (self.mode == 3)
            R = self.rot(a)
            A = np_adjoint(np.block([[R, p.reshape(3, 1)], [np.zeros((1, 3)), np.ones((1, 1))]]))
            D = np.diag([1., 1.3, 1.7, 0, 0, 0]) * I + np.diag([0, 0, 0, m, m, m])
            return A.T.dot(D).dot(A)
        if g == 'sym' or a.meta.get('spd'):
            X = self.draw(a, r * r).reshape(r, r)
            return X.dot(X.T) + np.eye(r)
        if a.meta.get('unit'):
            v = self.draw(a, r * c).reshape(r, c)
            if self.mode == 3:
                k = ('unitmask', a.args[1] if a.kind == 'attr' else a, r, c)
                if k not in self.val:
                    self.val[k] = self.rng.random(size=(r, c)) > .4
                v = v * self.val[k]
                if not v.any():
                    v[0] = 1.
            return v / np.linalg.norm(v)
        s = self.scale(a)
        return self.draw(a, r * c).reshape(r, c) * s

    def sum(self, a):
        coll, el, body = a.args[0], a.args[1], a.args[2]
        n = self.count(coll)
        old = self.bind.get(el)
        tot = None
        for k in self.indices(coll):
            self.bind[el] = k
            g = a.args[3] if len(a.args) > 3 else True
            if not self.bool(g):
                continue
            v = np.asarray(self.value(body), dtype=float)
            tot = v if tot is None else tot + v
        if old is None:
            self.bind.pop(el, None)
        else:
            self.bind[el] = old
        if tot is None:
            sh = a.meta.get('shape')
            tot = np.zeros([self.dim(d) for d in sh]) if sh else 0.
        if a.meta.get('shape') and np.ndim(tot) == 1:
            tot = tot.reshape(-1, 1)
        return tot

    def count(self, coll):
        return len(self.indices(coll))

    def indices(self, coll):
        if coll.kind == 'spectrum':
            return range(self.dim(coll.args[0].shape[0]))
        if coll.kind == 'rangec':
            n = int(round(self.sx(coll.args[0])))
            if n > 40:
                raise NoModel('long range')
            return range(max(n, 0))
        return range(self.ncoll)

    def mx(self, m):
        full = m.shape if len(m.shape) == 2 else (m.shape[0], 1)
        out = np.zeros([self.dim(d) for d in full])
        for w, c in m.t.items():
            A = None
            for a, t, i in w:
                B = self.mat(a)
                if i:
                    B = np.linalg.inv(B)
                if t:
                    B = B.T
                A = B if A is None else A.dot(B)
            if A is None:
                A = np.eye(out.shape[0])
            out = out + self.sx(c) * A
        if len(m.shape) == 1:
            out = out.reshape(-1)
        return out

    def arr(self, A):
        o = np.empty(A.c.shape)
        for i, x in np.ndenumerate(A.c):
            o[i] = self.sx(x)
        return o

    def poly(self, p):
        r = 0.
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(Atom.all[a]) ** e
            r += v
        return r

    def sx(self, x):
        d = self.poly(x.d)
        n = self.poly(x.n)
        if d == 0:
            raise NoModel('division by zero')
        return n / d

    def atom(self, a):
        k = self.envkey(a)
        if k in self.val:
            return self.val[k]
        s = self.fix.get(a)
        v = self.sx(s) if s is not None else self._atom(a)
        self.val[k] = v
        return v

    def _atom(self, a):
        if a.kind == 'sin':
            return math.sin(self.sx(a.args[0]))
        if a.kind == 'cos':
            return math.cos(self.sx(a.args[0]))
        if a.kind == 'sqrt':
            v = self.sx(a.args[0])
            if v < 0:
                if v > -1e-9:
                    return 0.
                raise NoModel('sqrt')
            return math.sqrt(v)
        if a.kind == 'abs':
            return abs(self.sx(a.args[0]))
        if a.kind == 'el':
            return self.mat(a.args[0])[tuple(a.args[1:])]
        if a.kind == 'sc':
            A = None
            for b, t, i in a.args[0]:
                B = self.mat(b)
                if i:
                    B = np.linalg.inv(B)
                if t:
                    B = B.T
                A = B if A is None else A.dot(B)
            return float(A[0, 0])
        if a.kind == 'sum':
            return float(self.sum(a))
        if a.kind == 'fn':
            return self.fn(a)
        h = a.meta.get('interp')
        if h is not None:
            return h(self, a)
        if 'value' in a.meta:
            return a.meta['value']
        if a.meta.get('pos'):
            k = self.scale(a) or 1.
            return (abs(self.draw(a, 1)[0]) + 1e-3) * k
        if a.meta.get('int'):
            return float(int(abs(self.draw(a, 1)[0] * 97)) % (8 if self.mode == 4 else 3) + a.meta.get('lo', 0))
        return self.draw(a, 1)[0] * self.scale(a)

    def fn(self, a):
        name = a.args[0]
        xs = []
        for x in a.args[1:]:
            xs.append(self.value(x))
        f = NUMFN.get(name)
        if f is None:
            return self.opaque((name,), xs)
        try:
            return f(*xs)
        except NoModel:
            raise
        except Exception as e:
            raise NoModel(str(e))

    def opaque(self, name, xs, shape=None):
        """smooth pseudo-random function of the (numeric) arguments"""
        flat = []
        tag = [repr(name)]

        def walk(x):
            if isinstance(x, (list, tuple)):
                tag.append('(')
                for y in x:
                    walk(y)
            elif isinstance(x, str) or x is None:
                tag.append(repr(x))
            else:
                x = np.asarray(x, dtype=float)
                tag.append(str(x.size))
                flat.extend(x.reshape(-1))
        walk(xs)
        k = ('opq', tuple(tag), shape)
        if k not in self.val:
            n = 1 if shape is None else int(np.prod(shape))
            self.val[k] = (self.rng.normal(size=(n, len(flat))),
                           self.rng.normal(size=n) * 2)
        A, b = self.val[k]
        v = np.asarray(flat, dtype=float)
        if not np.isfinite(v).all():
            raise NoModel('overflow')
        v = v / (1. + np.abs(v))
        r = 1.3 * np.sin((A.dot(v) if v.size else 0.) + b)
        return float(r[0]) if shape is None else r.reshape(shape)

    def bool(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        if isinstance(c, Phi):
            return self.bool(c.hi if self.catom(c.a) else c.lo)
        raise NoModel('condition %r' % (c,))

    def catom(self, a):
        k = self.envkey(a)
        z = 1e-13 if self.mode == 5 else 0.
        if a.kind in ('gt0', 'ge0', 'eq0'):
            v = self.sx(a.args[0])
            if v != v:
                raise NoModel('nan compared')
            return v > z if a.kind == 'gt0' else v >= -z if a.kind == 'ge0' else abs(v) < 1e-12
        h = a.meta.get('interp')
        if h is not None:
            return h(self, a)
        if a.kind == 'streq':
            return self.string(a.args[0], a.args[1]) == self.string(a.args[1], a.args[0])
        if k not in self.val:
            self.val[k] = bool(self.draw(a, 1)[0] < self.bias(a))
        return self.val[k]

    def bias(self, a):
        """in some models most objects answer alike"""
        if a.kind != 'flag' or len(a.args) < 2:
            return .3
        k = ('bias', a.args[1])
        if k not in self.val:
            self.val[k] = (.3, .3, 1.1, -.8)[int(self.rng.integers(4))]
        return self.val[k]

    def string(self, x, other=None):
        """the text of a string term in this model"""
        if isinstance(x, str):
            return x
        if not isinstance(x, Atom):
            x = x.key
        if x.kind == 'strcat':
            return ''.join(self.string(p) for p in x.args[0])
        k = ('text', self.envkey(x))
        if k not in self.val:
            if x.kind in ('id', 'hex', 'hash', 'str') or x.kind.startswith('str'):
                v = '<%s %r>' % (x.kind, [self.strarg(p) for p in x.args])
            else:
                pool = ['', 's', 't', 'u']
                if isinstance(other, str):
                    pool += [other] * 4
                elif other is not None and ('text', self.envkey(other)) in self.val:
                    pool += [self.string(other)] * 2
                v = pool[int(self.rng.integers(len(pool)))]
            self.val[k] = v
        return self.val[k]

    def strarg(self, x):
        if isinstance(x, Atom) and (x.kind.startswith('str') or ('text', self.envkey(x)) in self.val):
            return self.string(x)
        if isinstance(x, (tuple, list)):
            return [self.strarg(y) for y in x]
        if isinstance(x, (str, int, float)) or x is None:
            return x
        try:
            v = self.value(x)
        except NoModel:
            return repr(x)
        return round(v, 9) if isinstance(v, float) else repr(v)

    def value(self, v):
        if isinstance(v, Phi):
            return self.value(v.hi if self.catom(v.a) else v.lo)
        if isinstance(v, Sx):
            return self.sx(v)
        if isinstance(v, Ar):
            return self.arr(v)
        if isinstance(v, Mx):
            return self.mx(v)
        if isinstance(v, (bool, int, float, Fraction)):
            return float(v)
        if isinstance(v, str):
            return v
        if isinstance(v, (tuple, list)):
            return [self.value(x) for x in v]
        if isinstance(v, Atom):
            return self.token(v)
        if v is None:
            return None
        h = getattr(v, 'model_value', None)
        if h is not None:
            return h(self)
        raise NoModel('value %r' % (v,))

    def token(self, a):
        """a number identifying a version token / object in this model"""
        k = self.envkey(a)
        if k in self.val:
            return self.val[k]
        if a.kind == 'elem':
            k = self.bindval(a)
            v = (-1.7, .4, 3.1, -.5, 1.2)[k] if 0 <= k < 5 else 10. + 3. * k
        elif a.kind == 'ph':
            v = self.bindval(a)
        elif 'shape' in a.meta:
            v = self.mat(a)
        elif a.meta.get('interp') is not None:
            v = a.meta['interp'](self, a)
        else:
            v = self.opaque(a.kind, [self.value(x) for x in a.args])
            if self.mode == 6 and a.kind == 'ver':
                v = 1. + 1e-5 * v       # successive states that almost coincide
        self.val[k] = v
        return v

    def bindval(self, e):
        v = self.bind.get(e)
        if v is None:
            return 0
        return v[1] if isinstance(v, tuple) else v

    def bindkey(self, e):
        v = self.bind.get(e, 0)
        return v[0] if isinstance(v, tuple) else v

    def setph(self, ph, value):
        self.tok = getattr(self, 'tok', 0) + 1
        self.bind[ph] = (('t', self.tok), value)


def np_adjoint(H):
    R, p = H[:3, :3], H[:3, 3]
    A = np.zeros((6, 6))
    A[:3, :3] = A[3:, 3:] = R
    A[3:, :3] = np.array([[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]]).dot(R)
    return A


def clip1(x):
    return math.copysign(1., x) if 1. < abs(x) < 1. + 1e-12 else x


def single(x):
    """single precision, three bits coarser than it is: its error then stands out of that of
    the valuation itself"""
    m, e = np.frexp(x)
    return np.ldexp(np.round(m * 2 ** 21) / 2 ** 21, e)


NUMFN = {
    'arctan2': math.atan2,
    'arctan': math.atan,
    'arcsin': lambda x: math.asin(clip1(x)),
    'arccos': lambda x: math.acos(clip1(x)),
    'tan': math.tan,
    'exp': math.exp,
    'floor': math.floor,
    'ceil': math.ceil,
    'floordiv': lambda x, y: float(x // y),
    'max': max,
    'min': min,
    'sign': lambda x: float(np.sign(x)),
    'mod': lambda x, y: x % y,
    'powr': lambda x, y: x ** y,
    'det': lambda A: float(np.linalg.det(A)),
    'norm': lambda A: float(np.linalg.norm(A)),
    'amax': lambda A: float(np.max(A)),
    'amin': lambda A: float(np.min(A)),
    'asum': lambda A: float(np.sum(A)),
    'amean': lambda A: float(np.mean(A)),
    'single': lambda x: single(x),
    'half': lambda x: float(np.float16(x)),
    'trunc': lambda x: float(math.trunc(x)),
    'roundto': lambda x, n: float(round(x, int(n))),
}

_fe = {}
# kinds with a bound element in args[1], bound in args[2:n]
BINDS = {'sum': 4, 'exists': 4, 'prefix': 4, 'first': 4, 'extr': 4}


class NoSubst(Unsupported):
    pass


def subst(x, mp):
    """replace atoms by atoms (or by values, for numeric atoms)"""
    if not mp:
        return x
    if isinstance(x, Atom):
        r = subst_atom(x, mp)
        return r
    if isinstance(x, Sx):
        if not any(touches(a, mp) for a in x.atoms()):
            return x

        def sp(p):
            r = S0
            for m, c in p.items():
                t = num(c)
                for a, e in m:
                    t = t * (atom_value(Atom.all[a], mp) ** e)
                r = r + t
            return r
        return sp(x.n) / sp(x.d)
    if isinstance(x, Ar):
        return ar_map(lambda c: subst(c, mp), x)
    if isinstance(x, Mx):
        if not any(touches(f[0], mp) for w in x.t for f in w) and \
                not any(touches_v(c, mp) for c in x.t.values()) and \
                not touches_v(x.shape, mp):
            return x
        shape = tuple(subst(d, mp) for d in x.shape)
        shape = tuple(int(d.const()) if isinstance(d, Sx) and d.const() is not None else d
                      for d in shape)
        out = Mx(shape, {})
        for w, c in x.t.items():
            m = None
            for a, t, i in w:
                b = mat_value(a, mp)
                if i:
                    b = mx_inv(b)
                if t:
                    b = mx_T(b)
                m = b if m is None else mx_dot(m, b)
            if m is None:
                m = mx_eye(shape[0])
            m = Mx(shape, m.t)
            out = mx_add(out, m, subst(c, mp))
        return out
    if isinstance(x, Phi):
        return ite(cond_value(x.a, mp), subst(x.hi, mp), subst(x.lo, mp))
    if isinstance(x, tuple):
        return tuple(subst(y, mp) for y in x)
    if isinstance(x, list):
        return [subst(y, mp) for y in x]
    h = getattr(x, 'subst', None)
    if h is not None:
        return h(lambda y: subst(y, mp))
    return x


def touches(a, mp):
    return bool(free_elems(a) & set(mp)) or a in mp or \
        any(k.kind not in ('elem', 'ph') for k in mp)


def touches_v(v, mp):
    if any(k.kind not in ('elem', 'ph') for k in mp):
        return True
    return bool(fe_of(v) & set(mp))


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if not touches(a, mp):
        return a
    n = BINDS.get(a.kind)
    if n is not None:
        e = a.args[1]
        inner = dict((k, v) for k, v in mp.items() if k is not e)
        for v in inner.values():
            if e in fe_of(v):
                raise NoSubst('capture')
        args = (subst(a.args[0], mp), e) + \
            tuple(subst(x, inner) for x in a.args[2:n]) + \
            tuple(subst(x, mp) for x in a.args[n:])
    else:
        args = tuple(subst(x, mp) for x in a.args)
    meta = dict(a.meta)
    if 'shape' in meta:
        meta['shape'] = tuple(subst(d, mp) for d in meta['shape'])
    if a.kind == 'sqrt':
        return sqrt(args[0])
    if a.kind == 'sin':
        return sin(args[0])
    if a.kind == 'cos':
        return cos(args[0])
    if a.kind == 'abs':
        return absx(args[0])
    if a.kind == 'inv':
        return mx_inv(args[0])
    if a.kind == 'el':
        b = args[0]
        if isinstance(b, Mx):
            return explode(b).c[tuple(args[1:])]
    if a.kind == 'lit':
        return lit_of(args[0])
    if a.kind == 'ad':
        return adjoint(args[0])
    if a.kind == 'sc':
        m = None
        for b, t, i in a.args[0]:
            B = mat_value(b, mp)
            if i:
                B = mx_inv(B)
            if t:
                B = mx_T(B)
            m = B if m is None else mx_dot(m, B)
        return mx_scalar(m)
    if a.kind in ('gt0', 'ge0', 'eq0'):
        return cmp_cond({'gt0': '>', 'ge0': '>=', 'eq0': '=='}[a.kind], args[0], S0)
    if a.kind == 'sum':
        from loops import close_sum
        return close_sum(args[0], args[1], args[3] if len(args) > 3 else True, args[2])
    return atom(a.kind, *args, **meta)


def atom_value(a, mp):
    r = subst_atom(a, mp)
    return sx_atom(r) if isinstance(r, Atom) else num(r)


def mat_value(a, mp):
    r = subst_atom(a, mp)
    return mx_of(r) if isinstance(r, Atom) else _as2(to_mx(r))


def cond_value(a, mp):
    r = subst_atom(a, mp)
    return cond(r) if isinstance(r, Atom) else r


def free_elems(a):
    """bound-element atoms occurring free in an atom"""
    r = _fe.get(a)
    if r is not None:
        return r
    if a.kind in ('elem', 'ph'):
        out = frozenset([a]) | frozenset(fe_of(a.args))
    else:
        out = set()
        n = BINDS.get(a.kind)
        for x in a.args if n is None else a.args[:1] + a.args[2:n]:
            out |= fe_of(x)
        if n is not None:
            out.discard(a.args[1])
            for x in a.args[n:]:
                out |= fe_of(x)
        for b in a.meta.get('binds', ()):
            out.discard(b)
        out = frozenset(out)
    _fe[a] = out
    return out


def fe_of(x):
    if isinstance(x, Atom):
        return free_elems(x)
    if isinstance(x, Sx):
        r = set()
        for a in x.atoms():
            r |= free_elems(a)
        return r
    if isinstance(x, Ar):
        r = set()
        for c in x.c.flat:
            r |= fe_of(c)
        return r
    if isinstance(x, Mx):
        r = set()
        for w, c in x.t.items():
            for f in w:
                r |= free_elems(f[0])
            r |= fe_of(c)
        for d in x.shape:
            r |= fe_of(d)
        return r
    if isinstance(x, Phi):
        return free_elems(x.a) | fe_of(x.hi) | fe_of(x.lo)
    if isinstance(x, (tuple, list)):
        r = set()
        for y in x:
            r |= fe_of(y)
        return r
    if hasattr(x, 'fe'):
        return x.fe()
    return set()


# -------------------------------------------------------------- comparisons
class Verdict(object):
    EQ, DIFF, UNK = 'equal', 'different', 'undecided'


def nf_equal(x, y):
    """normal forms coincide (phi-free numeric values)."""
    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
        x = num(x)
    if isinstance(y, (int, float, Fraction)) and not isinstance(y, bool):
        y = num(y)
    if isinstance(x, Sx) and isinstance(y, Sx):
        return x == y
    if isinstance(x, Ar) and isinstance(y, Ar):
        return x == y
    if isinstance(x, (Ar, Mx)) and isinstance(y, (Ar, Mx)):
        if isinstance(x, Mx) and isinstance(y, Mx) and x == y:
            return True
        if len(x.shape) != len(y.shape):
            return False
        try:
            return explode(x) == explode(y)
        except Unsupported:
            pass
        x, y = to_mx(x), to_mx(y)
        if x == y:
            return True
        d = mx_add(x, Mx(x.shape, y.t), num(-1))
        try:
            if tensor_nf(d) is None:
                return True
        except Unsupported:
            pass
        try:
            return sum_nf(d)
        except Unsupported:
            return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(nf_equal(a, b) for a, b in zip(x, y))
    return same(x, y)


def sum_nf(m):
    """is m zero, once the bodies of the sums over the same collection are
    added?"""
    acc, rest, found = {}, {}, False
    for w, c in m.t.items():
        ks = [i for i, f in enumerate(w) if f[0].kind == 'sum' and not f[2]]
        if len(ks) != 1:
            rest[w] = c
            continue
        i, = ks
        a, t, _ = w[i]
        k = (a.args[0], a.args[1], a.args[3:])
        b = _as2(a.args[2])
        b = mx_T(b) if t else b
        for side, fs in ((0, w[:i]), (1, w[i + 1:])):
            if fs:
                q = Mx((fshape(fs[0])[0], fshape(fs[-1])[1]), {fs: S1})
                if a.args[1] in fe_of(q):
                    raise Unsupported('bound element')
                b = mx_dot(b, q) if side else mx_dot(q, b)
        b = mx_scale(b, c)
        if k in acc:
            found = True
            acc[k] = mx_add(acc[k], b)
        else:
            acc[k] = b
    if not found:
        return False
    zero = lambda z: not z.t or nf_equal(z, mx_zero(z.shape))
    return all(zero(z) for z in acc.values()) and (not rest or zero(Mx(m.shape, rest)))


def tensor_nf(m):
    """None if m, whose words mix explicit and symbolic dimensions, is zero:
    explicit segments are expanded cell by cell, symbolic factors stay letters"""
    acc = {}
    for w, c in m.t.items():
        key, gaps = [], []
        seg = []
        first = _as2(m).shape[0]
        for f in w:
            r, k = fshape(f)
            if isinstance(r, int) and isinstance(k, int):
                seg.append(f)
                continue
            if isinstance(r, int):
                gaps.append((tuple(seg), r))
                key.append(('g', r))
            elif seg:
                raise Unsupported('segment')
            seg = []
            key.append((f[0].id, f[1], f[2]))
            first = k
        last = _as2(m).shape[1]
        if isinstance(first, int):
            gaps.append((tuple(seg), first))
            key.append(('g', first))
        elif seg:
            raise Unsupported('segment')
        T = None
        for seg, d in gaps:
            A = explode_word(seg) if seg else ar_eye(d)
            A = A.c
            T = A if T is None else np.multiply.outer(T, A)
            if T.size > 3000:
                raise Unsupported('tensor size')
        if T is None:
            T = np.empty((), dtype=object)
            T[()] = S1
        k = tuple(key)
        o = np.empty(T.shape, dtype=object)
        for i in np.ndindex(T.shape):
            o[i] = T[i] * c
        if k in acc and acc[k].shape == o.shape:
            p = acc[k]
            for i in np.ndindex(o.shape):
                o[i] = o[i] + p[i]
        elif k in acc:
            raise Unsupported('tensor shapes')
        acc[k] = o
    for o in acc.values():
        for x in o.flat:
            if not x.iszero():
                return acc
    return None


def close(x, y, nan=False):
    if x is None or y is None:
        return x is y
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(close(a, b, nan) for a, b in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    if nan and np.isnan(x).any() and np.isfinite(y).all():
        return False
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        raise NoModel('overflow')
    s = max(1e-12, np.abs(x).max() if x.size else 0, np.abs(y).max() if y.size else 0)
    return bool((np.abs(x - y) <= 1e-7 * s).all()) if x.size else True


MODES = (0, 6, 1, 2, 3, 4, 5, 5)


def compare(x, y, assume=True, tries=240, seed=1, setup=None):
    """EQ if the normal forms coincide under every feasible gate assignment,
    DIFF (with the gate assignment and a separating model index) if some model
    separates the terms, UNK otherwise."""
    bad = []

    def walk(a, b, pc, path):
        if pc is False or not consistent(path):
            return
        top = None
        for v in (a, b, pc):
            if isinstance(v, Phi) and (top is None or v.a.id < top.id):
                top = v.a
        if top is None:
            if not nf_equal(a, b) and not contradictory(path) and not nf_equal(
                    without_abs(a, path), without_abs(b, path)):
                bad.append((path, a, b))
            return
        if path and path[-1][0].kind in ('gt0', 'ge0', 'eq0') and contradictory(path):
            return
        for val in (True, False):
            walk(cof(a, top, val), cof(b, top, val), cof(pc, top, val),
                 path + ((top, val),))
    walk(x, y, assume, ())
    if not bad:
        return Verdict.EQ, None
    # separate by a model
    rng = np.random.default_rng(seed)
    fixes = [f for f in (solve_gates(p) for p, _, _ in bad[:12]) if f]
    plan = [(MODES[k % 8], fixes[(k // 2) % len(fixes)] if fixes and k % 2 else None)
            for k in range(tries)]
    for k, (mode, fix) in enumerate(plan):
        m = Model(rng, ncoll={5: 0, 7: 1}.get(k % 12, 2 + k % 2), mode=mode)
        m.fix = fix or {}
        if setup:
            setup(m)
        try:
            with np.errstate(all='ignore'):
                if assume is not True and not m.bool(assume):
                    continue
                a, b = m.value(x), m.value(y)
                if not close(a, b, m.nan):
                    return Verdict.DIFF, (bad[0], a, b)
        except (NoModel, np.linalg.LinAlgError, ZeroDivisionError,
                OverflowError, ValueError):
            continue
    return Verdict.UNK, bad[0]


def solve_gates(path):
    """values of free symbols that open the equality gates of a path"""
    fix = {}
    for a, v in path:
        if a.kind != 'eq0' or not v:
            continue
        p = a.args[0].n
        best = None
        for x in sorted({i for m in p for i, _ in m}):
            at = Atom.all[x]
            if at.kind != 'sym' or 'shape' in at.meta or 'value' in at.meta or at in fix:
                continue
            c, r, lin = {}, {}, True
            for m, k in p.items():
                e = dict(m).get(x, 0)
                if e > 1:
                    lin = False
                    break
                (c if e else r)[tuple(t for t in m if t[0] != x)] = k
            if not lin or not c:
                continue
            if at.meta.get('pos') and not r:
                continue
            sol = -Sx(r) / Sx(c) if r else num(0)
            if set(sol.atoms()) & set(fix):
                continue
            cost = (bool(at.meta.get('pos')), bool(r), len(c))
            if best is None or cost < best[0]:
                best = (cost, at, sol)
        if best:
            fix[best[1]] = best[2]
    return fix
