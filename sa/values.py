"""Abstract values, abstract state and its merge."""
import numpy as np
from alg import *
import alg
from nd import *


class NoAttr(Unsupported):
    """an attribute that the interface of an abstract object does not have"""


class _Undef(object):
    def __repr__(self):
        return 'UNDEF'

    def samekey(self):
        return 'undef'


UNDEF = _Undef()


class Obj(object):
    """an object allocated by the analysed code (or by a rule)"""
    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def samekey(self):
        return ('obj', self.oid)

    def __hash__(self):
        return hash(self.oid)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.oid == self.oid

    def __repr__(self):
        return '<%s#%s>' % (self.cls if isinstance(self.cls, str) else self.cls.name, self.oid)

    def fe(self):
        return set()


class AObj(object):
    """an object known only through its interface; key is an atom"""
    def __init__(self, key, cls):
        self.key, self.cls = key, cls

    def samekey(self):
        return ('aobj', self.key.id)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, AObj) and o.key is self.key

    def __repr__(self):
        return '<%r>' % self.key

    def fe(self):
        return free_elems(self.key)

    def subst(self, f):
        k = f(self.key)
        return AObj(k, self.cls) if isinstance(k, Atom) else k


class Nd(object):
    """an array: a buffer, or a view of another array"""
    def __init__(self, base, ix=None, t=False):
        self.base, self.ix, self.t = base, ix, t

    def root(self):
        n = self
        while isinstance(n.base, Nd):
            n = n.base
        return n.base

    def samekey(self):
        b = self.base.samekey() if isinstance(self.base, Nd) else self.base
        return ('nd', b, ixkey(self.ix), self.t)

    def __repr__(self):
        return 'Nd(%r%s)' % (self.base, '' if self.ix is None else '[..]')

    def fe(self):
        r = fe_of(self.ix) if self.ix is not None else set()
        if isinstance(self.base, Nd):
            return r | self.base.fe()
        if self.base[0] == 'attr':
            return r | free_elems(self.base[1])
        return r

    def subst(self, f):
        b = self.base
        if isinstance(b, Nd):
            b = b.subst(f)
        elif b[0] == 'attr':
            b = ('attr', f(b[1]))
        return Nd(b, f(self.ix) if self.ix is not None else None, self.t)


def ixkey(ix):
    if ix is None:
        return None
    if isinstance(ix, tuple):
        return tuple(ixkey(i) for i in ix)
    if isinstance(ix, (VSlice,)):
        return ix.samekey()
    if isinstance(ix, Sx):
        return ix.key
    return ix if isinstance(ix, (int, str)) else repr(ix)


class Fn(object):
    def __init__(self, mod, node, cls=None, closure=None, defaults=None, kwdefaults=None):
        self.mod, self.node, self.cls, self.closure = mod, node, cls, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def samekey(self):
        return ('fn', self.mod.name, id(self.node),
                self.closure.fid if self.closure is not None and self.closure.own else None,
                skey(tuple(sorted((self.defaults or {}).items()))))

    @property
    def name(self):
        return self.node.name if hasattr(self.node, 'name') else '<lambda>'

    def qual(self):
        return self.mod.name + '.' + (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<fn %s>' % self.qual()


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def samekey(self):
        return ('bound', self.fn.samekey(), self.self_.samekey())


class ABound(object):
    """method of an abstract object, of a builtin container or of an array"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def samekey(self):
        return ('abound', skey(self.obj), self.name)


class Ext(object):
    def __init__(self, name):
        self.name = name

    def samekey(self):
        return ('ext', self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


class Lib(object):
    def __init__(self, name):
        self.name = name

    def samekey(self):
        return ('lib', self.name)

    def __repr__(self):
        return '<lib %s>' % self.name


class ModV(object):
    def __init__(self, name):
        self.name = name

    def samekey(self):
        return ('mod', self.name)


class ExcV(object):
    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def samekey(self):
        return ('exc', self.name)

    def __repr__(self):
        return self.name


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Poison(object):
    def __init__(self, why):
        self.why = why

    def samekey(self):
        return ('poison', id(self))


class IxArr(object):
    """an index vector: ranges, possibly over a symbolic collection"""
    def __init__(self, segs):
        self.segs = segs

    @property
    def ixarr(self):
        return self

    def samekey(self):
        return ('ixarr', seg_key(self.segs))


class Cx(object):
    """a complex number"""
    def __init__(self, re, im):
        self.re, self.im = re, im

    def samekey(self):
        return ('cx', skey(self.re), skey(self.im))

    def fe(self):
        return fe_of(self.re) | fe_of(self.im)

    def subst(self, f):
        return Cx(f(self.re), f(self.im))


def gated_coll(v):
    """a gated choice between vectors over collections"""
    return isinstance(v, Phi) and any(isinstance(l, CollV) for _, l in leaves(v))


class CollV(object):
    """a vector with one entry per element of a collection that satisfies a
    guard: val is a number, a pair (re, im) or a condition"""
    def __init__(self, coll, e, guard, val):
        self.coll, self.e, self.guard, self.val = coll, e, guard, val

    def key(self):
        return (self.coll, self.e, self.guard, self.val)

    def samekey(self):
        return ('collv', skey(self.key()))

    def segs(self):
        return (Each(self.coll, self.e, self.guard, (One(self.val),)),)

    def map(self, f):
        return CollV(self.coll, self.e, self.guard, lift(f, self.val))

    def zip(self, f, o):
        """f with a scalar or a vector over the same entries"""
        if isinstance(o, CollV):
            if o.coll is not self.coll or o.e is not self.e or not same(o.guard, self.guard):
                raise Unsupported('vectors over different entries')
            return CollV(self.coll, self.e, self.guard, lift(f, self.val, o.val))
        return CollV(self.coll, self.e, self.guard, lift(f, self.val, o))


class StrV(object):
    """a string built from symbolic pieces"""
    def __init__(self, atom_):
        self.key = atom_

    def samekey(self):
        return ('str', self.key.id)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, StrV) and o.key is self.key

    def __repr__(self):
        return repr(self.key)

    def model_value(self, m):
        """its literal pieces and the numbers between them"""
        out = []
        for p in self.key.args[0] if self.key.kind == 'strcat' else (self,):
            if isinstance(p, StrV) and p.key.kind == 'str' and isinstance(p.key.args[0], Sx):
                out.append(m.sx(p.key.args[0]))
            elif isinstance(p, (str, bytes)):
                out.append(p)
            elif isinstance(p, StrV) and p.key.kind == 'bytes' and isinstance(p.key.args[0], StrV):
                out.extend([b'*'] + p.key.args[0].model_value(m))
            else:
                raise alg.NoModel('text')
        return out

    def fe(self):
        return free_elems(self.key)

    def subst(self, f):
        k = f(self.key)
        return StrV(k) if isinstance(k, Atom) else k


# --------------------------------------------------------------- sequences
class One(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '%r' % (self.v,)


class Each(object):
    """for e in coll if guard: segs"""
    def __init__(self, coll, e, guard, segs):
        self.coll, self.e, self.guard, self.segs = coll, e, guard, segs

    def __repr__(self):
        return '*[%r for %r in %r if %r]' % (self.segs, self.e, self.coll, self.guard)


class Cnd(object):
    def __init__(self, c, segs):
        self.c, self.segs = c, segs

    def __repr__(self):
        return '?[%r: %r]' % (self.c, self.segs)


class Vec(object):
    """the elements of a vector (content), spliced"""
    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return '*%r' % (self.m,)


class Rng(object):
    """the integers start..stop-1, spliced"""
    def __init__(self, a, b):
        self.a, self.b = num(a), num(b)

    def __repr__(self):
        return '*range(%r,%r)' % (self.a, self.b)


class Ph(object):
    """placeholder for the previous content of a list inside a loop"""
    def __init__(self, n, base=None):
        self.n, self.base, self.keys = n, base, None

    def __repr__(self):
        return 'PH%s' % (self.n,)


def skey(v):
    if isinstance(v, (bool, int, str, float, type(None), bytes)):
        return (type(v).__name__, v)
    if isinstance(v, Fraction):
        return ('sx', num(v).key)
    if isinstance(v, Sx):
        return ('sx', v.key)
    if isinstance(v, (Ar, Mx)):
        return (type(v).__name__, v.key)
    if isinstance(v, (tuple, list)):
        return ('t',) + tuple(skey(x) for x in v)
    if isinstance(v, Phi):
        return ('phi', v.a.id, skey(v.hi), skey(v.lo))
    if isinstance(v, (One, Each, Cnd, Vec, Rng, Ph)):
        return seg_key((v,))
    if isinstance(v, Atom):
        return ('atom', v.id)
    if hasattr(v, 'samekey'):
        return v.samekey()
    if v is None:
        return None
    return ('id', id(v))


def seg_key(segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(('1', skey(s.v)))
        elif isinstance(s, Each):
            out.append(('*', skey(s.coll), s.e.id, skey(s.guard), seg_key(s.segs)))
        elif isinstance(s, Cnd):
            out.append(('?', skey(s.c), seg_key(s.segs)))
        elif isinstance(s, Vec):
            out.append(('v', skey(s.m)))
        elif isinstance(s, Rng):
            out.append(('r', s.a.key, s.b.key))
        elif isinstance(s, Ph):
            out.append(('ph', s.n))
    return tuple(out)


for _c in (One, Each, Cnd, Vec, Rng, Ph):
    _c.samekey = lambda self: seg_key((self,))


class Content(object):
    """content of a list/dict/set: a tuple of segments"""
    def __init__(self, segs):
        self.segs = tuple(segs)

    def samekey(self):
        return ('content', seg_key(self.segs))

    def __repr__(self):
        return '%r' % (self.segs,)


# -------------------------------------------------------------------- state
SHARED = {}      # the objects made when modules and classes are defined


class Heap(object):
    __slots__ = ('base', 'd', 'depth')

    def __init__(self, base=None, d=None):
        self.base = base
        self.d = {} if d is None else d
        self.depth = 0 if base is None else base.depth + 1
        if self.depth > 12:
            flat = {}
            chain = []
            b = base
            while b is not None:
                chain.append(b)
                b = b.base
            for b in reversed(chain):
                flat.update(b.d)
            flat.update(self.d)
            self.base, self.d, self.depth = None, flat, 0

    def get(self, k, default=UNDEF):
        h = self
        while h is not None:
            if k in h.d:
                return h.d[k]
            h = h.base
        return SHARED.get(k, default) if default is UNDEF else default

    def keys_since(self, anc):
        ks = []
        seen = set()
        h = self
        while h is not None and h is not anc:
            for k in h.d:
                if k not in seen:
                    seen.add(k)
                    ks.append(k)
            h = h.base
        return ks

    def has_ancestor(self, anc):
        h = self
        while h is not None:
            if h is anc:
                return True
            h = h.base
        return False


class State(object):
    __slots__ = ('heap', 'pc', 'events', 'asserts', 'hazards', 'loops')

    def __init__(self, heap=None, pc=True, events=(), asserts=(), hazards=(), loops=()):
        self.heap = heap or Heap()
        self.pc, self.events, self.asserts = pc, events, asserts
        self.hazards = hazards
        self.loops = loops

    def fork(self):
        """a copy; both copies continue from a frozen heap"""
        h = self.heap
        self.heap = Heap(h)
        return State(Heap(h), self.pc, self.events, self.asserts, self.hazards, self.loops)

    def assign(self, o):
        self.heap, self.pc, self.events = o.heap, o.pc, o.events
        self.asserts, self.hazards, self.loops = o.asserts, o.hazards, o.loops

    def get(self, k, default=UNDEF):
        return self.heap.get(k, default)

    def set(self, k, v):
        self.heap.d[k] = v

    @property
    def dead(self):
        return self.pc is False


class Event(object):
    __slots__ = ('kind', 'what', 'args', 'pc', 'site', 'sub')

    def __init__(self, kind, what, args, pc, site=None, sub=None):
        self.kind, self.what, self.args, self.pc = kind, what, args, pc
        self.site, self.sub = site, sub

    def __repr__(self):
        return '%s:%s%r%s%s' % (self.kind, self.what, tuple(self.args),
                                '' if self.pc is True else ' if %r' % (self.pc,),
                                '' if self.sub is None else ' {%r}' % (self.sub,))


def common_prefix(tuples):
    n = min(len(t) for t in tuples)
    k = 0
    while k < n and all(t[k] is tuples[0][k] for t in tuples):
        k += 1
    return k


def merge_log(logs):
    k = common_prefix(logs)
    out = list(logs[0][:k])
    for l in logs:
        out.extend(l[k:])
    return tuple(out)


def merge_states(states):
    """states with pairwise disjoint path conditions -> one state"""
    states = [s for s in states if s.pc is not False]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    acc = states[-1]
    for s in reversed(states[:-1]):
        acc = _merge2(s, acc)
    return acc


def _merge2(s, t):
    # common ancestor of the heaps
    anc = s.heap
    while anc is not None and not t.heap.has_ancestor(anc):
        anc = anc.base
    ks = s.heap.keys_since(anc)
    seen = set(ks)
    ks += [k for k in t.heap.keys_since(anc) if k not in seen]
    h = Heap(anc)
    c = s.pc
    for k in ks:
        a, b = s.heap.get(k), t.heap.get(k)
        if a is b:
            h.d[k] = a
            continue
        if a is UNDEF and k[0] in ('B', 'D', 'C'):
            h.d[k] = b
            continue
        if b is UNDEF and k[0] in ('B', 'D', 'C'):
            h.d[k] = a
            continue
        if k[0] == 'V':
            a, b = (atom('ver0', k[1]) if v is UNDEF else v for v in (a, b))
        h.d[k] = merge_val(c, a, b)
    return State(h, b_or(s.pc, t.pc), merge_log((s.events, t.events)),
                 merge_log((s.asserts, t.asserts)), merge_log((s.hazards, t.hazards)),
                 merge_log((s.loops, t.loops)))


def scalar_like(v):
    if isinstance(v, Phi):
        return all(scalar_like(l) for _, l in leaves(v))
    return isinstance(v, (Sx, int, float, Fraction))


def merge_val(c, a, b):
    if isinstance(a, Content) and isinstance(b, Content):
        if a.samekey() == b.samekey():
            return a
        k = 0
        while k < min(len(a.segs), len(b.segs)) and \
                (a.segs[k] is b.segs[k] or skey(a.segs[k]) == skey(b.segs[k])):
            k += 1
        segs = list(a.segs[:k])
        if len(a.segs) == len(b.segs) and all(
                isinstance(x, One) and isinstance(y, One) and scalar_like(x.v) and scalar_like(y.v)
                for x, y in zip(a.segs[k:], b.segs[k:])):
            return Content(segs + [One(x.v if skey(x) == skey(y) else ite(c, x.v, y.v))
                                   for x, y in zip(a.segs[k:], b.segs[k:])])
        if a.segs[k:]:
            segs.append(Cnd(c, a.segs[k:]))
        if b.segs[k:]:
            segs.append(Cnd(b_not(c), b.segs[k:]))
        return Content(segs)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, BAr) or isinstance(b, BAr):
        if isinstance(a, BAr) and isinstance(b, BAr) and a.shape == b.shape:
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                o[i] = ite(c, a.c[i], b.c[i])
            return BAr(o)
    return ite(c, a, b)
