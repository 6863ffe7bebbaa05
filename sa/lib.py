"""Transfer functions of the Python builtins and of the numpy subset in use."""
import ast
import itertools
import math
from alg import *
import alg
import nd
import prelude
from nd import VSlice, BAr, BMx, PyErr, is_arr, cells, ints
from values import *
from front import ClassDef

NPMODS = ('numpy', 'numpy.linalg', 'numpy.random', 'math', 'abc', 'warnings', 'time', 'os',
          'itertools', 'functools', 'operator', 'copy')

NUMPY = {}
BUILTIN = {}
class UnboundCls(str):
    """a builtin class whose method is called without being bound"""


UNBOUND = {k: UnboundCls(k) for k in ('list', 'dict', 'object', 'tuple', 'set')}
PYEXC = ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
         'RuntimeError', 'NotImplementedError', 'ImportError', 'NameError', 'AssertionError',
         'ZeroDivisionError', 'StopIteration', 'OSError', 'IOError', 'LookupError',
         'ArithmeticError', 'DeprecationWarning', 'UserWarning', 'Warning')
ALIAS = {
    'numpy.absolute': 'numpy.abs', 'numpy.identity': 'numpy.eye', 'numpy.matmul': 'numpy.dot',
    'numpy.concatenate': 'numpy.concatenate', 'numpy.asarray': 'numpy.asarray',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray',
    'numpy.linalg.linalg.norm': 'numpy.linalg.norm', 'numpy.atan2': 'numpy.arctan2',
    'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.sqrt': 'numpy.sqrt',
    'math.pi': 'numpy.pi', 'math.atan2': 'numpy.arctan2', 'math.fabs': 'numpy.abs',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.negative': 'numpy.negative',
    'numpy.divide': 'numpy.true_divide', 'collections.OrderedDict': 'dict',
    'numpy.inner': 'numpy.dot',
    'numpy.linalg.LinAlgError': 'LinAlgError',
}


def npf(*names):
    def deco(f):
        for n in names:
            NUMPY['numpy.' + n] = f
        return f
    return deco


def bif(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco


NO_EFFECT = ('object.__init__', 'warnings.warn', 'pickle.dump', 'pickle.dumps', 'next', 'getattr')


class Args(list):
    """arguments that know which of them were looked at"""
    def __init__(self, x):
        list.__init__(self, x)
        self.n = len(self)
        self.seen = set()

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        ks = range(len(self))[i]
        self.seen.update([ks] if isinstance(ks, int) else ks)
        return r

    def __iter__(self):
        self.seen.update(range(self.n))
        return list.__iter__(self)

    def pop(self, *i):
        self.seen.update(range(self.n))
        return list.pop(self, *i)

    def __add__(self, o):
        return list(self) + o


class Kw(dict):
    def __init__(self, x):
        dict.__init__(self, x)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)

    def values(self):
        self.seen.update(dict.keys(self))
        return dict.values(self)


class Library(object):
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------- names
    def member(self, dotted):
        dotted = ALIAS.get(dotted, dotted)
        if dotted in NPMODS:
            return Lib(dotted)
        if dotted == 'numpy.pi':
            return PI
        if dotted in ('os.sep', 'os.path.sep'):
            return '/'
        if dotted == 'numpy.newaxis':
            return None
        if dotted in ('numpy.float', 'numpy.float64', 'numpy.double'):
            return Lib('float')
        if dotted in ('numpy.int', 'numpy.int64', 'numpy.intp'):
            return Lib('int')
        if dotted in ('numpy.inf',):
            return sym('inf', value=1e30)
        if dotted in NUMPY or dotted in EXTRA or dotted == 'dict':
            return Lib(dotted)
        if dotted in prelude.NAMES:
            return self.prelude(prelude.NAMES[dotted])
        if dotted in ('socket.error', 'os.error', 'select.error'):
            return ExcV('OSError')
        if dotted in ('socket.timeout', 'subprocess.TimeoutExpired', 'subprocess.CalledProcessError'):
            return ExcV(dotted.split('.')[1])
        if dotted == 'LinAlgError':
            return ExcV('LinAlgError')
        head, _, tail = dotted.partition('.')
        if head in UNBOUND and tail and '.' not in tail:
            return ABound(UNBOUND[head], tail)
        if dotted.split('.')[0] in ('numpy', 'math', 'itertools', 'functools', 'operator', 'copy',
                                    'time', 'warnings', 'os', 'socket', 'subprocess', 'tempfile', 'threading',
                                    'shlex', 'json'):
            return Lib(dotted)
        return None

    def builtin(self, name):
        if name in PYEXC:
            return ExcV(name)
        if name in BUILTIN or name in EXTRA or name in ('list', 'dict', 'set', 'tuple', 'object', 'property'):
            return Lib(name)
        if name == 'NotImplemented':
            return ExcV(name)
        return None

    # ------------------------------------------------------------- calls
    def call(self, st, name, args, kw):
        I = self.I
        I.sites += 1
        f = NUMPY.get(name) or BUILTIN.get(name) or EXTRA.get(name)
        if f is None:
            I.unsupported('library function ' + name)
        for k, a in enumerate(args):
            if gated_coll(a):
                return I.split(st, a, lambda s, l: self.call(
                    s, name, [under(x, s.pc) for x in args[:k]] + [l]
                    + [under(x, s.pc) for x in args[k + 1:]], kw))
        alt = prelude.NAMES.get('alt:' + name)
        if alt is not None:
            try:
                return self.modelled(st, f, name, args, kw)
            except Unsupported:
                return self.I.call(st, self.prelude(alt), list(args), dict(kw))
        return self.modelled(st, f, name, args, kw)

    def prelude(self, name):
        prog = self.I.prog
        m = prog.mods.get('__prelude__') or prog.add_source(
            '__prelude__', prelude.HEAD + '\n'.join(prelude.SRC), '<prelude>')
        return self.I.from_entry(State(), prog.lookup(m, name), name)

    def modelled(self, st, f, name, args, kw):
        I = self.I
        args, kw = Args(args), Kw(kw)
        r = f(self, st, args, kw)
        # an argument that the model does not look at is one that it does not understand
        for k in dict.keys(kw):
            if k not in kw.seen and k != 'order':
                I.unsupported('%s with %s' % (name, k))
        if len(args.seen) < args.n and name not in NO_EFFECT:
            I.unsupported('%s with %d arguments' % (name, args.n))
        return r

    # ------------------------------------------------- attributes of arrays
    def array_attr(self, st, o, name):
        I = self.I
        if name in ('shape', 'ndim', 'size', 'T', 'real', 'imag', 'dtype', 'flat', 'base'):
            if isinstance(o, Sx):
                c = o
            elif isinstance(o, (BAr, BMx)):
                c = o
            else:
                c = I.content(st, o)
            if name == 'T':
                if isinstance(o, Nd):
                    if isinstance(c, Phi) or len(c.shape) > 1:
                        return Nd(o, None, True)
                    return o
                return I.wrap(st, I.glift(st, nd.transpose, c))
            if name == 'real':
                return o
            if name == 'base' and isinstance(o, Nd):
                return Nd(o.root()) if isinstance(o.base, Nd) else None
            if name == 'dtype':
                return Lib('dtype:' + I.dtype(st, o))
            if name == 'shape':
                return I.glift(st, lambda x: tuple(x.shape) if is_arr(x) or isinstance(x, BAr)
                               else (), c)
            if name == 'ndim':
                return I.glift(st, lambda x: len(x.shape) if is_arr(x) else 0, c)
            if name == 'size':
                def size(x):
                    n = S1
                    for d in x.shape if is_arr(x) else ():
                        n = n * num(d)
                    k = n.const()
                    return int(k) if k is not None else n
                return I.glift(st, size, c)
            I.unsupported('array attribute ' + name)
        if name not in ARRAY_METHODS:
            import numpy
            if hasattr(numpy.float64 if isinstance(o, Sx) else numpy.ndarray, name):
                I.unsupported('array attribute ' + name)
            raise PyErr('AttributeError')
        return ABound(o, name)

    # ----------------------------------------------------------- methods
    def method(self, st, obj, name, args, kw):
        I = self.I
        if isinstance(obj, (Nd, Ar, Mx, BAr, BMx, Sx)):
            if name == 'copy':
                return I.wrap(st, I.content(st, obj), I.dtype(st, obj))
            if name == 'dot':
                return self.call(st, 'numpy.dot', [obj] + args, kw)
            if name in ('all', 'any', 'sum', 'max', 'min', 'argmax', 'argmin', 'argsort', 'trace',
                        'transpose', 'reshape', 'ravel', 'flatten', 'clip', 'prod', 'mean',
                        'diagonal', 'squeeze', 'round'):
                return self.call(st, 'numpy.' + name, [obj] + args, kw)
            if name == 'astype':
                d = dt_of(args[0])
                c = I.content(st, obj)
                if d != I.dtype(st, obj):
                    c = I.glift(st, lambda x: stored(x, d), c)
                return I.wrap(st, c, d)
            if name == 'tolist':
                return I.new_list(st, [s.v for s in I.segs_of(st, obj)]) if \
                    I.items_concrete(st, obj) is not None else self.seq(st, I.segs_of(st, obj))
            if name == 'fill':
                c = I.content(st, obj)
                I.nd_write(st, obj, I.glift(st, lambda x, y: nd.broadcast_to(y, x.shape), c,
                                            I.content(st, args[0])))
                return None
            if name == 'item':
                return I.glift(st, lambda x: cells(x).c.flat[0] if is_arr(x) else x,
                               I.content(st, obj))
            I.unsupported('array method ' + name)
        if isinstance(obj, UnboundCls):
            # unbound call list.__getitem__(self, i)
            if name == '__init__' and obj in ('list', 'dict', 'object'):
                if len(args) > 1:
                    self.method(st, args[0], 'extend' if obj == 'list' else 'update', [args[1]],
                                {})
                return None
            return self.method(st, args[0], obj + '.' + name, args[1:], kw)
        if isinstance(obj, (str, StrV, bytes)):
            return self.str_method(st, obj, name, args, kw)
        if isinstance(obj, CollV):
            if name in ('any', 'all', 'min', 'max', 'sum', 'copy', 'tolist'):
                if name in ('copy', 'tolist'):
                    return obj
                f = BUILTIN[name]
                return f(self, st, [obj] + args, kw)
            I.unsupported('spectrum method ' + name)
        if isinstance(obj, IxArr):
            if name in ('tolist', 'copy'):
                return obj
            I.unsupported('index array method ' + name)
        if isinstance(obj, tuple):
            items = I.items_concrete(st, obj)
            if name == 'index':
                return self.index_of(st, [One(x) for x in items], args[0])
            I.unsupported('tuple method ' + name)
        if isinstance(obj, str):
            I.unsupported('str')
        if isinstance(obj, Obj):
            return self.container(st, obj, name, args, kw)
        if isinstance(obj, Lib):
            return self.call(st, obj.name + '.' + name, args, kw)
        I.unsupported('method %s of %r' % (name, obj))

    def kind(self, st, o):
        if isinstance(o.cls, ClassDef):
            m = o.cls.mro()
            for b in ('list', 'dict', 'set'):
                if b in m:
                    return b
            return 'obj'
        return o.cls

    def container(self, st, o, name, args, kw):
        I = self.I
        if name.startswith(('list.', 'dict.')):
            name = name.split('.', 1)[1]
            if name == '__getitem__':
                return self.getitem(st, o, args[0], raw=True)
            if name == '__setitem__':
                return self.setitem(st, o, args[0], args[1])
            if name == '__init__':
                if args:
                    self.container(st, o, 'extend', args, {})
                return None
        k = self.kind(st, o)
        c = st.get(('C', o))
        if c is UNDEF:
            raise PyErr('AttributeError')
        if isinstance(c, Poison):
            I.unsupported(c.why)
        if k in ('list', 'deque'):
            if name == 'append':
                st.set(('C', o), Content(c.segs + (One(args[0]),)))
                return None
            if name in ('tolist', 'copy') and k == 'list':
                return self.seq(st, c.segs)
            if name == 'extend':
                st.set(('C', o), Content(c.segs + tuple(I.drain(st, args[0]))))
                return None
            if name == 'insert':
                items = I.items_concrete(st, o)
                i = args[0]
                if i == 0:
                    st.set(('C', o), Content((One(args[1]),) + c.segs))
                    return None
                if items is None or not isinstance(i, int):
                    k = self.boundary(c.segs, i)
                    st.set(('C', o), Content(c.segs[:k] + (One(args[1]),) + c.segs[k:]))
                    return None
                items.insert(i, args[1])
                st.set(('C', o), Content(tuple(One(x) for x in items)))
                return None
            if name == 'index':
                return self.index_of(st, c.segs, args[0])
            if name == 'pop':
                if not args:
                    if not c.segs:
                        raise PyErr('IndexError')
                    if isinstance(c.segs[-1], One):
                        st.set(('C', o), Content(c.segs[:-1]))
                        return c.segs[-1].v
                    I.unsupported('pop')
                items = I.items_concrete(st, o)
                if items is None or not isinstance(args[0], int):
                    k = self.at_item(c.segs, args[0])
                    st.set(('C', o), Content(c.segs[:k] + c.segs[k + 1:]))
                    return c.segs[k].v
                if not -len(items) <= args[0] < len(items):
                    raise PyErr('IndexError')
                v = items.pop(args[0])
                st.set(('C', o), Content(tuple(One(x) for x in items)))
                return v
            if name == 'remove':
                return self.remove(st, o, c, args[0])
            if name == 'copy':
                r = Obj(I.fresh(), 'list')
                st.set(('C', r), Content(c.segs))
                return r
            if name == 'count':
                items = I.items_concrete(st, o)
                if items is None:
                    I.unsupported('count')
                n = S0
                for x in items:
                    n = lift(lambda a, b: num(a) + (S1 if b else S0), n,
                             I.truth(st, I.equal(st, x, args[0])))
                return lift(lambda a: int(a.const()), n)
            if name == 'clear':
                st.set(('C', o), Content(()))
                return None
            if name == 'reverse':
                items = I.items_concrete(st, o)
                if items is None:
                    I.unsupported('reverse')
                st.set(('C', o), Content(tuple(One(x) for x in reversed(items))))
                return None
            if name == 'sort' and not args:
                items = I.items_concrete(st, o)
                keys = sort_keys(self, st, items, kw) if items is not None else None
                if keys is None:
                    I.unsupported('sort')
                st.set(('C', o), Content(tuple(One(items[i]) for i in keys)))
                return None
        if k == 'set':
            if name == 'add':
                self.set_add(st, o, args[0])
                return None
            if name in ('update', 'union'):
                tgt = o
                if name == 'union':
                    tgt = Obj(I.fresh(), 'set')
                    st.set(('C', tgt), Content(c.segs))
                for s in I.segs_of(st, args[0]):
                    if isinstance(s, One):
                        self.set_add(st, tgt, s.v)
                    else:
                        I.unsupported('set update')
                return None if name == 'update' else tgt
            if name in ('discard', 'remove', 'intersection', 'difference', 'issubset', 'isdisjoint',
                        'issuperset', 'difference_update', 'clear') and len(args) <= 1 and not kw:
                return self.set_method(st, o, name, args)
            if name == 'copy':
                r = Obj(I.fresh(), 'set')
                st.set(('C', r), Content(c.segs))
                return r
        if k == 'dict':
            if name in ('items', 'iteritems'):
                return self.seq(st, c.segs)
            if name in ('keys', 'iterkeys'):
                return self.seq(st, map_segs(c.segs, lambda p: p[0]))
            if name in ('values', 'itervalues'):
                return self.seq(st, map_segs(c.segs, lambda p: p[1]))
            if name == 'get':
                d = args[1] if len(args) > 1 else None
                return self.dict_get(st, c, args[0], lambda s: d)
            if name == 'update':
                if args and isinstance(args[0], Obj) and self.kind(st, args[0]) == 'dict':
                    ps = I.pairs(st, args[0])
                else:
                    ps = I.items_concrete(st, args[0]) if args else ()
                if ps is None:
                    I.unsupported('dict update')
                for p in ps:
                    p = p if isinstance(p, tuple) else I.items_concrete(st, p)
                    self.setitem(st, o, p[0], p[1])
                for n, v in kw.items():
                    self.setitem(st, o, n, v)
                return None
            if name == 'setdefault':
                has = self.contains(st, o, args[0])
                d = args[1] if len(args) > 1 else None

                def missing(s):
                    self.setitem(s, o, args[0], d)
                    return d
                return I.branch(st, has, lambda s: self.getitem(s, o, args[0]), missing)
            if name == 'copy':
                r = Obj(I.fresh(), 'dict')
                st.set(('C', r), Content(c.segs))
                return r
            if name == 'pop':
                items = I.pairs(st, o)
                for i, p in enumerate(items):
                    e = I.truth(st, I.equal(st, p[0], args[0]))
                    if e is True:
                        st.set(('C', o), Content(tuple(One(x) for j, x in enumerate(items) if j != i)))
                        return p[1]
                    if e is not False:
                        I.unsupported('dict pop')
                if len(args) > 1:
                    return args[1]
                raise PyErr('KeyError')
        I.unsupported('method %s of a %s' % (name, k))

    def seq(self, st, segs):
        o = Obj(self.I.fresh(), 'list')
        st.set(('C', o), Content(tuple(segs)))
        return o

    def remove(self, st, o, c, x):
        I = self.I
        out, done = [], False
        for g, s in unconditioned(c.segs):
            if isinstance(s, One):
                v = s.v
            else:
                s = s if g is True else Cnd(g, (s,))
                if self.contains_segs(st, (s,), x) is not False:
                    I.unsupported('remove from a symbolic list')
                out.append(s)
                continue
            e = I.truth(st, I.equal(st, v, x)) if done is not True else False
            hit = b_and(b_and(g, e), b_not(done))
            keep = b_and(g, b_not(hit))
            if keep is True:
                out.append(One(v))
            elif keep is not False:
                out.append(Cnd(keep, (One(v),)))
            done = b_or(done, hit)
        if done is False:
            raise PyErr('ValueError')
        if done is not True:
            I.raise_under(st, b_not(done), PyErr('ValueError'))
        st.set(('C', o), Content(tuple(out)))
        return None

    def index_of(self, st, segs, x):
        I = self.I
        n = 0
        for s in segs:
            if isinstance(s, One):
                e = I.truth(st, I.equal(st, s.v, x))
                if e is True:
                    return n if isinstance(n, int) else n
                if e is not False:
                    I.unsupported('index')
                n = n + 1 if isinstance(n, int) else n + S1
            else:
                # position after a symbolic part: the part must not contain x
                c = self.contains_segs(st, (s,), x)
                if c is not False:
                    I.unsupported('index')
                from interp import segs_len
                n = num(n) + segs_len((s,))
        raise PyErr('ValueError')

    def set_add(self, st, o, v):
        c = st.get(('C', o))
        has = self.contains_segs(st, c.segs, v)
        if has is True:
            return
        if has is False:
            st.set(('C', o), Content(c.segs + (One(v),)))
            return
        st.set(('C', o), Content(c.segs + (Cnd(b_not(has), (One(v),)),)))

    def contains(self, st, o, v):
        I = self.I
        if isinstance(o, Phi):
            return I.glift(st, lambda x: self.contains(st, x, v), o)
        if isinstance(o, str) and isinstance(v, str):
            return v in o
        if isinstance(o, (str, StrV)):
            return cond(atom('strin', skey(v), skey(o)))
        r = I.dunder(st, o, '__contains__', [v]) if isinstance(o, Obj) else None
        if r is not None:
            return I.truth(st, r[0])
        if isinstance(o, Obj) and self.kind(st, o) == 'dict':
            c = st.get(('C', o))
            return self.contains_segs(st, map_segs(c.segs, lambda p: p[0]), v)
        if isinstance(o, AObj):
            r = I.schema.contains(I, st, o, v)
            if r is not None:
                return r
        return self.contains_segs(st, I.segs_of(st, o), v)

    def contains_segs(self, st, segs, v):
        I = self.I
        r = False
        for s in segs:
            if isinstance(s, One):
                r = b_or(r, I.truth(st, I.equal(st, v, s.v)))
            elif isinstance(s, Cnd):
                r = b_or(r, b_and(s.c, self.contains_segs(st, s.segs, v)))
            elif isinstance(s, Each):
                x = I.schema.in_each(I, st, s, v)
                r = b_or(r, x)
            elif isinstance(s, Ph):
                x = I.schema.in_ph(I, st, s, v)
                r = b_or(r, x)
            elif isinstance(s, Rng):
                if isinstance(v, int) and s.a.const() is not None and s.b.const() is not None:
                    r = b_or(r, s.a.const() <= v < s.b.const())
                else:
                    I.unsupported('membership in a range')
            else:
                I.unsupported('membership')
            if r is True:
                return True
        return r

    def nonempty(self, st, segs):
        from loops import exists
        r = False
        for s in segs:
            if isinstance(s, One):
                return True
            if isinstance(s, Cnd):
                r = b_or(r, b_and(s.c, self.nonempty(st, s.segs)))
            elif isinstance(s, Each):
                r = b_or(r, exists(s.coll, s.e, b_and(s.guard, self.nonempty(st, s.segs))))
            elif isinstance(s, Rng):
                r = b_or(r, cmp_cond('>', s.b, s.a))
            else:
                self.I.unsupported('emptiness')
        return r

    def length(self, st, v):
        I = self.I
        if isinstance(v, (str,)):
            return len(v)
        if isinstance(v, Phi):
            return I.glift(st, lambda l: self.length(st, l), v)
        if isinstance(v, (Nd, Ar, Mx)):
            c = I.content(st, v)
            return I.glift(st, lambda x: x.shape[0] if isinstance(x.shape[0], int) else num(x.shape[0]), c)
        r = I.dunder(st, v, '__len__')
        if r is not None:
            return r[0]
        segs = I.segs_of(st, v)
        if all(isinstance(s, One) for s in segs):
            return len(segs)
        tot = 0
        for s in segs:
            if isinstance(s, Cnd):
                n = self.length(st, tuple(x.v for x in s.segs)) if all(
                    isinstance(x, One) for x in s.segs) else None
                if n is None:
                    I.unsupported('length')
                tot = lift(lambda t, c: addn(t, n) if c else t, tot, s.c)
            else:
                from interp import segs_len
                tot = lift(lambda t: addn(t, segs_len((s,))), tot)
        return tot

    # ------------------------------------------------------------ item access
    def getitem(self, st, o, i, raw=False):
        I = self.I
        if isinstance(o, Obj):
            k = self.kind(st, o)
            if isinstance(o.cls, ClassDef) and not raw:
                kc, e = o.cls.lookup('__getitem__')
                if e and e[0] == 'fn':
                    return I.call_fn(st, Fn(kc.mod, e[1], kc), [o, i], {})
            c = st.get(('C', o))
            if isinstance(c, Poison):
                I.unsupported(c.why)
            if c is UNDEF:
                raise PyErr('TypeError')
            if k == 'dict':
                def missing(s):
                    raise PyErr('KeyError', ExcV('KeyError', (i,)))
                return self.dict_get(st, c, i, missing)
            return self.seq_get(st, c.segs, i, o)
        if isinstance(o, tuple):
            return self.seq_get(st, [One(x) for x in o], i, o)
        if isinstance(o, str):
            if isinstance(i, int):
                return o[i]
            if isinstance(i, VSlice) and i.concrete():
                return o[i.py()]
        if isinstance(o, AObj):
            return I.schema.getitem(I, st, o, i)
        if isinstance(o, CollV):
            if isinstance(i, CollV) and i.coll is o.coll and i.e is o.e and same(i.guard, o.guard):
                g = b_and(o.guard, i.val)
                # complex numbers whose imaginary part is known to be null compute as reals
                val = lift(lambda v: v.re if isinstance(v, Cx) and isinstance(v.im, Sx) and same(
                    under(cmp_cond('==', v.im, S0), g), True) else v, o.val)
                return CollV(o.coll, o.e, g, val)
            I.unsupported('item of a spectrum')
        if isinstance(o, IxArr):
            return self.seq_get(st, o.segs, i, o)
        if o is None:
            raise PyErr('TypeError')
        if isinstance(o, Lib) and o.name == 'numpy.r_':
            I.unsupported('r_')
        if isinstance(o, Ext):
            return Ext(o.name + '[]')
        I.unsupported('subscript of %r' % (o,))

    def seq_get(self, st, segs, i, o):
        I = self.I
        from interp import as_int
        i = as_int(i)
        if isinstance(i, int) and not isinstance(i, bool):
            segs = list(segs)
            if i >= 0:
                n = 0
                for s in segs:
                    if not isinstance(s, One):
                        if isinstance(s, Rng):
                            return num(s.a) + num(i - n)
                        break
                    if n == i:
                        return s.v
                    n += 1
                else:
                    raise PyErr('IndexError')
            else:
                n = -1
                for s in reversed(segs):
                    if not isinstance(s, One):
                        break
                    if n == i:
                        return s.v
                    n -= 1
                else:
                    raise PyErr('IndexError')
            flat = list(unconditioned(segs))
            if any(isinstance(s, Cnd) for s in segs) and len(flat) <= 12 and all(
                    isinstance(s, One) for g, s in flat):
                return self.nth(st, flat[::-1] if i < 0 else flat, -1 - i if i < 0 else i)
            return self.pick(st, segs, i)
        if isinstance(i, VSlice):
            if all(isinstance(s, One) for s in segs) and i.concrete():
                r = [s.v for s in segs][i.py()]
                return tuple(r) if isinstance(o, tuple) else I.new_list(st, r)
            if i.concrete() and i.step is None and i.stop is None and isinstance(i.start, int) \
                    and i.start >= 0 and all(isinstance(s, One) for s in segs[:i.start]):
                return self.seq(st, tuple(segs)[i.start:])
            if i.full():
                return self.seq(st, segs)
            a, b = self.span(segs, i)
            return self.seq(st, tuple(segs)[a:b])
        if isinstance(i, Sx) and len(segs) > 1:
            return segs[self.at_item(segs, i)].v
        if isinstance(i, Sx):
            return self.pick(st, segs, i)
        if isinstance(i, (str, StrV)):
            raise PyErr('TypeError')
        I.unsupported('list index %r' % (i,))

    def nth(self, st, items, k):
        """item of rank k among those whose condition holds"""
        def rec(s, n, k):
            if n == len(items):
                raise PyErr('IndexError')
            g, q = items[n]
            return self.I.branch(s, g, lambda x: q.v if k == 0 else rec(x, n + 1, k - 1),
                                 lambda x: rec(x, n + 1, k))
        return rec(st, 0, k)

    def pick(self, st, segs, i):
        """element at a symbolic position"""
        I = self.I
        segs = list(segs)
        if isinstance(i, Sx) and len(segs) == 1 and isinstance(segs[0], Each):
            s = segs[0]
            a = alg._single(i)
            if a is not None and a.kind == 'idx' and a.args[0].args[0] is s.coll and \
                    s.guard is True and len(s.segs) == 1 and isinstance(s.segs[0], One):
                return subst(s.segs[0].v, {s.e: a.args[0]}) if s.e is not a.args[0] else s.segs[0].v
        r = I.schema.pick(I, st, segs, i)
        if r is not None:
            return r
        I.unsupported('element at a symbolic position')

    def dict_get(self, st, c, key, missing):
        I = self.I
        if isinstance(key, Phi):
            return I.split(st, key, lambda s, l: self.dict_get(s, c, l, missing))

        def rec(s, segs):
            if not segs:
                return missing(s)
            q = segs[0]
            if isinstance(q, One):
                e = I.truth(s, I.equal(s, q.v[0], key))
                return I.branch(s, e, lambda x: under(q.v[1], x.pc), lambda x: rec(x, segs[1:])) \
                    if not isinstance(e, bool) else (q.v[1] if e else rec(s, segs[1:]))
            if isinstance(q, Cnd):
                return I.branch(s, q.c, lambda x: rec(x, list(q.segs) + segs[1:]),
                                lambda x: rec(x, segs[1:]))
            if isinstance(q, Each) and len(q.segs) == 1 and isinstance(q.segs[0], One):
                hit, val = I.schema.each_get(I, s, q, key)
                if hit is None:
                    I.unsupported('lookup in a symbolic mapping')
                return I.branch(s, hit, lambda x: val, lambda x: rec(x, segs[1:]))
            I.unsupported('lookup')
        # last written wins: keys are unique by construction (setitem replaces)
        r = self.guarded(st, lambda s: rec(s, list(c.segs)))
        return r

    def guarded(self, st, f):
        try:
            return f(st)
        except PyErr:
            raise

    def setitem(self, st, o, i, v):
        I = self.I
        if isinstance(o, AObj):
            return I.schema.setitem(I, st, o, i, v)
        if o is None or isinstance(o, (tuple, str, int, Sx)):
            raise PyErr('TypeError')
        if not isinstance(o, Obj):
            I.unsupported('store in %r' % (o,))
        k = self.kind(st, o)
        if isinstance(o.cls, ClassDef):
            kc, e = o.cls.lookup('__setitem__')
            if e and e[0] == 'fn':
                return I.call_fn(st, Fn(kc.mod, e[1], kc), [o, i, v], {})
        c = st.get(('C', o))
        if c is UNDEF:
            raise PyErr('TypeError')
        if k == 'dict':
            out, done = [], False
            for s in c.segs:
                if done is True:
                    out.append(s)
                    continue
                if isinstance(s, Cnd) and self.contains_segs(
                        st, map_segs((s,), lambda p: p[0]), i) is False:
                    out.append(s)
                    continue
                for g, q in unconditioned((s,)):
                    if isinstance(q, One):
                        e = I.truth(st, I.equal(st, q.v[0], i))
                        e = b_and(under(b_and(g, e), st.pc), b_not(done))
                        q = One((q.v[0], merge_val(e, v, q.v[1]))) if e is not False else q
                        done = b_or(done, e)
                    else:
                        w = map_segs((q,), lambda p: p[0])
                        if isinstance(q, Each):
                            e = I.schema.in_each(I, st, w[0], i)
                        elif isinstance(q, Ph):
                            e = I.schema.in_ph(I, st, q, i)
                        else:
                            e = self.contains_segs(st, w, i)
                        if e is not False:
                            I.unsupported('store in a symbolic mapping')
                    out.append(q if g is True else Cnd(g, (q,)))
            if done is False:
                out.append(One((i, v)))
            elif done is not True:
                new = under(b_not(done), st.pc)
                if new is True:
                    out.append(One((i, v)))
                elif new is not False:
                    out.append(Cnd(new, (One((i, v)),)))
            st.set(('C', o), Content(tuple(out)))
            return
        items = I.items_concrete(st, o)
        from interp import as_int
        i = as_int(i)
        if isinstance(i, int):
            if items is not None:
                if not -len(items) <= i < len(items):
                    raise PyErr('IndexError')
                items[i] = v
                st.set(('C', o), Content(tuple(One(x) for x in items)))
                return
            segs = list(c.segs)
            if i < 0 and all(isinstance(s, One) for s in segs[i:]):
                segs[i] = One(v)
                st.set(('C', o), Content(segs))
                return
            if i >= 0 and all(isinstance(s, One) for s in segs[:i + 1]):
                segs[i] = One(v)
                st.set(('C', o), Content(segs))
                return
        if isinstance(i, VSlice):
            a, b = self.span(c.segs, i)
            st.set(('C', o), Content(c.segs[:a] + tuple(I.segs_of(st, v)) + c.segs[b:]))
            return
        if isinstance(i, Sx):
            segs = list(c.segs)
            segs[self.at_item(segs, i)] = One(v)
            st.set(('C', o), Content(segs))
            return
        I.unsupported('list store')

    def boundary(self, segs, i):
        """number of segments that hold the first i items"""
        from interp import segs_len, as_int
        i = as_int(i)
        segs = list(segs)
        if isinstance(i, int) and not isinstance(i, bool) and i < 0:
            k = len(segs)
            while i < 0:
                k -= 1
                if k < 0 or not isinstance(segs[k], One):
                    self.I.unsupported('position in a symbolic list')
                i += 1
            return k
        pos = S0
        for k in range(len(segs) + 1):
            if pos == num(i):
                # empty parts before the item are not known to be empty
                return k
            if k < len(segs):
                pos = pos + segs_len((segs[k],))
        self.I.unsupported('position in a symbolic list')

    def span(self, segs, i):
        a = 0 if i.start is None else self.boundary(segs, i.start)
        b = len(segs) if i.stop is None else self.boundary(segs, i.stop)
        if i.step not in (None, 1):
            self.I.unsupported('step in a symbolic list')
        return a, max(a, b)

    def at_item(self, segs, i):
        k = self.boundary(segs, i)
        if k >= len(segs) or not isinstance(segs[k], One):
            self.I.unsupported('position in a symbolic list')
        return k

    def delitem(self, st, o, i):
        I = self.I
        if isinstance(o, Obj):
            if self.kind(st, o) == 'dict':
                self.container(st, o, 'pop', [i], {})
                return
            c = st.get(('C', o))
            if isinstance(c, Content) and (isinstance(i, (Sx, VSlice)) or I.items_concrete(st, o) is None):
                a, b = self.span(c.segs, i) if isinstance(i, VSlice) else (
                    lambda k: (k, k + 1))(self.at_item(c.segs, i))
                st.set(('C', o), Content(c.segs[:a] + c.segs[b:]))
                return
            items = I.items_concrete(st, o)
            if items is not None and isinstance(i, int):
                if not -len(items) <= i < len(items):
                    raise PyErr('IndexError')
                del items[i]
                st.set(('C', o), Content(tuple(One(x) for x in items)))
                return
        I.unsupported('del')

    # --------------------------------------------------------------- sequences
    def seq_op(self, st, op, a, b):
        I = self.I
        if op == 'Add':
            o = Obj(I.fresh(), 'list')
            st.set(('C', o), Content(tuple(I.segs_of(st, a)) + tuple(I.segs_of(st, b))))
            return o
        if op == 'Mult':
            items = I.items_concrete(st, a)
            if items is not None and isinstance(b, int):
                return I.new_list(st, items * b)
            if isinstance(b, (Nd, Ar, Mx, Sx)) or items is None:
                return I.wrap(st, I.binop(st, op, a, b))
        if op == 'Sub':
            A, B = I.items_concrete(st, a), I.items_concrete(st, b)
            if self.kind(st, a) == 'set' and A is not None:
                o = Obj(I.fresh(), 'set')
                out = []
                for x in A:
                    h = self.contains(st, b, x)
                    if h is True:
                        continue
                    out.append(One(x) if h is False else Cnd(b_not(h), (One(x),)))
                st.set(('C', o), Content(tuple(out)))
                return o
            return I.wrap(st, I.binop(st, op, a, b))
        if op == 'BitOr' and self.kind(st, a) == 'set':
            return self.container(st, a, 'union', [b], {})
        if op == 'BitAnd' and self.kind(st, a) == 'set' and self.kind(st, b) == 'set':
            return self.set_method(st, a, 'intersection', [b])
        I.unsupported('operator %s on sequences' % op)

    def set_method(self, st, o, name, args):
        I = self.I
        A = I.items_concrete(st, o)
        B = [] if name == 'clear' else args if name in ('discard', 'remove') else \
            I.items_concrete(st, args[0])
        if A is None or B is None:
            I.unsupported('set ' + name)
        def among(x, X):
            hs = [I.truth(st, I.equal(st, x, y)) for y in X]
            if any(not isinstance(h, bool) for h in hs):
                I.unsupported('set ' + name)
            return any(hs)
        if name == 'issubset':
            return all(among(x, B) for x in A)
        if name == 'issuperset':
            return all(among(x, A) for x in B)
        if name == 'isdisjoint':
            return not any(among(x, B) for x in A)
        if name == 'remove' and not among(B[0], A):
            raise PyErr('KeyError', ExcV('KeyError', (B[0],)))
        out = [] if name == 'clear' else [x for x in A if among(x, B) == (name == 'intersection')]
        tgt = o
        if name in ('intersection', 'difference'):
            tgt = Obj(I.fresh(), 'set')
        st.set(('C', tgt), Content(tuple(One(x) for x in out)))
        return tgt if tgt is not o else None

    def bit_op(self, st, op, a, b):
        I = self.I
        def f(x, y):
            if isinstance(x, bool) and isinstance(y, bool):
                return {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]
            if isinstance(x, int) and isinstance(y, int):
                return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
            raise Unsupported('bit operator')
        if isinstance(a, CollV) and isinstance(b, CollV):
            return a.zip({'BitAnd': b_and, 'BitOr': b_or}[op], b)
        if isinstance(a, BAr) or isinstance(b, BAr):
            def cells_of(v):
                if isinstance(v, BAr):
                    return v.c
                if isinstance(v, bool) or isinstance(v, Phi) and all(
                        isinstance(l, bool) for _, l in leaves(v)):
                    o = np.empty((), dtype=object)
                    o[()] = v
                    return o
                I.unsupported('bit operator')
            try:
                X, Y = np.broadcast_arrays(cells_of(a), cells_of(b))
            except ValueError:
                raise PyErr('ValueError')
            o = np.empty(X.shape, dtype=object)
            for i in np.ndindex(X.shape):
                o[i] = b_and(X[i], Y[i]) if op == 'BitAnd' else b_or(X[i], Y[i]) if op == 'BitOr' \
                    else lift(lambda p, q: p != q, X[i], Y[i])
            return BAr(o)
        return I.glift(st, f, a, b)

    # ----------------------------------------------------------------- strings
    def to_str(self, st, v):
        if isinstance(v, (str, StrV)):
            return v
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Phi):
            return alg.lift(lambda x: self.to_str(st, x), v)
        if isinstance(v, Sx):
            return StrV(atom('str', v))
        return StrV(atom('str', skey(v)))

    def str_cat(self, parts):
        if any(isinstance(p, Phi) for p in parts):
            return alg.lift(lambda *q: self.str_cat(list(q)), *parts)
        out = []
        for p in parts:
            ps = p.key.args[0] if isinstance(p, StrV) and p.key.kind == 'strcat' else (p,)
            for q in ps:
                if isinstance(q, (str, bytes)) and out and type(out[-1]) is type(q):
                    out[-1] += q
                elif q != '' and q != b'':
                    out.append(q)
        if not out:
            return b'' if any(isinstance(p, bytes) for p in parts) else ''
        if len(out) == 1:
            return out[0]
        return StrV(atom('strcat', tuple(out)))

    def str_op(self, st, op, a, b):
        I = self.I
        if isinstance(a, Phi) or isinstance(b, Phi):
            return I.glift(st, lambda x, y: self.str_op(st, op, x, y), a, b)
        if op == 'Add':
            if not isinstance(a, (str, StrV, bytes)) or not isinstance(b, (str, StrV, bytes)):
                if not all(x is None or isinstance(x, (str, StrV, bytes, int, Sx, tuple)) for x in (a, b)):
                    I.unsupported('concatenation of a string')
                raise PyErr('TypeError')
            if is_bytes(a) != is_bytes(b):
                raise PyErr('TypeError')
            return self.str_cat([a, b])
        if is_bytes(a):
            I.unsupported('operation on bytes')
        if op == 'Mod':
            args = b if isinstance(b, tuple) else (b,)
            if isinstance(a, str) and all(isinstance(x, (str, int)) for x in args):
                try:
                    return a % args
                except (TypeError, ValueError) as e:
                    raise PyErr(type(e).__name__)
            if isinstance(a, str) and a.count('%') == a.count('%s') == len(args):
                lit = a.split('%s')
                return self.str_cat([x for i, l in enumerate(lit) for x in
                                     ([l] if i == 0 else [self.to_str(st, args[i - 1]), l])])
            if isinstance(a, str) and '%%' not in a:
                import re
                ps = re.split('(%(?:s|(?:[.]\\d+)?[efgEFG]))', a)
                if len(ps) == 2 * len(args) + 1 and not any('%' in l for l in ps[::2]):
                    out = [ps[0]]
                    for k, l, x in zip(ps[1::2], ps[2::2], args):
                        y = self.to_str(st, x) if k == '%s' else self.digits(k[1:], x)
                        out += [y, l]
                    if not any(y is None for y in out):
                        return self.str_cat(out)
            return StrV(atom('strmod', skey(a), tuple(skey(x) for x in args)))
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise PyErr('TypeError')

    def str_eq(self, x, y):
        if isinstance(x, StrV) and isinstance(y, StrV):
            if x.key is y.key:
                return True
            a, b = (x.key, y.key) if x.key.id < y.key.id else (y.key, x.key)
            if a.kind == b.kind and a.kind in ('id', 'hex'):
                k = [z.args[0] for z in (a, b)]
                if k[0] != k[1] and all(isinstance(z, tuple) and z and z[0] == 'obj' for z in k):
                    return False    # objects that exist at once
                if all(isinstance(z, Atom) and z.kind == 'id' for z in k):
                    return self.str_eq(StrV(k[0]), StrV(k[1]))
            return cond(atom('streq', a, b))
        s, v = (x, y) if isinstance(x, str) else (y, x)
        if v.key.kind == 'id' and not s.isdigit():
            return False        # the decimal writing of an integer
        if s == '' and any(isinstance(p, str) or isinstance(p, StrV) and p.key.kind in ('str', 'fmt', 'id', 'hex', 'hash')
                           for p in (v.key.args[0] if v.key.kind == 'strcat' else (v,))):
            return False        # something is written
        if v.key.kind == 'strcat':
            p = v.key.args[0]
            if isinstance(p[0], str) and not s.startswith(p[0]):
                return False
            if isinstance(p[-1], str) and not s.endswith(p[-1]):
                return False
        return cond(atom('streq', v.key, s))

    def str_method(self, st, s, name, args, kw={}):
        I = self.I
        if is_bytes(s):
            if name == 'join':
                items = I.items_concrete(st, args[0])
                if items is None or not all(isinstance(x, (bytes, StrV)) for x in items):
                    I.unsupported('bytes.join')
                if not all(is_bytes(x) for x in items):
                    raise PyErr('TypeError')
                return self.str_cat([b''] + [y for i, x in enumerate(items) for y in ((s, x) if i else (x,))])
            if name == 'decode':
                ps = s.key.args[0] if isinstance(s, StrV) and s.key.kind == 'strcat' else (s,)
                return self.str_cat([x.decode() if isinstance(x, bytes) else x.key.args[0] for x in ps] or [''])
            I.unsupported('bytes.' + name)
        if name == 'encode':
            for x in list(args) + list(kw.values()):
                if not isinstance(x, str) or x.lower() not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'strict'):
                    I.unsupported('an encoding')
            ps = s.key.args[0] if isinstance(s, StrV) and s.key.kind == 'strcat' else (s,)
            return self.str_cat([b''] + [x.encode() if isinstance(x, str) else StrV(atom('bytes', x)) for x in ps])
        if name == 'format':
            if isinstance(s, str):
                parts = self.format(st, s, args)
                if parts is not None:
                    return self.str_cat(parts)
            return StrV(atom('strformat', skey(s), tuple(skey(x) for x in args)))
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args):
            f = getattr(s, name, None)
            if f and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split',
                              'capitalize', 'title', 'rstrip', 'lstrip', 'find', 'isdigit'):
                r = f(*args)
                return I.new_list(st, list(r)) if isinstance(r, list) else r
        if isinstance(s, StrV) and name in ('split', 'splitlines', 'strip', 'lstrip', 'rstrip') and not kw:
            r = self.solid(st, s, name, args)
            if r is not None:
                return r
        if name == 'join' and isinstance(s, str):
            items = I.items_concrete(st, args[0])
            if items is not None:
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(s)
                    out.append(self.to_str(st, x))
                return self.str_cat(out)
            return StrV(atom('strjoin', s, skey(Content(I.segs_of(st, args[0])))))
        return StrV(atom('strm', skey(s), name, tuple(skey(a) for a in args)))

    def solid(self, st, s, name, args):
        """split or strip a text of literal pieces and numbers (without spaces nor points at their end)"""
        ps = list(s.key.args[0]) if s.key.kind == 'strcat' else [s]
        for p in ps:
            if not isinstance(p, str) and not (isinstance(p, StrV) and (
                    p.key.kind == 'str' and isinstance(p.key.args[0], Sx) or p.key.kind in ('fmt', 'id', 'hex', 'hash'))):
                return None
        if name == 'rstrip' and list(args) == ['0'] and isinstance(ps[-1], StrV) and ps[-1].key.kind == 'fmt' \
                and '.' in ps[-1].key.args[0] and ps[-1].key.args[0][-1] in 'fF' and ps[-1].key.args[0] != '.0f':
            return s        # what it reads as is the same
        if not all(isinstance(a, (str, bool, int)) for a in args):
            return None
        if name.endswith('strip'):
            cs = args[0] if args else ' \t\n\r'
            if not isinstance(cs, str) or set(cs) - set(' \t\n\r.,;:()[]{}"\'/'):
                return None
            if name != 'rstrip' and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(cs)
                if not ps[0] and len(ps) > 1:
                    return None
            if name != 'lstrip' and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(cs)
            return self.str_cat(ps)
        marks = {}
        text = ''
        for p in ps:
            if isinstance(p, str):
                text += p
            else:
                c = chr(0xE000 + len(marks))
                marks[c] = p
                text += c
        if name == 'split' and args and isinstance(args[0], str) and set(args[0]) & set('0123456789.e+-'):
            return None
        out = []
        for w in getattr(text, name)(*args):
            q, lit = [], ''
            for c in w:
                if c in marks:
                    q += [lit, marks[c]]
                    lit = ''
                else:
                    lit += c
            out.append(self.str_cat(q + [lit]))
        return self.I.new_list(st, out)

    def format(self, st, s, args):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if conv:
                return None
            if field == '':
                field = str(auto)
                auto += 1
            if not field.isdigit() or int(field) >= len(args):
                return None
            x = args[int(field)]
            if spec:
                x = self.digits(spec, x)
                if x is None:
                    return None
            out.append(self.to_str(st, x))
        return out

    def digits(self, spec, x):
        """the text of a number with so many digits"""
        import re
        if not re.match(r'(\.\d+)?[efgEFG]$', spec):
            return None
        return StrV(atom('fmt', spec, x)) if isinstance(x, Sx) else None


def is_bytes(x):
    if isinstance(x, StrV):
        return x.key.kind == 'bytes' or x.key.kind == 'strcat' and is_bytes(x.key.args[0][0])
    return isinstance(x, bytes)


ARRAY_METHODS = ('copy', 'dot', 'all', 'any', 'sum', 'max', 'min', 'argmax', 'argmin', 'argsort',
                 'trace', 'transpose', 'reshape', 'ravel', 'flatten', 'clip', 'astype', 'tolist',
                 'fill', 'item', 'prod', 'mean', 'diagonal', 'squeeze', 'round')


def addn(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = num(a) + num(b)
    c = r.const()
    return int(c) if c is not None else r


def unconditioned(segs, g=True):
    """(condition, segment) pairs of the segments under conditions"""
    for s in segs:
        if isinstance(s, Cnd):
            for x in unconditioned(s.segs, b_and(g, s.c)):
                yield x
        else:
            yield g, s


def map_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(s.v)))
        elif isinstance(s, Each):
            out.append(Each(s.coll, s.e, s.guard, map_segs(s.segs, f)))
        elif isinstance(s, Cnd):
            out.append(Cnd(s.c, map_segs(s.segs, f)))
        elif isinstance(s, Ph):
            out.append(s)
        else:
            raise Unsupported('mapping over spliced values')
    return tuple(out)


DTYPES = {
    'i': ('int', 'numpy.int', 'i', 'l', 'q', 'b', 'B', 'h', 'u1', 'u2', 'u4', 'u8', 'i1', 'i2', 'i4', 'i8', 'dtype:i') + tuple(
        x + n for n in ('int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'int_')
        for x in ('', 'numpy.')),
    'f': ('float', 'd', 'f8', '<f8', '>f8', '=f8', 'float64', 'numpy.float64', 'double', 'numpy.double', 'dtype:f', 'numpy.float_',
          'numpy.float', 'g', 'longdouble', 'numpy.longdouble'),
    'f4': ('f', 'f4', '<f4', '>f4', '=f4', 'float32', 'numpy.float32', 'single', 'numpy.single', 'dtype:f4'),
    'f2': ('e', 'f2', '<f2', '>f2', 'float16', 'numpy.float16', 'half', 'numpy.half', 'dtype:f2'),
    'b': ('bool', '?', 'numpy.bool_', 'bool_', 'dtype:b'),
    'u': ('dtype:u',),
}
DTYPES = dict((n, k) for k, ns in DTYPES.items() for n in ns)


def dt_of(v):
    n = getattr(v, 'name', v)
    if n in (int, float, bool):
        n = n.__name__
    if not isinstance(n, str) or n not in DTYPES:
        raise Unsupported('dtype %r' % (n,))
    return DTYPES[n]


def whole(z):
    """a polynomial of integers with integer coefficients"""
    return tuple(z.d.items()) == (((), 1),) and all(Fraction(c).denominator == 1 for c in z.n.values()) and \
        all(t.meta.get('int') or t.kind == 'fn' and t.args[0] == 'trunc' for t in z.atoms())


def stored(x, d):
    """the numbers kept by an array of type d when x is stored in it"""
    if d not in ('i', 'f4', 'f2'):
        return x
    name = {'i': 'trunc', 'f4': 'single', 'f2': 'half'}[d]

    def f(z):
        z = num(z)
        k = z.const()
        if k is not None:
            if d == 'i':
                return num(math.trunc(k))
            from alg import NUMFN
            return num(Fraction(NUMFN[name](float(k))))
        ats = z.atoms()
        if d == 'i' and whole(z):
            return z
        if f0(z) is not None and z == f0(z):
            return z
        return fn(name, z)

    def f0(z):
        """z itself when it is the result of this very conversion"""
        ats = z.atoms()
        t = list(ats)[0] if len(ats) == 1 else None
        return sx_atom(t) if t is not None and t.kind == 'fn' and t.args[0] == name else None
    if isinstance(x, Mx) and not ints(x.shape):
        return nd.opaque_mx(name, x.shape, x)
    if isinstance(x, (Sx, int)):
        return f(x)
    if isinstance(x, (Ar, Mx)):
        return nd.elementwise(name, f, x)
    return x


# ---------------------------------------------------------------- builtins
@bif('len')
def b_len(L, st, a, kw):
    return L.length(st, a[0])


@bif('range', 'numpy.arange')
def b_range(L, st, a, kw):
    from interp import as_int
    a = [as_int(x) for x in a]
    if len(a) == 1:
        a = [0] + a
    step = a[2] if len(a) > 2 else 1
    if all(isinstance(x, int) for x in a) and (step != 1 or len(range(*a)) <= 64):
        return L.I.new_list(st, list(range(*a)))
    if step != 1:
        L.I.unsupported('range step')
    if any(isinstance(x, Phi) for x in a):
        def f(s, l):
            return b_range(L, s, [l if isinstance(y, Phi) and y is x else y for y in a], kw)
        x = [y for y in a if isinstance(y, Phi)][0]
        return L.I.split(st, x, f)
    return L.seq(st, (Rng(a[0], a[1]),))


NUMPY['numpy.arange'] = b_range


@bif('enumerate')
def b_enumerate(L, st, a, kw):
    I = L.I
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    segs = I.drain(st, a[0])
    out = []
    n = start
    for s in segs:
        if isinstance(s, One):
            out.append(One((n, s.v)))
            n = addn(n, 1)
        elif isinstance(s, Each) and len(s.segs) == 1 and isinstance(s.segs[0], One):
            from loops import _idx, _prefix, prefix_value
            if s.guard is True:
                i = sx_atom(atom('idx', s.e, int=True, interp=_idx)) + num(n)
            else:
                i = prefix_value(num(n), s.coll, s.e, s.guard, S1)
            out.append(Each(s.coll, s.e, s.guard, (One((i, s.segs[0].v)),)))
            from interp import segs_len
            n = addn(n, segs_len((s,)))
        else:
            I.unsupported('enumerate')
    return L.seq(st, out)


@bif('zip')
def b_zip(L, st, a, kw):
    I = L.I
    ss = [I.drain(st, x) for x in a]
    if all(all(isinstance(s, One) for s in x) for x in ss):
        return I.new_list(st, [tuple(s.v for s in p) for p in zip(*ss)])
    if all(len(x) == 1 and isinstance(x[0], Each) and len(x[0].segs) == 1 and
           isinstance(x[0].segs[0], One) for x in ss):
        f = ss[0][0]
        vs = []
        for x in ss:
            s = x[0]
            if s.coll is not f.coll or not same(s.guard, subst(f.guard, {f.e: s.e})):
                I.unsupported('zip of different collections')
            vs.append(subst(s.segs[0].v, {s.e: f.e}) if s.e is not f.e else s.segs[0].v)
        return L.seq(st, (Each(f.coll, f.e, f.guard, (One(tuple(vs)),)),))
    I.unsupported('zip')


@bif('list', 'tuple', 'set', 'iter')
def b_list(L, st, a, kw):
    return b_seq(L, st, a, kw, 'list')


def b_seq(L, st, a, kw, cls):
    o = Obj(L.I.fresh(), cls)
    st.set(('C', o), Content(L.I.drain(st, a[0]) if a else ()))
    return o


@bif('tuple')
def b_tuple(L, st, a, kw):
    if not a:
        return ()
    it = L.I.items_concrete(st, a[0])
    if it is not None:
        return tuple(it)
    return b_seq(L, st, a, kw, 'list')


@bif('set', 'frozenset')
def b_set(L, st, a, kw):
    o = Obj(L.I.fresh(), 'set')
    st.set(('C', o), Content(()))
    if a:
        segs = L.I.drain(st, a[0])
        if all(isinstance(s, One) for s in segs):
            for s in segs:
                L.set_add(st, o, s.v)
        else:
            k = atom('setof', skey(Content(segs)))
            st.set(('C', o), Content((Ph(('setof', seg_key(segs))),) if False else segs))
            st.set(('SET', o), True)
    return o


@bif('dict')
def b_dict(L, st, a, kw):
    o = Obj(L.I.fresh(), 'dict')
    st.set(('C', o), Content(()))
    if a:
        x = a[0]
        if isinstance(x, Obj) and L.kind(st, x) == 'dict':
            st.set(('C', o), st.get(('C', x)))
        else:
            for s in L.I.drain(st, x):
                if not isinstance(s, One):
                    L.I.unsupported('dict of symbolic items')
                p = L.I.items_concrete(st, s.v)
                L.setitem(st, o, p[0], p[1])
    for n, v in kw.items():
        L.setitem(st, o, n, v)
    return o


@bif('reversed')
def b_reversed(L, st, a, kw):
    it = L.I.items_concrete(st, a[0])
    if it is None:
        L.I.unsupported('reversed')
    return L.I.new_list(st, list(reversed(it)))


@bif('abs')
def b_abs(L, st, a, kw):
    if isinstance(a[0], int):
        return abs(a[0])
    return np_elementwise(L, st, a[0], 'abs', absx)


@bif('float')
def b_float(L, st, a, kw):
    if not a:
        return S0
    if isinstance(a[0], str):
        try:
            return num(float(a[0])) if a[0] not in ('inf', 'nan') else sym(a[0])
        except ValueError:
            raise PyErr('ValueError')
    if isinstance(a[0], StrV):
        if a[0].key.kind == 'str' and isinstance(a[0].key.args[0], Sx):
            return a[0].key.args[0]
        if a[0].key.kind == 'fmt':
            spec, x = a[0].key.args
            n = int(spec[1:-1]) if spec[0] == '.' else 6
            if spec[-1] in 'fF':
                return fn('roundto', x, num(n))
            return x if n >= (16 if spec[-1] in 'eE' else 17) else fn('digits', x, num(n), sym(spec[-1].lower()))
        L.I.unsupported('float of a text')
    c = L.I.content(st, a[0])
    return L.I.glift(st, lambda x: cells(x).c.flat[0] if is_arr(x) else x, c)


def _whole(L, st, a, name, conv):
    if isinstance(a[0], int):
        return a[0]
    c = L.I.content(st, a[0])

    def f(x):
        if is_arr(x):
            L.I.unsupported(name + ' of an array')
        k = num(x).const()
        if k is not None:
            return num(conv(k))
        if all(z.meta.get('int') for z in x.atoms()):
            return L.I.unsupported(name)
        return fn(name, x)
    return L.I.glift(st, f, c)


@bif('round')
def b_round(L, st, a, kw):
    n = kw.get('ndigits', a[1] if len(a) > 1 else None)
    if n is not None:
        n = num(n).const()
        if n is None:
            L.I.unsupported('round to digits')
        return L.I.wrap(st, L.I.glift(st, lambda x: rounded(x, int(n)), L.I.content(st, a[0])))
    return _whole(L, st, a[:1], 'round', round)


def rounded(x, n):
    def f(z):
        k = num(z).const()
        if k is not None:
            return num(round(Fraction(k), n))
        return fn('roundto', z, num(n))
    if isinstance(x, Mx) and not ints(x.shape):
        return nd.opaque_mx('roundto', x.shape, x, num(n))
    return nd.elementwise('roundto', f, x)


@npf('round', 'around', 'round_')
def np_round(L, st, a, kw):
    n = num(kw.get('decimals', a[1] if len(a) > 1 else 0)).const()
    if n is None:
        L.I.unsupported('round to digits')
    return L.I.wrap(st, L.I.glift(st, lambda x: rounded(x, int(n)), L.I.content(st, a[0])))


@bif('int')
def b_int(L, st, a, kw):
    if len(a) != 1 or kw:
        L.I.unsupported('int in a base')
    if isinstance(a[0], int):
        return a[0]
    c = L.I.content(st, a[0])

    def f(x):
        k = num(x).const()
        if k is not None:
            return int(k)
        at = x.atoms()
        if all(z.meta.get('int') for z in at):
            return x
        return fn('int', x)
    return L.I.glift(st, f, c)


@bif('bool')
def b_bool(L, st, a, kw):
    return L.I.truth(st, a[0])


@bif('str', 'repr', 'unicode')
def b_str(L, st, a, kw):
    return L.to_str(st, a[0]) if a else ''


@bif('id')
def b_id(L, st, a, kw):
    return StrV(atom('id', skey(a[0])))


@bif('hex')
def b_hex(L, st, a, kw):
    return StrV(atom('hex', skey(a[0])))


@bif('print')
def b_print(L, st, a, kw):
    list(a), list(kw)
    return None


@bif('hash')
def b_hash(L, st, a, kw):
    return StrV(atom('hash', skey(a[0])))


@bif('type')
def b_type(L, st, a, kw):
    def f(v):
        if isinstance(v, (Obj, AObj)) and isinstance(v.cls, ClassDef):
            if isinstance(v, AObj):
                return L.I.schema.typeof(L.I, st, v)
            return v.cls
        n = kind_name(v)
        if isinstance(v, Sx):
            if getattr(L.I, 'plain_floats', False):
                return Lib('float')
            L.I.unsupported('type of a number')
        if n in ('int', 'str', 'bool', 'tuple', 'list', 'dict', 'set'):
            return Lib(n)
        return Lib('numpy.ndarray' if n == 'ndarray' else 'type:' + n)
    return L.I.glift(st, f, a[0])


def kind_name(v):
    return {'Nd': 'ndarray', 'Ar': 'ndarray', 'Mx': 'ndarray', 'Sx': 'float', 'VSlice': 'slice',
            'StrV': 'str', 'Obj': getattr(v, 'cls', '?') if isinstance(getattr(v, 'cls', 0), str)
            else '?'}.get(type(v).__name__, type(v).__name__)


@bif('callable')
def b_callable(L, st, a, kw):
    return isinstance(a[0], (Fn, Bound, ABound, ClassDef, Lib))


@bif('isinstance')
def b_isinstance(L, st, a, kw):
    I = L.I

    def test(v, c):
        if isinstance(c, tuple):
            r = False
            for x in c:
                r = b_or(r, test(v, x))
            return r
        if isinstance(v, Obj) and isinstance(v.cls, ClassDef):
            if isinstance(c, ClassDef):
                return v.cls.issub(c)
            n = getattr(c, 'name', None)
            m = v.cls.mro()
            if n in m or ('ext', n) in m:
                return True
            # a stand-in which names its class of the library is not of another class of the same module
            if n and '.' in n and any(isinstance(x, str) and x.rpartition('.')[0] == n.rpartition('.')[0] for x in m):
                return False
            if ('ext', 'library.Object') in m and n not in BUILTIN:
                I.unsupported('the class of an object of a library')
            return n == 'object' or n in m or ('ext', n) in m
        if isinstance(v, AObj):
            return I.schema.isinstance(I, st, v, c)
        if isinstance(c, ClassDef):
            return False
        n = getattr(c, 'name', None)
        if n == 'object':
            return True
        if isinstance(v, bool):
            return n in ('bool', 'int')
        k = {'int': ('int',), 'str': ('str', 'unicode', 'basestring'), 'StrV': ('str', 'unicode'),
             'tuple': ('tuple',), 'Sx': ('float', 'numpy.floating'), 'Nd': ('numpy.ndarray',), 'Ar': ('numpy.ndarray',),
             'Mx': ('numpy.ndarray',), 'VSlice': ('slice',), 'NoneType': ('NoneType', 'type:NoneType'),
             'Obj': (v.cls,) if isinstance(v, Obj) else (), 'IxArr': ('list',)}.get(type(v).__name__)
        if k is None:
            I.unsupported('isinstance of %r' % (v,))
        return n in k
    return I.glift(st, lambda v: test(v, a[1]), a[0])


BUILTIN['slice'] = lambda L, st, a, kw: mk_slice(L, st, a)


def mk_slice(L, st, a):
    from interp import as_int
    a = [as_int(x) for x in a]
    if any(isinstance(x, Phi) for x in a):
        x = [y for y in a if isinstance(y, Phi)][0]
        return L.I.split(st, x, lambda s, l: mk_slice(L, s, [l if y is x else y for y in a]))
    if len(a) == 1:
        return VSlice(None, a[0])
    return VSlice(*a)


EXTRA = {'numpy.ndarray': lambda L, st, a, kw: L.I.unsupported('ndarray()')}


@bif('issubclass')
def b_issubclass(L, st, a, kw):
    c = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(x, ClassDef) and isinstance(a[0], ClassDef) and a[0].issub(x) for x in c)


@bif('hasattr')
def b_hasattr(L, st, a, kw):
    I = L.I

    def test(s, v):
        x = s.fork()
        m0 = len(I.stack[-1].exits) if I.stack else 0
        try:
            y = I.getattr(x, v, a[1])
            if isinstance(v, AObj) and holes(y) and unknown_attr(I, v, a[1]):
                return lift(lambda z: z is not UNDEF, y)
        except PyErr as e:
            if e.name == 'AttributeError':
                return False
        except NoAttr:
            if unknown_attr(I, v, a[1]):
                return False
            raise
        return True
    return I.split(st, a[0], test)


def holes(v):
    return isinstance(v, Phi) and any(x is UNDEF for _, x in leaves(v))


def unknown_attr(I, v, name):
    """an object as it was built, not touched yet by the analysed method:
    no class of its family mentions the attribute"""
    if not isinstance(v, AObj) or not isinstance(v.cls, ClassDef) or not isinstance(name, str):
        return False
    for c in I.prog.all_classes():
        if c.issub(v.cls) or v.cls.issub(c):
            if c.lookup(name)[1]:
                return False
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == name or \
                        isinstance(n, ast.Constant) and n.value == name:
                    return False
    return True


@bif('getattr')
def b_getattr(L, st, a, kw):
    I = L.I
    if not isinstance(a[1], str):
        I.unsupported('getattr with a computed name')
    try:
        v = I.getattr(st, a[0], a[1])
        if len(a) > 2 and isinstance(a[0], AObj) and holes(v):
            if not unknown_attr(I, a[0], a[1]):
                I.unsupported('attribute %s' % a[1])
            return lift(lambda x: a[2] if x is UNDEF else x, v)
        return v
    except PyErr as e:
        if e.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise
    except NoAttr:
        if len(a) > 2 and unknown_attr(I, a[0], a[1]):
            return a[2]
        raise


@bif('setattr')
def b_setattr(L, st, a, kw):
    if not isinstance(a[1], str):
        L.I.unsupported('setattr with a computed name')
    L.I.setattr(st, a[0], a[1], a[2])
    return None


@bif('any', 'all')
def b_any(L, st, a, kw):
    raise Unsupported('any')


def mk_anyall(isany):
    def f(L, st, a, kw):
        I = L.I
        v = a[0]
        if isinstance(v, (BAr, BMx)):
            return nd.any_of(v) if isany else nd.all_of(v)
        if isinstance(v, Phi) and all(isinstance(l, (BAr, BMx)) for _, l in leaves(v)):
            return I.glift(st, nd.any_of if isany else nd.all_of, v)
        if isinstance(v, (bool,)) or (isinstance(v, Phi) and all(isinstance(l, bool) for _, l in leaves(v))):
            return v
        if len(a) == 1 and not kw and isinstance(v, (Nd, Ar, Mx)):
            def g(c):
                b = nd.compare_op('!=', c, S0) if is_arr(c) else BAr(ar([cmp_cond('!=', c, S0)]).c)
                return nd.any_of(b) if isany else nd.all_of(b)
            return I.glift(st, g, I.content(st, v))
        if len(a) > 1 or kw:
            raise Unsupported('any along an axis')
        segs = I.drain(st, v)
        return quant(L, st, segs, isany)
    return f


def quant(L, st, segs, isany):
    from loops import exists
    I = L.I
    r = not isany
    for s in segs:
        if isinstance(s, One):
            t = I.truth(st, s.v)
        elif isinstance(s, Cnd):
            q = quant(L, st, s.segs, isany)
            t = b_and(s.c, q) if isany else b_or(b_not(s.c), q)
        elif isinstance(s, Each):
            q = quant(L, st, s.segs, isany)
            if isany:
                t = exists(s.coll, s.e, b_and(s.guard, q))
            else:
                t = b_not(exists(s.coll, s.e, b_and(s.guard, b_not(q))))
        else:
            I.unsupported('quantifier')
        r = b_or(r, t) if isany else b_and(r, t)
    return r


BUILTIN['any'] = NUMPY['numpy.any'] = mk_anyall(True)
BUILTIN['all'] = NUMPY['numpy.all'] = mk_anyall(False)


@bif('min', 'max')
def b_min(L, st, a, kw):
    raise Unsupported('min')


def mk_minmax(name, arr=False):
    op = '<=' if name == 'min' else '>='

    def pick(L, st, xs, key=None):
        I = L.I
        r = xs[0]
        k = r if key is None else I.call(st, key, [r], {})
        for x in xs[1:]:
            y = x if key is None else I.call(st, key, [x], {})
            c = I.truth(st, I.compare(st, 'LtE' if name == 'min' else 'GtE', k, y))
            r = merge_val(c, r, x) if not isinstance(c, bool) else (r if c else x)
            k = merge_val(c, k, y) if not isinstance(c, bool) else (k if c else y)
        return r

    def f(L, st, a, kw):
        I = L.I
        key = kw.get('key')
        if len(a) == 1:
            if isinstance(a[0], (Nd, Ar, Mx)):
                c = I.content(st, a[0])
                return I.glift(st, lambda x: reduction('a' + name, x) if symbolic(x)
                               else fold_minmax(name, cells(x)), c)
            xs = I.items_concrete(st, a[0])
            if xs is None:
                if key is not None:
                    I.unsupported('min with key')
                return extremum(L, st, name, I.segs_of(st, a[0]))
            if not xs:
                raise PyErr('ValueError')
        else:
            xs = a
        return pick(L, st, xs, key)
    return f


def extremum(L, st, name, segs):
    """the least (greatest) of the values over a collection"""
    from loops import exists
    if len(segs) != 1 or not isinstance(segs[0], Each) or len(segs[0].segs) != 1 or \
            not isinstance(segs[0].segs[0], One):
        raise Unsupported('min of a symbolic sequence')
    s = segs[0]
    v = L.I.content(st, s.segs[0].v)
    if any(not isinstance(l, Sx) for _, l in leaves(v)):
        raise Unsupported('min of a symbolic sequence')
    guard = under(s.guard, st.pc)
    some = exists(s.coll, s.e, guard)
    L.I.raise_under(st, b_not(some), PyErr('ValueError'))
    return sx_atom(atom('extr', s.coll, s.e, guard, under(v, st.pc), name, interp=_extr))


def _extr(m, a):
    coll, e, g, v, name = a.args
    old = m.bind.get(e)
    out = []
    try:
        for k in m.indices(coll):
            m.bind[e] = k
            if m.bool(g):
                out.append(m.value(v))
    finally:
        __import__("loops").restore(m, e, old)
    if not out:
        raise alg.NoModel('empty')
    return float(min(out) if name == 'min' else max(out))


def symbolic(x):
    return isinstance(x, Mx) and not ints(x.shape)


def reduction(name, x):
    """a scalar function of an array of symbolic shape"""
    return fn(name, x)


def fold_minmax(name, A):
    xs = list(A.c.flat)
    if not xs:
        raise PyErr('ValueError')
    r = xs[0]
    for x in xs[1:]:
        r = lift(lambda p: ite(cmp_cond('<=' if name == 'min' else '>=', p, x), p, x), r)
    return r


BUILTIN['min'] = mk_minmax('min')
BUILTIN['max'] = mk_minmax('max')
NUMPY['numpy.min'] = mk_minmax('min')
NUMPY['numpy.max'] = mk_minmax('max')


@npf('minimum', 'maximum')
def _mm(L, st, a, kw):
    raise Unsupported('minimum')


def mk_minimum(name):
    def f(L, st, a, kw):
        I = L.I
        X, Y = I.content(st, a[0]), I.content(st, a[1])

        def g(x, y):
            if is_arr(x) or is_arr(y):
                if not all(ints(nd.shape_of(z)) for z in (x, y) if is_arr(z)):
                    raise Unsupported('minimum')
                p, q = (cells(z).c if is_arr(z) else num(z) for z in (x, y))
                p, q = np.broadcast_arrays(p, q)
                vals = [one(p[i], q[i]) for i in np.ndindex(p.shape)]

                def build(*zs):
                    o = np.empty(len(zs), dtype=object)
                    for i, z in enumerate(zs):
                        o[i] = z
                    return Ar(o.reshape(p.shape))
                return lift(build, *vals)
            return one(num(x), num(y))

        def one(x, y):
            return ite(cmp_cond('<=' if name == 'min' else '>=', x, y), x, y)
        return I.wrap(st, I.glift(st, g, X, Y))
    return f


NUMPY['numpy.minimum'] = mk_minimum('min')
NUMPY['numpy.maximum'] = mk_minimum('max')


@bif('sum')
def b_sum(L, st, a, kw):
    from loops import close_sum
    I = L.I
    v = a[0]
    if isinstance(v, (Nd, Ar, Mx)):
        return np_sum(L, st, a, kw)
    tot = a[1] if len(a) > 1 else 0
    for g, s in unconditioned(I.drain(st, v)):
        if isinstance(s, One):
            new = I.op(st, 'Add', tot, s.v)
            tot = new if g is True else merge_val(g, new, tot)
        elif g is not True:
            I.unsupported('sum')
        elif isinstance(s, Each) and len(s.segs) == 1 and isinstance(s.segs[0], One):
            T = I.content(st, s.segs[0].v)
            t = close_sum(s.coll, s.e, s.guard, T)
            tot = I.op(st, 'Add', tot, I.wrap(st, t))
        else:
            I.unsupported('sum')
    return tot


@bif('sorted')
def b_sorted(L, st, a, kw):
    items = L.I.items_concrete(st, a[0])
    if items is not None and all(isinstance(x, (int, str)) for x in items) and not kw:
        return L.I.new_list(st, sorted(items))
    keys = sort_keys(L, st, items, kw) if items is not None else None
    if keys is None:
        L.I.unsupported('sorted')
    return L.I.new_list(st, [items[i] for i in keys])


def plain_key(v):
    if isinstance(v, Sx):
        v = v.const()
    if isinstance(v, tuple):
        v = tuple(plain_key(x) for x in v)
        return None if None in v else v
    return v if isinstance(v, (int, float, Fraction, str)) else None


def sort_keys(L, st, items, kw):
    """the order in which the items are sorted, when their keys are known"""
    f, rev = kw.get('key'), kw.get('reverse', False)
    if not isinstance(rev, bool):
        return None
    keys = [plain_key(x if f is None else L.I.call(st, f, [x], {})) for x in items]
    if any(k is None for k in keys):
        return None
    try:
        return sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
    except TypeError:
        raise PyErr('TypeError')


@bif('map')
def b_map(L, st, a, kw):
    I = L.I
    if len(a) > 2:
        cols = [I.items_concrete(st, x) for x in a[1:]]
        if any(c is None for c in cols):
            I.unsupported('map')
        return I.once(st, I.new_list(st, [I.call(st, a[0], list(x), {}) for x in zip(*cols)]))
    segs = I.drain(st, a[1])
    out = I.once(st, I.new_list(st, []))
    from loops import run_segs
    run_segs(I, st, I.stack[-1], segs, lambda s, v: I.append(s, out, I.call(s, a[0], [v], {})), [])
    return out


@bif('filter')
def b_filter(L, st, a, kw):
    I = L.I
    segs = I.drain(st, a[1])
    out = I.once(st, I.new_list(st, []))
    from loops import run_segs

    def body(s, v):
        c = I.truth(s, v if a[0] is None else I.call(s, a[0], [v], {}))
        I.branch(s, c, lambda x: I.append(x, out, v), lambda x: None)
    run_segs(I, st, I.stack[-1], segs, body, [])
    return out


@bif('iter')
def b_iter(L, st, a, kw):
    if len(a) > 1:
        L.I.unsupported('iter with a sentinel')
    if isinstance(a[0], Obj) and st.get(('G', a[0])) is True:
        return a[0]
    return L.I.once(st, L.seq(st, L.I.segs_of(st, a[0])))


@bif('next')
def b_next(L, st, a, kw):
    I = L.I
    from loops import run_segs, exists, subst_first
    once = isinstance(a[0], Obj) and st.get(('G', a[0])) is True
    if isinstance(a[0], Obj) and not once:
        raise PyErr('TypeError')
    segs = I.segs_of(st, a[0])
    if segs and isinstance(segs[0], One):
        if once:
            st.set(('C', a[0]), Content(tuple(segs[1:])))
        return segs[0].v
    flat = list(unconditioned(segs))
    if any(isinstance(s, Cnd) for s in segs) and len(flat) <= 12 and all(
            isinstance(s, One) for g, s in flat):
        st.set(('C', a[0]), Poison('an iterator advanced under a condition'))

        def rec(s, n):
            if n == len(flat):
                if len(a) > 1:
                    return a[1]
                raise PyErr('StopIteration')
            return I.branch(s, flat[n][0], lambda x: flat[n][1].v, lambda x: rec(x, n + 1))
        return rec(st, 0)
    if len(segs) == 1 and isinstance(segs[0], Each) and len(segs[0].segs) == 1:
        if once:
            st.set(('C', a[0]), Poison('an iterator advanced over a symbolic part'))
        s = segs[0]
        E = exists(s.coll, s.e, s.guard)
        v = subst_first(s.segs[0].v, s.coll, s.e, s.guard)
        if len(a) > 1:
            return merge_val(E, v, a[1])
        I.raise_under(st, b_not(E), PyErr('StopIteration'))
        return v
    if not segs:
        if len(a) > 1:
            return a[1]
        raise PyErr('StopIteration')
    I.unsupported('next')


BUILTIN['object.__init__'] = lambda L, st, a, kw: None
BUILTIN['object'] = lambda L, st, a, kw: Obj(L.I.fresh(), 'object')
EXTRA['object.__init__'] = BUILTIN['object.__init__']


@bif('divmod')
def b_divmod(L, st, a, kw):
    return (L.I.op(st, 'FloorDiv', a[0], a[1]), L.I.op(st, 'Mod', a[0], a[1]))


@bif('pow')
def b_pow(L, st, a, kw):
    return L.I.op(st, 'Pow', a[0], a[1])


@bif('super')
def b_super(L, st, a, kw):
    return Super(a[0], a[1])


def deep(L, st, v, memo):
    I = L.I
    if v is None or isinstance(v, (Sx, int, str, StrV, Fn, ClassDef, Lib)):
        return v
    k = skey(v)
    if k in memo:
        return memo[k]
    if isinstance(v, Nd):
        r = I.wrap(st, I.content(st, v), I.dtype(st, v))
    elif isinstance(v, tuple):
        r = tuple(deep(L, st, x, memo) for x in v)
    elif isinstance(v, Obj) and isinstance(v.cls, str) and st.get(('C', v)) is not UNDEF:
        r = memo[k] = Obj(I.fresh(), v.cls)
        segs = st.get(('C', v)).segs
        if any(not isinstance(s, One) for s in segs):
            I.unsupported('deep copy')
        st.set(('C', r), Content(tuple(One(deep(L, st, s.v, memo)) for s in segs)))
    else:
        I.unsupported('deep copy')
    memo[k] = r
    return r


EXTRA['copy.deepcopy'] = lambda L, st, a, kw: deep(L, st, a[0], {})
for _n in ('copy.copy',):
    def _cp(L, st, a, kw):
        v = a[0]
        if isinstance(v, Nd):
            return L.I.wrap(st, L.I.content(st, v), L.I.dtype(st, v))
        if isinstance(v, Obj) and st.get(('C', v)) is not UNDEF:
            return L.method(st, v, 'copy', [], {})
        if isinstance(v, (Sx, int, str, tuple)):
            return v
        L.I.unsupported('copy')
    EXTRA[_n] = _cp
def _ospath(n):
    import os.path
    f = getattr(os.path, n)

    def g(L, st, a, kw):
        if not all(isinstance(x, str) for x in a) or kw:
            L.I.unsupported('os.path.%s of an unknown path' % n)
        return f(*a)
    return g


for _n in ('dirname', 'basename', 'join', 'splitext', 'normpath', 'isabs'):
    EXTRA['os.path.' + _n] = _ospath(_n)


def _abspath(L, st, a, kw):
    import os.path
    p = _ospath('normpath')(L, st, a, kw)
    if not os.path.isabs(p):
        L.I.unsupported('the working directory')
    return p


EXTRA['os.path.abspath'] = _abspath
EXTRA['warnings.warn'] = b_print
EXTRA['time.time'] = lambda L, st, a, kw: sx_atom(atom('clock', L.I.fresh()))
EXTRA['time.perf_counter'] = EXTRA['time.time']
EXTRA['math.floor'] = lambda L, st, a, kw: _whole(L, st, a, 'floor', math.floor)
EXTRA['math.ceil'] = lambda L, st, a, kw: _whole(L, st, a, 'ceil', math.ceil)
EXTRA['math.trunc'] = lambda L, st, a, kw: _whole(L, st, a, 'trunc', math.trunc)
EXTRA['itertools.chain'] = lambda L, st, a, kw: L.seq(
    st, tuple(s for x in a for s in L.I.drain(st, x)))
EXTRA['itertools.chain.from_iterable'] = lambda L, st, a, kw: L.I.unsupported('chain')
EXTRA['functools.reduce'] = lambda L, st, a, kw: reduce_(L, st, a)


def _combinations(L, st, a, kw):
    items = L.I.items_concrete(st, a[0])
    if items is None:
        L.I.unsupported('combinations')
    return L.I.new_list(st, [tuple(c) for c in itertools.combinations(items, a[1])])


EXTRA['itertools.combinations'] = _combinations


def reduce_(L, st, a):
    items = L.I.items_concrete(st, a[1])
    if items is None:
        L.I.unsupported('reduce')
    r = a[2] if len(a) > 2 else items[0]
    for x in items[0 if len(a) > 2 else 1:]:
        r = L.I.call(st, a[0], [r, x], {})
    return r


BUILTIN['reduce'] = lambda L, st, a, kw: reduce_(L, st, a)


# -------------------------------------------------------------------- numpy
def shape_arg(L, st, v):
    I = L.I
    from interp import as_int
    v = as_int(v)
    if isinstance(v, (int, Sx)):
        return (v,)
    if isinstance(v, Phi):
        raise Unsupported('gated shape')
    items = I.items_concrete(st, v)
    if items is None:
        I.unsupported('shape')
    return tuple(as_int(x) for x in items)


def full_arr(shape, v):
    if ints(shape):
        return ar_zeros(shape, num(v))
    if num(v).iszero():
        return mx_zero(shape)
    return mx_scale(nd.ones_mx(shape), num(v))


def lift_shape(L, st, v, f):
    if isinstance(v, Phi):
        return L.I.split(st, v, lambda s, l: lift_shape(L, s, l, f))
    it = L.I.items_concrete(st, v) if isinstance(v, (tuple, Obj)) else None
    if it is not None:
        for k, x in enumerate(it):
            if isinstance(x, Phi):
                return L.I.split(st, x, lambda s, l: lift_shape(
                    L, s, tuple(it[:k]) + (l,) + tuple(it[k + 1:]), f))
    return f(st, shape_arg(L, st, v))


@npf('zeros', 'ones')
def np_zeros(L, st, a, kw):
    return _filled(L, st, a, kw, 0)


def _filled(L, st, a, kw, v):
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    sh = a[0] if a else kw['shape']
    return lift_shape(L, st, sh, lambda s, x: L.I.new_nd(
        s, full_arr(x, v), dt_of(dt) if dt is not None else 'f'))


@npf('empty')
def np_empty(L, st, a, kw):
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    sh = a[0] if a else kw['shape']
    return lift_shape(L, st, sh, lambda s, x: L.I.new_nd(
        s, undef_arr(L, x), dt_of(dt) if dt is not None else 'f'))


@npf('empty_like')
def np_empty_like(L, st, a, kw):
    c = L.I.content(st, a[0])
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    d = dt_of(dt) if dt is not None else L.I.dtype(st, a[0])
    return L.I.wrap(st, L.I.glift(st, lambda x: undef_arr(L, x.shape) if is_arr(x) else
                                  sym('undef%d' % L.I.fresh()), c), d)


def undef_arr(L, sh):
    """the numbers of an array that was not initialised: any"""
    if ints(sh):
        o = np.empty(sh, dtype=object)
        for k in np.ndindex(*sh):
            o[k] = sym('undef%d' % L.I.fresh())
        return Ar(o)
    return nd.opaque_mx('undefined', sh, L.I.fresh())


NUMPY['numpy.ones'] = lambda L, st, a, kw: _filled(L, st, a, kw, 1)
NUMPY['numpy.full'] = lambda L, st, a, kw: L.I.new_nd(
    st, full_arr(shape_arg(L, st, a[0]), L.I.content(st, a[1])))


@npf('zeros_like', 'ones_like')
def np_zl(L, st, a, kw):
    return _like(L, st, a, kw, 0)


def _like(L, st, a, kw, v):
    c = L.I.content(st, a[0])
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    d = dt_of(dt) if dt is not None else L.I.dtype(st, a[0])
    return L.I.wrap(st, L.I.glift(st, lambda x: full_arr(x.shape, v) if is_arr(x) else num(v), c), d)


NUMPY['numpy.ones_like'] = lambda L, st, a, kw: _like(L, st, a, kw, 1)


@npf('eye')
def np_eye(L, st, a, kw):
    from interp import as_int
    n = as_int(a[0])
    m = as_int(a[1]) if len(a) > 1 else as_int(kw.get('M', n))
    if isinstance(n, Phi):
        return L.I.split(st, n, lambda s, l: np_eye(L, s, [l], {'dtype': kw.get('dtype')}))
    k = kw.get('k', 0)
    if k != 0:
        L.I.unsupported('eye offset')
    d = dt_of(kw['dtype']) if kw.get('dtype') is not None else 'f'
    if isinstance(n, int) and isinstance(m, int):
        return L.I.new_nd(st, ar_eye(n, m), d)
    return L.I.new_nd(st, mx_eye(n), d)


@npf('asarray')
def np_asarray(L, st, a, kw):
    return np_array(L, st, a, dict(kw, copy=False))


@npf('array')
def np_array(L, st, a, kw):
    I = L.I
    kw = dict(kw)
    v = a[0] if a else kw.pop('object', kw.pop('a', None))
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    if set(kw) - {'dtype', 'copy', 'order', 'subok'} or len(a) > 2:
        I.unsupported('array options')
    copy = kw.get('copy', True)
    if not isinstance(copy, (bool, type(None))):
        I.unsupported('array options')
    if not copy and isinstance(v, Phi) and any(isinstance(l, Nd) for _, l in leaves(v)):
        return I.split(st, v, lambda s, l: np_array(L, s, [l] + a[1:], kw))
    if not copy and isinstance(v, Nd) and (dt is None or dt_of(dt) == I.dtype(st, v)):
        # the array itself
        return v
    if isinstance(v, Phi) and not all(isinstance(l, (Sx, int, Nd, Ar, Mx)) for _, l in leaves(v)):
        return I.split(st, v, lambda s, l: np_array(L, s, [l] + a[1:], kw))
    if isinstance(v, (BAr, BMx)):
        return v
    if isinstance(v, IxArr):
        return v
    if isinstance(v, (Obj, tuple)):
        segs = I.segs_of(st, v)
        items = I.items_concrete(st, v)
        if items is None:
            segs = flatten_num(L, st, segs)
            c = I.array_of_segs(st, segs)
            if isinstance(c, IxArr):
                return c
            return I.new_nd(st, c)
        if items and all(is_boolish(x) for x in items):
            o = np.empty(len(items), dtype=object)
            for i, x in enumerate(items):
                o[i] = x
            return BAr(o)
        rows = []
        for x in items:
            y = I.items_concrete(st, x) if isinstance(x, (Obj, tuple)) else None
            rows.append(y)
        if rows and all(r is not None and r and all(isinstance(z, bool) for z in r) for r in rows):
            return I.new_nd(st, ar([[int(z) for z in r] for r in rows]), 'b')
    if isinstance(v, (int,)) and not isinstance(v, bool):
        return num(v)
    c = I.content(st, v)
    d = dt_of(dt) if dt is not None else (
        I.dtype(st, v) if isinstance(v, (Nd, Phi)) else list_dtype(L, st, v))
    if dt is not None and (I.dtype(st, v) if isinstance(v, (Nd, Phi)) else list_dtype(L, st, v)) != d:
        c = I.glift(st, lambda x: stored(x, d), c)
    return I.wrap(st, c, d)


def is_boolish(x):
    if isinstance(x, Phi):
        return all(isinstance(l, bool) for _, l in leaves(x))
    return isinstance(x, bool)


def flatten_num(L, st, segs):
    """items of a symbolic list that are vectors -> Vec; scalars stay"""
    out = []
    for s in segs:
        if isinstance(s, Each):
            out.append(Each(s.coll, s.e, s.guard, tuple(flatten_num(L, st, s.segs))))
        elif isinstance(s, Cnd):
            out.append(Cnd(s.c, tuple(flatten_num(L, st, s.segs))))
        elif isinstance(s, One):
            if isinstance(s.v, (Nd, Ar, Mx)):
                raise PyErr('ValueError')   # rows of different sizes: ragged array
            out.append(Vec(ar([num(s.v)])))
        else:
            out.append(s)
    return out


def list_dtype(L, st, v):
    """dtype numpy would infer"""
    I = L.I
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, Nd):
        return I.dtype(st, v)
    if isinstance(v, (tuple, Obj)):
        ds = set(list_dtype(L, st, x) for x in (I.items_concrete(st, v) or [S0]))
        if not ds:
            return 'f'
        if 'f' in ds:
            return 'f'
        if 'u' in ds:
            return 'u'
        return 'i' if 'i' in ds else 'b'
    if isinstance(v, AObj):
        return I.schema.dtype(I, st, v)
    if isinstance(v, Sx):
        return 'u' if any(z.meta.get('anydtype') for z in v.atoms()) else 'f'
    return 'f'


def bin2(name, op):
    def f(L, st, a, kw):
        I = L.I
        r = I.op(st, op, a[0], a[1])
        if 'out' in kw or len(a) > 2:
            o = kw.get('out', a[2] if len(a) > 2 else None)
            I.nd_write(st, o, I.content(st, r))
            return o
        return r
    NUMPY['numpy.' + name] = f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('true_divide', 'Div'),
               ('power', 'Pow')):
    bin2(_n, _o)
NUMPY['numpy.negative'] = lambda L, st, a, kw: L.I.wrap(
    st, L.I.glift(st, nd.neg, L.I.content(st, a[0])))


@npf('dot')
def np_dot(L, st, a, kw):
    I = L.I
    r = I.wrap(st, I.binop(st, 'MatMult', a[0], a[1]))
    if 'out' in kw:
        I.nd_write(st, kw['out'], I.content(st, r))
        return kw['out']
    return r


@npf('linalg.multi_dot')
def np_mdot(L, st, a, kw):
    it = L.I.items_concrete(st, a[0])
    r = it[0]
    for x in it[1:]:
        r = np_dot(L, st, [r, x], {})
    return r


@npf('einsum', 'tensordot', 'kron')
def np_uns(L, st, a, kw):
    L.I.unsupported('einsum')


def np_elementwise(L, st, v, name, f):
    I = L.I
    c = I.content(st, v)

    def g(x):
        if is_arr(x):
            if isinstance(x, Mx) and not ints(x.shape):
                return nd.opaque_mx(name, x.shape, x)
            x = cells(x)
            return ar_map_phi(f, x)
        return f(num(x))
    return I.wrap(st, I.glift(st, g, c))


def ar_map_phi(f, x):
    vals = [f(z) for z in x.c.flat]

    def build(*zs):
        o = np.empty(len(zs), dtype=object)
        for i, z in enumerate(zs):
            o[i] = z
        return Ar(o.reshape(x.shape))
    return lift(build, *vals)


def sign1(x):
    c = num(x).const()
    if c is not None:
        return num((c > 0) - (c < 0))
    return ite(cmp_cond('>', x, S0), S1, ite(cmp_cond('<', x, S0), num(-1), S0))


for _n, _f in (('sin', alg.sin), ('cos', alg.cos), ('sqrt', alg.sqrt), ('abs', absx),
               ('sign', sign1), ('square', lambda x: x * x),
               ('tan', lambda x: alg.sin(x) / alg.cos(x)),
               ('arctan', lambda x: fn('arctan', x)), ('arcsin', lambda x: fn('arcsin', x)),
               ('arccos', lambda x: fn('arccos', x)), ('exp', lambda x: fn('exp', x)),
               ('radians', lambda x: x * PI / num(180)), ('deg2rad', lambda x: x * PI / num(180)),
               ('degrees', lambda x: x * num(180) / PI), ('log', lambda x: fn('log', x))):
    NUMPY['numpy.' + _n] = (lambda n, f: lambda L, st, a, kw: np_elementwise(L, st, a[0], n, f))(_n, _f)
for _n in ('radians', 'degrees', 'tan', 'exp', 'acos', 'asin', 'atan', 'log'):
    EXTRA['math.' + _n] = NUMPY['numpy.' + {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}.get(_n, _n)]


@npf('arctan2')
def np_atan2(L, st, a, kw):
    I = L.I

    def f(x, y):
        if not is_arr(x) and not is_arr(y):
            return atan2(num(x), num(y))
        X, Y = [v.c if is_arr(v) else np.array(num(v), dtype=object) for v in map(
            lambda v: cells(v) if is_arr(v) else v, (x, y))]
        try:
            X, Y = np.broadcast_arrays(X, Y)
        except ValueError:
            raise PyErr('ValueError')
        o = np.empty(X.shape, dtype=object)
        for k in np.ndindex(*X.shape):
            o[k] = atan2(X[k], Y[k])
        return Ar(o)
    return I.wrap(st, I.glift(st, f, I.content(st, a[0]), I.content(st, a[1])))


def atan2(y, x):
    return fn('arctan2', y, x)


@npf('linalg.norm')
def np_norm(L, st, a, kw):
    I = L.I
    v = a[0]
    if isinstance(v, (BAr,)):
        # norm of a boolean array: zero iff no cell is true
        def g(*bs):
            return alg.sqrt(num(sum(1 for b in bs if b)))
        anyb = nd.any_of(v)
        return ite(anyb, sx_atom(atom('normb', skey(tuple(v.c.flat)), pos=True)), S0)
    if len(a) > 1 or kw:
        I.unsupported('norm order')
    c = I.content(st, v)

    def f(x):
        if isinstance(x, Mx) and not ints(x.shape):
            return alg.sqrt(mx_dot(x, x)) if len(x.shape) == 1 else fn('norm', x)
        x = cells(x)
        return alg.sqrt(sx_sum(z * z for z in x.c.flat))
    if isinstance(c, BMx):
        return sx_atom(atom('normb', skey(c.m), pos=True))
    return I.glift(st, f, c)


@npf('sum')
def np_sum(L, st, a, kw):
    I = L.I
    if isinstance(a[0], Obj):
        if I.items_concrete(st, a[0]) is None:
            return b_sum(L, st, a, kw)
    ax = kw.get('axis', a[1] if len(a) > 1 else None)
    c = I.content(st, a[0])

    def f(x):
        if isinstance(x, BAr):
            raise Unsupported('sum of conditions')
        if isinstance(x, Mx) and not ints(x.shape):
            if len(x.shape) == 1:
                return mx_dot(nd.ones_mx(x.shape), x)
            if ax is None:
                return reduction('asum', x)
            raise Unsupported('sum')
        x = cells(x)
        if ax is None:
            return sx_sum(x.c.flat)
        r = x.c.sum(axis=ax)
        return Ar(r) if isinstance(r, np.ndarray) else r
    return I.wrap(st, I.glift(st, f, c))


@npf('prod')
def np_prod(L, st, a, kw):
    I = L.I

    def f(x):
        r = S1
        for z in cells(x).c.flat:
            r = r * z
        return r
    return I.glift(st, f, I.content(st, a[0]))


@npf('mean')
def np_mean(L, st, a, kw):
    I = L.I
    if kw or len(a) > 1:
        I.unsupported('mean axis')
    s = np_sum(L, st, a, kw)
    c = I.content(st, a[0])
    return I.glift(st, lambda x, y: reduction('amean', y) if symbolic(y)
                   else num(x) / num(cells(y).c.size), s, c)


@npf('trace')
def np_trace(L, st, a, kw):
    return L.I.glift(st, lambda x: sx_sum(cells(x).c[i, i] for i in range(x.shape[0])),
                     L.I.content(st, a[0]))


@npf('outer')
def np_outer(L, st, a, kw):
    I = L.I

    def f(x, y):
        if ints(nd.shape_of(x)) and ints(nd.shape_of(y)):
            x, y = cells(x), cells(y)
            return ar([[p * q for q in y.c.flat] for p in x.c.flat])
        return Mx((x.shape[0], y.shape[0]), mx_dot(alg._as2(to_mx(x)), alg._as2(to_mx(y), True)).t)
    return I.wrap(st, I.glift(st, f, I.content(st, a[0]), I.content(st, a[1])))


@npf('diag')
def np_diag(L, st, a, kw):
    I = L.I
    if len(a) > 1 or kw:
        I.unsupported('diag offset')

    def f(x):
        if isinstance(x, Mx) and not ints(x.shape):
            raise Unsupported('diag')
        x = cells(x)
        if x.c.ndim == 1:
            n = x.c.shape[0]
            return ar([[x.c[i] if i == j else S0 for j in range(n)] for i in range(n)]) if n else ar_zeros((0, 0))
        return Ar(np.array([x.c[i, i] for i in range(min(x.c.shape))], dtype=object))
    return I.wrap(st, I.glift(st, f, I.content(st, a[0])))


NUMPY['numpy.diagonal'] = NUMPY['numpy.diag']


@npf('cross')
def np_cross(L, st, a, kw):
    I = L.I

    def f(x, y):
        x, y = cells(x).c, cells(y).c
        if x.ndim == 1 and y.ndim == 1 and not {x.size, y.size} <= {2, 3}:
            raise PyErr('ValueError')
        if x.shape != (3,) or y.shape != (3,):
            raise Unsupported('cross shapes')
        return ar([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
    return I.wrap(st, I.glift(st, f, I.content(st, a[0]), I.content(st, a[1])))


@npf('transpose')
def np_T(L, st, a, kw):
    if len(a) > 1 and a[1] is not None:
        L.I.unsupported('transpose axes')
    return L.array_attr(st, a[0], 'T') if isinstance(a[0], Nd) else \
        L.I.wrap(st, L.I.glift(st, nd.transpose, L.I.content(st, a[0])))


@npf('reshape')
def np_reshape(L, st, a, kw):
    I = L.I
    sh = a[1:]
    if len(sh) == 1:
        sh = shape_arg(L, st, sh[0]) if not isinstance(sh[0], Phi) else I.unsupported('shape')
    else:
        from interp import as_int
        sh = tuple(as_int(x) for x in sh)
    c = I.content(st, a[0])

    def f(x):
        x0 = x
        if not is_arr(x):
            x = ar([x]) if not sh else Ar(np.array([num(x)], dtype=object))
        if not ints(x.shape) or not ints(sh):
            if len(x.shape) == 1 and len(sh) == 1 and (nd.dim_eq(x.shape[0], sh[0]) or sh[0] == -1):
                return x
            if len(x.shape) == len(sh) and all(nd.dim_eq(p, q) for p, q in zip(x.shape, sh)):
                return x
            if len(x.shape) == 1 and len(sh) == 1:
                # sizes are declared equal by the reshape: python raises otherwise
                raise PyErr('ValueError') if num(x.shape[0]) - num(sh[0]) == num(1) else Unsupported(
                    'reshape %r to %r' % (x.shape, sh))
            raise Unsupported('reshape %s to %s' % (x.shape, sh))
        x = cells(x)
        n = x.c.size
        full = list(sh)
        if -1 in full:
            k = full.index(-1)
            rest = 1
            for d in full:
                if d != -1:
                    rest *= d
            if rest == 0 or n % rest:
                raise PyErr('ValueError')
            full[k] = n // rest
        if int(np.prod(full)) != n:
            raise PyErr('ValueError')
        if tuple(full) == x0.shape if is_arr(x0) else False:
            return x0
        return Ar(x.c.reshape(full))
    if isinstance(a[0], Nd):
        same_sh = I.glift(st, lambda x: is_arr(x) and len(x.shape) == len(sh) and all(
            nd.dim_eq(p, q) for p, q in zip(x.shape, sh)), c)
        if same_sh is True:
            return Nd(a[0])
    return reshaped(I, st, a[0], I.glift(st, f, c))


def reshaped(I, st, a, c):
    """the array a, shown with the content c of another shape: they share their numbers"""
    r = I.wrap(st, c, I.dtype(st, a))
    if not isinstance(a, Nd) or not isinstance(r, Nd) or r is a:
        return r
    shapes = [getattr(l, 'shape', None) for _, l in leaves(c)] if isinstance(c, Phi) else [c.shape]
    plain = a
    while isinstance(plain, Nd) and plain.ix is None and not plain.t:
        plain = plain.base
    was = I.content(st, a)
    was = set(l.shape for _, l in leaves(was)) if isinstance(was, Phi) else {was.shape}
    if len(set(shapes)) == 1 and len(was) == 1 and (isinstance(plain, tuple) or [
            d for d in shapes[0] if d != 1] == [d for d in was.pop() if d != 1]):
        sh = tuple(shapes[0])
        if ints(sh):
            return Nd(a, None, sh)
        if len(sh) == 1:
            return a
    # numpy may or may not copy: only reading is understood
    st.set(('RO', r.base), True)
    return r


@npf('ravel')
def np_ravel1(L, st, a, kw):
    r = np_ravel(L, st, a, kw)
    return reshaped(L.I, st, a[0], L.I.content(st, r))


@npf('flatten')
def np_ravel(L, st, a, kw):
    I = L.I

    def f(x):
        if not ints(x.shape):
            if len(x.shape) == 1:
                return x
            raise Unsupported('ravel')
        return Ar(cells(x).c.reshape(-1))
    c = I.content(st, a[0])
    return I.wrap(st, I.glift(st, f, c), I.dtype(st, a[0]))


NUMPY['numpy.squeeze'] = lambda L, st, a, kw: reshaped(L.I, st, a[0], L.I.glift(
    st, lambda x: nd.unwrap(Ar(cells(x).c.squeeze())) if is_arr(x) else x, L.I.content(st, a[0])))


@npf('concatenate', 'hstack', 'vstack', 'stack', 'append', 'r_', 'c_', 'column_stack', 'block')
def np_cat(L, st, a, kw):
    raise Unsupported('concatenate')


def mk_cat(name):
    def f(L, st, a, kw):
        I = L.I
        if name == 'block':
            rows = I.items_concrete(st, a[0])
            rs = [[I.content(st, x) for x in (I.items_concrete(st, r) or [])] for r in rows]
            flat = [x for r in rs for x in r]
            dims = [len(r) for r in rs]

            def blk(*xs):
                it = iter(xs)
                return Ar(np.block([[cells(next(it)).c for _ in range(d)] for d in dims]))
            return I.wrap(st, I.glift(st, blk, *flat))
        if name == 'append':
            items = [a[0], a[1]]
            if 'axis' in kw or len(a) > 2:
                I.unsupported('append axis')
        else:
            items = I.items_concrete(st, a[0])
            if items is None:
                segs = []
                for s in I.segs_of(st, a[0]):
                    segs.append(vec_seg(L, st, s))
                from interp import cat_segs
                return I.new_nd(st, cat_segs(I, tuple(segs)))
        ax = kw.get('axis', a[1] if len(a) > 1 else 0) if name in ('concatenate', 'stack') else None
        if any(isinstance(x, IxArr) for x in items):
            return IxArr(tuple(s for x in items for s in (
                x.segs if isinstance(x, IxArr) else I.segs_of(st, x))))
        cs = [I.content(st, x) for x in items]

        def g(*xs):
            xs = [x if is_arr(x) else Ar(np.array([num(x)], dtype=object)) for x in xs]
            if not all(ints(x.shape) for x in xs):
                if name in ('hstack', 'concatenate') and all(len(x.shape) == 1 for x in xs):
                    from interp import cat_segs
                    return cat_segs(I, tuple(Vec(x) for x in xs))
                raise Unsupported('concatenate symbolic arrays')
            xs = [cells(x).c for x in xs]
            try:
                if name == 'hstack':
                    return Ar(np.hstack(xs))
                if name == 'vstack':
                    return Ar(np.vstack(xs))
                if name == 'column_stack':
                    return Ar(np.column_stack(xs))
                if name == 'stack':
                    return Ar(np.stack(xs, ax))
                if name == 'append':
                    return Ar(np.concatenate([x.reshape(-1) for x in xs]))
                return Ar(np.concatenate(xs, ax))
            except ValueError:
                raise PyErr('ValueError')
        return I.wrap(st, I.glift(st, g, *cs))
    return f


def vec_seg(L, st, s):
    if isinstance(s, One):
        return Vec(L.I.content(st, s.v))
    if isinstance(s, Each):
        return Each(s.coll, s.e, s.guard, tuple(vec_seg(L, st, x) for x in s.segs))
    if isinstance(s, Cnd):
        return Cnd(s.c, tuple(vec_seg(L, st, x) for x in s.segs))
    return s


for _n in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'column_stack', 'block'):
    NUMPY['numpy.' + _n] = mk_cat(_n)


@npf('linalg.inv')
def np_inv(L, st, a, kw):
    I = L.I

    def f(x):
        m = to_mx(x)
        return mx_inv(m)
    return I.wrap(st, I.glift(st, f, I.content(st, a[0])))


@npf('linalg.pinv')
def np_pinv(L, st, a, kw):
    I = L.I

    def f(x):
        m = to_mx(x)
        if ints(x.shape) and x.shape == (1, 1):
            c = cells(x).c[0, 0]
            if alg.sign_of(c) in (2, -2):
                return Ar(np.array([[S1 / c]], dtype=object))
        if len(m.t) == 1 and all(f.meta.get('spd') and f.meta['grp'] == 'sym'
                                 for w in m.t for f, _, _ in w) and () not in m.t:
            return mx_inv(m)
        q = alg.numeric_inverse(m)
        if q is not None:
            return q
        return nd.opaque_mx('pinv', (x.shape[1], x.shape[0]), x)
    return I.wrap(st, I.glift(st, f, I.content(st, a[0])))


@npf('linalg.solve')
def np_solve(L, st, a, kw):
    I = L.I

    def f(A, b):
        if isinstance(A, (Mx, Ar)) and ints(A.shape) and A.shape == (1, 1):
            return nd.div(b, cells(A).c[0, 0])
        return mx_dot(mx_inv(to_mx(A)), to_mx(b))
    return I.wrap(st, I.glift(st, f, I.content(st, a[0]), I.content(st, a[1])))


def det3(c):
    n = c.shape[0]
    if n == 0:
        return S1
    if n == 1:
        return c[0, 0]
    r = S0
    for j in range(n):
        if c[0, j].iszero():
            continue
        m = np.delete(np.delete(c, 0, 0), j, 1)
        t = c[0, j] * det3(m)
        r = r + t if j % 2 == 0 else r - t
    return r


@npf('linalg.det')
def np_det(L, st, a, kw):
    I = L.I

    def f(x):
        if isinstance(x, Mx):
            r = rot_block(x)
            if r:
                return S1
        if ints(x.shape) and x.shape[0] <= 4:
            return det3(cells(x).c)
        return fn('det', x)
    return I.glift(st, f, I.content(st, a[0]))


def rot_block(m):
    """the rotation part of a displacement"""
    return False


def np_eigh(L, st, a, kw):
    return np_eig(L, st, a, kw, 'eigh')


NUMPY['numpy.linalg.eigh'] = np_eigh


@npf('linalg.eig')
def np_eig(L, st, a, kw, name='eig'):
    I = L.I
    if len(a) != 1 or kw:
        I.unsupported('options of ' + name)
    c = I.content(st, a[0])
    h = I.schema.linalg.get(name, I.schema.linalg.get('eig'))
    if h is not None:
        r = h(c)
        if r is not None:
            return tuple(I.wrap(st, x) for x in r)

    def w(x):
        return nd.opaque_mx('eigw', (x.shape[0],), x)

    def v(x):
        return nd.opaque_mx('eigv', x.shape, x)
    return (I.wrap(st, I.glift(st, w, c)), I.wrap(st, I.glift(st, v, c)))


@npf('linalg.qr')
def np_qr(L, st, a, kw):
    I = L.I
    c = I.content(st, a[0])
    h = I.schema.linalg.get('qr')
    if h is not None:
        r = h(c)
        if r is not None:
            return tuple(I.wrap(st, x) for x in r)
    return (I.wrap(st, I.glift(st, lambda x: nd.opaque_mx('qrq', x.shape, x), c)),
            I.wrap(st, I.glift(st, lambda x: nd.opaque_mx('qrr', x.shape, x), c)))


nd.MXF.update({
    'eigw': lambda x: np.linalg.eig(x)[0].real,
    'eigv': lambda x: np.linalg.eig(x)[1].real,
    'qrq': lambda x: np.linalg.qr(x)[0],
    'qrr': lambda x: np.linalg.qr(x)[1],
})


def _eig_part(m, a):
    M = m.value(a.args[1])
    w = np.linalg.eigvals(M)
    # an order that does not depend on rounding
    w = sorted(w, key=lambda z: (round(z.real, 9), round(z.imag, 9)))
    z = w[m.bindval(a.args[0]) % len(w)]
    return float(z.imag if a.args[2] == 'im' else z.real)


def spectrum(x):
    m = to_mx(alg.canon_ar(cells(x))) if ints(x.shape) else to_mx(x)
    coll = atom('spectrum', m)
    e = atom('elem', coll, 0)
    part = lambda k: sx_atom(atom('eigpart', e, m, k, interp=_eig_part))
    return CollV(coll, e, True, Cx(part('re'), part('im')))


@npf('linalg.eigvals', 'linalg.eigvalsh')
def np_eigvals(L, st, a, kw):
    I = L.I
    h = I.schema.linalg.get('eigvals')
    if h is not None:
        return h(I, st, I.content(st, a[0]))
    return I.glift(st, spectrum, I.content(st, a[0]))


@npf('allclose')
def np_allclose(L, st, a, kw):
    I = L.I
    A, B = I.content(st, a[0]), I.content(st, a[1])
    kw = dict(kw)
    tol = [num(kw.pop(k, a[i] if len(a) > i else d)) for i, k, d in (
        (2, 'rtol', Fraction(1, 100000)), (3, 'atol', Fraction(1, 100000000)))]
    if kw or len(a) > 4:
        raise Unsupported('allclose options')

    def f(x, y):
        d = nd.add(x, y, -1)

        def near(z, w):
            if z.iszero():
                return True
            c, k, q, r = z.const(), w.const(), tol[0].const(), tol[1].const()
            if None not in (c, k, q, r):
                return abs(c) <= r + q * abs(k)
            return cond(atom('close', z, w, tol[0], tol[1], interp=_close))
        if not is_arr(d):
            return near(d, num(y))
        if isinstance(d, Mx) and not ints(d.shape):
            return True if not d.t else cond(atom('close', d, y if is_arr(y) else num(y), tol[0],
                                                  tol[1], interp=_close))
        D = cells(d).c
        Y = np.broadcast_to(cells(y).c, D.shape)
        r = True
        for i in np.ndindex(D.shape):
            r = b_and(r, near(D[i], Y[i]))
        return r
    return I.glift(st, f, A, B)


NUMPY['numpy.isclose'] = lambda L, st, a, kw: np_allclose(L, st, a, kw)


def _close(m, a):
    d, y, q, r = [m.value(x) for x in a.args]
    return bool(np.all(np.abs(d) <= r + q * np.abs(y)))


@npf('array_equal')
def np_array_equal(L, st, a, kw):
    I = L.I

    def f(x, y):
        r = nd.compare_op('==', x, y)
        return nd.all_of(r) if isinstance(r, (BAr, BMx)) else r
    return I.glift(st, f, I.content(st, a[0]), I.content(st, a[1]))


@npf('isfinite', 'isnan', 'isinf')
def np_isfinite(L, st, a, kw):
    L.I.unsupported('isfinite')


@npf('argsort', 'argmin', 'argmax')
def np_arg(L, st, a, kw):
    raise Unsupported('argsort')


def np_argsort(L, st, a, kw):
    I = L.I
    if kw or len(a) > 1:
        I.unsupported('argsort options')

    def f(x):
        x = cells(x)
        n = x.c.shape[0]
        if n > 4:
            raise Unsupported('argsort size')
        # stable insertion over the finite set of orderings
        def sort(done, rest):
            if not rest:
                return ar(list(done))
            k = rest[0]

            def place(pos):
                if pos == 0:
                    return sort((k,) + done, rest[1:])
                c = cmp_cond('<', x.c[k], x.c[done[pos - 1]])
                ins = sort(done[:pos] + (k,) + done[pos:], rest[1:])
                return ite(c, place(pos - 1), ins) if c is not False else ins
            return place(len(done))
        return sort((), tuple(range(n)))
    return I.wrap(st, I.glift(st, f, I.content(st, a[0])), 'i')


NUMPY['numpy.argsort'] = np_argsort


def mk_argmin(op):
    def f(L, st, a, kw):
        I = L.I

        def g(x):
            if isinstance(x, Mx) and not ints(x.shape):
                raise Unsupported('argmin')
            xs = list(cells(x).c.flat)

            def rec(best, k):
                if k == len(xs):
                    return best
                c = cmp_cond(op, xs[k], xs[best])
                return ite(c, rec(k, k + 1), rec(best, k + 1)) if not isinstance(c, bool) else \
                    rec(k if c else best, k + 1)
            return rec(0, 1)
        return I.glift(st, g, I.content(st, a[0]))
    return f


NUMPY['numpy.argmin'] = mk_argmin('<')
NUMPY['numpy.argmax'] = mk_argmin('>')


@npf('ix_')
def np_ix(L, st, a, kw):
    I = L.I
    out = []
    for x in a:
        x = I.norm_ix(st, x)
        out.append(x)
    return Ix2(tuple(out))


class Ix2(object):
    def __init__(self, axes):
        self.axes = axes

    def samekey(self):
        return ('ix2', skey(self.axes))


@npf('logical_and', 'logical_or', 'logical_not')
def np_logical(L, st, a, kw):
    raise Unsupported('logical')


def mk_logical(op):
    def f(L, st, a, kw):
        if isinstance(a[0], (BAr, CollV)):
            return L.bit_op(st, op, a[0], a[1])
        x, y = L.I.truth(st, a[0]), L.I.truth(st, a[1])
        return b_and(x, y) if op == 'BitAnd' else b_or(x, y)
    return f


NUMPY['numpy.logical_and'] = mk_logical('BitAnd')
NUMPY['numpy.logical_or'] = mk_logical('BitOr')
NUMPY['numpy.logical_not'] = lambda L, st, a, kw: a[0].map(b_not) if isinstance(a[0], CollV) \
    else b_not(L.I.truth(st, a[0]))


@npf('clip')
def np_clip(L, st, a, kw):
    I = L.I
    lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min'))
    hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max'))
    X = I.content(st, a[0])
    Lo = None if lo is None else I.content(st, lo)
    Hi = None if hi is None else I.content(st, hi)

    def one(x, l, h):
        if l is not None:
            x = lift(lambda y: ite(cmp_cond('<', y, l), l, y), x)
        if h is not None:
            x = lift(lambda y: ite(cmp_cond('>', y, h), h, y), x)
        return x

    def f(x, l, h):
        if not is_arr(x):
            return one(num(x), None if l is None else num(l), None if h is None else num(h))
        c = cells(x)
        ls = None if l is None else np.broadcast_to(cells(l).c, c.shape)
        hs = None if h is None else np.broadcast_to(cells(h).c, c.shape)
        vals = [one(c.c[i], None if ls is None else ls[i], None if hs is None else hs[i])
                for i in np.ndindex(c.shape)]

        def build(*zs):
            o = np.empty(len(zs), dtype=object)
            for i, z in enumerate(zs):
                o[i] = z
            return Ar(o.reshape(c.shape))
        return lift(build, *vals)
    return I.wrap(st, I.glift(st, f, X, Lo, Hi))


@npf('where')
def np_where(L, st, a, kw):
    I = L.I
    c = a[0]
    if len(a) == 3 and not isinstance(c, (BAr, BMx)):
        t = I.truth(st, c)
        return I.wrap(st, ite(t, I.content(st, a[1]), I.content(st, a[2])))
    if len(a) == 3 and isinstance(c, BAr):
        X = I.content(st, a[1])
        Y = I.content(st, a[2])

        def f(x, y):
            xs = np.broadcast_to(cells(x).c, c.c.shape)
            ys = np.broadcast_to(cells(y).c, c.c.shape)
            vals = [ite(c.c[i], xs[i], ys[i]) for i in np.ndindex(c.c.shape)]

            def build(*zs):
                o = np.empty(len(zs), dtype=object)
                for i, z in enumerate(zs):
                    o[i] = z
                return Ar(o.reshape(c.c.shape))
            return lift(build, *vals)
        return I.wrap(st, I.glift(st, f, X, Y))
    I.unsupported('where')


@npf('finfo', 'random.rand', 'nonzero', 'meshgrid',
     'repeat', 'savetxt', 'loadtxt', 'unique', 'vdot', 'savez', 'isscalar', 'interp',
     'fill_diagonal', 'linalg.cholesky', 'linalg.lstsq', 'linalg.svd', 'polyfit',
     'seterr', 'set_printoptions', 'testing', 'fromstring', 'fromiter', 'copyto', 'nditer')
def np_unsup(L, st, a, kw):
    L.I.unsupported('numpy function')


NUMPY['numpy.ndim'] = lambda L, st, a, kw: 0 if isinstance(a[0], (int, Sx)) else \
    L.array_attr(st, a[0] if isinstance(a[0], Nd) else L.I.wrap(st, L.I.content(st, a[0])), 'ndim')
@npf('atleast_2d')
def np_atleast2(L, st, a, kw):
    c = L.I.content(st, a[0])
    if isinstance(c, Sx):
        return L.I.new_nd(st, ar([[c]]))
    if isinstance(c, Phi):
        L.I.unsupported('atleast_2d')
    v = a[0] if isinstance(a[0], Nd) else L.I.wrap(st, c)
    return v if len(c.shape) > 1 else L.I.subscript(st, v, (None, VSlice(None, None)))


def _logical(op):
    def f(L, st, a, kw):
        I = L.I

        def b(v):
            if isinstance(v, (BAr, CollV)):
                return v
            if isinstance(v, (Nd, Ar, Mx)):
                return I.compare(st, 'NotEq', v, 0)
            return I.truth(st, v)
        return L.bit_op(st, op, b(a[0]), b(a[1])) if op else \
            L.bit_op(st, 'BitXor', b(a[0]), True)
    return f


NUMPY['numpy.logical_and'] = _logical('BitAnd')
NUMPY['numpy.logical_or'] = _logical('BitOr')
NUMPY['numpy.logical_xor'] = _logical('BitXor')
NUMPY['numpy.logical_not'] = _logical(None)


NUMPY['numpy.atleast_1d'] = lambda L, st, a, kw: np_atleast1(L, st, a, kw)


def np_atleast1(L, st, a, kw):
    c = L.I.content(st, a[0])
    if isinstance(c, Sx):
        return L.I.new_nd(st, ar([c]))
    if isinstance(a[0], Nd):
        return a[0]
    return L.I.wrap(st, c)


NUMPY['numpy.copy'] = lambda L, st, a, kw: L.I.wrap(st, L.I.content(st, a[0]), L.I.dtype(st, a[0]))
NUMPY['numpy.vdot'] = lambda L, st, a, kw: np_dot(L, st, a, kw)
NUMPY['numpy.shape'] = lambda L, st, a, kw: L.array_attr(st, a[0], 'shape')
NUMPY['numpy.isscalar'] = lambda L, st, a, kw: isinstance(a[0], (int, Sx, str))


def np_copyto(L, st, a, kw):
    c = L.I.content(st, a[0])
    L.I.nd_write(st, a[0], L.I.glift(st, lambda x, y: nd.broadcast_to(y, x.shape), c,
                                     L.I.content(st, a[1])))
    return None


NUMPY['numpy.copyto'] = np_copyto


def np_fill_diag(L, st, a, kw):
    c = L.I.content(st, a[0])

    def f(x, v):
        x = Ar(cells(x).c.copy())
        for i in range(min(x.c.shape)):
            x.c[i, i] = num(v)
        return x
    L.I.nd_write(st, a[0], L.I.glift(st, f, c, L.I.content(st, a[1])))
    return None


NUMPY['numpy.fill_diagonal'] = np_fill_diag
EXTRA['numpy.r_'] = lambda L, st, a, kw: L.I.unsupported('r_')
EXTRA['numpy.c_'] = EXTRA['numpy.r_']


def _cumsum(L, st, a, kw):
    I = L.I

    def f(x):
        x = cells(x)
        r, o = S0, []
        for z in x.c.flat:
            r = r + z
            o.append(r)
        return ar(o)
    return I.wrap(st, I.glift(st, f, I.content(st, a[0])))


NUMPY['numpy.cumsum'] = _cumsum
