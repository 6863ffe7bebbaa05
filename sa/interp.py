"""Abstract interpreter: gated algebraic value numbering of Python source.

Branches are not enumerated as paths: both arms are analysed from the same
entry state and joined with gated (phi) values.  Loops over collections of
unknown size are summarised (sums, maps, filters, prefix sums, quantified
exits, or a loop record); they are never unrolled.
"""
import collections
import ast
import builtins
from front import *
from values import *
import numpy as np
import alg
import nd


class Ctl(Exception):
    pass


class Frame(object):
    n = 0

    def __init__(self, interp, fn, parent=None):
        Frame.n += 1
        self.fid = Frame.n
        self.fn = fn
        self.mod = fn.mod
        self.exits = []
        self.parent = parent
        self.yields = None
        self.locals = local_names(fn.node)
        self.own = isinstance(fn.node, ast.FunctionDef)


_ln = {}


def local_names(node):
    r = _ln.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    s = set()
    glob = set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            s.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                s.add(x.arg)
    for n in walk_local(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                s.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    s -= glob
    _ln[id(node)] = (node, s)
    return s


def global_decl(node, name):
    for n in walk_local(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return 'global' if isinstance(n, ast.Global) else 'nonlocal'
    return None


_cl = {}


def counting_loop(s):
    """(i, body) when the loop is 'while i < n: body; i += 1', a loop over range(i, n)"""
    if id(s) not in _cl:
        _cl[id(s)] = (s, _counting_loop(s))
    return _cl[id(s)][1]


def _counting_loop(s):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
            and isinstance(t.left, ast.Name)):
        return None
    i, bound = t.left.id, t.comparators[0]
    stores = set()
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stores.add('.' + n.attr)
            elif isinstance(n, (ast.Continue, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                return None
    for n in ast.walk(bound):
        if isinstance(n, ast.Name) and n.id in stores or \
                isinstance(n, ast.Attribute) and '.' + n.attr in stores or \
                not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator,
                                   ast.expr_context)):
            return None
    last = s.body[-1]
    one = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and \
        isinstance(last.target, ast.Name) and last.target.id == i and \
        isinstance(last.value, ast.Constant) and last.value.value == 1
    if not one or any(isinstance(n, ast.Name) and n.id == i and not isinstance(n.ctx, ast.Load)
                      for b in s.body[:-1] for n in ast.walk(b)):
        return None
    target = ast.copy_location(ast.Name(id=i, ctx=ast.Store()), t.left)
    return target, s.body[:-1]


class Exit(object):
    __slots__ = ('kind', 'st', 'val', 'site')

    def __init__(self, kind, st, val=None, site=None):
        self.kind, self.st, self.val, self.site = kind, st, val, site


def coll_cmp(op, x, y):
    if isinstance(x, Cx) or isinstance(y, Cx):
        raise Unsupported('ordering of complex numbers')
    return cmp_cond(op, num(x), num(y))


def container(name):
    """the name of a method of a builtin container"""
    return any(hasattr(t, name) for t in (list, dict, set, tuple, collections.deque,
                                          collections.OrderedDict, collections.defaultdict))


def own_attrs(f, name):
    """attributes given to a function which is defined once"""
    return isinstance(f.node, ast.FunctionDef) and f.closure is None and not name.startswith('__')


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, schema, contracts=None, trace=None):
        self.prog = prog
        self.schema = schema
        self.contracts = contracts or {}
        self.stack = []
        self.nid = 0
        self.active = []          # bound elements of the enclosing symbolic loops
        self.calls_seen = set()   # analysed functions (for evidence)
        self.sites = 0
        self.node = None
        self.steps = 0
        self.maxsteps = 400000
        from lib import Library
        self.lib = Library(self)

    # ------------------------------------------------------------- plumbing
    def fresh(self):
        if self.sharing:
            Interp.shared_id -= 1
            return Interp.shared_id
        self.nid += 1
        return self.nid

    shared_id = 0
    sharing = 0

    def shared(self, key, f):
        """what a definition makes once and for all: its objects exist in every state"""
        cache = self.prog.__dict__.setdefault('shared', {})
        if key not in cache:
            s = State(pc=True)
            self.sharing += 1
            try:
                v = f(s)
            finally:
                self.sharing -= 1
            if s.dead:
                self.unsupported('a definition that raises')
            for k in s.heap.keys_since(None):
                SHARED[k] = s.heap.get(k)
            cache[key] = v
        return cache[key]

    def unsupported(self, msg):
        where = ''
        if self.stack:
            f = self.stack[-1]
            where = ' (%s:%s)' % (os.path.relpath(f.mod.path, self.prog.root),
                                  getattr(self.node, 'lineno', '?'))
        raise Unsupported(msg + where)

    def site(self):
        if not self.stack:
            return None
        f = self.stack[-1]
        return (f.mod.path, getattr(self.node, 'lineno', 0), f.fn.qual())

    def glift(self, st, f, *args):
        """apply f under the gates of args; an exception on a leaf becomes a
        raise exit guarded by that leaf's gate"""
        if not any(isinstance(a, Phi) for a in args):
            if any(a is UNDEF for a in args):
                self.unsupported('use of an unbound value')
            return f(*args)
        args = [under(a, st.pc) for a in args]
        raised = []

        def rec(args, path):
            top = None
            for x in args:
                if isinstance(x, Phi) and (top is None or x.a.id < top.id):
                    top = x.a
            if top is None:
                c = path_cond(path)
                if b_and(c, st.pc) is False or not consistent(path):
                    return UNDEF
                if any(a is UNDEF for a in args):
                    self.unsupported('use of an unbound value')
                try:
                    return f(*args)
                except PyErr as e:
                    if not infeasible(b_and(c, st.pc)):
                        raised.append((c, e))
                    return UNDEF
                except Unsupported:
                    if infeasible(b_and(c, st.pc)):
                        return UNDEF
                    raise
            h = rec([cof(x, top, True) for x in args], path + ((top, True),))
            l = rec([cof(x, top, False) for x in args], path + ((top, False),))
            if h is UNDEF:
                return l
            if l is UNDEF:
                return h
            return phi(top, h, l)
        r = rec(args, ())
        for c, e in raised:
            self.raise_under(st, c, e)
        if r is UNDEF and st.pc is False:
            return None
        return r

    def raise_under(self, st, c, e):
        """record that the exception e is raised when c holds"""
        pc = b_and(st.pc, c)
        if pc is False:
            return
        s2 = st.fork()
        s2.pc = pc
        self.stack[-1].exits.append(Exit('raise', s2, e.val or ExcV(e.name), self.site()))
        st.pc = b_and(st.pc, b_not(c))

    def sides(self, st, c, s1, s2, f, g):
        """f(s1) where c holds, g(s2) elsewhere; an exception of one side only
        ends this side"""
        out, errs = [], []
        for s, h in ((s1, f), (s2, g)):
            r = UNDEF
            if s.pc is not False:
                try:
                    r = h(s)
                except PyErr as e:
                    if not infeasible(s.pc):
                        errs.append((s.fork(), e))
                    s.pc = False
            out.append(r)
        if s1.pc is False and s2.pc is False and errs:
            # the whole expression raises
            for x, e in errs[:-1]:
                self.raise_under(x, True, e)
                st.pc = b_and(st.pc, b_not(c))
            raise errs[-1][1]
        for x, e in errs:
            self.raise_under(x, True, e)
        return out

    def split(self, st, v, f):
        """run f(st, leaf) for each gated alternative of v, joining states"""
        v = under(v, st.pc)
        if not isinstance(v, Phi):
            if v is UNDEF:
                self.unsupported('use of an unbound value')
            if isinstance(v, Poison):
                self.unsupported(v.why)
            return f(st, v)
        a = cond(v.a)
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = b_and(st.pc, a), b_and(st.pc, b_not(a))
        r1, r2 = self.sides(st, a, s1, s2, lambda s: self.split(s, v.hi, f),
                            lambda s: self.split(s, v.lo, f))
        m = merge_states([s1, s2])
        if m is None:
            st.pc = False
            return None
        d1, d2 = s1.pc is False, s2.pc is False
        st.assign(m)
        if d1:
            return r2
        if d2:
            return r1
        return merge_val(a, r1, r2)

    def branch(self, st, c, f, g):
        """c ? f(st) : g(st), joined"""
        c = under(c, st.pc)
        if c is True:
            return f(st)
        if c is False:
            return g(st)
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = b_and(st.pc, c), b_and(st.pc, b_not(c))
        r1, r2 = self.sides(st, c, s1, s2, f, g)
        d1, d2 = s1.pc is False, s2.pc is False
        m = merge_states([s1, s2])
        if m is None:
            st.pc = False
            return None
        st.assign(m)
        if d1:
            return r2
        if d2:
            return r1
        return merge_val(c, r1, r2)

    # --------------------------------------------------------------- arrays
    def new_nd(self, st, content, dtype='f'):
        b = ('t', self.fresh())
        st.set(('B', b), content)
        if dtype != 'f':
            st.set(('D', b), dtype)
        return Nd(b)

    def dtype(self, st, v):
        if isinstance(v, Nd):
            return st.get(('D', v.root()), 'f')
        if isinstance(v, bool):
            return 'b'
        if isinstance(v, int):
            return 'i'
        if isinstance(v, Phi):
            ds = set(self.dtype(st, l) for _, l in leaves(v))
            return ds.pop() if len(ds) == 1 else 'u'
        return 'f'

    def content(self, st, v):
        """numeric content of an array-like or scalar value (may be gated)"""
        if isinstance(v, Phi):
            v = under(v, st.pc)
            if isinstance(v, Phi):
                return self.glift(st, lambda x: x, self._phi_content(st, v))
        if isinstance(v, Nd):
            if isinstance(v.base, Nd):
                b = self.content(st, v.base)
            else:
                b = st.get(('B', v.base))
                if b is UNDEF:
                    b = self.schema.buffer(self, st, v.base)
                    st.set(('B', v.base), b)
            if v.ix is not None:
                b = self.glift(st, lambda x: nd.getitem(x, v.ix), b)
            if isinstance(v.t, tuple):
                return self.glift(st, lambda x: nd.reshape(x, v.t), b)
            if v.t:
                b = self.glift(st, nd.transpose, b)
            return b
        if isinstance(v, Poison):
            self.unsupported(v.why)
        if isinstance(v, (bool, int, float, Fraction)):
            return num(v)
        if isinstance(v, (Sx, Ar, Mx, BAr, BMx)):
            return v
        if isinstance(v, (tuple, Obj)):
            return self.array_of(st, v)
        if v is None:
            raise PyErr('TypeError')
        if isinstance(v, AObj):
            r = self.schema.numeric(self, st, v)
            if r is not None:
                return r
        if isinstance(v, VSlice):
            raise PyErr('TypeError')
        self.unsupported('numeric content of %r' % (v,))

    def _phi_content(self, st, v):
        if isinstance(v, Phi):
            h, l = self._phi_content(st, v.hi), self._phi_content(st, v.lo)
            return self._reorder(v.a, h, l)
        return self.content(st, v) if v is not UNDEF else UNDEF

    def _reorder(self, a, h, l):
        return ite(cond(a), h, l)

    def array_of(self, st, v):
        """content of array(v) for nested tuples/lists"""
        items = self.items_concrete(st, v)
        if items is None:
            return self.array_of_segs(st, self.segs_of(st, v))
        els = [self.content(st, x) if not isinstance(x, (IxArr,)) else x for x in items]
        if any(isinstance(x, IxArr) for x in els):
            self.unsupported('array of index arrays')

        def build(*xs):
            if any(isinstance(x, (Mx, Ar)) and not ints(x.shape) for x in xs):
                if all(isinstance(x, Mx) and len(x.shape) == 1 for x in xs):
                    return stack_rows(xs)
                raise Unsupported('array of symbolic arrays')
            xs = [cells(x) if is_arr(x) else x for x in xs]
            shapes = set(x.shape if isinstance(x, Ar) else () for x in xs)
            if len(shapes) > 1:
                raise PyErr('ValueError')
            return ar(list(xs)) if xs else ar_zeros((0,))
        return self.glift(st, build, *els)

    def array_of_segs(self, st, segs):
        if segs and all(is_rng(s) for s in flat_segs(segs)):
            return IxArr(segs)
        return cat_segs(self, segs)

    def wrap(self, st, c, dtype='f'):
        """numeric content -> value"""
        if isinstance(c, Phi):
            kinds = set(type(l).__name__ in ('Ar', 'Mx') for _, l in leaves(c) if l is not UNDEF)
            if kinds == {True}:
                return self.new_nd(st, c, dtype)
            if kinds == {False}:
                return c
            return lift(lambda l: self.wrap(st, l, dtype), c)
        if isinstance(c, (Ar, Mx)):
            if isinstance(c, Ar) and c.c.ndim == 0:
                return c.c[()]
            return self.new_nd(st, c, dtype)
        return c

    def nd_write(self, st, v, content):
        """overwrite the whole (view) v with content"""
        if isinstance(v, Phi):
            v = under(v, st.pc)
        if isinstance(v, Phi):
            def w(st, leaf):
                self.nd_write(st, leaf, under(content, st.pc))
            self.split(st, v, w)
            return
        if not isinstance(v, Nd):
            self.unsupported('store in %r' % (v,))
        d = st.get(('D', v.root()), 'f')
        if d in ('i', 'f4', 'f2'):
            from lib import stored
            content = self.glift(st, lambda x: stored(x, d), content)
        if isinstance(v.t, tuple):
            content = self.glift(st, lambda b, x: nd.reshape(x, b.shape),
                                 self.content(st, v.base), content)
        elif v.t:
            content = self.glift(st, nd.transpose, content)
        if isinstance(v.base, Nd):
            base = self.content(st, v.base)
            if v.ix is not None:
                content = self.glift(st, lambda b, x: nd.setitem(b, v.ix, x), base, content)
            self.nd_write(st, v.base, content)
            return
        if st.get(('RO', v.base)) is True:
            self.unsupported('store in a reshaped view')
        cur = self.content(st, Nd(v.base))
        if v.ix is not None:
            content = self.glift(st, lambda b, x: nd.setitem(b, v.ix, x), cur, content)
        if isinstance(v.base, tuple) and v.base[0] == 'attr':
            st.events += (Event('write', 'buffer', (v.base,), st.pc, self.site()),)
        st.set(('B', v.base), content)

    def binop(self, st, op, a, b):
        A, B = self.content(st, a), self.content(st, b)
        f = {'Add': nd.add, 'Sub': lambda x, y: nd.add(x, y, -1), 'Mult': nd.mul,
             'Div': nd.div, 'Pow': nd.power, 'MatMult': nd.dot,
             'Mod': scalar_mod, 'FloorDiv': scalar_floordiv}.get(op)
        if f is None:
            self.unsupported('operator ' + op)

        def g(x, y):
            if isinstance(x, BAr) or isinstance(y, BAr):
                raise Unsupported('arithmetic on conditions')
            if op in ('Mod', 'FloorDiv') and (isinstance(x, Ar) or isinstance(y, Ar)):
                return nd.ar_bin(f, nd.cells(x), nd.cells(y))
            return f(x, y)
        return self.glift(st, g, A, B)

    def iop(self, st, op, target, v):
        """in-place operator on an array value"""
        new = self.binop(st, op, target, v)
        if self.dtype(st, target) in ('i', 'u') and (
                op == 'Div' or self.dtype(st, v) not in ('i', 'b')):
            st.hazards += (('inplace-cast', self.site(), self.dtype(st, target),
                            target),)
        cur = self.content(st, target)
        new = self.glift(st, lambda c, n: broadcast_to(n, c.shape), cur, new)
        self.nd_write(st, target, new)

    # ------------------------------------------------------------ sequences
    def new_list(self, st, items, cls='list'):
        o = Obj(self.fresh(), cls)
        st.set(('C', o), Content(tuple(One(v) for v in items)))
        return o

    def once(self, st, v):
        """v can be iterated over only once"""
        st.set(('G', v), True)
        return v

    def drain(self, st, v):
        """segments of an iterable that is iterated over to its end"""
        segs = self.segs_of(st, v)
        if isinstance(v, Obj) and st.get(('G', v)) is True:
            st.set(('C', v), Content(()))
        return segs

    def segs_of(self, st, v):
        """segments of an iterable value"""
        if isinstance(v, Content):
            return v.segs
        if isinstance(v, tuple):
            return tuple(One(x) for x in v)
        if isinstance(v, Obj):
            c = st.get(('C', v))
            if isinstance(c, Content):
                if self.lib.kind(st, v) == 'dict':
                    from lib import map_segs
                    return map_segs(c.segs, lambda p: p[0])
                return c.segs
            if isinstance(c, Poison):
                self.unsupported(c.why)
            if v.cls != 'list' and isinstance(v.cls, ClassDef):
                k, e = v.cls.lookup('__iter__')
                if e and e[0] == 'fn':
                    r = self.call_fn(st, Fn(k.mod, e[1], k), [v], {})
                    if isinstance(r, Obj) and isinstance(r.cls, ClassDef) and r.cls.lookup('__next__')[1]:
                        self.unsupported('__iter__')
                    return self.segs_of(st, r)
                if e or v.cls.lookup('__getitem__')[1]:
                    self.unsupported('__iter__')
            raise PyErr('TypeError')
        if isinstance(v, str):
            return tuple(One(x) for x in v)
        if isinstance(v, BAr) and v.c.ndim == 1:
            return tuple(One(x) for x in v.c)
        if isinstance(v, (Nd, Ar, Mx)):
            c = self.content(st, v)
            if isinstance(c, Phi):
                shapes = set(l.shape for _, l in leaves(c))
                if len(shapes) == 1 and ints(list(shapes)[0]):
                    n = list(shapes)[0][0]
                    return tuple(One(self.subscript(st, v, i)) for i in range(n))
                self.unsupported('iteration over a gated array')
            if isinstance(c.shape[0], int):
                return tuple(One(self.subscript(st, v, i)) for i in range(c.shape[0]))
            if len(c.shape) == 1:
                return (Vec(c),)
            self.unsupported('iteration over rows')
        if isinstance(v, AObj):
            r = self.schema.iterate(self, st, v)
            if r is not None:
                return r
            self.unsupported('iteration over %r' % (v,))
        if isinstance(v, IxArr):
            return v.segs
        if isinstance(v, CollV):
            return v.segs()
        if isinstance(v, Phi):
            out = []
            for path, l in leaves(under(v, st.pc)):
                out.append(Cnd(path_cond(path), self.segs_of(st, l)))
            return tuple(out)
        if v is None:
            raise PyErr('TypeError')
        self.unsupported('iteration over %r' % (v,))

    def items_concrete(self, st, v):
        """list of the items if they are individually known, else None"""
        segs = self.segs_of(st, v)
        if all(isinstance(s, One) for s in segs):
            return [s.v for s in segs]
        return None

    def pairs(self, st, v):
        """(key, value) of a mapping whose keys are individually known"""
        c = st.get(('C', v)) if isinstance(v, Obj) and self.lib.kind(st, v) == 'dict' else None
        if not isinstance(c, Content) or not all(isinstance(s, One) for s in c.segs):
            self.unsupported('symbolic mapping')
        return [s.v for s in c.segs]

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Phi):
            return self.split(st, f, lambda s, l: self.call(s, l, args, kw))
        if isinstance(f, Poison):
            self.unsupported(f.why)
        if isinstance(f, Fn):
            return self.call_fn(st, f, list(args), kw)
        if isinstance(f, Bound):
            return self.call_fn(st, f.fn, [f.self_] + list(args), kw)
        if isinstance(f, ABound):
            return self.call_method(st, f.obj, f.name, list(args), kw)
        if isinstance(f, ClassDef):
            return self.instantiate(st, f, list(args), kw)
        if isinstance(f, Lib):
            return self.lib.call(st, f.name, list(args), kw)
        if isinstance(f, Ext):
            return self.schema.ext_call(self, st, f.name, list(args), kw)
        if isinstance(f, ExcV):
            return ExcV(f.name, tuple(args))
        if isinstance(f, Obj) and isinstance(f.cls, ClassDef):
            k, e = f.cls.lookup('__call__')
            if e and e[0] == 'fn':
                return self.call_fn(st, Fn(k.mod, e[1], k), [f] + list(args), kw)
        if isinstance(f, AObj):
            return self.schema.call_obj(self, st, f, list(args), kw)
        if f is None:
            raise PyErr('TypeError')
        self.unsupported('call of %r' % (f,))

    def instantiate(self, st, cls, args, kw):
        r = self.schema.new(self, st, cls, args, kw)
        if r is not None:
            return r
        for b in cls.mro():
            if isinstance(b, str) and b.split('.')[-1] in ('Exception', 'ValueError', 'KeyError',
                                                           'RuntimeError', 'TypeError'):
                k, e = cls.lookup('__init__')
                if e and e[0] == 'fn':
                    # its arguments must be those expected
                    self.bind(st, Fn(k.mod, e[1], k), [None] + list(args), kw)
                return ExcV(cls.name, tuple(args))
        for n in ('__new__', '__getattribute__', '__getattr__', '__setattr__', '__delattr__'):
            if cls.lookup(n)[1] is not None:
                self.unsupported(n)
        o = Obj(self.fresh(), cls)
        if 'list' in cls.mro():
            st.set(('C', o), Content(()))
        k, e = cls.lookup('__init__')
        if e:
            if e[0] != 'fn':
                self.unsupported('special method __init__')
            self.call_fn(st, Fn(k.mod, e[1], k), [o] + args, kw)
        elif args or kw:
            if 'list' in cls.mro() and len(args) == 1 and not kw:
                st.set(('C', o), Content(tuple(self.segs_of(st, args[0]))))
            elif any(not isinstance(b, ClassDef) and b != 'object' for b in cls.mro()):
                self.unsupported('arguments of %s' % cls.name)
            else:
                raise PyErr('TypeError')
        return o

    def bind(self, st, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if not a.vararg:
                raise PyErr('TypeError')
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        extra = []
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in env:
                    raise PyErr('TypeError')
                env[n] = v
            elif a.kwarg:
                extra.append((n, v))
            else:
                raise PyErr('TypeError')
        if a.kwarg:
            o = Obj(self.fresh(), 'dict')
            st.set(('C', o), Content(tuple(One((n, v)) for n, v in extra)))
            env[a.kwarg.arg] = o
        nd_ = len(a.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd_)
                if j < 0:
                    raise PyErr('TypeError')
                env[n] = self.default(st, fn, a.defaults[j])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise PyErr('TypeError')
                env[x.arg] = self.default(st, fn, d)
        return env

    def positional(self, st, fn, args, kw):
        """the same call with its keyword arguments given by position"""
        a = fn.node.args
        if not kw or a.vararg or a.kwarg or a.kwonlyargs:
            return args, kw
        env = self.bind(st, fn, args, kw)
        names = [x.arg for x in a.posonlyargs + a.args]
        n = max([len(args)] + [names.index(k) + 1 for k in kw])
        return [env[k] for k in names[:n]], {}

    def default(self, st, fn, node):
        """default expressions are evaluated once, where the function is defined"""
        if fn.defaults is not None and id(node) in fn.defaults:
            return fn.defaults[id(node)]
        if fn.closure is not None:
            fr = fn.closure
            return self.in_frame(fr, lambda: self.eval(st, fr, node))
        if isinstance(node, (ast.Constant, ast.Name)):
            return self.module_eval(st, fn.mod, node)
        return self.shared(('default', id(node)), lambda s: self.module_eval(s, fn.mod, node))

    def closure_of(self, st, fr, node):
        """a function defined in another: its defaults are evaluated now"""
        a = node.args
        d = {}
        for x in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            d[id(x)] = self.eval(st, fr, x)
        return Fn(fr.mod, node, None, fr, d or None)

    def decorated(self, st, fr, node, f):
        for d in reversed(node.decorator_list):
            g = self.eval(st, fr, d)
            if st.dead:
                return None
            f = self.call(st, g, [f], {})
        return f

    def in_frame(self, fr, f):
        self.stack.append(fr)
        try:
            return f()
        finally:
            self.stack.pop()

    def module_eval(self, st, mod, node):
        fr = Frame(self, Fn(mod, ast.parse('lambda: None', mode='eval').body))
        fr.locals = set()
        return self.in_frame(fr, lambda: self.eval(st, fr, node))

    def call_fn(self, st, fn, args, kw):
        c = self.contracts.get(fn.qual())
        if c is not None:
            args, kw = self.positional(st, fn, args, kw)
            r = c(self, st, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.stack) > self.MAXDEPTH:
            self.unsupported('call depth (recursion without a contract?)')
        if isinstance(fn.node, ast.Lambda):
            fr = Frame(self, fn, fn.closure)
            for n, v in self.bind(st, fn, args, kw).items():
                st.set(('L', fr.fid, n), v)
            return self.in_frame(fr, lambda: self.eval(st, fr, fn.node.body))
        self.calls_seen.add((fn.mod.path, fn.qual(), fn.node.lineno))
        fr = Frame(self, fn, fn.closure)
        try:
            env = self.bind(st, fn, args, kw)
        except PyErr:
            raise
        for n, v in env.items():
            st.set(('L', fr.fid, n), v)
        entry_pc = st.pc
        if is_generator(fn.node):
            fr.yields = self.once(st, Obj(self.fresh(), 'list'))
            st.set(('C', fr.yields), Content(()))
        self.stack.append(fr)
        try:
            self.block(st, fr, fn.node.body)
        finally:
            self.stack.pop()
        rets = [x for x in fr.exits if x.kind == 'return']
        if not st.dead:
            rets.append(Exit('return', st.fork(), None))
        raises = [x for x in fr.exits if x.kind == 'raise']
        if self.stack:
            self.stack[-1].exits.extend(raises)
        else:
            self.top_raises = getattr(self, 'top_raises', []) + raises
        bad = [x for x in fr.exits if x.kind not in ('return', 'raise')]
        if bad:
            self.unsupported('stray %s' % bad[0].kind)
        if not rets:
            st.pc = False
            return None
        for r in rets:
            r.st.set(('R', fr.fid), r.val)
        m = merge_states([r.st for r in rets])
        st.assign(m)
        val = under(st.get(('R', fr.fid)), st.pc)
        if fr.yields is not None:
            return fr.yields
        return val

    def call_method(self, st, obj, name, args, kw):
        if isinstance(obj, Phi):
            return self.split(st, obj, lambda s, o: self.call_method(s, o, name, args, kw))
        if isinstance(obj, AObj):
            return self.schema.call_method(self, st, obj, name, args, kw)
        return self.lib.method(st, obj, name, args, kw)

    # ----------------------------------------------------------- attributes
    def getattr(self, st, o, name):
        if isinstance(o, Phi):
            return self.split(st, o, lambda s, l: self.getattr(s, l, name))
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassDef):
                v = st.get(('A', o, name))
                k, e = o.cls.lookup(name)
                if e and e[0] == 'prop':
                    if 'get' not in e[1]:
                        raise PyErr('AttributeError')
                    return self.call_fn(st, Fn(k.mod, e[1]['get'], k), [o], {})
                if v is not UNDEF:
                    v = under(v, st.pc)
                    if isinstance(v, Phi):
                        v = self.glift(st, lambda x: x, v)
                    if isinstance(v, Poison):
                        self.unsupported(v.why)
                    return v
                v = self.class_store(st, o.cls, name)
                if v is not UNDEF:
                    return Bound(v, o) if isinstance(v, Fn) else v
                r = self.schema.default_attr(self, st, o, name)
                if r is not None:
                    return r[0]
                if e:
                    return self.class_member(st, k, e, o)
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    self.unsupported('__dict__')
                if st.get(('C', o)) is not UNDEF and container(name):
                    return ABound(o, name)
                if hasattr(object, name) or any(not isinstance(b, ClassDef) and
                                                b not in ('object', 'list', 'dict')
                                                for b in o.cls.mro()):
                    self.unsupported('attribute ' + name)
                raise PyErr('AttributeError')
            # ranges and vectors of indices are lists too
            if isinstance(o.cls, str) and o.cls in ('list', 'dict', 'set') and not container(name) \
                    and not hasattr(range, name) and not hasattr(np.ndarray, name):
                raise PyErr('AttributeError')
            return ABound(o, name)
        if isinstance(o, AObj):
            v = st.get(('A', o, name))
            if isinstance(v, Poison):
                self.unsupported(v.why)
            if v is not UNDEF:
                return under(v, st.pc)
            if isinstance(o.cls, ClassDef):
                v = self.class_store(st, o.cls, name)
                if v is not UNDEF:
                    return Bound(v, o) if isinstance(v, Fn) else v
            return self.schema.attr(self, st, o, name)
        if isinstance(o, Nd) or isinstance(o, (Ar, Mx, BAr, BMx, Sx)):
            return self.lib.array_attr(st, o, name)
        if o is None and name == '__class__':
            return Lib('NoneType')
        if isinstance(o, ModV):
            return self.mod_member(st, o.name, name)
        if isinstance(o, Ext):
            m = self.lib.member(o.name + '.' + name)
            return m if m is not None else Ext(o.name + '.' + name)
        if isinstance(o, Lib):
            v = self.lib.member(o.name + '.' + name)
            if v is None and name != 'newaxis':
                self.unsupported('library member %s.%s' % (o.name, name))
            return v
        if isinstance(o, ClassDef):
            if name == '__name__':
                return o.name
            k, e = o.lookup(name)
            v = self.class_store(st, o, name)
            if v is not UNDEF:
                return v
            if e is None:
                for b in o.mro():
                    if isinstance(b, str):
                        return self.lib.member(b + '.' + name) or ABound(b, name)
                if name == '__init__':
                    return Lib('object.__init__')
                raise PyErr('AttributeError')
            if e[0] == 'fn' or e[0] == 'abs':
                return Fn(k.mod, e[1], k)
            return self.class_member(st, k, e, None, o)
        if isinstance(o, VSlice):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if isinstance(c, ClassDef) and name in c.own:
                    e = c.own[name]
                    if e[0] == 'prop':
                        return self.call_fn(st, Fn(c.mod, e[1]['get'], c), [o.obj], {})
                    return self.class_member(st, c, e, o.obj)
                if isinstance(c, str) and c == 'list':
                    return ABound(o.obj, 'list.' + name)
            if name == '__init__':
                return Lib('object.__init__')
        if isinstance(o, ExcV):
            if name == 'args':
                return tuple(o.args)
            if name == 'message':
                return o.args[0] if o.args else None
        if isinstance(o, Cx):
            if name in ('real', 'imag'):
                return o.re if name == 'real' else o.im
            self.unsupported('attribute of a complex number')
        if isinstance(o, CollV):
            if name in ('real', 'imag'):
                k = name == 'imag'
                return o.map(lambda v: (v.im if k else v.re) if isinstance(v, Cx) else S0 if k else v)
            if name == 'size':
                return self.lib.length(st, o)
            return ABound(o, name)
        if isinstance(o, (str, StrV, IxArr, tuple)):
            t = list if isinstance(o, IxArr) else tuple if isinstance(o, tuple) else str
            if not hasattr(t, name) and not isinstance(o, IxArr):
                raise PyErr('AttributeError')
            return ABound(o, name)
        if isinstance(o, str) or o in ('list', 'dict'):
            return ABound(o, name)
        if isinstance(o, Fn) and name == '__name__':
            return o.name
        if isinstance(o, Fn) and own_attrs(o, name):
            v = st.get(('F', id(o.node), name))
            if v is UNDEF:
                e = o.mod.given.get((o.node.name, name)) if o.cls is None else None
                if e is None:
                    raise PyErr('AttributeError')
                v = self.shared(('given', o.mod.name, o.node.name, name),
                                lambda s: self.module_eval(s, o.mod, e))
            v = under(v, st.pc)
            if isinstance(v, Phi):
                v = self.glift(st, lambda x: x, v)
            if isinstance(v, Poison):
                self.unsupported(v.why)
            return v
        if isinstance(o, (int, float)) and name in ('real', 'imag'):
            return o if name == 'real' else 0
        if o is None:
            raise PyErr('AttributeError')
        if isinstance(o, Poison):
            self.unsupported(o.why)
        self.unsupported('attribute %s of %r' % (name, o))

    def class_member(self, st, k, e, o, cls=None):
        if e[0] in ('fn', 'abs'):
            return Bound(Fn(k.mod, e[1], k), o) if o is not None else Fn(k.mod, e[1], k)
        if e[0] == 'static':
            return Fn(k.mod, e[1], k)
        if e[0] == 'cls':
            return Bound(Fn(k.mod, e[1], k), cls or o.cls)
        if e[0] == 'expr':
            return self.class_value(k, e[1])
        if e[0] == 'deco':
            def deco(s):
                fr = Frame(self, Fn(k.mod, ast.parse('lambda: None', mode='eval').body))
                fr.locals = set()
                return self.in_frame(fr, lambda: self.decorated(s, fr, e[1], Fn(k.mod, e[1], k)))
            v = self.shared(('deco', id(e[1])), deco)
            return Bound(v, o) if o is not None and isinstance(v, Fn) else v
        if e[0] == 'prop' and o is not None:
            if e[1].get('cached'):
                self.unsupported('cached property')
            return self.call_fn(st, Fn(k.mod, e[1]['get'], k), [o], {})
        self.unsupported('class member')

    def class_store(self, st, cls, name):
        """what was stored in an attribute of the class since it was defined"""
        if name in self.prog.__dict__.get('class_stores', ()):
            for c in cls.mro():
                if isinstance(c, ClassDef):
                    v = under(st.get(('K', c, name)), st.pc)
                    if isinstance(v, Phi) and any(l is UNDEF for _, l in leaves(v)):
                        self.unsupported('class attribute ' + name)
                    if v is not UNDEF or name in c.own:
                        return v
        return UNDEF

    def class_value(self, k, node):
        """an attribute of the class body, the same for all objects"""
        if isinstance(node, ast.Constant):
            return self.e_Constant(None, None, node)
        return self.shared(('class', id(node)), lambda s: self.module_eval(s, k.mod, node))

    def setattr(self, st, o, name, v):
        if isinstance(o, Phi):
            self.split(st, o, lambda s, l: self.setattr(s, l, name, under(v, s.pc)))
            return
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassDef):
                k, e = o.cls.lookup(name)
                if e and e[0] == 'prop':
                    if 'set' not in e[1]:
                        raise PyErr('AttributeError')
                    self.call_fn(st, Fn(k.mod, e[1]['set'], k), [o, v], {})
                    return
            st.set(('A', o, name), v)
            return
        if isinstance(o, AObj):
            if self.schema.setattr(self, st, o, name, v):
                return
            st.set(('A', o, name), v)
            return
        if isinstance(o, Nd) and name == 'shape':
            self.unsupported('shape assignment')
        if isinstance(o, ClassDef):
            st.set(('K', o, name), v)
            self.prog.__dict__.setdefault('class_stores', set()).add(name)
            return
        if isinstance(o, Fn) and own_attrs(o, name):
            st.set(('F', id(o.node), name), v)
            return
        self.unsupported('store in attribute %s of %r' % (name, o))

    def mod_member(self, st, mod, name):
        r = self.lib.member(mod + '.' + name)
        if r is not None:
            return r
        r = self.prog.member(mod, name)
        if r is None:
            if self.prog.module(mod) is None:
                return Ext(mod + '.' + name)
            if name == '__name__':
                return mod
            if name == '__file__':
                return '/lib/' + mod.replace('.', '/') + ('.py' if not self.prog.module(mod).path.endswith('__init__.py')
                                                          else '/__init__.py')
            if name.startswith('__'):
                self.unsupported('attribute %s of a module' % name)
            raise PyErr('AttributeError')
        return self.from_entry(st, r, name)

    def from_entry(self, st, r, name):
        if r[0] == 'fn':
            return Fn(r[1], r[2])
        if r[0] == 'deco':
            def deco(s):
                fr = Frame(self, Fn(r[1], ast.parse('lambda: None', mode='eval').body))
                fr.locals = set()
                return self.in_frame(fr, lambda: self.decorated(s, fr, r[2], Fn(r[1], r[2])))
            return self.shared(('deco', id(r[2])), deco)
        if r[0] == 'class':
            if r[1].node.decorator_list:
                self.unsupported('decorated class')
            return r[1]
        if r[0] == 'mod':
            return self.module_value(r[1])
        if r[0] == 'ext':
            m = self.lib.member(r[1])
            return m if m is not None else Ext(r[1])
        if r[0] == 'expr':
            v = st.get(('G', r[1].name, name))
            if v is not UNDEF:
                if isinstance(v, Poison):
                    self.unsupported(v.why)
                return v
            return self.shared(('module', r[1].name, name),
                               lambda s: self.module_stmt(s, r[1], r[2], name))
        self.unsupported('module entry')

    def module_value(self, dotted):
        m = self.lib.member(dotted)
        if m is not None:
            return m
        return ModV(dotted)

    def module_stmt(self, s, mod, stmt, name):
        if isinstance(stmt, Story):
            if name not in stmt.names:
                raise Unsupported('a name bound by a loop of a module')

            def tell(s):
                v = self.call_fn(s, Fn(mod, stmt.function()), [], {})
                return dict(zip(stmt.names, self.items_concrete(s, v)))
            return self.shared(('story', id(stmt)), tell)[name]
        fr = Frame(self, Fn(mod, ast.parse('lambda: None', mode='eval').body))
        fr.locals = set()

        def go():
            v = self.eval(s, fr, stmt.value)
            for t in stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target]:
                if isinstance(t, ast.Name) and t.id == name:
                    return v
                if isinstance(t, (ast.Tuple, ast.List)):
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Name) and x.id == name:
                            return self.items_concrete(s, v)[i]
            raise Unsupported('module statement')
        return self.in_frame(fr, go)

    # ---------------------------------------------------------------- names
    def load(self, st, fr, name):
        f = fr
        while f is not None:
            if name in f.locals:
                v = st.get(('L', f.fid, name))
                if v is UNDEF:
                    if f is fr and not hasattr(f, 'lenient'):
                        raise PyErr('UnboundLocalError')
                    raise PyErr('NameError')
                if isinstance(v, Phi):
                    v = under(v, st.pc)
                    if isinstance(v, Phi) and any(l is UNDEF for _, l in leaves(v)):
                        v = self.glift(st, lambda x: x, v)
                if isinstance(v, Poison):
                    self.unsupported(v.why)
                return v
            f = f.parent
        r = self.prog.lookup(fr.mod, name)
        if r is not None:
            return self.from_entry(st, r, name)
        v = st.get(('G', fr.mod.name, name))
        if v is not UNDEF:
            return v
        v = self.lib.builtin(name)
        if v is not None:
            return v
        if name in ('__name__', '__file__'):
            return self.mod_member(st, fr.mod.name, name)
        if hasattr(builtins, name):
            self.unsupported('builtin ' + name)
        raise PyErr('NameError')

    def store(self, st, fr, name, v):
        if name not in fr.locals and fr.own:
            f = fr.parent
            k = global_decl(fr.fn.node, name)
            if k == 'global':
                st.set(('G', fr.mod.name, name), v)
                return
            while k == 'nonlocal' and f is not None:
                if name in f.locals:
                    st.set(('L', f.fid, name), v)
                    return
                f = f.parent
        if name not in fr.locals and not fr.own and fr.parent is not None:
            # a comprehension
            self.store(st, fr.parent, name, v)
            return
        st.set(('L', fr.fid, name), v)

    # ----------------------------------------------------------- statements
    def block(self, st, fr, stmts):
        for s in stmts:
            if st.dead:
                return
            self.steps += 1
            if self.steps > self.maxsteps:
                self.unsupported('analysis budget')
            self.stmt(st, fr, s)

    def stmt(self, st, fr, s):
        old = self.node
        self.node = s
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.unsupported('statement ' + type(s).__name__)
            m(st, fr, s)
        except PyErr as e:
            if not st.dead:
                s2 = st.fork()
                fr.exits.append(Exit('raise', s2, e.val or ExcV(e.name), self.site()))
                st.pc = False
        finally:
            self.node = old

    def s_Expr(self, st, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(st, fr, s.value)

    def s_Pass(self, st, fr, s):
        pass

    def s_Import(self, st, fr, s):
        for a in s.names:
            self.store(st, fr, a.asname or a.name.split('.')[0],
                       self.module_value(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, st, fr, s):
        for a in s.names:
            r = self.prog.member(s.module, a.name)
            if r is None:
                raise PyErr('ImportError')
            self.store(st, fr, a.asname or a.name, self.from_entry(st, r, a.name))

    def s_Global(self, st, fr, s):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, st, fr, s):
        f = self.closure_of(st, fr, s)
        if not st.dead:
            self.store(st, fr, s.name, self.decorated(st, fr, s, f))

    def s_Assign(self, st, fr, s):
        v = self.eval(st, fr, s.value)
        if st.dead:
            return
        for t in s.targets:
            self.assign(st, fr, t, v)

    def s_AnnAssign(self, st, fr, s):
        if s.value is not None:
            self.assign(st, fr, s.target, self.eval(st, fr, s.value))

    def assign(self, st, fr, t, v):
        if isinstance(t, ast.Name):
            self.store(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, fr, t.value)
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, fr, t.value)
            i = self.index(st, fr, t.slice)
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, fr, t, v)
        elif isinstance(t, ast.Starred):
            self.unsupported('starred target')
        else:
            self.unsupported('target')

    def unpack(self, st, fr, t, v):
        if isinstance(v, Phi):
            def go(s, l):
                self.unpack(s, fr, t, l)
            self.split(st, v, go)
            return
        items = self.items_concrete(st, v)
        if items is None:
            self.unsupported('unpacking')
        stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if stars:
            i = stars[0]
            k = len(items) - (len(t.elts) - 1)
            if k < 0:
                raise PyErr('ValueError')
            items = items[:i] + [self.new_list(st, items[i:i + k])] + items[i + k:]
            elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
        else:
            elts = t.elts
        if len(items) != len(elts):
            raise PyErr('ValueError')
        for x, y in zip(elts, items):
            self.assign(st, fr, x, y)

    def s_AugAssign(self, st, fr, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(st, fr, t.id)
            v = self.eval(st, fr, s.value)
            r = self.aug(st, op, cur, v)
            if r is not None:
                self.store(st, fr, t.id, r[0])
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, fr, t.value)
            cur = self.getattr(st, o, t.attr)
            v = self.eval(st, fr, s.value)
            r = self.aug(st, op, cur, v)
            if r is not None:
                self.setattr(st, o, t.attr, r[0])
            else:
                self.setattr(st, o, t.attr, cur)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, fr, t.value)
            i = self.index(st, fr, t.slice)
            cur = self.subscript(st, o, i)
            v = self.eval(st, fr, s.value)
            r = self.aug(st, op, cur, v)
            if r is not None:
                self.setitem(st, o, i, r[0])
            elif not isinstance(o, Nd):
                self.setitem(st, o, i, cur)
            else:
                # a copy (fancy index) was modified: store back
                if isinstance(cur, Nd) and cur.root() != o.root():
                    self.setitem(st, o, i, cur)
        else:
            self.unsupported('augmented target')

    def aug(self, st, op, cur, v):
        """returns (new value,) or None when done in place"""
        if isinstance(cur, Phi) and not self.is_scalar_phi(cur):
            def go(s, l):
                r = self.aug(s, op, l, under(v, s.pc))
                return l if r is None else r[0]
            return (self.split(st, cur, go),)
        if isinstance(cur, Nd):
            self.iop(st, op, cur, v)
            return None
        if isinstance(cur, Obj) and op == 'Add' and st.get(('C', cur)) is not UNDEF:
            self.lib.method(st, cur, 'extend', [v], {})
            return None
        return (self.op(st, op, cur, v),)

    def is_scalar_phi(self, v):
        return all(isinstance(l, (Sx, int, float)) for _, l in leaves(v))

    def s_Return(self, st, fr, s):
        v = self.eval(st, fr, s.value) if s.value is not None else None
        if st.dead:
            return
        fr.exits.append(Exit('return', st.fork(), v, self.site()))
        st.pc = False

    def s_Break(self, st, fr, s):
        fr.exits.append(Exit('break', st.fork()))
        st.pc = False

    def s_Continue(self, st, fr, s):
        fr.exits.append(Exit('continue', st.fork()))
        st.pc = False

    def s_Raise(self, st, fr, s):
        if s.exc is None:
            e = st.get(('EXC', fr.fid))
            if e is UNDEF:
                self.unsupported('bare raise')
        else:
            e = self.eval(st, fr, s.exc)
            if isinstance(e, (Lib, ClassDef)):
                e = self.call(st, e, [], {})
        if st.dead:
            return
        fr.exits.append(Exit('raise', st.fork(), e, self.site()))
        st.pc = False

    def s_Assert(self, st, fr, s):
        c = self.truth(st, self.eval(st, fr, s.test))
        c = under(c, st.pc)
        if c is True:
            return
        st.asserts += ((c, st.pc, self.site(), tuple(self.active)),)
        if c is False:
            fr.exits.append(Exit('raise', st.fork(), ExcV('AssertionError'), self.site()))
            st.pc = False

    def s_If(self, st, fr, s):
        c = self.truth(st, self.eval(st, fr, s.test))
        if st.dead:
            return
        self.branch(st, c, lambda x: self.block(x, fr, s.body),
                    lambda x: self.block(x, fr, s.orelse))

    def s_Delete(self, st, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.set(('L', fr.fid, t.id), UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(st, fr, t.value)
                i = self.index(st, fr, t.slice)
                self.lib.delitem(st, o, i)
            else:
                self.unsupported('del')

    def s_With(self, st, fr, s):
        for w in s.items:
            v = self.eval(st, fr, w.context_expr)
            x = v
            if isinstance(v, Obj) and isinstance(v.cls, ClassDef) and v.cls.lookup('__enter__')[1]:
                x = self.call(st, self.getattr(st, v, '__enter__'), [], {})
            if w.optional_vars is not None:
                self.assign(st, fr, w.optional_vars, x)
        self.block(st, fr, s.body)
        if isinstance(v, Obj) and isinstance(v.cls, ClassDef) and v.cls.lookup('__exit__')[1]:
            if len(s.items) > 1:
                self.unsupported('several managers')
            if not st.dead:
                self.call(st, self.getattr(st, v, '__exit__'), [None, None, None], {})
        if isinstance(v, AObj):
            st.events += (Event('call', ('close',), (v,), st.pc, self.site()),)

    def s_Try(self, st, fr, s):
        n0 = len(fr.exits)
        self.block(st, fr, s.body)
        new = fr.exits[n0:]
        del fr.exits[n0:]
        if not st.dead and s.orelse:
            m0 = len(fr.exits)
            self.block(st, fr, s.orelse)
            new_else = fr.exits[m0:]
            del fr.exits[m0:]
        else:
            new_else = []
        outs = []
        if not st.dead:
            outs.append(st.fork())
        keep = []
        for x in new:
            if x.kind != 'raise':
                keep.append(x)
                continue
            h = self.handler(x.val, s.handlers, fr, x.st)
            if h is None:
                keep.append(x)
                continue
            m0 = len(fr.exits)
            hs = x.st
            if h.name:
                self.store(hs, fr, h.name, x.val)
            hs.set(('EXC', fr.fid), x.val)
            self.block(hs, fr, h.body)
            keep.extend(fr.exits[m0:])
            del fr.exits[m0:]
            if not hs.dead:
                outs.append(hs)
        keep.extend(new_else)
        m = merge_states(outs)
        if m is None:
            st.pc = False
        else:
            st.assign(m)
        if s.finalbody:
            fin = []
            for x in keep:
                m0 = len(fr.exits)
                self.block(x.st, fr, s.finalbody)
                more = fr.exits[m0:]
                del fr.exits[m0:]
                fin.extend(more)
                if not x.st.dead:
                    fin.append(x)
            keep = fin
            if not st.dead:
                self.block(st, fr, s.finalbody)
        fr.exits.extend(keep)

    def handler(self, exc, handlers, fr, st):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = ast.unparse(t)
                n = SAME_EXC.get(n, n.split('.')[-1])
                if exc_matches(exc, n, self.prog):
                    return h
        return None

    def s_While(self, st, fr, s):
        f = counting_loop(s)
        if f is not None:
            i, n = self.eval(st, fr, s.test.left), self.eval(st, fr, s.test.comparators[0])
            try:
                d = (num(n) - num(i)).const()
            except Exception:
                d = 0
            if d is None or d > 64:
                target, body_ = f
                from loops import run_segs
                broken = []

                def body(x, v):
                    self.assign(x, fr, target, v)
                    self.block(x, fr, body_)
                run_segs(self, st, fr, [Rng(num(i), num(n))], body, broken)
                if not st.dead:
                    self.assign(st, fr, target, ite(cmp_cond('<', num(i), num(n)), num(n), num(i)))
                    if s.orelse:
                        self.block(st, fr, s.orelse)
                m = merge_states(([st.fork()] if not st.dead else []) + broken)
                if m is None:
                    st.pc = False
                else:
                    st.assign(m)
                return
        done, over = [], []
        gated = 0
        for k in range(200):
            c = self.truth(st, self.eval(st, fr, s.test))
            c = under(c, st.pc)
            if c is False:
                break
            if c is not True:
                gated += 1
                if gated > 8:
                    self.unsupported('while with a symbolic condition')
                out = st.fork()
                out.pc = b_and(st.pc, b_not(c))
                if out.pc is not False:
                    over.append(out)
                st.pc = b_and(st.pc, c)
                if st.pc is False:
                    break
            n0 = len(fr.exits)
            self.block(st, fr, s.body)
            brk, cont = take(fr, n0)
            done.extend(x.st for x in brk)
            m = merge_states(([st.fork()] if not st.dead else []) + [x.st for x in cont])
            if m is None:
                st.pc = False
                break
            st.assign(m)
        else:
            self.unsupported('while bound')
        if over:
            st.assign(merge_states(([st.fork()] if not st.dead else []) + over))
        if not st.dead and s.orelse:
            self.block(st, fr, s.orelse)
        m = merge_states(([st.fork()] if not st.dead else []) + done)
        if m is None:
            st.pc = False
        else:
            st.assign(m)

    def s_For(self, st, fr, s):
        it = self.eval(st, fr, s.iter)
        if st.dead:
            return
        segs = self.drain(st, it)
        n0 = len(fr.exits)
        broken = []
        from loops import run_segs

        def body(x, v):
            self.assign(x, fr, s.target, v)
            self.block(x, fr, s.body)
        run_segs(self, st, fr, segs, body, broken)
        if s.orelse and not st.dead:
            self.block(st, fr, s.orelse)
        m = merge_states(([st.fork()] if not st.dead else []) + broken)
        if m is None:
            st.pc = False
        else:
            st.assign(m)

    # ---------------------------------------------------------- expressions
    def eval(self, st, fr, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported('expression ' + type(e).__name__)
        old = self.node
        if hasattr(e, 'lineno'):
            self.node = e
        try:
            return m(st, fr, e)
        finally:
            self.node = old

    def e_Constant(self, st, fr, e):
        v = e.value
        if isinstance(v, float):
            return num(v)
        if isinstance(v, complex):
            self.unsupported('complex')
        return v

    def e_Name(self, st, fr, e):
        return self.load(st, fr, e.id)

    def e_Attribute(self, st, fr, e):
        o = self.eval(st, fr, e.value)
        return self.getattr(st, o, e.attr)

    def e_Tuple(self, st, fr, e):
        return tuple(self.elts(st, fr, e.elts))

    def elts(self, st, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.items_concrete(st, self.eval(st, fr, x.value))
                if items is None:
                    self.unsupported('starred symbolic sequence')
                out.extend(items)
            else:
                out.append(self.eval(st, fr, x))
        return out

    def e_List(self, st, fr, e):
        return self.new_list(st, self.elts(st, fr, e.elts))

    def e_Set(self, st, fr, e):
        o = self.new_list(st, [], 'set')
        for v in self.elts(st, fr, e.elts):
            self.lib.method(st, o, 'add', [v], {})
        return o

    def e_Dict(self, st, fr, e):
        o = Obj(self.fresh(), 'dict')
        st.set(('C', o), Content(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.method(st, o, 'update', [self.eval(st, fr, v)], {})
            else:
                kv = self.eval(st, fr, k)
                self.setitem(st, o, kv, self.eval(st, fr, v))
        return o

    def e_UnaryOp(self, st, fr, e):
        v = self.eval(st, fr, e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return b_not(self.truth(st, v))
        if op == 'USub':
            if isinstance(v, int) and not isinstance(v, bool):
                return -v
            c = self.content(st, v)
            return self.wrap(st, self.glift(st, nd.neg, c), self.dtype(st, v))
        if op == 'UAdd':
            return v
        if op == 'Invert':
            c = self.content(st, v)
            if isinstance(c, BAr):
                o = np.empty(c.c.shape, dtype=object)
                for i in np.ndindex(c.c.shape):
                    o[i] = b_not(c.c[i])
                return BAr(o)
        self.unsupported('unary ' + op)

    def e_BinOp(self, st, fr, e):
        a = self.eval(st, fr, e.left)
        b = self.eval(st, fr, e.right)
        return self.op(st, type(e.op).__name__, a, b)

    def op(self, st, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            try:
                if op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod'):
                    return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                            'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}[op]()
                if op == 'Pow' and b >= 0:
                    return a ** b
            except ZeroDivisionError:
                raise PyErr('ZeroDivisionError')
        n = _OPN.get(op)
        if n is not None and (isinstance(a, (Obj, AObj)) or isinstance(b, (Obj, AObj))):
            r = self.dunder(st, a, '__%s__' % n, [b]) or self.dunder(st, b, '__r%s__' % n, [a])
            if r is not None:
                return r[0]
        if isinstance(a, (str, StrV, bytes)) or isinstance(b, (str, StrV, bytes)):
            return self.lib.str_op(st, op, a, b)
        if isinstance(a, Phi) and any(isinstance(l, (str, StrV, tuple, Obj)) for _, l in leaves(a)):
            return self.split(st, a, lambda s, l: self.op(s, op, l, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        for x, y in ((a, b), (b, a)):
            if gated_coll(x):
                return self.split(st, x, lambda s, l: self.op(
                    s, op, *((l, under(y, s.pc)) if x is a else (under(y, s.pc), l))))
        if (isinstance(a, CollV) or isinstance(b, CollV)) and op not in (
                'BitAnd', 'BitOr', 'BitXor'):
            return self.coll_op(st, op, a, b)
        if isinstance(a, Obj) and st.get(('C', a)) is not UNDEF and op in ('Add', 'Mult', 'Sub', 'BitOr', 'BitAnd'):
            return self.lib.seq_op(st, op, a, b)
        if isinstance(b, Obj) and st.get(('C', b)) is not UNDEF and op in ('Mult', 'Add') and not isinstance(a, (Nd,)):
            return self.lib.seq_op(st, op, b, a) if op == 'Mult' else self.lib.seq_op(st, op, a, b)
        if isinstance(a, tuple) and op == 'Mult' and isinstance(b, int):
            return a * b
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.lib.bit_op(st, op, a, b)
        da, db = self.dtype(st, a), self.dtype(st, b)
        dt = 'i' if (da == 'i' and db == 'i' and op != 'Div') else (
            'u' if 'u' in (da, db) and op != 'Div' and {da, db} <= {'i', 'u'} else 'f')
        return self.wrap(st, self.binop(st, op, a, b), dt)

    def e_BoolOp(self, st, fr, e):
        isand = isinstance(e.op, ast.And)

        def rec(st, vs):
            v = self.eval(st, fr, vs[0])
            if len(vs) == 1:
                return v
            t = self.truth(st, v)
            t = under(t, st.pc)
            if isand:
                if t is False:
                    return v
                return self.branch(st, t, lambda s: rec(s, vs[1:]), lambda s: under(v, s.pc))
            if t is True:
                return v
            return self.branch(st, t, lambda s: under(v, s.pc), lambda s: rec(s, vs[1:]))
        return rec(st, e.values)

    def e_IfExp(self, st, fr, e):
        c = self.truth(st, self.eval(st, fr, e.test))
        return self.branch(st, c, lambda s: self.eval(s, fr, e.body),
                           lambda s: self.eval(s, fr, e.orelse))

    def e_Compare(self, st, fr, e):
        left = self.eval(st, fr, e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(st, fr, r)
            c = self.compare(st, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            res = b_and(res, self.truth(st, c))
            left = right
        return res

    _CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}

    def compare(self, st, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.glift(st, lambda x, y: self.identical(st, x, y), a, b)
            return r if op == 'Is' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.lib.contains(st, b, a)
            return r if op == 'In' else b_not(r)
        o = self._CMP[op]
        for x, y in ((a, b), (b, a)):
            if gated_coll(x):
                return self.split(st, x, lambda s, l: self.compare(
                    s, op, *((l, under(y, s.pc)) if x is a else (under(y, s.pc), l))))
        if isinstance(a, CollV) or isinstance(b, CollV):
            if isinstance(a, CollV):
                return a.zip(lambda x, y: coll_cmp(o, x, y), self.coll_arg(st, b))
            return b.zip(lambda x, y: coll_cmp(o, y, x), self.coll_arg(st, a))
        if isinstance(a, Phi) or isinstance(b, Phi):
            if any(self.non_numeric(l) for x in (a, b) for _, l in leaves(x)):
                return self.glift(st, lambda x, y: self.compare(st, op, x, y), a, b)
        if isinstance(a, int) and isinstance(b, int):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                    '==': a == b, '!=': a != b}[o]
        if self.non_numeric(a) or self.non_numeric(b):
            if o not in ('==', '!='):
                names = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'),
                         '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__')}[o]
                r = self.dunder(st, a, names[0], [b]) or self.dunder(st, b, names[1], [a])
                if r is not None:
                    return r[0]
                if a is None or b is None:
                    raise PyErr('TypeError')
                from lib import plain_key
                p, q = plain_key(a), plain_key(b)
                if p is not None and type(p) is type(q):
                    try:
                        return {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[o]
                    except TypeError:
                        raise PyErr('TypeError')
                self.unsupported('ordering of objects')
            if o == '!=':
                r = self.dunder(st, a, '__ne__', [b])
                if r is not None:
                    return r[0]
            r = self.equal(st, a, b)
            return r if o == '==' else b_not(r)
        A, B = self.content(st, a), self.content(st, b)
        return self.glift(st, lambda x, y: nd.compare_op(o, x, y), A, B)

    def coll_arg(self, st, v):
        if isinstance(v, CollV):
            return v
        c = self.content(st, v)
        if any(not isinstance(l, Sx) for _, l in leaves(c)):
            self.unsupported('spectrum and array')
        return c

    def coll_op(self, st, op, a, b):
        f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
             'Div': nd.div}.get(op)
        if f is None:
            self.unsupported('spectrum operator ' + op)

        def g(x, y):
            if not (isinstance(x, Sx) and isinstance(y, Sx)):
                raise Unsupported('complex arithmetic')
            return f(x, y)
        if isinstance(a, CollV):
            return a.zip(g, self.coll_arg(st, b))
        return b.zip(lambda x, y: g(y, x), self.coll_arg(st, a))

    def non_numeric(self, v):
        if isinstance(v, (tuple,)):
            return True
        if isinstance(v, Obj):
            return True
        return v is None or isinstance(v, (str, StrV, AObj, ClassDef, Fn, Lib, Ext, VSlice, bool, ABound, Bound, ExcV, IxArr))

    def identical(self, st, x, y):
        if isinstance(x, AObj) and isinstance(y, AObj):
            return self.schema.identical(self, st, x, y)
        if isinstance(x, (AObj,)) or isinstance(y, (AObj,)):
            z = y if isinstance(x, AObj) else x
            w = x if isinstance(x, AObj) else y
            return self.schema.identical(self, st, w, z)
        if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
            return x is y
        return same(x, y)

    def dunder(self, st, o, name, args=()):
        """(what the special method answers,) when the class of o defines it"""
        if not isinstance(o, (Obj, AObj)) or not isinstance(o.cls, ClassDef):
            return None
        memo = self.prog.__dict__.setdefault('dunders', {})
        key = (o.cls, name, isinstance(o, AObj))
        if key not in memo:
            k, e = o.cls.lookup(name)
            if e is None and isinstance(o, AObj) and any(
                    c.issub(o.cls) and c.lookup(name)[1] is not None for c in self.prog.all_classes()):
                e = ('sub',)
            memo[key] = (k, e)
        k, e = memo[key]
        if e is None:
            return None
        if e[0] != 'fn':
            self.unsupported('special method ' + name)
        return (self.call_fn(st, Fn(k.mod, e[1], k), [o] + list(args), {}),)

    def equal(self, st, x, y):
        if isinstance(x, Phi) or isinstance(y, Phi):
            return self.glift(st, lambda p, q: self.equal(st, p, q), x, y)
        for p, q in ((x, y), (y, x)):
            r = self.dunder(st, p, '__eq__', [q])
            if r is not None:
                return self.truth(st, r[0])
        if isinstance(x, AObj) or isinstance(y, AObj):
            return self.identical(st, x, y)
        if isinstance(x, (str, StrV)) and isinstance(y, (str, StrV)):
            if isinstance(x, str) and isinstance(y, str):
                return x == y
            return self.lib.str_eq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            r = True
            for p, q in zip(x, y):
                r = b_and(r, self.truth(st, self.compare(st, 'Eq', p, q)))
            return r
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x == y:
                return True
            cx, cy = st.get(('C', x)), st.get(('C', y))
            if isinstance(cx, Content) and isinstance(cy, Content):
                a, b = self.items_concrete(st, x), self.items_concrete(st, y)
                if 'dict' in (self.lib.kind(st, x), self.lib.kind(st, y)):
                    if a != b:
                        self.unsupported('equality of mappings')
                    a, b = self.pairs(st, x), self.pairs(st, y)
                if a is None or b is None:
                    self.unsupported('equality of symbolic sequences')
                return self.equal(st, tuple(a), tuple(b))
            return False
        if isinstance(x, VSlice) and isinstance(y, VSlice):
            return x.samekey() == y.samekey()
        if type(x) is not type(y):
            if isinstance(x, (Nd, Ar, Mx, Sx, int)) and isinstance(y, (tuple, Obj)) or \
                    isinstance(y, (Nd, Ar, Mx, Sx, int)) and isinstance(x, (tuple, Obj)):
                A, B = self.content(st, x), self.content(st, y)
                return self.glift(st, lambda p, q: nd.compare_op('==', p, q), A, B)
            if isinstance(x, bool) or isinstance(y, bool):
                return x is y
            return False
        return same(x, y)

    def truth(self, st, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Phi):
            return self.glift(st, lambda l: self.truth(st, l), v)
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Sx):
            return cmp_cond('!=', v, S0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        r = self.dunder(st, v, '__bool__') or self.dunder(st, v, '__len__')
        if r is not None:
            return self.truth(st, r[0])
        if isinstance(v, Obj):
            c = st.get(('C', v))
            if isinstance(c, Content):
                return self.lib.nonempty(st, c.segs)
            return True
        if isinstance(v, (BAr,)):
            if v.c.size == 1:
                return v.c.flat[0]
            raise PyErr('ValueError')
        if isinstance(v, (Nd, Ar, Mx)):
            c = self.content(st, v)
            if is_arr(c) and ints(c.shape) and int(np.prod(c.shape)) == 1:
                return cmp_cond('!=', cells(c).c.flat[0], S0)
            if is_arr(c) and ints(c.shape):
                raise PyErr('ValueError')
            self.unsupported('truth of an array')
        if isinstance(v, AObj):
            r = self.schema.truth(self, st, v)
            if r is not None:
                return r
        if isinstance(v, (ClassDef, Fn, Lib, Ext, ModV, Bound, ABound)):
            return True
        if isinstance(v, StrV):
            k = v.key
            if k.kind in ('id', 'hex', 'hash') or k.kind == 'strcat' and any(
                    isinstance(x, str) for x in k.args[0]):
                return True
            return b_not(self.lib.str_eq(v, ''))
        self.unsupported('truth of %r' % (v,))

    def e_Subscript(self, st, fr, e):
        o = self.eval(st, fr, e.value)
        i = self.index(st, fr, e.slice)
        return self.subscript(st, o, i)

    def index(self, st, fr, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.index(st, fr, x) for x in s.elts)
        if isinstance(s, ast.Slice):
            b = []
            for x in (s.lower, s.upper, s.step):
                v = None if x is None else self.eval(st, fr, x)
                b.append(as_int(v))
            return VSlice(*b)
        return self.eval(st, fr, s)

    def subscript(self, st, o, i):
        if isinstance(i, Phi) and not isinstance(o, Phi):
            return self.split(st, i, lambda s, l: self.subscript(s, o, l))
        if isinstance(i, tuple) and any(isinstance(x, Phi) for x in i):
            k = [isinstance(x, Phi) for x in i].index(True)
            return self.split(st, i[k], lambda s, l: self.subscript(
                s, o, i[:k] + (l,) + i[k + 1:]))
        if isinstance(o, Phi):
            return self.split(st, o, lambda s, l: self.subscript(s, l, i))
        if isinstance(o, (Nd, Ar, Mx, BAr)):
            return self.nd_get(st, o, i)
        return self.lib.getitem(st, o, i)

    def norm_ix(self, st, i):
        if isinstance(i, tuple):
            return tuple(self.norm_ix(st, x) for x in i)
        i = as_int(i)
        if isinstance(i, Obj):
            items = self.items_concrete(st, i)
            if items is None:
                return self.array_of_segs(st, self.segs_of(st, i))
            return [as_int(x) for x in items]
        if isinstance(i, Nd):
            c = self.content(st, i)
            if isinstance(c, BAr):
                self.unsupported('mask index')
            return c
        if isinstance(i, AObj):
            r = self.schema.as_index(self, st, i)
            if r is not None:
                return r
        return i

    def nd_get(self, st, o, i):
        i = self.norm_ix(st, i)
        if isinstance(i, BAr):
            self.unsupported('mask index')
        if not isinstance(o, Nd):
            return self.wrap(st, self.glift(st, lambda c: nd.getitem(c, i), o))
        c = self.content(st, o)
        r = self.glift(st, lambda c: nd.getitem(c, i), c)
        ls = [l for _, l in leaves(r)]
        if not any(is_arr(l) for l in ls):
            return r
        basic = all(isinstance(x, (int, VSlice, Sx, type(None), type(Ellipsis))) for x in (i if isinstance(i, tuple) else (i,)))
        if basic:
            return Nd(o, i)
        return self.wrap(st, r, self.dtype(st, o))

    def setitem(self, st, o, i, v):
        if isinstance(o, Phi):
            self.split(st, o, lambda s, l: self.setitem(s, l, i, under(v, s.pc)))
            return
        if isinstance(i, Phi):
            self.split(st, i, lambda s, l: self.setitem(s, o, l, under(v, s.pc)))
            return
        if isinstance(i, tuple) and any(isinstance(x, Phi) for x in i):
            k = [isinstance(x, Phi) for x in i].index(True)
            self.split(st, i[k], lambda s, l: self.setitem(s, o, i[:k] + (l,) + i[k + 1:], under(v, s.pc)))
            return
        if isinstance(o, Nd):
            i = self.norm_ix(st, i)
            if isinstance(i, BAr):
                # the numbers that the mask selects
                x, cur = self.content(st, v), self.content(st, o)
                if not isinstance(x, Sx) or not is_arr(cur) or tuple(cur.shape) != i.c.shape:
                    self.unsupported('mask store')
                new = cells(cur)
                for k in np.ndindex(*i.c.shape):
                    new = merge_val(i.c[k], self.glift(st, lambda c: nd.setitem(c, k, x), new), new) \
                        if not isinstance(i.c[k], bool) else nd.setitem(new, k, x) if i.c[k] else new
                self.nd_write(st, o, new)
                return
            if hasattr(i, 'is_mask'):
                self.unsupported('mask store')
            if self.dtype(st, o) in ('i',) and self.dtype(st, v) not in ('i', 'b'):
                st.hazards += (('store-cast', self.site(), self.dtype(st, o), o),)
            x = self.content(st, v)
            cur = self.content(st, o)
            new = self.glift(st, lambda c, y: nd.setitem(c, i, y), cur, x)
            self.nd_write(st, o, new)
            return
        self.lib.setitem(st, o, i, v)

    def e_Slice(self, st, fr, e):
        return self.index(st, fr, e)

    def e_Starred(self, st, fr, e):
        self.unsupported('starred')

    def e_Call(self, st, fr, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.locals:
            return self.super_(st, fr, e)
        f = self.eval(st, fr, e.func)
        args = self.elts(st, fr, e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(st, fr, k.value)
            if k.arg is None:
                if isinstance(v, AObj):
                    kw['**'] = v
                    continue
                for x in self.pairs(st, v):
                    if not isinstance(x[0], str):
                        self.unsupported('argument names')
                    kw[x[0]] = x[1]
            else:
                kw[k.arg] = v
        if st.dead:
            return None
        return self.call(st, f, args, kw)

    def super_(self, st, fr, e):
        cls = fr.fn.cls
        f = fr
        while cls is None and f.parent is not None:
            f = f.parent
            cls = f.fn.cls
        if e.args:
            cls = self.eval(st, fr, e.args[0])
            o = self.eval(st, fr, e.args[1])
        else:
            n = f.fn.node.args.args[0].arg
            o = st.get(('L', f.fid, n))
        return Super(cls, o)

    def e_Lambda(self, st, fr, e):
        return self.closure_of(st, fr, e)

    def e_ListComp(self, st, fr, e):
        o = self.new_list(st, [])
        self.comp(st, fr, e.generators, lambda s, f: self.append(s, o, self.eval(s, f, e.elt)))
        return o

    def e_GeneratorExp(self, st, fr, e):
        return self.once(st, self.e_ListComp(st, fr, e))

    def e_SetComp(self, st, fr, e):
        o = self.new_list(st, [], 'set')
        self.comp(st, fr, e.generators,
                  lambda s, f: self.lib.method(s, o, 'add', [self.eval(s, f, e.elt)], {}))
        return o

    def e_DictComp(self, st, fr, e):
        o = self.new_list(st, [], 'dict')
        self.comp(st, fr, e.generators, lambda s, f: self.setitem(
            s, o, self.eval(s, f, e.key), self.eval(s, f, e.value)))
        return o

    def append(self, st, o, v):
        c = st.get(('C', o))
        st.set(('C', o), Content(c.segs + (One(v),)))

    def comp(self, st, fr, gens, emit):
        f2 = Frame(self, Fn(fr.mod, ast.parse('lambda: None', mode='eval').body), fr)
        f2.fn.cls = fr.fn.cls
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    f2.locals = f2.locals | {n.id}
        f2.exits = fr.exits
        from loops import run_segs

        def level(st, k):
            if k == len(gens):
                emit(st, f2)
                return
            g = gens[k]
            it = self.eval(st, f2, g.iter)
            if st.dead:
                return
            segs = self.drain(st, it)

            def body(s, v):
                self.assign(s, f2, g.target, v)

                def conds(s, ifs):
                    if not ifs:
                        level(s, k + 1)
                        return
                    c = self.truth(s, self.eval(s, f2, ifs[0]))
                    self.branch(s, c, lambda x: conds(x, ifs[1:]), lambda x: None)
                conds(s, g.ifs)
            run_segs(self, st, f2, segs, body, [])
        self.stack.append(f2)
        try:
            level(st, 0)
        finally:
            self.stack.pop()

    def e_Yield(self, st, fr, e):
        f = fr
        v = None if e.value is None else self.eval(st, fr, e.value)
        if f.yields is None:
            self.unsupported('yield')
        self.append(st, f.yields, v)
        return None

    def e_YieldFrom(self, st, fr, e):
        v = self.eval(st, fr, e.value)
        segs = self.drain(st, v)
        c = st.get(('C', fr.yields))
        st.set(('C', fr.yields), Content(c.segs + tuple(segs)))
        return None

    def e_JoinedStr(self, st, fr, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.lib.to_str(st, self.eval(st, fr, v.value)))
        return self.lib.str_cat(parts)

    def e_NamedExpr(self, st, fr, e):
        v = self.eval(st, fr, e.value)
        self.store(st, fr, e.target.id, v)
        return v


# ------------------------------------------------------------------ helpers
def take(fr, n0):
    new = fr.exits[n0:]
    del fr.exits[n0:]
    brk = [x for x in new if x.kind == 'break']
    cont = [x for x in new if x.kind == 'continue']
    fr.exits.extend(x for x in new if x.kind not in ('break', 'continue'))
    return brk, cont


def path_cond(path):
    c = True
    for a, v in path:
        k = cond(a)
        c = b_and(c, k if v else b_not(k))
    return c


def as_int(v):
    if isinstance(v, Sx):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return v


def scalar_mod(x, y):
    a, b = num(x).const(), num(y).const()
    if a is not None and b:
        return num(a % b)
    return fn('mod', num(x), num(y))


_OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul',
        'Pow': 'pow', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'BitAnd': 'and', 'BitOr': 'or',
        'BitXor': 'xor'}


def scalar_floordiv(x, y):
    a, b = num(x).const(), num(y).const()
    if a is not None and b:
        return num(a // b)
    return fn('floordiv', num(x), num(y))


EXC = {'AssertionError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
       'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
       'AttributeError': 'Exception', 'RuntimeError': 'Exception',
       'NotImplementedError': 'RuntimeError', 'ImportError': 'Exception',
       'NameError': 'Exception', 'UnboundLocalError': 'NameError',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
       'Exception': 'BaseException', 'StopIteration': 'Exception', 'OSError': 'Exception',
       'LinAlgError': 'Exception', 'timeout': 'OSError', 'TimeoutError': 'OSError',
       'ConnectionError': 'OSError', 'BrokenPipeError': 'ConnectionError',
       'ConnectionResetError': 'ConnectionError', 'ConnectionRefusedError': 'ConnectionError',
       'ConnectionAbortedError': 'ConnectionError', 'FileNotFoundError': 'OSError', 'gaierror': 'OSError',
       'UnicodeError': 'ValueError', 'SubprocessError': 'Exception', 'TimeoutExpired': 'SubprocessError',
       'CalledProcessError': 'SubprocessError'}
SAME_EXC = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'socket.error': 'OSError',
            'os.error': 'OSError', 'select.error': 'OSError', 'socket.timeout': 'TimeoutError', 'timeout': 'TimeoutError'}


def exc_matches(exc, name, prog):
    n = exc_name(exc)
    while n:
        n = SAME_EXC.get(n, n)
        if n == name:
            return True
        if n in EXC:
            n = EXC[n]
        elif n == 'BaseException':
            return False
        else:
            n = 'Exception'
    return False


def exc_name(exc):
    if isinstance(exc, ExcV):
        return exc.name
    if isinstance(exc, Obj) and isinstance(exc.cls, ClassDef):
        return exc.cls.name
    if isinstance(exc, ClassDef):
        return exc.name
    return str(exc)


def is_rng(s):
    return isinstance(s, Rng)


def flat_segs(segs):
    out = []
    for s in segs:
        if isinstance(s, (Each, Cnd)):
            out.extend(flat_segs(s.segs))
        else:
            out.append(s)
    return out


def stack_rows(xs):
    raise Unsupported('stack of symbolic rows')


def cat_segs(interp, segs):
    """array(list of spliced vectors) -> content"""
    fl = flat_segs(segs)
    if not fl or not all(isinstance(s, Vec) for s in fl):
        raise Unsupported('array of a symbolic list')
    if len(segs) == 1 and isinstance(segs[0], Vec):
        return segs[0].m
    return cat_atom(segs, (simp_dim(segs_len(segs)),))


def cat_atom(segs, shape):
    full = shape if len(shape) == 2 else (shape[0], 1)
    a = atom('cat', SegsKey(segs), shape=full, grp='cat', interp=_interp_cat)
    return mx_of(a, len(shape))


class SegsKey(object):
    def __init__(self, segs):
        self.segs = tuple(segs)
        self.k = seg_key(self.segs)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, SegsKey) and o.k == self.k

    def __repr__(self):
        return repr(self.segs)

    def fe(self):
        return segs_fe(self.segs)

    def subst(self, f):
        return SegsKey(subst_segs(self.segs, f))


def segs_fe(segs):
    r = set()
    for s in segs:
        if isinstance(s, One):
            r |= fe_of(s.v)
        elif isinstance(s, Each):
            r |= (segs_fe(s.segs) | fe_of(s.guard)) - {s.e}
        elif isinstance(s, Cnd):
            r |= segs_fe(s.segs) | fe_of(s.c)
        elif isinstance(s, Vec):
            r |= fe_of(s.m)
        elif isinstance(s, Rng):
            r |= fe_of(s.a) | fe_of(s.b)
    return r


def subst_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(s.v)))
        elif isinstance(s, Each):
            if f(s.e) is not s.e:
                # the bound element is also substituted from outside: rename it
                z = atom('elem', s.coll, 'r%d' % s.e.id)
                s = Each(s.coll, z, subst(s.guard, {s.e: z}),
                         subst_segs(s.segs, lambda y: subst(y, {s.e: z})))
            out.append(Each(f(s.coll), s.e, f(s.guard), subst_segs(s.segs, f)))
        elif isinstance(s, Cnd):
            out.append(Cnd(f(s.c), subst_segs(s.segs, f)))
        elif isinstance(s, Vec):
            out.append(Vec(f(s.m)))
        elif isinstance(s, Rng):
            out.append(Rng(f(s.a), f(s.b)))
        else:
            out.append(s)
    return tuple(out)


def segs_len(segs):
    """number of items, as Sx (gates not supported)"""
    n = S0
    for s in segs:
        if isinstance(s, One):
            n = n + S1
        elif isinstance(s, Vec):
            n = n + num(s.m.shape[0])
        elif isinstance(s, Rng):
            n = n + (s.b - s.a)
        elif isinstance(s, Each):
            from loops import close_sum
            n = n + close_sum(s.coll, s.e, s.guard, segs_len(s.segs))
        else:
            raise Unsupported('length of a gated sequence')
    return n


def seg_values(m, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(m.value(s.v))
        elif isinstance(s, Vec):
            out.extend(np.asarray(m.value(s.m)).reshape(-1))
        elif isinstance(s, Rng):
            out.extend(range(int(round(m.sx(s.a))), int(round(m.sx(s.b)))))
        elif isinstance(s, Each):
            old = m.bind.get(s.e)
            for k in m.indices(s.coll):
                m.bind[s.e] = k
                if m.bool(s.guard):
                    out.extend(seg_values(m, s.segs))
            if old is None:
                m.bind.pop(s.e, None)
            else:
                m.bind[s.e] = old
        elif isinstance(s, Cnd):
            if m.bool(s.c):
                out.extend(seg_values(m, s.segs))
    return out


def _interp_cat(m, a):
    cols = m.dim(a.meta['shape'][1])
    return np.asarray(seg_values(m, a.args[0].segs), dtype=float).reshape(-1, max(cols, 1))
