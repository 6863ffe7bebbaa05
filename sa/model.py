"""What is assumed about objects known only through their interface.

An abstract object (AObj) stands for *any* instance of a class of the
repository.  Its attributes are resolved, in order, by

1. what the analysed code stored in it,
2. the interface table below (shape, group and ownership of the attribute),
3. the property/method of its class in the current source, executed on it.

Calls of abstract methods are recorded as events; the mutating ones advance
the version token of the object, so that a value read before the call and a
value read after it are different terms.
"""
import ast
from values import *
import alg
import nd
import loops
from front import ClassDef, AnchorLost


class Spec(object):
    def __init__(self, kind, shape=None, grp=None, cls=None, none=False, meta=None, f=None,
                 frozen=False, dtype='f'):
        self.kind, self.shape, self.grp, self.cls = kind, shape, grp, cls
        self.none, self.meta, self.f = none, meta or {}, f
        self.frozen = frozen
        self.dtype = dtype


def A(shape, grp=None, **kw):
    """array stored in the object (reads return the stored array itself)"""
    return Spec('A', shape, grp, **kw)


def F(shape, grp=None, **kw):
    """array computed at each read"""
    return Spec('F', shape, grp, **kw)


def N(frozen=False, **meta):
    return Spec('N', meta=meta, frozen=frozen)


def S_():
    return Spec('S')


def O(cls, none=False, frozen=True):
    return Spec('O', cls=cls, none=none, frozen=frozen)


def L(cls, frozen=True, cont='list'):
    return Spec('L', cls=cls, frozen=frozen, meta={'cont': cont})


def C(f):
    return Spec('C', f=f)


class Method(object):
    """an abstract method: result spec(s), does it mutate its object"""
    def __init__(self, result=None, mutates=False, log=True, also=(), raw=False):
        self.result, self.mutates, self.log, self.also = result, mutates, log, also
        self.raw = raw


class Schema(object):
    def __init__(self, prog):
        self.prog = prog
        self.attrs = {}      # (class name, attr) -> Spec
        self.methods = {}    # (class name, method) -> Method
        self.exts = {}       # external function name -> f(I, st, args, kw)
        self.defaults = {}   # (class name, attr) -> f(I, st, o) for Obj
        self.news = {}       # class name -> f(I, st, cls, args, kw)
        self.byname = None
        self.linalg = {}     # facts about eig / qr / eigvals results
        self.bufs = {}
        self.injective = {'frame1', 'body'}     # every body has one parent joint

    # ----------------------------------------------------------- definition
    def add(self, cls, **specs):
        for k, s in specs.items():
            if isinstance(s, Method):
                self.methods[(cls, k)] = s
            else:
                self.attrs[(cls, k)] = s

    def find(self, table, cls, name):
        """most specific entry; a definition in the source of a class that is
        more specific than the entry overrides it"""
        for b in cls.mro():
            if isinstance(b, ClassDef):
                r = table.get((b.name, name))
                if r is not None:
                    return r
        return None

    def obj(self, name, cls, **kw):
        if isinstance(cls, str):
            cls = self.cls(cls)
        return AObj(atom('obj', name, **kw), cls)

    # ------------------------------------------------------------ attributes
    def ver(self, st, o):
        v = st.get(('V', o.key))
        if isinstance(v, Phi):
            v = under(v, st.pc)
        if v is UNDEF or v is self.token0(('V', o.key)):
            return ()
        return (v,)

    def token0(self, key):
        return atom('ver0', key[1])

    def bump(self, I, st, o, what, args):
        old = st.get(('V', o.key))
        if isinstance(old, Phi):
            old = under(old, st.pc)
        if old is UNDEF:
            old = self.token0(('V', o.key))
        st.set(('V', o.key), atom('ver', old, what, self.argkey(I, st, args)))

    def argkey(self, I, st, args):
        out = []
        for a in args:
            out.append(self.freeze(I, st, a))
        return tuple(out)

    def freeze(self, I, st, a):
        """a value as a term (arrays by content, objects by key)"""
        if isinstance(a, Nd):
            return I.content(st, a)
        if isinstance(a, AObj):
            return a.key
        if isinstance(a, (tuple, list)):
            return tuple(self.freeze(I, st, x) for x in a)
        if isinstance(a, (bool, int, float)):
            return num(a) if not isinstance(a, bool) else a
        if isinstance(a, Phi) and any(isinstance(x, Nd) for _, x in alg.leaves(a)):
            return I.content(st, a)
        if isinstance(a, (Sx, Ar, Mx, Phi, str)) or a is None:
            return a
        if isinstance(a, StrV):
            return a.key
        if isinstance(a, Obj):
            c = st.get(('C', a))
            if isinstance(c, Content):
                return SegKey(tuple(self.freeze_seg(I, st, s) for s in c.segs))
            return ('o', a.oid)
        return a

    def freeze_seg(self, I, st, s):
        if isinstance(s, One):
            return One(self.freeze(I, st, s.v))
        return s

    def attr_atom(self, st, o, name, sp, shape=None):
        ver = () if sp.frozen else self.ver(st, o)
        meta = dict(sp.meta)
        meta.pop('cont', None)
        if shape is not None:
            meta['shape'] = shape if len(shape) == 2 else (shape[0], 1)
            meta['grp'] = sp.grp
        return atom('attr', o.key, name, *ver, **meta)

    def shape(self, I, st, o, sp):
        sh = []
        for d in sp.shape:
            if isinstance(d, str):
                d = I.getattr(st, o, d)
            if callable(d):
                d = d(I, st, o)
            if isinstance(d, Sx) and d.const() is not None:
                d = int(d.const())
            sh.append(d)
        return tuple(sh)

    def value_of(self, I, st, o, name, sp):
        """value of an attribute given by its spec"""
        k = sp.kind
        if k == 'A':
            b = ('attr', atom('attr', o.key, name))
            self.bufs[b] = (o, name, sp)
            if sp.dtype != 'f':
                st.set(('D', b), sp.dtype)
            return Nd(b)
        if k == 'F':
            sh = self.shape(I, st, o, sp)
            a = self.attr_atom(st, o, name, sp, sh)
            return I.wrap(st, mx_of(a, len(sh)), sp.dtype)
        if k == 'N':
            return sx_atom(self.attr_atom(st, o, name, sp))
        if k == 'S':
            return StrV(self.attr_atom(st, o, name, sp))
        if k == 'O':
            v = AObj(self.attr_atom(st, o, name, sp), self.cls(sp.cls))
            if sp.none:
                return ite(cond(atom('isnone', v.key)), None, v)
            return v
        if k == 'L':
            coll = self.attr_atom(st, o, name, sp)
            return self.collection(I, st, coll, sp)
        if k == 'C':
            return sp.f(I, st, o)
        if k == 'B':
            return cond(atom('flag', o.key, name, *(() if sp.frozen else self.ver(st, o))))
        I.unsupported('spec ' + k)

    def collection(self, I, st, coll, sp):
        k = ('COLL', coll)
        v = st.get(k)
        if v is UNDEF:
            v = Obj('coll%d' % coll.id, 'list')
            e = atom('elem', coll, 0)
            seg = Each(coll, e, True, (One(AObj(e, self.cls(sp.cls))),))
            st.set(('C', v), Content((seg,)))
            st.set(k, v)
        return v

    def cls(self, c):
        if not isinstance(c, str):
            return c
        if self.byname is None:
            self.byname = {}
            for k in self.prog.all_classes():
                self.byname.setdefault(k.name, k)
        if c not in self.byname:
            raise AnchorLost('class ' + c)
        return self.byname[c]

    def buffer(self, I, st, base):
        if base[0] == 'attr' and base in self.bufs:
            o, name, sp = self.bufs[base]
            sh = self.shape(I, st, o, sp)
            a = self.attr_atom(st, o, name, sp, sh)
            return mx_of(a, len(sh))
        I.unsupported('content of %r' % (base,))

    def attr(self, I, st, o, name):
        r = self.lookup(I, st, o, name)
        if r is not None:
            return r[0]
        if name == '__class__':
            return self.typeof(I, st, o)
        try:
            I.unsupported('attribute %s of an abstract %s' % (name, o.cls.name))
        except Unsupported as e:
            raise NoAttr(str(e))

    def lookup(self, I, st, o, name):
        # the table and the source, most specific class first; the table wins
        # in the class that carries the entry
        for b in o.cls.mro():
            if not isinstance(b, ClassDef):
                continue
            sp = self.attrs.get((b.name, name))
            if sp is not None:
                return (self.value_of(I, st, o, name, sp),)
            m = self.methods.get((b.name, name))
            if m is not None:
                return (ABound(o, name),)
            e = b.own.get(name)
            if e is not None:
                if e[0] == 'abs' or e[0] == 'prop' and e[1].get('abstract'):
                    return None
                if e[0] == 'prop' and 'get' in e[1]:
                    return (I.call_fn(st, Fn(b.mod, e[1]['get'], b), [o], {}),)
                if e[0] in ('fn', 'static', 'cls', 'expr', 'deco', 'odd'):
                    return (I.class_member(st, b, e, o),)
        return None

    def default_attr(self, I, st, o, name):
        f = None
        for b in o.cls.mro():
            if isinstance(b, ClassDef):
                f = self.defaults.get((b.name, name))
                if f is not None:
                    return (f(I, st, o),)
        return None

    def setattr(self, I, st, o, name, v):
        for b in o.cls.mro():
            if not isinstance(b, ClassDef):
                continue
            e = b.own.get(name)
            if e is not None and e[0] == 'prop':
                if 'set' not in e[1]:
                    raise PyErr('AttributeError')
                if (b.name, name) in self.attrs and self.attrs[(b.name, name)].kind == 'A':
                    break
                I.call_fn(st, Fn(b.mod, e[1]['set'], b), [o, v], {})
                return True
            if (b.name, name) in self.attrs:
                break
        st.events += (Event('setattr', name, (o, v), st.pc, I.site()),)
        return False

    def call_method(self, I, st, o, name, args, kw):
        m = self.find(self.methods, o.cls, name)
        if m is None:
            I.unsupported('method %s of an abstract %s' % (name, o.cls.name))
        return self.do_call(I, st, o, name, m, args, kw)

    def do_call(self, I, st, o, name, m, args, kw):
        allargs = list(args)
        if kw:
            k, e = o.cls.lookup(name)
            if not e or not isinstance(e[1], ast.FunctionDef):
                I.unsupported('keyword arguments of an abstract method')
            allargs, kw = I.positional(st, Fn(k.mod, e[1], k), [o] + allargs, kw)
            allargs = list(allargs[1:])
            if kw:
                I.unsupported('keyword arguments of an abstract method')
        frozen = self.argkey(I, st, allargs)
        if m.log:
            st.events += (Event('call', name, (o,) + frozen, st.pc, I.site()),)
        if m.mutates:
            self.bump(I, st, o, name, allargs)
        if m.result is None:
            return None
        if callable(m.result):
            return m.result(I, st, o, frozen) if not m.raw else m.result(I, st, o, allargs)
        rs = m.result if isinstance(m.result, tuple) else (m.result,)
        out = []
        for i, sp in enumerate(rs):
            out.append(self.result(I, st, o, name, i, sp, frozen if not m.mutates else ()))
        return tuple(out) if isinstance(m.result, tuple) else out[0]

    def result(self, I, st, o, name, i, sp, frozen):
        ver = () if sp.frozen else self.ver(st, o)
        tag = name + ('#%d' % i)
        meta = dict(sp.meta)
        meta.pop('cont', None)
        if sp.kind in ('A', 'F'):
            sh = self.shape(I, st, o, sp)
            meta['shape'] = sh if len(sh) == 2 else (sh[0], 1)
            meta['grp'] = sp.grp
            a = atom('attr', o.key, tag, *(ver + frozen), **meta)
            return I.wrap(st, mx_of(a, len(sh)), sp.dtype)
        a = atom('attr', o.key, tag, *(ver + frozen), **meta)
        if sp.kind == 'N':
            return sx_atom(a)
        if sp.kind == 'B':
            return cond(atom('flag', o.key, tag, *(ver + frozen)))
        if sp.kind == 'O':
            return AObj(a, self.cls(sp.cls))
        if sp.kind == 'S':
            return StrV(a)
        if sp.kind == 'L':
            return self.collection(I, st, a, sp)
        I.unsupported('result spec')

    # --------------------------------------------------------------- objects
    def identical(self, I, st, x, y):
        if y is None or x is None:
            return False          # nullable attributes are gated values
        if not isinstance(x, AObj) or not isinstance(y, AObj):
            return False
        if x.key is y.key:
            return True
        if not self.may_alias(x, y):
            return False
        a, b = sorted((x.key, y.key), key=lambda k: k.id)
        return cond(atom('same', a, b, interp=_same))

    def may_alias(self, x, y):
        if x.key.kind == 'obj' and y.key.kind == 'obj':
            return False
        cx, cy = x.cls, y.cls
        if isinstance(cx, ClassDef) and isinstance(cy, ClassDef):
            if not (cx.issub(cy) or cy.issub(cx) or self.common_sub(cx, cy)):
                return False
        return True

    def common_sub(self, c, d):
        return any(k.issub(c) and k.issub(d) for k in self.prog.all_classes())

    def isinstance(self, I, st, v, c):
        if isinstance(c, ClassDef):
            if v.cls.issub(c):
                return True
            if c.issub(v.cls) or self.common_sub(c, v.cls):
                return cond(atom('isinst', v.key, c.name))
            return False
        n = getattr(c, 'name', None)
        return n == 'object' or n in v.cls.mro()

    def typeof(self, I, st, v):
        return Lib('type:%s' % v.cls.name) if v.key.kind != 'obj' or not v.key.meta.get('exact') \
            else v.cls

    def truth(self, I, st, v):
        return True

    def numeric(self, I, st, v):
        return None

    def as_index(self, I, st, i):
        return None

    def iterate(self, I, st, v):
        k = v.cls.lookup('__iter__')
        return None

    def ext_call(self, I, st, name, args, kw):
        f = self.exts.get(name)
        if f is None:
            I.unsupported('call of the external function ' + name)
        return f(I, st, args, kw)

    def call_obj(self, I, st, o, args, kw):
        k, e = o.cls.lookup('__call__')
        if e and e[0] == 'fn':
            return I.call_fn(st, Fn(k.mod, e[1], k), [o] + args, kw)
        I.unsupported('call of %r' % (o,))

    def new(self, I, st, cls, args, kw):
        f = self.news.get(cls.name)
        if f is not None:
            return f(I, st, cls, args, kw)
        return None

    # ----------------------------------------------------------- collections
    def contains(self, I, st, o, v):
        k, e = o.cls.lookup('__contains__')
        if e and e[0] == 'fn':
            return I.truth(st, I.call_fn(st, Fn(k.mod, e[1], k), [o, v], {}))
        return None

    def in_each(self, I, st, each, v):
        """is v one of the items of the segment?"""
        if any(not isinstance(s, One) for s in each.segs):
            I.unsupported('membership in a nested collection')
        r = False
        for s in each.segs:
            w = s.v
            if isinstance(w, AObj) and isinstance(v, AObj):
                # v is itself an element of the collection
                if w.key is each.e and v.key.kind == 'elem' and v.key.args[0] is each.coll:
                    g = subst(each.guard, {each.e: v.key}) if each.guard is not True else True
                    r = b_or(r, g)
                    continue
            c = b_and(each.guard, I.truth(st, I.equal(st, v, w)))
            r = b_or(r, loops.exists(each.coll, each.e, c))
        return r

    def chain(self, v):
        """(root element, attributes) of an object reached from a bound element
        through attributes that are different for different elements"""
        t, path = v.key, ()
        while t.kind == 'attr' and t.args[1] in self.injective:
            t, path = t.args[0], (t.args[1],) + path
        return (t, path) if t.kind == 'elem' else (None, None)

    def in_ph(self, I, st, ph, v):
        d = ph.n[0] if isinstance(ph.n, tuple) else None
        if isinstance(v, AObj) and isinstance(d, int) and d == len(I.active) - 1:
            t, path = self.chain(v)
            if t is I.active[d] and ph.base == () and ph.keys in (None, path):
                ph.keys = path      # keys of the previous elements: different
                return False
        k = self.freeze(I, st, v)
        return cond(atom('inph', ph.n, k))

    def pick(self, I, st, segs, i):
        segs = list(segs)
        if isinstance(i, int) and len(segs) == 1 and isinstance(segs[0], Each) and \
                segs[0].guard is True and len(segs[0].segs) == 1 and \
                isinstance(segs[0].segs[0], One):
            s = segs[0]
            a = atom('pick', s.coll, i)
            return subst(s.segs[0].v, {s.e: a})
        return None

    def each_get(self, I, st, each, key):
        """a mapping filled by a loop over a collection, at an element of it"""
        k, v = each.segs[0].v
        if isinstance(key, AObj) and isinstance(k, AObj):
            t, path = self.chain(key)
            t0, path0 = self.chain(k)
            if t is not None and t0 is each.e and path == path0 and t.args[0] is each.coll:
                put = (lambda x: subst(x, {each.e: t})) if t is not each.e else lambda x: x
                return put(each.guard) if each.guard is not True else True, put(v)
        return None, None

    def getitem(self, I, st, o, i):
        k, e = o.cls.lookup('__getitem__')
        if e and e[0] == 'fn':
            return I.call_fn(st, Fn(k.mod, e[1], k), [o, i], {})
        I.unsupported('subscript of %r' % (o,))

    def setitem(self, I, st, o, i, v):
        I.unsupported('item store in %r' % (o,))

    def dtype(self, I, st, v):
        return 'f'


def B_(frozen=False):
    return Spec('B', frozen=frozen)


def _same(m, a):
    return abs(m.token(a.args[0]) - m.token(a.args[1])) < 1e-12


class SegKey(object):
    """frozen content of a list, as an argument"""
    def __init__(self, segs):
        self.segs = segs

    def samekey(self):
        return seg_key(self.segs)

    def __hash__(self):
        return hash(seg_key(self.segs))

    def __eq__(self, o):
        return isinstance(o, SegKey) and seg_key(o.segs) == seg_key(self.segs)

    def __repr__(self):
        return '%r' % (self.segs,)

    def fe(self):
        from interp import segs_fe
        return segs_fe(self.segs)

    def subst(self, f):
        from interp import subst_segs
        return SegKey(subst_segs(self.segs, f))
