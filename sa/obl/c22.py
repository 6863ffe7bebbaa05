"""Loggers.  PickleLogger and Hdf5Logger are analysed on a small world that moves in
arbitrary ways, with the files replaced by recording stand-ins: once the simulation is
finished the file must hold exactly the documented groups and names, each
array with one row per step, and row k must be the value of that quantity at step k."""
from obl.small import *
import lib

EXTRA = '''
import numpy
from numpy import zeros, array
from arboris.core import Controller, DuplicateNameError
from arboris.observers import PickleLogger, Hdf5Logger

class Push(Controller):
    def init(self, world):
        pass
    def update(self, dt):
        return (self.force, self.gain)

class AFile:
    def __init__(self, name, mode):
        self.name, self.mode, self.closed, self.objects = name, mode, False, []
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()
    def close(self):
        self.closed = True

def frozen(x):
    if isinstance(x, dict):
        return dict([(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, list):
        return [frozen(v) for v in x]
    return x.copy()

def dump(x, f):
    if f.closed or 'b' not in f.mode or 'w' not in f.mode:
        raise IOError()
    f.objects.append(frozen(x))

LOSSY = ('f', 'f2', 'f4', '<f4', 'float16', 'float32', 'i', 'i4', 'i8', 'int', int)

class Data:
    def __init__(self, file, shape, dtype):
        self.file, self.shape, self.value, self.lossy = file, tuple(shape), zeros(shape), dtype in LOSSY
    def __setitem__(self, i, v):
        if self.file.closed:
            raise ValueError()
        self.value[i] = v
    def __getitem__(self, i):
        return self.value[i]

class Group:
    def __init__(self, file):
        self.file, self.members = file, {}
    def walk(self, name, new):
        g = self.file if name.startswith('/') else self
        for n in name.split('/'):
            if n:
                if n not in g.members:
                    if not new:
                        raise KeyError(n)
                    if g.file.closed:
                        raise ValueError()
                    g.members[n] = Group(g.file)
                g = g.members[n]
        return g
    def require_group(self, name):
        return self.walk(name, True)
    def create_group(self, name):
        if name in self.members:
            raise ValueError(name)
        return self.walk(name, True)
    def __getitem__(self, name):
        return self.walk(name, False)
    def create_dataset(self, name, shape=None, dtype='f4', data=None):
        if name in self.members or self.file.closed:
            raise ValueError(name)
        if data is None:
            d = Data(self.file, shape, dtype)
        else:
            d = Data(self.file, data.shape, None if dtype == 'f4' else dtype)
            d.value[:] = data
        self.members[name] = d
        return d
    def require_dataset(self, name, shape, dtype, exact=False):
        if name not in self.members:
            return self.create_dataset(name, shape, dtype)
        d = self.members[name]
        if d.shape != tuple(shape):
            raise TypeError(name)
        return d
    def __contains__(self, name):
        return name in self.members
    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)
    def keys(self):
        return self.members.keys()

class H5(Group):
    def __init__(self, name, mode='r'):
        Group.__init__(self, self)
        self.name, self.mode, self.closed = name, mode, False
    def close(self):
        self.closed = True
    def flush(self):
        pass

def names(x):
    return [k for k in (x.members if isinstance(x, Group) else x)]

def isgroup(x):
    return isinstance(x, (Group, dict))

def member(x, k):
    return (x.members if isinstance(x, Group) else x)[k]

def values(x):
    return x.value if isinstance(x, Data) else x

def refused(x, world, timeline):
    try:
        x.init(world, timeline)
    except DuplicateNameError:
        return True
    return False

def slots(root):
    out = []
    for k, g in root.items():
        if isinstance(g, dict):
            for n in g:
                out.append(n)
    return out
'''
KINDS = ('gpositions', 'gvelocities', 'transforms', 'model')


class Logged(Small):
    def __init__(self, ctx):
        self.files = []
        self.others = []        # further moving sub-frames
        Small.__init__(self, ctx, extra=EXTRA)

    def state(self):
        r = self.r
        if self.t == 0:
            self.push = r.new(self.member('Push'))
            r.method(self.w, 'register', self.push)
        r.set(self.push, 'force', r.nd(vec('push%d_' % self.t, 7)))
        r.set(self.push, 'gain', r.nd(mat('gain%d_' % self.t, 7, 7)))
        Small.state(self)
        r.method(self.w, 'update_controllers', sym('h', pos=True))

    def opened(self, kind):
        def f(L, st, a, kw):
            x = self.r.I.call(st, self.member(kind), list(a), kw)
            self.files.append(x)
            return x
        return f

    def dump(self, L, st, a, kw):
        return self.r.I.call(st, self.member('dump'), list(a[:2]), {})

    def stands_in(self):
        return {'open': self.opened('AFile'), 'h5py.File': self.opened('H5'), 'pickle.dump': self.dump}

    def name(self, o):
        n = self.r.get(o, 'name')
        if not isinstance(n, (str, StrV)):
            raise Unsupported('an object without a name')
        return n

    def now(self, transforms, state, model, flat):
        """what the documentation says is saved at this step: path -> value"""
        r, w = self.r, self.w
        val = lambda o, k: r.content(r.get(o, k))
        out = {('timeline',): r.get(w, 'current_time')}
        if state:
            for j in (self.J, self.N):
                out['gpositions', self.name(j)] = val(j, 'gpos')
                out['gvelocities', self.name(j)] = val(j, 'gvel')
        if transforms:
            if flat:
                for b in (r.get(w, 'ground'), self.A, self.B):
                    out['transforms', self.name(b)] = val(b, 'pose')
            else:
                for j in (self.J, self.N):
                    out['transforms', self.name(r.get(j, 'frame1'))] = val(j, 'pose')
            for m in [self.m] + self.others:
                out['transforms', self.name(m)] = val(m, 'pose' if flat else 'bpose')
        if model:
            for k in ('gvel', 'gforce', 'mass', 'nleffects', 'admittance'):
                out['model', k] = val(w, k)
        return out

    def tree(self, x):
        """path -> array of the file"""
        r = self.r
        out = {}
        for k in r.items(r.call(self.member('names'), x)):
            v = r.call(self.member('member'), x, k)
            if r.call(self.member('isgroup'), v) is True:
                for p, y in self.tree(v).items():
                    out[(k,) + p] = y
                if not self.tree(v):
                    out[k,] = None
            else:
                out[k,] = v
        return out


def shape(c):
    s = {tuple(shape_of(l)) for _, l in leaves(c)}
    if len(s) != 1:
        raise Unsupported('an array of several shapes')
    return list(s.pop())


def saved(o, W, x, want, group=()):
    """the tree x holds the values want, row by row"""
    r = W.r
    got = W.tree(x)
    paths = {group + p for p in want[0]}
    for p in sorted(paths - set(got), key=str):
        o.violation('%s is not saved' % '/'.join(map(str, p)))
    for p in sorted(set(got) - paths, key=str):
        o.violation('%s is saved, which was not asked for' % '/'.join(map(str, p)))
    for p in sorted(paths & set(got), key=str):
        d = '/'.join(map(str, p))
        if got[p] is None:
            o.violation('%s is an empty group' % d)
            continue
        v = r.call(W.member('values'), got[p])
        sh = shape_of(r.content(v))
        rows = [w[p[len(group):]] for w in want]
        one = [] if isinstance(rows[0], Sx) else shape(rows[0])
        sh = shape(r.content(v))
        o.require(sh == [len(want)] + one, '%s has shape %s, required %s' % (d, sh, [len(want)] + one))
        if sh[:1] != [len(want)]:
            continue
        for k, w in enumerate(rows):
            o.eq(r.content(r.item(v, k)), w, what='row %d of %s' % (k, d))
        if isinstance(got[p], Obj) and r.get(got[p], 'lossy') is True:
            o.violation('%s is rounded when written' % d)


def log(ctx, kind, flags, what):
    steps = 2
    with ctx.ob('saved-simulation', lambda: ctx.at_cls(kind, 'finish'), what) as o:
        W = Logged(ctx)
        kept = {k: lib.EXTRA.get(k) for k in W.stands_in()}
        lib.EXTRA.update(W.stands_in())
        try:
            r = W.r
            # transforms state model flat
            kw = dict(zip(('save_transforms', 'save_state', 'save_model', 'flat'), flags))
            group = ()
            if kind == 'Hdf5Logger' and not kw['flat']:
                group = ('runs', 'first')
                kw['group'] = 'runs/first'
            args = ('sim.data',) + ((group and '/'.join(group) or '/', 'w') if kind == 'Hdf5Logger' else ('wb',))
            kw.pop('group', None)
            if flags == (True, False, False, False):
                kw = {}         # the documented defaults
            x = r.new(W.member(kind), *args, **kw)
            for run in range(2 if kind == 'PickleLogger' else 1):
                r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(steps + 1)]))
                want = []
                for k in range(steps):
                    W.state()
                    before = W.snapshot() if (run, k) == (0, 0) else None
                    want.append(W.now(*flags))
                    r.method(x, 'update', sym('dt', pos=True))
                    o.no_raise(r)
                    if before:
                        W.undisturbed(o, before, 'the update')
                W.state()
                r.method(x, 'finish')
                o.no_raise(r)
                W.state()
                if not W.files:
                    o.violation('no file is written')
                    return
                f = W.files[-1]
                o.require(r.get(f, 'closed') is True, 'the file is left open')
                o.require(r.get(f, 'name') == 'sim.data', 'the file is called %r' % (r.get(f, 'name'),))
                if kind == 'PickleLogger':
                    objs = r.items(r.get(f, 'objects'))
                    o.require(len(objs) == 1, '%d objects in the file' % len(objs))
                    saved(o, W, objs[0], want)
                else:
                    saved(o, W, f, want, group)
                o.require(len(W.files) == run + 1, '%d files opened' % len(W.files))
        finally:
            for k, v in kept.items():
                if v is None:
                    del lib.EXTRA[k]
                else:
                    lib.EXTRA[k] = v


def company(ctx):
    """loggers which observe together, then a simulation of the world which changed"""
    with ctx.ob('saved-simulation', lambda: ctx.at_cls('SaveLogger', 'init'), 'several loggers, a world which changes') as o:
        W = Logged(ctx)
        kept = {k: lib.EXTRA.get(k) for k in W.stands_in()}
        lib.EXTRA.update(W.stands_in())
        try:
            r = W.r
            opts = ('save_transforms', 'save_state', 'save_model', 'flat')
            sets = [(True, True, False, False), (True, False, False, True), (False, True, True, False)]
            new = lambda k, name, f, **kw: r.new(W.member(k), name, **dict(zip(opts, f), **kw))
            loggers = [new('PickleLogger', 'sim%d' % i, f) for i, f in enumerate(sets)]
            for run, steps in enumerate((2, 3)):
                last = [(new('Hdf5Logger', 'h5_%d' % run, sets[1], mode='w'), sets[1])]
                every = list(zip(loggers, sets)) + last
                if run:
                    for x, n in ((W.J, 'root'), (W.B, 'forearm'), (W.m, 'slider')):
                        r.set(x, 'name', n)
                    x = r.new('MovingSubFrame', W.B, name='late')
                    r.method(W.w, 'register', x)
                    W.others.append(x)
                for x, _ in every:
                    r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(steps + 1)]))
                want = {id(x): [] for x, _ in every}
                for k in range(steps):
                    W.state()
                    for i, x in enumerate(W.others):
                        r.set(x, 'bpose', r.nd(se3('M%d_%d' % (i, W.t))))
                        r.method(W.w, 'update_dynamic')
                    for x, f in every:
                        want[id(x)].append(W.now(*f))
                    for x, _ in every if k != 1 else every[::-1]:
                        r.method(x, 'update', sym('dt', pos=True))
                    o.no_raise(r)
                first = len([f for f in W.files if r.get(f, 'closed') is True])
                for n, (x, f) in enumerate(every):
                    r.method(x, 'finish')
                    o.no_raise(r)
                    fs = [f for f in W.files if r.get(f, 'closed') is True]
                    o.require(len(fs) == first + n + 1, '%d files are closed' % len(fs))
                for n, (x, f) in enumerate(every):
                    name = 'sim%d' % n if n < 3 else 'h5_%d' % run
                    l = [y for y in W.files if r.get(y, 'name') == name]
                    o.require(len(l) == (run + 1 if n < 3 else 1), '%d files called %s' % (len(l), name))
                    if n < 3:
                        objs = r.items(r.get(l[-1], 'objects'))
                        o.require(len(objs) == 1, '%d objects in the file' % len(objs))
                        saved(o, W, objs[0], want[id(x)])
                    else:
                        saved(o, W, l[-1], want[id(x)])
        finally:
            for k, v in kept.items():
                if v is None:
                    del lib.EXTRA[k]
                else:
                    lib.EXTRA[k] = v


def naming(ctx):
    """every object has its own slot, whatever the names"""
    at = lambda: ctx.at_cls('SaveLogger', 'init')
    cases = (('joints', (False, True, False, False)), ('bodies', (True, False, False, True)),
             ('frames', (True, False, False, False)), ('moving sub-frames', (True, False, False, False)),
             ('moving sub-frames', (True, False, False, True)))
    for what, flags in cases:
        for mode in ('not named', 'namesakes'):
            with ctx.ob('every-object-has-its-slot', at, '%s %s%s' % (
                    what, mode, ', flat' if flags[3] else '')) as o:
                W = Logged(ctx)
                r = W.r
                W.state()
                m2 = r.new('MovingSubFrame', W.B, name='moving2')
                r.method(W.w, 'register', m2)
                objs = {'joints': [W.J, W.N], 'bodies': [W.A, W.B], 'moving sub-frames': [W.m, m2],
                        'frames': [r.get(j, 'frame1') for j in (W.J, W.N)]}[what]
                for x in objs:
                    r.set(x, 'name', 'same' if mode == 'namesakes' else None)
                x = r.new(W.member('PickleLogger'), 'sim.data',
                          **dict(zip(('save_transforms', 'save_state', 'save_model', 'flat'), flags)))
                t = r.list([sym('t%d' % k) for k in range(3)])
                refused = r.call(W.member('refused'), x, W.w, t)
                o.no_raise(r)
                o.eq(refused, mode == 'namesakes', what='%s refused' % mode)
                if mode == 'namesakes':
                    continue
                r.method(x, 'update', sym('dt', pos=True))
                o.no_raise(r)
                names = r.items(r.call(W.member('slots'), r.get(x, '_root')))
                n = {'joints': 4}.get(what, 5 if flags[3] else 4)
                o.require(len(names) == n, '%d slots for %d values' % (len(names), n))
                o.require(None not in names, 'something is saved without a name')


def shared(ctx):
    """a moving sub-frame and a transform of another kind which have one name"""
    at = lambda: ctx.at_cls('SaveLogger', 'init')
    for flat in (False, True):
        for kind in ('PickleLogger', 'Hdf5Logger'):
            with ctx.ob('every-object-has-its-slot', at, 'one name for two kinds, %s, %s' % ('flat' if flat else 'tree', kind)) as o:
                W = Logged(ctx)
                kept = {k: lib.EXTRA.get(k) for k in W.stands_in()}
                lib.EXTRA.update(W.stands_in())
                try:
                    r = W.r
                    W.state()
                    r.set(W.B if flat else r.get(W.N, 'frame1'), 'name', 'same')
                    r.set(W.m, 'name', 'same')
                    t = r.list([sym('t%d' % k) for k in range(3)])
                    ask = lambda f, **kw: r.call(W.member('refused'), r.new(W.member(kind), 'sim.data', flat=f, **kw), W.w, t)
                    o.eq(ask(flat), True, what='namesakes refused')
                    o.eq(ask(flat, save_transforms=False, save_state=True), False, what='what shares no slot refused')
                    if W.B is not r.get(W.N, 'frame1'):
                        o.eq(ask(not flat), False, what='what shares no slot refused')
                    o.no_raise(r)
                finally:
                    for k, v in kept.items():
                        if v is None:
                            del lib.EXTRA[k]
                        else:
                            lib.EXTRA[k] = v


def label(flags):
    return ', '.join(n for n, f in zip(('transforms', 'state', 'model', 'flat'), flags) if f) or 'timeline only'


def run(ctx):
    T, F = True, False
    quick = [(T, F, F, F), (T, F, F, T), (F, T, F, F), (T, T, T, T), (F, F, T, F), (F, F, F, F)]
    every = [(a, b, c, d) for a in (T, F) for b in (T, F) for c in (T, F) for d in (T, F)]
    with cut_at(12):
        for kind in ('PickleLogger', 'Hdf5Logger'):
            for flags in quick if ctx.tier == 'quick' else every:
                log(ctx, kind, flags, label(flags))
        company(ctx)
        naming(ctx)
        shared(ctx)
