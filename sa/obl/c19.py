"""Traversals.  The recursive traversals are analysed on a body with any number
of children, the recursive calls being replaced by their specification: the
result must be, child after child, the child followed by what is below it
(ancestors: the parent followed by what is above it), which defines depth-first
order on every tree.  The listings of the world must be complete, in order,
and independent of the world they come from.  World.parse is analysed on worlds
holding every kind of element: the target must be told of each element exactly
once, of a frame before what is attached to it and before the joints that leave
it, then of the constraints and the controllers."""
from obl.c18 import *

TRAV = ('iter_descendant_bodies', 'iter_descendant_joints', 'iter_ancestor_bodies', 'iter_ancestor_joints')

LISTS = '''
def listing(w, name):
    return [x for x in getattr(w, name)()]
'''

TARGET = '''
class Target(object):
    def __init__(self):
        self.log = []

    def init_parse(self, ground, up, current_time):
        self.log.append(('init', ground, up, current_time))

    def register(self, obj):
        self.log.append(('register', obj))

    def add_link(self, frame0, joint, frame1):
        self.log.append(('link', frame0, joint, frame1))
'''


def below(t, name):
    """the specification of a traversal, for a body known by its interface"""
    down = 'descendant' in name

    def contract(I, st, args, kw):
        if not isinstance(args[0], AObj) or kw or len(args) != 1:
            return NotImplemented
        coll = atom('walk', 'down' if down else 'up', args[0].key)
        e = atom('elem', coll, 0)
        item = AObj(e, t.S.cls('Joint'))
        if name.endswith('bodies'):
            # the bodies are those the joints lead to
            item = I.getattr(st, I.getattr(st, item, 'frame1' if down else 'frame0'), 'body')
        return t.r.I.lib.seq(st, (Each(coll, e, True, (One(item),)),))
    return contract


def walk(ctx, name, parent=None):
    t = Tree(ctx)
    for n in TRAV:
        t.r.I.contracts[CORE + '.Body.' + n] = below(t, n)
    b = t.body()
    return t, b


def contents(t, v):
    return tuple(t.r.I.segs_of(t.r.st, v))


def same_walk(o, got, want, what):
    a, b = seg_key(norm(got)), seg_key(norm(want))
    if a == b:
        o.fact()
    elif all(known(s) for s in got):
        o.violation('%s: %s, required %s' % (what, cut_(got), cut_(want)))
    else:
        o.undecided('%s: %s' % (what, cut_(got)))


def cut_(segs):
    s = repr(tuple(segs))
    return s if len(s) < 300 else s[:300] + '...'


def known(s):
    return isinstance(s, (One, Each, Cnd))


def norm(segs):
    """canonical names for the bound elements"""
    return tuple(rename(s) for s in segs)


def rename(s):
    if isinstance(s, Each):
        e = atom('elem', s.coll, 0)
        m = {s.e: e} if s.e is not e else None
        put = (lambda v: subst(v, m)) if m else (lambda v: v)
        inner = tuple(rename_in(q, m) for q in s.segs)
        return Each(put(s.coll) if m else s.coll, e, put(s.guard), inner)
    return s


def rename_in(q, m):
    if isinstance(q, One):
        return One(subst(q.v, m)) if m else q
    if isinstance(q, Each):
        c = subst(q.coll, m) if m else q.coll
        return rename(Each(c, q.e, subst(q.guard, m) if m else q.guard,
                           tuple(rename_in(x, m) for x in q.segs)))
    return q


def traversals(ctx):
    for name in TRAV:
        at = lambda: ctx.at_cls('Body', name)
        down = 'descendant' in name
        with ctx.ob('depth-first-traversal', at, name) as o:
            t, b = walk(ctx, name)
            r, S = t.r, t.S
            if down:
                t.surround(b)
                first, second = t.children(b)
                got = listing(t, b, name)
                o.no_raise(r)
                want = []
                for seg in (first, second):
                    j = seg.segs[0].v
                    c = r.get(r.get(j, 'frame1'), 'body')
                    item = c if name.endswith('bodies') else j
                    sub = r.I.contracts[CORE + '.Body.' + name](r.I, r.st, [c], {})
                    want.append(Each(seg.coll, seg.e, True, (One(item),) + contents(t, sub)))
                same_walk(o, got, want, name)
            else:
                o.require(listing(t, b, name) == (), 'a body without a parent has ancestors')
                # above: any body of any tree
                j = S.obj('j', 'Joint')
                r.set(b, 'parentjoint', j)
                got = listing(t, b, name)
                o.no_raise(r)
                p = r.get(r.get(j, 'frame0'), 'body')
                sub = r.I.contracts[CORE + '.Body.' + name](r.I, r.st, [p], {})
                same_walk(o, got, (One(p if name.endswith('bodies') else j),) + contents(t, sub), name)


def listing(t, x, name):
    if 'spec19' not in t.r.prog.mods:
        t.r.source('spec19', LISTS)
    return contents(t, t.r.call(t.r.fn('spec19', 'listing'), x, name))


def rich(t):
    """a forked tree with everything that can be registered"""
    r = t.r
    g = t.bodies[0]
    a, b, c, d = [t.body() for _ in range(4)]
    els = {}
    els['links'] = [t.link(g, a, 'SubFrame', 'Body', t.joint('RzJoint')),
                    t.link(a, b, 'SubFrame', 'MovingSubFrame', t.joint('FreeJoint')),
                    t.link(a, c, 'Body', 'SubFrame', t.joint('TxJoint')),
                    t.link(g, d, 'Body', 'Body', t.joint('FixedJoint'))]
    more = [r.new('SubFrame', g), r.new('SubFrame', b), r.new('MovingSubFrame', c)]
    for f in more:
        r.method(t.w, 'register', f)
    els['shapes'] = []
    for k, f in (('Sphere', more[1]), ('Plane', g), ('Box', b), ('Point', more[1]),
                 ('Cylinder', r.new('SubFrame', d)), ('Sphere', g)):
        s = r.new(k, f)
        r.method(t.w, 'register', s)
        els['shapes'].append(s)
    els['constraints'] = [r.new(t.kind('AConstraint')), r.new('SoftFingerContact', (
        els['shapes'][0], els['shapes'][1]), sym('mu', pos=True))]
    els['controllers'] = [r.new(t.kind('AController')) for _ in range(2)]
    for x in els['constraints'] + els['controllers']:
        r.method(t.w, 'register', x)
    els['bodies'] = t.bodies
    return els


def listings(ctx):
    names = {'bodies': ('iterbodies', 'getbodies'), 'joints': ('iterjoints', 'getjoints'),
             'frames': ('iterframes', 'getframes'), 'shapes': ('itershapes', 'getshapes'),
             'constraints': ('iterconstraints', 'getconstraints'), 'controllers': ('getcontrollers',),
             'subframes': ('itersubframes',), 'movingsubframes': ('itermovingsubframes',)}
    for what, fs in names.items():
        for f in fs:
            with ctx.ob('listing', lambda: ctx.at_cls('World', f), f) as o:
                t = Tree(ctx)
                for n in TRAV:
                    t.r.I.contracts.pop(CORE + '.Body.' + n, None)
                t.r.I.contracts.pop(CORE + '.World.init', None)
                els = rich(t)
                t.r.method(t.w, 'init')
                els['joints'] = [x[1] for x in els['links']]
                sub = [s.v for s in registries(t)[0]]
                els['subframes'] = sub
                els['movingsubframes'] = [x for x in sub if x.cls.name == 'MovingSubFrame']
                els['frames'] = els['bodies'] + sub
                got = listing(t, t.w, f)
                o.no_raise(t.r)
                segs_are(o, got, [One(x) for x in els[what]], f)
                if f.startswith('get'):
                    l = t.r.method(t.w, f)
                    t.r.method(l, 'append', els['bodies'][1])
                    segs_are(o, listing(t, t.w, f), [One(x) for x in els[what]],
                             f + ' once its result is changed')
                    x = t.r.method(t.w, f)
                    t.r.set(els[what][0], 'name', 'a name')
                    o.require(t.r.item(x, 'a name') is els[what][0], f + ' does not find objects by name')
                    o.no_raise(t.r)


def parsing(ctx):
    at = lambda: ctx.at_cls('World', 'parse')
    with ctx.ob('parse', at, 'every kind of element') as o:
        t = Tree(ctx)
        for n in TRAV:
            t.r.I.contracts.pop(CORE + '.Body.' + n, None)
        els = rich(t)
        r = t.r
        r.source('spec19t', TARGET)
        x = r.new(r.I.mod_member(r.st, 'spec19t', 'Target'))
        r.method(t.w, 'parse', x)
        o.no_raise(r)
        told(o, t, x, els)


def told(o, t, x, els):
    """the target x was told of everything in the world, in order"""
    r = t.r
    log = [r.items(e) for e in r.items(r.get(x, 'log'))]
    o.require(log[0][0] == 'init' and [e[0] for e in log].count('init') == 1,
              'the target is not initialised first, once')
    o.require(log[0][1] is t.bodies[0], 'the target is not given the ground')
    o.eq(r.content(log[0][2]), r.content(r.get(t.w, 'up')), what='vertical given to the target')
    o.eq(log[0][3], r.get(t.w, 'current_time'), what='time given to the target')
    frames = t.bodies + [s.v for s in registries(t)[0]]
    n, nl = {}, {}
    for i, e in enumerate(log):
        if e[0] == 'register':
            n.setdefault(id(e[1]), []).append(i)
        elif e[0] == 'link':
            nl.setdefault(id(e[2]), []).append((i, e))
    alls = frames + els['shapes'] + els['constraints'] + els['controllers']
    for y in alls:
        o.require(len(n.get(id(y), ())) == 1, 'a %s is registered %d times' % (
            y.cls.name, len(n.get(id(y), ()))))
    o.require(set(n) <= {id(y) for y in alls}, 'unknown elements are registered')
    if not all(len(n.get(id(y), ())) == 1 for y in alls):
        return
    first = {k: v[0] for k, v in n.items()}
    for f in frames:
        b = r.get(f, 'body')
        o.require(b is f or first[id(b)] < first[id(f)], 'a sub-frame comes before its body')
    for s in els['shapes']:
        o.require(first[id(r.get(s, 'frame'))] < first[id(s)], 'a shape comes before its frame')
    for f0, j, f1 in els['links']:
        got = nl.get(id(j), [])
        o.require(len(got) == 1, 'a joint is linked %d times' % len(got))
        if len(got) == 1:
            i, e = got[0]
            o.require(e[1] is f0 and e[3] is f1, 'the frames given with a joint')
            o.require(first[id(f0)] < i, 'a joint comes before its parent frame')
            o.require(i < first[id(r.get(f1, 'body'))], 'a body comes before the joint that carries it')
    last = max(first[id(y)] for y in frames + els['shapes'])
    for y in els['constraints'] + els['controllers']:
        o.require(first[id(y)] > last, 'a %s comes before the frames' % y.cls.name)


TREE = """
from arboris.core import Body, SubFrame
from arboris.joints import RzJoint, TxJoint, FreeJoint
from arboris.shapes import Sphere

def bodies(b):
    out = [b]
    for j in b.childrenjoints:
        out.extend(bodies(j.frame1.body))
    return out

def joints(b):
    out = []
    for j in b.childrenjoints:
        out.append(j)
        out.extend(joints(j.frame1.body))
    return out

def links(b):
    return [(j.frame0, j, j.frame1) for j in joints(b)]
"""


def changes(ctx):
    """the same world listed and parsed between edits"""
    with ctx.ob('listings-follow-edits', lambda: ctx.at_cls('World', 'iterbodies')) as o:
        t = Tree(ctx)
        for n in TRAV:
            t.r.I.contracts.pop(CORE + '.Body.' + n, None)
        t.r.I.contracts.pop(CORE + '.World.init', None)
        els = rich(t)
        r, w, g = t.r, t.w, t.bodies[0]
        r.method(w, 'init')
        r.source('spec19c', TREE)
        r.source('spec19t', TARGET)
        k = lambda n, *a: r.items(r.call(r.fn('spec19c', n), *a))

        def judge(when, ready=True):
            now = dict(els, bodies=k('bodies', g), joints=k('joints', g))
            now['links'] = [r.items(x) for x in k('links', g)]
            sub = now['subframes'] = [s.v for s in registries(t)[0]]
            now['frames'] = now['bodies'] + sub
            for what in ('bodies', 'joints', 'frames', 'shapes', 'constraints', 'controllers', 'subframes'):
                for f in ('iter' + what, 'get' + what):
                    if f in ('itercontrollers', 'getsubframes') or f == 'getjoints' and not ready:
                        continue
                    for n in range(2):
                        got = listing(t, w, f)
                        segs_are(o, got, [One(x) for x in now[what]], '%s %s' % (f, when))
            t.bodies = now['bodies']
            x = r.new(r.I.mod_member(r.st, 'spec19t', 'Target'))
            r.method(w, 'parse', x)
            o.no_raise(r)
            told(o, t, x, now)
        judge('at first')
        f0, j, f1 = els['links'][1]
        r.method(w, 'replace_joint', j, r.new('RxJoint'))
        judge('after a joint was replaced')
        f0, j, f1 = els['links'][2]
        e = r.new('Body')
        r.method(w, 'replace_joint', j, f0, j, e, r.new('SubFrame', e), r.new('TyJoint'), f1)
        judge('after a body was inserted')
        e2 = r.new('Body')
        r.method(w, 'add_link', r.new('SubFrame', t.bodies[1]), r.new('RyJoint'), r.new('SubFrame', e2))
        s = r.new('Sphere', r.new('SubFrame', e2))
        r.method(w, 'register', s)
        els['shapes'].append(s)
        judge('after a link and a shape were added', False)
        r.method(w, 'init')
        judge('after they were initialised')
        c = r.new(t.kind('AController'))
        r.method(w, 'register', c)
        els['controllers'].append(c)
        c = r.new(t.kind('AConstraint'))
        r.method(w, 'register', c)
        els['constraints'].append(c)
        r.method(w, 'init')
        judge('after a controller and a constraint were added')


def run(ctx):
    traversals(ctx)
    listings(ctx)
    parsing(ctx)
    changes(ctx)
