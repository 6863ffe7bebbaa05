"""Names.  Lists of objects with arbitrary (symbolic) names, unnamed objects and
things that are not named objects: finding by name must give every object of
this name in order, indexing the first one or KeyError, conversion to a
dictionary each named object or DuplicateNameError; other accesses are those of
a list.  Naming must keep the names given, give distinct names to
the unnamed objects, and signal equal names when it is asked to."""
import itertools
from obl.world import *
from obl import c19

SPEC = '''
from arboris.core import NamedObject, NamedObjectsList, DuplicateNameError, name_all_elements

class Thing(NamedObject):
    pass

class Foreign(object):
    def __init__(self, name):
        self.name = name

def rank(xs, x):
    n = 0
    for y in xs:
        n = n + 1
        if y is x:
            return n
    return 9

def code(xs, l):
    """the identities of the items, in order, as a number"""
    n = 0
    for x in l:
        n = 10*n + rank(xs, x)
    return n

def matching(xs, name):
    return [x for x in xs if isinstance(x, NamedObject) and x.name == name]

def found(l, xs, name):
    return code(xs, l.find(name))

def should_be_found(l, xs, name):
    return code(xs, matching(xs, name))

def got(l, xs, name):
    try:
        return rank(xs, l[name])
    except KeyError:
        return 0

def should_be_got(l, xs, name):
    for x in matching(xs, name):
        return rank(xs, x)
    return 0

def table(l, xs, name):
    try:
        d = l.as_dict()
    except DuplicateNameError:
        return -1
    n = rank(xs, d[name]) if name in d else 0
    return 100*len(d) + n

def should_be_table(l, xs, name):
    named = [x for x in xs if isinstance(x, NamedObject) and x.name is not None]
    for i, x in enumerate(named):
        for y in named[:i]:
            if x.name == y.name:
                return -1
    n = 0
    for x in named:
        if x.name == name:
            n = rank(xs, x)
    return 100*len(named) + n

def as_list(l, xs):
    return (code(xs, l), len(l), rank(xs, l[0]), rank(xs, l[-1]), code(xs, l[1:]), code(xs, l[::-1]))

def should_be_list(l, xs):
    return (code(xs, xs), len(xs), rank(xs, xs[0]), rank(xs, xs[-1]), code(xs, xs[1:]), code(xs, xs[::-1]))

def naming(l, check):
    try:
        name_all_elements(l, check)
    except DuplicateNameError:
        return 1
    return 0

def duplicated(xs):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            if x.name == y.name:
                return 1
    return 0

def some_unnamed(xs):
    for x in xs:
        if x.name is None:
            return 1
    return 0

def giving(xs):
    for x in xs:
        yield x
'''
KINDS = 'NUF'


class Names(object):
    def __init__(self, ctx, kinds):
        self.r = ctx.run(Schema(ctx.prog))
        self.r.source('spec20', SPEC)
        self.names, self.xs = [], []
        for i, k in enumerate(kinds):
            n = StrV(atom('obj', 'name%d' % i)) if k != 'U' else None
            self.names.append(n)
            self.xs.append(self.r.new(self.r.I.mod_member(self.r.st, 'spec20', 'Foreign' if k == 'F' else 'Thing'), n))
        self.list = self.r.list(self.xs)
        self.q = StrV(atom('obj', 'asked'))

    def named_list(self):
        return self.r.new('NamedObjectsList', self.list)

    def __call__(self, f, *args):
        return self.r.call(self.r.fn('spec20', f), *args)


def run(ctx):
    for f, f1, f2 in (('find', 'found', 'should_be_found'),
                      ('__getitem__', 'got', 'should_be_got'),
                      ('as_dict', 'table', 'should_be_table')):
        for kinds in itertools.product(KINDS, repeat=3):
            with ctx.ob('access-by-name', lambda: ctx.at_cls('NamedObjectsList', f), ''.join(kinds)) as o:
                t = Names(ctx, kinds)
                l = t.named_list()
                a, b = t(f1, l, t.list, t.q), t(f2, l, t.list, t.q)
                o.no_raise(t.r)
                o.eq(a, b, what='%s on a list of %s' % (f, words(kinds)))
                o.eq(t('code', t.list, l), num(123), what='the list once it is used')
    with ctx.ob('access-by-name', lambda: ctx.at_cls('NamedObjectsList', '__getitem__'), 'as a list') as o:
        t = Names(ctx, 'NUF')
        l = t.named_list()
        for a, b in zip(t.r.items(t('as_list', l, t.list)), t.r.items(t('should_be_list', l, t.list))):
            o.eq(a, b, what='access by position')
        twice = t.r.new('NamedObjectsList', t.r.list(t.xs + t.xs[:2]))
        o.eq(t('code', t.list, twice), num(12312), what='a list with repeated objects')
        empty = t.r.new('NamedObjectsList')
        o.eq(t('code', t.list, empty), num(0), what='an empty list')
        o.no_raise(t.r)
    at = lambda: ctx.at('arboris.core', 'name_all_elements')
    for kinds in itertools.product('NU', repeat=3):
        for check in (False, True):
            for gen in (False, True):
                with ctx.ob('naming', at, ''.join(kinds) + (' unique' if check else '')) as o:
                    naming(o, Names(ctx, kinds), kinds, check, gen)
    with ctx.ob('naming', at, 'two lists') as o:
        t = Names(ctx, 'UUUU')
        for l in (t.xs[:2], t.xs[2:]):
            t('naming', t.r.list(l), True)
        o.no_raise(t.r)
        o.eq(t('duplicated', t.list), num(0), what='equal names given to objects of different lists')


    stories(ctx)
    worlds(ctx)


UNIQUE = '''
from arboris.core import DuplicateNameError

def naming(w, *args, **kw):
    try:
        w.name_all_elements(*args, **kw)
    except DuplicateNameError:
        return 1
    return 0
'''


STORY = """
from spec20 import Thing, found, got, table, code
from arboris.core import NamedObjectsList

NAMES = ('a', 'b', 'c', 'd', 'other')

def look(lists, xs, log, last=''):
    # starting with the one looked for last
    names = [n for n in NAMES if n == last] + [n for n in NAMES if n != last]
    for l, m in lists:
        log.append((code(xs, l), code(xs, m)))
        for n in names:
            log.append((found(l, xs, n), code(xs, [x for x in m if x.name == n])))
            first = 0
            for x in m:
                if x.name == n:
                    first = code(xs, [x])
                    break
            log.append((got(l, xs, n), first))
            known = [x.name for x in m if x.name is not None]
            if len(set(known)) == len(known):
                d = l.as_dict()
                log.append((len(d), len(known)))
                log.append((code(xs, [d[n]] if n in d else []), first))
            else:
                log.append((table(l, xs, n), -1))

def story():
    xs = [Thing('a'), Thing('b'), Thing('a'), Thing(None), Thing('c'), Thing('d')]
    l, m = NamedObjectsList(xs[:2]), list(xs[:2])
    k, q = NamedObjectsList([xs[4], xs[0]]), [xs[4], xs[0]]
    lists = [(l, m), (k, q)]
    log = []
    look(lists, xs, log)
    l.append(xs[4])
    m.append(xs[4])
    look(lists, xs, log)
    xs[1].name = 'a'
    look(lists, xs, log)
    xs[0].name = 'd'
    look(lists, xs, log)
    l.extend([xs[2], xs[3]])
    m.extend([xs[2], xs[3]])
    look(lists, xs, log)
    xs[3].name = 'b'
    l[0] = xs[5]
    m[0] = xs[5]
    look(lists, xs, log)
    l.remove(xs[1])
    m.remove(xs[1])
    l.insert(1, xs[0])
    m.insert(1, xs[0])
    look(lists, xs, log)
    l.pop()
    m.pop()
    xs[0].name = None
    look(lists, xs, log)
    d = k.as_dict()
    d['b'] = xs[1]
    f = k.find('c')
    f.append(xs[1])
    look(lists, xs, log)
    for i, n in enumerate(('a', 'b', 'c')):
        xs[i].name = n
    l, m = NamedObjectsList(xs[:3]), xs[:3]
    for act in (0, 1, 2, 3):
        log.append((got(l, xs, 'c'), code(xs, [x for x in m if x.name == 'c'][:1])))
        if act == 0:
            xs[0].name = 'c'
        elif act == 1:
            l.remove(xs[0])
            m.remove(xs[0])
        elif act == 2:
            l[1] = xs[3]
            m[1] = xs[3]
        look([(l, m)], xs, log, 'c')
    return log
"""


def stories(ctx):
    """lists used again after they, or the names in them, change"""
    with ctx.ob('access-by-name', lambda: ctx.at_cls('NamedObjectsList'), 'lists and names which change') as o:
        r = ctx.run(Schema(ctx.prog))
        r.source('spec20', SPEC)
        r.source('spec20s', STORY)
        log = r.call(r.fn('spec20s', 'story'))
        o.no_raise(r)
        for i, x in enumerate(r.items(log)):
            a, b = r.items(x)
            o.eq(num(a), num(b), what='access %d' % i)


def worlds(ctx):
    """every element of a world is named, whatever it is"""
    at = lambda: ctx.at_cls('World', 'name_all_elements')
    what = ('joints', 'bodies', 'subframes', 'shapes', 'constraints', 'controllers')

    def world(ctx):
        t = c19.Tree(ctx)
        for n in c19.TRAV:
            t.r.I.contracts.pop(c19.CORE + '.Body.' + n, None)
        t.r.I.contracts.pop(c19.CORE + '.World.init', None)
        els = c19.rich(t)
        t.r.method(t.w, 'init')
        els['joints'] = [x[1] for x in els['links']]
        els['subframes'] = [s.v for s in c19.registries(t)[0]]
        t.r.source('spec20w', UNIQUE)
        return t, els
    for check in (None, False, True):
        with ctx.ob('every-element-is-named', at, 'unicity %s' % check) as o:
            t, els = world(ctx)
            r = t.r
            for k in what:
                for x in els[k]:
                    r.set(x, 'name', None)
                r.set(els[k][0], 'name', 'one of the ' + k)
            got = r.call(r.fn('spec20w', 'naming'), t.w, *([] if check is None else [check]))
            o.no_raise(r)
            o.eq(num(got), num(0), what='signal of duplicate names')
            for k in what:
                names = [r.get(x, 'name') for x in els[k]]
                o.require(names[0] == 'one of the ' + k, 'the name of one of the %s is changed' % k)
                o.require(all(n is not None for n in names), 'one of the %s is not named' % k)
                o.require(len(set(map(repr, names))) == len(names), 'two of the %s get the same name' % k)
    for k in what:
        with ctx.ob('every-element-is-named', at, 'namesakes among the ' + k) as o:
            for check in (None, False, True):
                t, els = world(ctx)
                r = t.r
                for x in els[k][-2:]:
                    r.set(x, 'name', 'a name')
                got = r.call(r.fn('spec20w', 'naming'), t.w, *([] if check is None else [check]))
                o.no_raise(r)
                o.eq(num(got), num(int(check is True)), what='signal of duplicate names')


def naming(o, t, kinds, check, gen):
    l = t('giving', t.list) if gen else t.list
    dup = t('naming', l, check)
    o.no_raise(t.r)
    o.require(t('some_unnamed', t.list) == 0 or t('some_unnamed', t.list) == S0, 'an object is still unnamed')
    for k, n, x in zip(kinds, t.names, t.xs):
        if k == 'N':
            o.require(t.r.get(x, 'name') is n, 'the name of an object is changed')
    o.eq(dup, t('duplicated', t.list) if check else num(0), what='signal of duplicate names')
    new = [x for k, x in zip(kinds, t.xs) if k == 'U']
    o.eq(t('duplicated', t.r.list(new)), num(0), what='equal names given to different objects')
    o.eq(t('code', t.list, t.list), num(123), what='the list given')


def words(kinds):
    return ', '.join({'N': 'named', 'U': 'unnamed', 'F': 'foreign'}[k] for k in kinds)
